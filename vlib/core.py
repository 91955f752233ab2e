"""Build the driver from the working tree, run cases against the real code, validate the records with TLC."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = min(8, os.cpu_count() or 8)
NOT_FOR_DRIVER = {'blk', 'cap', 'bal', 'cut', 'job', 'op', 'tag', 'given', 'supin', 'fe', 'fm', 'fn', 'arith', 'sym', 'wantexc', 'wantnull', 'text', 'want', 'ok0', 'wstat'}
ASAN = 'detect_leaks=0:symbolize=0:allocator_may_return_null=1:max_allocation_size_mb=2000:hard_rss_limit_mb=3000:detect_stack_use_after_return=0'

class CheckError(Exception):
    pass

def tmp_root():
    base = os.environ.get('VERIF_TMP') or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix='aggverif.', dir=base)

def build(variant, work):
    """compile the sources of the working tree; returns (driver path, None) or (None, compiler output)"""
    out = os.path.join(os.environ.get('VERIF_BUILD') or os.path.join(work, 'build'), variant)
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(['bash', os.path.join(VERIF, 'harness/build.sh'), variant, out], env=dict(os.environ, REPO=REPO),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise CheckError('driver build failed (%s)\n%s' % (variant, r.stdout[-3000:]))
    return os.path.join(out, 'aggdrv')

def case_line(k, c):
    f = ' '.join('%s=%s' % (a, ','.join(map(str, b)) if isinstance(b, list) else b) for a, b in c.items()
                 if a not in NOT_FOR_DRIVER and not (isinstance(b, list) and b and isinstance(b[0], list)))
    return '%d %s %s' % (k, c['op'], f)

def drive(exe, cases, work, tag, cpu=10):
    """run all cases (list of dicts) on NPROC driver processes; returns list of result dicts, in order"""
    shards = [list(range(s, len(cases), NPROC)) for s in range(NPROC)]
    env = dict(os.environ, ASAN_OPTIONS=ASAN, MALLOC_PERTURB_='165', OMP_NUM_THREADS='4', OMP_WAIT_POLICY='passive', TMPDIR=work)
    def one(s):
        if not shards[s]:
            return {}
        b = os.path.join(work, '%s.%d' % (tag, s))
        with open(b + '.cases', 'w') as f:
            for k in shards[s]:
                f.write(case_line(k, cases[k]) + '\n')
        open(b + '.log', 'w').close()
        subprocess.run([exe, b + '.cases', b + '.out', b + '.log', str(cpu)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)
        res = {}
        with open(b + '.out', errors='replace') as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                res[int(d['id'])] = d
        return res
    got = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(one, range(NPROC)):
            got.update(r)
    out = []
    for k in range(len(cases)):
        out.append(got.get(k, {'id': str(k), 'st': 'no result'}))
    return out

TLC_STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')

def tlc(module, cfg, work, env=None, workers=1, cont=False, mem='1500m', timeout=800, extra=()):
    """one TLC run; returns dict(rc, out, generated, distinct)"""
    d = tempfile.mkdtemp(prefix='tlc.', dir=work)
    cfgf = os.path.join(d, module + '.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss16m', '-Djava.io.tmpdir=' + d,
           '-cp', CP, '-Dtlc2.TLC.ide=verif', 'tlc2.TLC', '-nowarning', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', os.path.join(d, 'm'), '-config', cfgf]
    if cont:
        cmd.append('-continue')
    cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, cwd=SPEC)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or ''), 'timeout'
    m = TLC_STATS.findall(out)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    shutil.rmtree(d, ignore_errors=True)
    return dict(rc=rc, out=out, generated=gen, distinct=dis)

TRACE_CFG = '''SPECIFICATION Spec
INVARIANT %s
CHECK_DEADLOCK FALSE
ALIAS Alias
'''
FAILS = re.compile(r'/\\ rec = (\d+)(?:(?!/\\ rec = )[\s\S])*?/\\ why = "([^"]*)"')
FAILS1 = re.compile(r'rec \|-> (\d+), why \|-> "([^"]*)"|rec = (\d+)')

def validate(module, recs, work, tag, invs=('Conforms',), env=None, shards=None):
    """check every record against the trace module. returns dict(rejected={index: why}, generated, distinct)"""
    n = shards or max(1, min(NPROC, (len(recs) + 199) // 200))
    parts = [list(range(s, len(recs), n)) for s in range(n)]
    cfg = TRACE_CFG % '\nINVARIANT '.join(invs)
    def run(idx, name):
        f = os.path.join(work, '%s.%s.ndjson' % (tag, name))
        with open(f, 'w') as h:
            for k in idx:
                h.write(json.dumps(recs[k], separators=(',', ':')) + '\n')
        e = {'TRACE': f}
        e.update(env or {})
        r = tlc(module, cfg, work, env=e, cont=True)
        os.unlink(f)
        return r
    def judge(idx, name, depth=0):
        r = run(idx, name)
        out, bad = r['out'], {}
        for m in FAILS.finditer(out):
            bad[idx[int(m.group(1)) - 1]] = m.group(2)
        fatal = r['rc'] not in (0, 12) or 'Model checking completed' not in out
        if not fatal and ('is violated' in out) != bool(bad):
            fatal = True
        if fatal:
            if r['rc'] == 'timeout' or len(idx) == 0:
                raise CheckError('TLC %s: %s\n%s' % (module, r['rc'], out[-3000:]))
            if len(idx) == 1:
                # TLC cannot even evaluate the specification on this record
                if re.search(r'OutOfMemory|Could not find|Unknown operator|Semantic errors|Parsing or semantic|was not able to', out):
                    raise CheckError('TLC %s\n%s' % (module, out[-3000:]))
                msg = re.search(r'Error: ([^\n]*)', out)
                return {idx[0]: 'record cannot be evaluated: ' + (msg.group(1)[:200] if msg else str(r['rc']))}, r['generated'], r['distinct']
            if depth == 0 and re.search(r'Parsing or semantic|Could not find module|OutOfMemory|In evaluation, the identifier', out):
                raise CheckError('TLC %s\n%s' % (module, out[-3000:]))
            h = len(idx) // 2
            a = judge(idx[:h], name + 'a', depth + 1)
            b = judge(idx[h:], name + 'b', depth + 1) if len(a[0]) < 3 else ({}, 0, 0)
            a[0].update(b[0])
            return a[0], a[1] + b[1], a[2] + b[2]
        return bad, r['generated'], r['distinct']
    res = dict(rejected={}, generated=0, distinct=0)
    with cf.ThreadPoolExecutor(NPROC) as ex:
        for bad, g, d in ex.map(lambda s: judge(parts[s], str(s)), [s for s in range(n) if parts[s]]):
            res['rejected'].update(bad)
            res['generated'] += g
            res['distinct'] += d
    return res

# ---------------------------------------------------------------------------------------------- stage execution
PER_THREAD = ('sparsify', 'pipeline', 'stats')  # their results are stated per thread (the pipeline sparsifies)
SIMKEYS = ('acc', 'regions', 'phases', 'switches', 'sd')
def record(stage, c, o):
    if stage.slim:
        return {k: v for k, v in dict(c, **o).items() if k in stage.slim}
    r = {k: v for k, v in dict(c, **o).items() if k not in SIMKEYS}
    if stage.witness:
        r.update(stage.witness(c, o))
    return r

def check_stage(exe, variant, stage, cases, work, tag):
    """drive all cases, validate all records; confirm each rejection. -> dict(judged, rejected=[{case,record,why,variant,how}], ...)"""
    if variant == 'sim':
        cases = [c for c in cases if c.get('n', 0) <= 1300]                                   # simulated threads are slow
        cases = [dict(c, sd=7 * k + 1, nt=3 if c.get('n', 0) > 900 and c.get('nt', 1) > 1 else (2, 3, 4, 7, 16)[k % 5] if c.get('nt', 1) > 1 or stage.slim else c.get('nt', 3)) for k, c in enumerate(cases)]
    cases = [dict(c, nt2=c.get('nt', 1)) if 'nt2' in c and c['op'] in PER_THREAD else c for c in cases]
    cpu = 60 if variant == 'sim' else 10
    out = drive(exe, cases, work, tag, cpu)
    keep = [k for k in range(len(cases)) if not out[k].get('absent')]
    recs = [record(stage, cases[k], out[k]) for k in keep]
    v = validate(stage.module, recs, work, tag, stage.invs, stage.env, shards=min(NPROC, (len(recs) + 19) // 20) or 1 if stage.witness else None)
    res = dict(judged=len(recs), rejected=[], generated=v['generated'], distinct=v['distinct'], sample=None)
    if recs:
        m = min(range(len(recs)), key=lambda k: abs(len(json.dumps(recs[k])) - 400))
        res['sample'] = recs[m]
    if not v['rejected']:
        return res
    order = sorted(v['rejected'], key=lambda k: len(json.dumps(recs[k])))
    # one alone first (a fresh process), then in its original company
    firsts = {}
    for k in order:
        firsts.setdefault((recs[k]['op'], recs[k].get('a'), v['rejected'][k]), []).append(k)
    again = [k for ks in firsts.values() for k in ks[:6]]
    alone = drive_alone(exe, [cases[keep[k]] for k in again], work, tag + 'x')
    r2 = [record(stage, cases[keep[k]], o) for k, o in zip(again, alone)]
    v2 = validate(stage.module, r2, work, tag + 'x', stage.invs, stage.env)
    for x, k in enumerate(again):
        if x in v2['rejected']:
            res['rejected'].append(dict(case=cases[keep[k]], record=r2[x], why=v2['rejected'][x], variant=variant, how='single call in a fresh process', module=stage.module, env=stage.env))
    if not res['rejected']:
        # only in company: history dependence; repeat the whole batch, keep what is rejected again
        out = drive(exe, cases, work, tag + 'y', cpu)
        r3 = [record(stage, cases[keep[k]], out[keep[k]]) for k in again]
        v3 = validate(stage.module, r3, work, tag + 'y', stage.invs, stage.env)
        for x, k in enumerate(again):
            if x in v3['rejected']:
                res['rejected'].append(dict(case=cases[keep[k]], record=r3[x], why=v3['rejected'][x], variant=variant,
                                            how='in a process that made the preceding calls of the batch', module=stage.module, env=stage.env))
    if not res['rejected'] and variant in ('omp', 'sim'):
        # schedule dependent: try the rejected calls many more times
        for rep in range(8):
            many = again * 8
            tries = [dict(cases[keep[k]], sd=rep * 64 + x) if variant == 'sim' else cases[keep[k]] for x, k in enumerate(many)]
            out = drive(exe, tries, work, tag + 'z', cpu)
            r4 = [record(stage, c, o) for c, o in zip(tries, out)]
            v4 = validate(stage.module, r4, work, tag + 'z', stage.invs, stage.env)
            for x in v4['rejected']:
                res['rejected'].append(dict(case=tries[x], record=r4[x], why=v4['rejected'][x], variant=variant, how='repeated call with %s threads' % tries[x].get('nt'), module=stage.module, env=stage.env))
            if res['rejected']:
                break
        if not res['rejected']:
            for k in order[:3]:
                res['rejected'].append(dict(case=cases[keep[k]], record=recs[k], why=v['rejected'][k], variant=variant, how='observed once under threads', module=stage.module, env=stage.env))
    return res

def drive_alone(exe, cases, work, tag):
    env = dict(os.environ, ASAN_OPTIONS=ASAN, MALLOC_PERTURB_='165', OMP_NUM_THREADS='4', OMP_WAIT_POLICY='passive', TMPDIR=work)
    cpu = '60' if exe.endswith('sim/aggdrv') else '20'
    def one(k):
        b = os.path.join(work, '%s.a%d' % (tag, k))
        with open(b + '.cases', 'w') as f:
            f.write(case_line(0, cases[k]) + '\n')
        open(b + '.log', 'w').close()
        subprocess.run([exe, b + '.cases', b + '.out', b + '.log', cpu], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=work)
        try:
            with open(b + '.out', errors='replace') as f:
                return json.loads(f.readline())
        except (OSError, ValueError):
            return {'id': '0', 'st': 'no result'}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(one, range(len(cases))))

# ---------------------------------------------------------------------------------------------- known findings
def known(prop):
    r = []
    try:
        with open(os.path.join(VERIF, 'known-findings.json')) as f:
            for e in json.load(f):
                if isinstance(e, dict) and e.get('status') == 'open' and e['property'] == prop:
                    r.append(e)
    except OSError:
        pass
    return r

def match_known(entries, f):
    for e in entries:
        if all(f['case'].get(k) == v for k, v in e['case'].items()) and (not e.get('why') or e['why'] in f['why']):
            return e
    return None
