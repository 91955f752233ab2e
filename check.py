#!/usr/bin/env python3
"""check.py PROPERTY : decides one property on the working tree of /repo.  Exit 0 / exit 1 with a VIOLATION line."""
import collections, concurrent.futures as cf, json, os, random, shutil, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, suites
try:
    from vlib import models
except ImportError:
    models = None

def replay(prop, path, work):
    # the calls of a replay file once more, each in a process of its own
    with open(path) as f:
        vs = json.load(f)
    rc = 0
    for k, v in enumerate(vs):
        exe = core.build(v['variant'], work)
        st = [s for s in suites.PROPS[prop] if s.module == v['module'] and v['variant'] in s.variants and (s.slim or not v['record'].get('acc'))][0]
        r = core.record(st, v['case'], core.drive_alone(exe, [v['case']], work, 'r%d' % k)[0])
        why = core.validate(st.module, [r], work, 'r%d' % k, st.invs, st.env)['rejected'].get(0, 'conforms')
        print('%s (%s): %s' % (v['case']['op'], v['variant'], why))
        rc = rc or int(why != 'conforms')
    shutil.rmtree(work, ignore_errors=True)
    return rc

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in sys.argv
    t0 = time.time()
    work = core.tmp_root()
    if '--replay' in sys.argv:
        sys.exit(replay(prop, sys.argv[sys.argv.index('--replay') + 1], work))
    stages = suites.PROPS.get(prop, [])
    known = core.known(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', coverage={}, assumptions=[], wall_s=0, violations=0)
    st = dict(states=0, transitions=0, traces=0)
    per, samples, viol, hits = [], [], [], collections.OrderedDict()
    try:
        need = sorted({v for s in stages for v in s.variants})
        ex = cf.ThreadPoolExecutor(8)
        fut = {v: ex.submit(core.build, v, work) for v in need}
        mod = [ex.submit(m.run, work, tier, seed) for m in (models.MODELS.get(prop, []) if models else [])]
        for k, s in enumerate(stages):
            rng = random.Random('%s/%d/%d' % (prop, k, seed))
            cases = list(s.cases(rng, tier))
            for v in s.variants:
                try:
                    exe = fut[v].result()
                except core.CheckError as e:
                    if v != 'sim':
                        raise
                    print('note: no build with simulated threads: %s' % e, file=sys.stderr)   # other builds decide
                    continue
                r = core.check_stage(exe, v, s, cases, work, '%s.%d.%s' % (prop, k, v))
                st['states'] += r['distinct']
                st['transitions'] += r['generated']
                st['traces'] += r['judged'] - len(r['rejected'])
                per.append(dict(module=s.module, variant=v, calls=len(cases), records=r['judged'], states=r['distinct'], transitions=r['generated'],
                                rejected=len(r['rejected']), by_op=dict(collections.Counter(c['op'] + ('/' + str(c['a']) if 'a' in c else '') for c in cases))))
                if len(samples) < 6 and r['sample']:
                    samples.append(r['sample'])
                if verbose:
                    print(per[-1], round(time.time() - t0, 1), file=sys.stderr)
                bad = []
                for f in r['rejected']:
                    e = core.match_known(known, f)
                    if e:
                        hits[e['what']] = True
                    else:
                        bad.append(f)
                if bad:
                    viol += bad
                    break
            if viol:
                break
        for f in mod:
            m = f.result()
            st['states'] += m['distinct']
            st['transitions'] += m['generated']
            per.append(m)
            if verbose:
                print(m, file=sys.stderr)
    except core.CheckError as e:
        print('check error: %s' % e, file=sys.stderr)
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(2)
    rc = 0
    for w in hits:
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    if viol:
        d = os.path.join(core.VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (prop, tier))
        with open(path, 'w') as f:
            json.dump(viol[:5], f, indent=1)
        print('%s: %s' % (viol[0]['case'].get('op'), viol[0]['why']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    ev['coverage'] = dict(states=st['states'], transitions=st['transitions'], traces_validated_against_impl=st['traces'], samples=samples or [{'none': True}], stages=per)
    ev['assumptions'] = suites.ASSUME.get(prop, []) if hasattr(suites, 'ASSUME') else []
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = len(viol)
    os.makedirs(os.path.join(core.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(core.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print('%s %s: %d calls conform, %d states, %.1fs' % (prop, 'VIOLATED' if rc else 'holds', st['traces'], st['states'], ev['wall_s']))
    sys.exit(rc)

if __name__ == '__main__':
    main()
