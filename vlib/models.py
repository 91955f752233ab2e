"""Design models: the algorithms of the library as TLA+ state machines over all small inputs (and all interleavings), checked
by TLC against the same operators that judge the recorded calls; and behaviours of those models, replayed into the code."""
import json, re, tempfile, shutil
from . import core

class Model:
    """TLC run(s) of one module.  quick / thorough: lists of constant assignments; mutants: constant assignments that must fail."""
    def __init__(self, module, quick, thorough, invs, props=(), deadlock=False, mutants=(), view=''):
        self.module, self.quick, self.thorough, self.invs, self.props, self.deadlock, self.mutants, self.view = module, quick, thorough, invs, props, deadlock, mutants, view

    def cfg(self, consts):
        return ('SPECIFICATION Spec\n' + ''.join('CONSTANT %s = %s\n' % (k, json.dumps(v)) for k, v in consts.items())
                + ''.join('INVARIANT %s\n' % i for i in self.invs) + ''.join('PROPERTY %s\n' % p for p in self.props)
                + ('VIEW %s\n' % self.view if self.view else '') + 'CHECK_DEADLOCK %s\n' % ('TRUE' if self.deadlock else 'FALSE'))

    def run(self, work, tier, seed):
        runs, gen, dis = [], 0, 0
        for c in self.quick if tier == 'quick' else self.quick + [x for x in self.thorough if x not in self.quick]:
            r = core.tlc(self.module, self.cfg(c), work, workers=2 if tier == 'quick' else 4, mem='3g', timeout=300 if tier == 'quick' else 3000)
            if r['rc'] != 0 or 'No error has been found' not in r['out']:
                raise core.CheckError('design model %s %s: %s\n%s' % (self.module, c, r['rc'], r['out'][-3000:]))
            runs.append(dict(c, states=r['distinct'], transitions=r['generated']))
            gen += r['generated']
            dis += r['distinct']
        bad = []
        if tier != 'quick':
            for c in self.mutants:
                r = core.tlc(self.module, self.cfg(c), work, workers=4, mem='3g', timeout=600)
                if 'is violated' not in r['out'] and 'Deadlock reached' not in r['out'] and 'were violated' not in r['out']:
                    raise core.CheckError('design model %s accepts the seeded design error %s\n%s' % (self.module, c, r['out'][-2000:]))
                bad.append(c)
        return dict(model=self.module, invariants=list(self.invs) + list(self.props), runs=runs, seeded_errors_rejected=bad, distinct=dis, generated=gen)

HLEVEL = Model('MC_HLevel', [dict(N=3, MAXL=2, MAXW=2)], [dict(N=3, MAXL=3, MAXW=3)], ['Sound', 'Complete'])
PIPE = Model('MC_Pipeline', [dict(N=3, CAP=3, EMIT=0), dict(N=4, CAP=2, EMIT=0)], [dict(N=4, CAP=4, EMIT=0), dict(N=5, CAP=2, EMIT=0)],
             ['ScheduleOK', 'RunOK', 'PrefixOK', 'AllPeeled'])
PIPE3 = Model('MC_Pipeline', [dict(N=3, CAP=3, EMIT=0)], [dict(N=4, CAP=3, EMIT=0)], PIPE.invs)
PARCC = Model('MC_ParCC', [dict(N=3, T=2, MUT='')], [dict(N=4, T=2, MUT=''), dict(N=3, T=3, MUT='')], ['Inside', 'Stars', 'Right', 'Bounded'], ['Ends'], True,
              [dict(N=3, T=2, MUT='nochange'), dict(N=3, T=2, MUT='max'), dict(N=4, T=2, MUT='onejump')])
GROUPS = Model('MC_Groups', [dict(N=4, RULE='tree', CHUNK=0, EMIT=0, MUT=''), dict(N=4, RULE='tree', CHUNK=2, EMIT=0, MUT=''), dict(N=4, RULE='chain', CHUNK=0, EMIT=0, MUT='')],
               [dict(N=5, RULE='tree', CHUNK=0, EMIT=0, MUT=''), dict(N=5, RULE='tree', CHUNK=2, EMIT=0, MUT=''), dict(N=5, RULE='chain', CHUNK=0, EMIT=0, MUT='')], ['Sound', 'Complete', 'Progress', 'Strong'],
               mutants=[dict(N=4, RULE='tree', CHUNK=3, EMIT=0, MUT='early'), dict(N=4, RULE='tree', CHUNK=0, EMIT=0, MUT='greedy'), dict(N=4, RULE='chain', CHUNK=0, EMIT=0, MUT='lone')])
SPARSE = Model('MC_Sparsify', [dict(N=4, T=2, MUT='')], [dict(N=5, T=2, MUT=''), dict(N=4, T=3, MUT='')], ['Sound', 'Strong'], mutants=[dict(N=4, T=2, MUT='first')])
ETREE = Model('MC_ETree', [dict(N=4)], [dict(N=5)], ['Right', 'LinksUp'])

CSV = Model('MC_CSV', [dict(LEN=6, EMIT=0)], [dict(LEN=8, EMIT=0)], ['RightText', 'LagIsHeader', 'NeverBusyForNothing', 'OneWriter'], view='View')

DEMO = Model('MC_Demo', [dict(RUNS=3, TICKS=2, EVALS=2)], [dict(RUNS=5, TICKS=3, EVALS=2)], ['Alternate', 'Exactly', 'OneBuild', 'Middle', 'NotMoreMsgs'], ['Ends'])

RACES = Model('MC_Race', [dict(LEN=2, LOCS=2, T=2, MUT=''), dict(LEN=3, LOCS=2, T=2, MUT='')], [dict(LEN=2, LOCS=2, T=3, MUT=''), dict(LEN=4, LOCS=1, T=2, MUT='')], ['SeesTheSame', 'SameMemory'],
              mutants=[dict(LEN=2, LOCS=2, T=2, MUT='readadd'), dict(LEN=2, LOCS=2, T=2, MUT='writewrite')])
BALANCE = Model('MC_Balance', [dict(K=4, M=3, P=2, MUT=''), dict(K=4, M=2, P=3, MUT=''), dict(K=3, M=2, P=4, MUT='')], [dict(K=5, M=3, P=3, MUT=''), dict(K=6, M=2, P=2, MUT='')],
                ['Filled', 'PackedOK', 'ChunkedOK', 'Room'], ['Ends'], True,
                [dict(K=4, M=2, P=2, MUT='stale'), dict(K=4, M=3, P=2, MUT='light'), dict(K=4, M=3, P=3, MUT='late'), dict(K=4, M=3, P=3, MUT='noavg')])
AMD = Model('MC_Amd', [dict(N=4, MUT='')], [dict(N=5, MUT='')], ['Perm', 'Counts', 'NoFill'], ['Ends'], False,
            [dict(N=4, MUT='any'), dict(N=4, MUT='nomin'), dict(N=3, MUT='first')])
COARSEN = Model('MC_Coarsen', [dict(N=4, H=5, P=3, MUT='')], [dict(N=5, H=7, P=3, MUT='')], ['Ascend', 'AsAsked', 'AsMerged', 'Agree'], ['Ends'], False,
                [dict(N=3, H=4, P=2, MUT='greedy'), dict(N=3, H=4, P=2, MUT='lazy'), dict(N=3, H=4, P=2, MUT='top'), dict(N=3, H=4, P=2, MUT='stuck')])
RUNS = Model('MC_Runs', [dict(N=4, SP=2, TH=3, MUT=''), dict(N=4, SP=4, TH=9, MUT=''), dict(N=5, SP=2, TH=4, MUT='')], [dict(N=5, SP=1, TH=5, MUT=''), dict(N=5, SP=3, TH=7, MUT='')],
             ['Runs', 'Monotone', 'Merged', 'Enough'], ['Ends'], False, [dict(N=4, SP=2, TH=0, MUT='pool'), dict(N=5, SP=4, TH=0, MUT='list'), dict(N=4, SP=2, TH=9, MUT='last')])
MODELS = {
    'G08': [RUNS],
    'P03': [COARSEN],
    'A01': [AMD],
    'P02': [BALANCE], 'B01': [BALANCE], 'R02': [PARCC],
    'R01': [RACES],
    'D02': [DEMO],
    'D01': [CSV],
    'S01': [HLEVEL, PIPE], 'S02': [PIPE3], 'S03': [PIPE3], 'S04': [PIPE3], 'S05': [PIPE3, PARCC], 'P01': [PIPE3], 'X01': [PIPE3],
    'C01': [PARCC], 'G01': [GROUPS], 'G05': [SPARSE], 'G07': [GROUPS, SPARSE], 'E01': [ETREE], 'E02': [ETREE],
}

# ---------------------------------------------------------------------------------------------- behaviours of the design
BEH = re.compile(r'"BEH (\{.*\})"')
def _run(module, consts, invs, simulate=0, seed=1):
    work = tempfile.mkdtemp(prefix='beh.')
    m = Model(module, [], [], invs)
    extra = ('-simulate', 'num=%d' % simulate, '-depth', '100', '-seed', str(seed)) if simulate else ()
    r = core.tlc(module, m.cfg(consts), work, workers=1 if simulate else 4, mem='3g', timeout=300, extra=extra)
    shutil.rmtree(work, ignore_errors=True)
    if 'is violated' in r['out'] or not BEH.search(r['out']):
        raise core.CheckError('no behaviours of %s %s\n%s' % (module, consts, r['out'][-2000:]))
    out = [json.loads(b) for b in sorted({b.replace('\\"', '"') for b in BEH.findall(r['out'])})]
    return [(d['n'], [(u, v) for u, vs in enumerate(d['g']) for v in vs], d['s']) for d in out]

def histories(module, consts, invs, num, seed):
    return [s for _, _, s in _run(module, consts, invs, num, seed)]

def behaviours(n, cap, simulate=0, seed=1):
    """schedules reached by MC_Pipeline with n nodes and at most cap w-partitions per level: all of them, or a sample"""
    res = []
    for k, E, s in _run('MC_Pipeline', dict(N=n, CAP=cap, EMIT=1), ['ScheduleOK', 'Emit'], simulate, seed):
        pp, lp, np = [0], [0], []
        for lev in s:
            for w in lev:
                np += w
                pp.append(len(np))
            lp.append(len(pp) - 1)
        res.append((k, E, dict(lp=lp, pp=pp, np=np)))
    return res

def groupings(n, rule, chunk):
    """every grouping MC_Groups can end with, members ascending: (n, edges, gp, gs, gi)"""
    res = {}
    for k, E, s in _run('MC_Groups', dict(N=n, RULE=rule, CHUNK=chunk, EMIT=1, MUT=''), ['Sound', 'Emit']):
        gp, gs, gi = [0], [], [0] * k
        for q, g in enumerate(s):
            gs += sorted(g)
            gp.append(len(gs))
            for v in g:
                gi[v] = q
        res[repr((E, gp, gs))] = (k, E, gp, gs, gi)
    return [res[x] for x in sorted(res)]
