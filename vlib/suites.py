"""Stages: input generators bound to a trace specification.  A stage yields cases; every case is one call into the real
library; the trace specification says whether the recorded call is a behaviour of the TLA+ specification."""
import random
from . import cert, ext, gen, mats, mid, models

SEQ = ('plain', 'asan')
ALL = ('plain', 'asan', 'omp', 'sim')

class Stage:
    def __init__(self, module, cases, variants=SEQ, env=None, invs=('Conforms',), witness=None, slim=()):
        self.module, self.cases, self.variants, self.env, self.invs, self.witness, self.slim = module, cases, variants, env or {}, invs, witness, slim

def pick(tier, q, t):
    return q if tier == 'quick' else t

def graphs(rng, tier, small=4, mid=300, big=6, midn=(5, 40), bign=(60, 150), tmid=None, tsmall=None):
    """exhaustive DAGs up to `small` nodes, seeded structured ones above"""
    s = pick(tier, small, tsmall or small + (1 if small < 5 else 0))
    G = [g for n in range(1, s + 1) for g in gen.all_dags(n)]
    kinds = gen.KINDS[:]
    for k in range(pick(tier, mid, tmid or mid * 8)):
        n = rng.randint(*midn)
        G.append((n, gen.rnd_dag(rng, n, kinds[k % len(kinds)])))
    for k in range(pick(tier, big, big * 8)):
        n = rng.randint(*bign)
        G.append((n, gen.rnd_dag(rng, n, rng.choice([x for x in kinds if x not in ('dense', 'star', 'wide')]))))
    return G

def lbc_params(rng):
    ml = rng.choice([-1, 0, 0, 1, 1, 2, 3, 5])
    return dict(ip=rng.choice([1, 2, 2, 3, 4, 5, 8]), ml=ml, dr=rng.choice([1, 2, 2, 3, 4, 6]) if ml > -1 else rng.choice([2, 3, 4]))

def uneven(rng, n):
    return gen.costs(rng, n, rng.choice([1, 1, 2, 4, 0]))

def bal_cases(rng, tier):
    """packed coarse levels with uneven costs"""
    for n, E in graphs(rng, tier, mid=500, midn=(5, 40)):
        p, i = gen.csc(n, E)
        for op in ('lbc_csc', 'lbc_03', 'lbc_03p', 'hdagg', 'glc2', 'bcsc', 'tree'):
            for _ in range(1 if n <= 4 else 2):
                q = dict(lbc_params(rng), bp=1, cs=rng.choice([0, 0, 1, 3, 12, -31]))
                q['ip'] = q['co'] = rng.choice([2, 2, 3, 3, 4, 6])
                if op == 'bcsc':
                    b = gen.bcsc(n, E, rng)
                    yield dict(b, op='lbc_bcsc', cost=uneven(rng, b['nb']), cs=q['cs'], ip=q['ip'], ml=q['ml'], dr=max(2, q['dr']), bal='pack')
                elif op == 'tree':
                    t = gen.rnd_tree(rng, n)
                    yield dict(op='lbc_tree', t=t, cost=uneven(rng, n), cs=q['cs'], ip=q['ip'], ml=q['ml'], dr=max(2, q['dr']), bal='pack')
                else:
                    yield dict(q, op=op, n=n, p=p, i=i, cost=uneven(rng, n), th=rng.choice([-1, 1, 2, 3, 4]), pl=0, po=rng.randint(0, 1), nt=rng.randint(1, 5),
                               bal='chunk' if op in ('hdagg', 'glc2') else 'pack')

def even_chains(rng):
    """equal components: nothing that balances by cost has a reason to stop merging; sometimes with a disturbance"""
    k, h = rng.randint(1, 5), rng.randint(2, 6)
    E = [(l * k + c, (l + 1) * k + c) for l in range(h - 1) for c in range(k)]
    if rng.random() < .4:
        l = rng.randrange(h - 1)
        E = sorted(set(E) | {(l * k + rng.randrange(k), (l + 1) * k + rng.randrange(k))})
    cost = [rng.choice([1, 2, 7, 60, 250])] * (k * h)
    for _ in range(rng.choice([0, 0, 1, 3])):
        cost[rng.randrange(k * h)] += 1
    return k, k * h, E, cost

def cut_cases(rng, tier):
    """which wavefronts become one coarsened level"""
    for n, E in graphs(rng, tier, mid=400, midn=(5, 40)):
        p, i = gen.csc(n, E)
        if rng.random() < .2:
            p, i = gen.csc_any(n, E, rng)
        for op in ('lbc_csc', 'lbc_03', 'lbc_03p', 'hdagg', 'glc2', 'bcsc', 'tree'):
            for _ in range(1 if n <= 4 else 2):
                q = dict(lbc_params(rng), bp=rng.randint(0, 1), cs=rng.choice([0, 0, 1, 12, -31]))
                q['co'] = q['ip']
                pos = [max(1, x) for x in (uneven(rng, n) if rng.random() < .5 else [1] * n)]
                if op == 'bcsc':
                    b = gen.bcsc(n, E, rng)
                    yield dict(b, op='lbc_bcsc', cost=pos[:b['nb']], cs=q['cs'], ip=q['ip'], ml=q['ml'], dr=max(2, q['dr']), cut='thin')
                elif op == 'tree':
                    yield dict(op='lbc_tree', t=gen.rnd_tree(rng, n), cost=pos, cs=q['cs'], ip=q['ip'], ml=q['ml'], dr=max(2, q['dr']), cut='thin')
                else:
                    yield dict(q, op=op, n=n, p=p, i=i, cost=pos, th=rng.choice([-1, 1, 2, 3, 4]), pl=0, po=rng.randint(0, 1), nt=rng.randint(1, 5),
                               cut='load' if op in ('hdagg', 'glc2') else 'step')
    for _ in range(pick(tier, 500, 4000)):
        k, n, E, cost = even_chains(rng)
        p, i = gen.csc(n, E)
        for op in ('hdagg', 'glc2'):
            yield dict(op=op, n=n, p=p, i=i, cost=cost, bp=rng.randint(0, 1), co=rng.choice([1, k, k, k, max(1, k - 1), k + 1, 2 * k]), pl=0, po=rng.randint(0, 1), nt=rng.randint(1, 4), cs=rng.choice([0, 1, 12]), cut='load')
    yield from thick_cases(rng, tier)

def thick_cases(rng, tier):
    """dense enough for the parallel coarsened level to merge wavefronts (and, as a contrast, sparse ones)"""
    for k in range(pick(tier, 60, 400)):
        at = 100 if k % 16 == 0 else 10
        n, E = gen.thick_dag(rng, at * rng.choice([1.4, 1.4, 1.4, 2.5]) if at == 10 else 220)
        if (k % 4 != 1 or at == 100) and len(E) + n > at * n:                         # just below or just above the threshold
            E = sorted(rng.sample(E, at * n - n - rng.choice([0, 0, 1, n // 2])))
        p, i = gen.csc(n, E)
        co = rng.choice([1, 2, 3, 4, 8])
        yield dict(op='coarsepar', n=n, p=p, i=i, cost=[1] * n, co=co, nt=rng.randint(1, 5), ip=co, cut='density')

def sched_cases(ops, per_small=2, per_big=4, cap=False, **g):
    def f(rng, tier):
        for n, E in graphs(rng, tier, **g):
            p, i = gen.csc(n, E)
            if rng.random() < .2:
                p, i = gen.csc_any(n, E, rng)
            for op in ops:
                for _ in range(per_small if n <= 4 else (1 if n > 50 else per_big)):
                    c = dict(op=op, n=n, p=p, i=i, cost=gen.costs(rng, n), cs=rng.choice([0, 0, 1, 3, 12, -31]), bp=rng.randint(0, 1), th=rng.choice([-1, 1, 2, 3, 4]),
                             pl=0, po=rng.randint(0, 1), nt=rng.randint(1, 5), **lbc_params(rng))
                    c['co'] = c['ip']
                    if op == 'lbc_dagtree':
                        c['stype'] = rng.choice([-1, -1, 0, 1])
                        if c['stype'] == 1:
                            c['rp'], c['ri'] = gen.csr_of(n, E)
                    if cap:
                        c['bp'] = 1
                        if op in ('hdagg', 'glc2'):
                            c['cap'] = c['co']
                        else:
                            c['ip'] = max(2, c['ip'])
                            c['cap'] = c['ip']
                    yield c
    return f

def tree_cases(cap=False, levels=False):
    def f(rng, tier):
        T = [t for n in range(1, pick(tier, 6, 7)) for t in gen.all_trees(n)]
        T += [gen.rnd_tree(rng, rng.randint(6, 40)) for _ in range(pick(tier, 300, 3000))]
        T += [gen.rnd_tree(rng, rng.randint(60, 150)) for _ in range(pick(tier, 6, 60))]
        for t in T:
            if levels:
                for a in ('eff', 'naive'):
                    yield dict(op='tree_levels', t=t, a=a)
                continue
            for _ in range(2 if len(t) <= 5 else 5):
                c = dict(op='lbc_tree', t=t, cost=gen.costs(rng, len(t)), cs=rng.choice([0, 0, 1, 3, 12, -31]), ip=rng.choice([1, 2, 2, 3, 4, 6]), ml=rng.choice([-1, 0, 1, 2, 3]), dr=rng.choice([2, 2, 3, 4]))
                if cap:
                    c['ip'] = max(2, c['ip'])
                    c['cap'] = c['ip']
                yield c
    return f

def bcsc_cases(cap=False, levels=False):
    def f(rng, tier):
        for n, E in graphs(rng, tier, mid=300, midn=(5, 30), big=4, bign=(40, 80)):
            b = gen.bcsc(n, E, rng)
            if levels:
                yield dict(op='levels_bcsc', **b)
                continue
            for _ in range(1 if n <= 3 else 4):
                c = dict(b, op='lbc_bcsc', cost=gen.costs(rng, n), cs=rng.choice([0, 0, 1, 3, 12, -31]), ip=rng.choice([1, 2, 2, 3, 4]), ml=rng.choice([-1, 0, 1, 2, 3]), dr=rng.choice([2, 2, 3, 4]))
                if cap:
                    c['ip'] = max(2, c['ip'])
                    c['cap'] = c['ip']
                yield c
    return f

def level_cases(rng, tier):
    for n, E in graphs(rng, tier):
        forms = [gen.csc(n, E)]
        if n > 1:
            forms.append(gen.csc_any(n, gen.relabel(rng, n, E) if rng.random() < .7 else E, rng))
        for p, i in forms:
            for a in 'csc cscpre queue hd vec n2l'.split():
                yield dict(op='levels', n=n, p=p, i=i, a=a)

def multi_cases(rng, tier):
    for n, E in graphs(rng, tier, midn=(5, 25), big=2, bign=(40, 60)):
        p, i = gen.csc(n, E)
        for k in (1, 2, 3):
            yield dict(op='levels_multi', n=n, p=p, i=i, k=k)

def pipe_cases(want):
    def f(rng, tier):
        for n, E in graphs(rng, tier, mid=250, midn=(5, 30), big=4, bign=(40, 90)):
            yield from pipe_of(rng, n, E, want)
    return f

def pipe_of(rng, n, E, want):
    p, i = gen.csc(n, E)
    rp, ri = gen.csr_of(n, E)
    b = dict(n=n, p=p, i=i, nt=rng.randint(1, 5))
    r = dict(n=n, p=rp, i=ri, nt=b['nt'])
    if 'postorder' in want:
        yield dict(b, op='postorder')
    if 'grouping' in want:
        for a in 'tree bfs chain'.split():
            yield dict(b, op='grouping', a=a, lf=0)
            if a != 'chain':
                yield dict(b, op='grouping', a=a, lf=1)
    if 'pipeline' in want:
        for a in 'tree bfs chain'.split():
            for od in ('sort', 'post'):
                yield dict(b, op='pipeline', a=a, lf=rng.randint(0, 1), ord=od, co=rng.randint(1, 4), cl=rng.randint(0, 1),
                           sparse=rng.choice([1, 1, 0]), h=rng.choice(['hdagg', 'glc2']), bp=1)
    gp, gs, gi = gen.rgroup(rng, n)
    if 'groupdag' in want:
        yield dict(b, op='groupdag', gp=gp, gs=gs)
    if 'sparsify' in want:
        for cl in (0, 1):
            yield dict(b, op='sparsify', cl=cl)
    if 'ungroup' in want:
        s = gen.rsched(rng, len(gp) - 1)
        for od in ('sort', 'none'):
            yield dict(b, op='ungroup', gp=gp, gs=gs, ord=od, **s)
        yield dict(b, op='ungroup', gp=list(range(n + 1)), gs=list(range(n)), ord='post', **gen.topo_sched(rng, n, E))
        for sh in (False, True):
            yield dict(b, op='ungroup', gp=list(range(n + 1)), gs=list(range(n)), ord='post', **gen.coarse_sched(rng, n, E, sh))
    if 'finaldag' in want:
        yield dict(b, op='finaldag', **gen.rsched(rng, n))
    if 'cost' in want:
        for k in range(7):
            for g in (0, 1):
                yield dict(b, op='cost', rp=rp, ri=ri, gp=gp, gs=gs, g=g, k=k)
    if 'twod' in want:
        yield dict(r, op='twod', **gen.topo_sched(rng, n, E))
        yield dict(r, op='twod', **gen.coarse_sched(rng, n, E))
    if 'etree_hd' in want:
        yield dict(r, op='etree_hd')
    if 'runs' in want:
        for _ in range(2):
            yield dict(b, op='greedy', sp=rng.choice([1, 1, 2, 3, n]), th=rng.choice([0, 3, 4, 6, 7, 10, 16, 40, 9999]))
        for a in ('cn', 'sc'):
            yield dict(b, op='colgroup', a=a)
    if 'blocks' in want:
        yield from blocks_of(rng, n, E)
    if 'ginspect2' in want:
        for a in 'ic1 ic2 naive'.split():
            yield dict(b, op='ginspect2', a=a, b=rng.randint(1, 4))
        for a in 'tr1 tr2'.split():
            yield dict(r, op='ginspect2', a=a, rows=1)
        for a in 'row grow gdag'.split():
            yield dict(r, op='gdep2', a=a, gp=gp, gs=gs, gi=gi, rows=1)
        yield dict(b, op='gdep2', a='ic0', gp=gp, gs=gs, gi=gi)
    if 'ginspect' in want:
        for a in 'ic1 ic2 naive'.split():
            yield dict(b, op='ginspect', a=a, b=rng.randint(1, 4))
        for a in 'tr1 tr2'.split():
            yield dict(r, op='ginspect', a=a, rows=1)
    if 'gdep' in want:
        for a in 'row grow gdag'.split():
            yield dict(r, op='gdep', a=a, gp=gp, gs=gs, gi=gi, rows=1)
        yield dict(b, op='gdep', a='ic0', gp=gp, gs=gs, gi=gi)

def blocks_of(rng, n, E):
    """patterns with runs of equal columns: nodes of E blown up, then disturbed; both halves"""
    w = [rng.choice([1, 1, 2, 3, 4]) for _ in range(n)]
    st = [sum(w[:k]) for k in range(n + 1)]
    m = st[n]
    pos = {(r, c) for b in range(n) for c in range(st[b], st[b + 1]) for r in range(c, st[b + 1])}
    pos |= {(r, c) for u, v in E for c in range(st[u], st[u + 1]) for r in range(st[v], st[v + 1])}
    for _ in range(rng.choice([0, 0, 1, 2])):
        r, c = rng.randrange(m), rng.randrange(m)
        if r > c:
            pos ^= {(r, c)}
    for up in (0, 1):
        # the upper half is the mirror image through the other diagonal, so that its runs look from the right
        q = {(m - 1 - r, m - 1 - c) for r, c in pos} if up else pos
        p, i = gen.from_pos(m, q)
        for lim in rng.sample([0, 1, 2, 3, m], 2):
            yield dict(op='bsuper', n=m, p=p, i=i, up=up, lim=lim)

EX = {'EXEC': '5'}
LV = ('Conforms', 'SpecInv')
def sched(ops, variants=SEQ, **k):
    return Stage('T_sched', sched_cases(ops, **k), variants, EX)
def pipe(*want, variants=SEQ):
    return Stage('T_pipe', pipe_cases(want), variants)

def big_cases(*want, num=7, sizes=(300, 700, 1100, 2100, 2500)):
    """graphs of thousands of nodes, large parameters; judged by T_big"""
    def f(rng, tier):
        kinds = gen.BIGKINDS[:]
        rng.shuffle(kinds)
        for k in range(pick(tier, num * 3, num * 10)):
            n = rng.choice(sizes) + rng.randint(-60, 60)
            if 1000 < max(sizes) < 5000 and k % num == num - 1:
                n = rng.choice([4096 + rng.randint(1, 900), rng.randint(5000, 9000)])
            E = gen.big_dag(rng, n, kinds[k % len(kinds)])
            p, i = gen.csc(n, E)
            if rng.random() < .2:
                p, i = gen.csc_any(n, E, rng)
            b = dict(n=n, p=p, i=i, nt=rng.choice([rng.randint(1, 8), rng.randint(1, 8), rng.randint(9, 17)]))
            asc = dict(zip('pi', gen.csc(n, E)))
            par = dict(cost=gen.costs(rng, n), cs=rng.choice([0, 0, 1, 3, 12, -31]), bp=rng.randint(0, 1), th=rng.choice([-1, 1, 2, 3, 4, 5, 6, 7, 8]), pl=0, po=rng.randint(0, 1), ip=rng.choice([1, 2, 3, 4, 8, 16, 20, 40, 64]), dr=rng.choice([1, 2, 3, 5, 8, 20, 60]), ml=rng.choice([0, 1, 2, 4, 8, 30]))
            t = [-1] * n
            if 'tree' in want or 'tree_levels' in want:
                for u, v in (gen.big_dag(rng, n, rng.choice(['rtree', 'forest', 'tree', 'chain', 'chains']))):
                    t[u] = v
            for op in want:
                c = dict(b, **par)
                c['co'] = c['ip']
                if op in ('lbc_csc', 'lbc_03', 'lbc_03p', 'lbc_dagtree', 'coarsepar', 'hdagg', 'glc2'):
                    if op == 'lbc_dagtree':
                        c['stype'], c['dr'] = -1, max(2, c['dr'])
                    if k % 2 and op != 'coarsepar':
                        c['bp'], c['ip'], c['co'] = 1, max(2, c['ip']), max(2, c['ip'])
                        c['cap'] = c['ip']
                    yield dict(c, op=op)
                elif op == 'tree':
                    yield dict(op='lbc_tree', t=t, cost=c['cost'], ip=c['ip'], ml=c['ml'], dr=max(2, c['dr']))
                elif op == 'bcsc':
                    m = n // 3
                    q = gen.bcsc(m, gen.big_dag(rng, m, kinds[k % len(kinds)]), rng)
                    yield dict(q, op='lbc_bcsc', cost=gen.costs(rng, m), ip=c['ip'], ml=c['ml'], dr=max(2, c['dr']))
                    yield dict(q, op='levels_bcsc')
                elif op == 'levels':
                    for a in 'csc cscpre queue hd vec n2l'.split():
                        yield dict(b, op='levels', a=a)
                elif op == 'tree_levels':
                    for a in ('eff', 'naive') if n < 1000 else ('eff',):
                        yield dict(op='tree_levels', t=t, a=a)
                elif op == 'grouping':
                    for a in 'tree bfs chain'.split():
                        for lf in (0, 1):
                            yield dict(b, op='grouping', a=a, lf=lf, **asc)
                elif op == 'sparsify':
                    for cl in (0, 1):
                        yield dict(b, op='sparsify', cl=cl, **asc)
                elif op == 'groupdag':
                    gp, gs, _ = gen.rgroup(rng, n)
                    yield dict(b, op='groupdag', gp=gp, gs=gs, **asc)
                    s = gen.rsched(rng, len(gp) - 1)
                    yield dict(b, op='ungroup', gp=gp, gs=gs, ord='none', **dict(asc, **s))
                elif op == 'pipeline':
                    for a in 'tree bfs chain'.split():
                        yield dict(b, op='pipeline', a=a, lf=rng.randint(0, 1), ord=rng.choice(['sort', 'post']), co=rng.choice([2, 4, 8, 20]), cl=rng.randint(0, 1), sparse=rng.choice([1, 1, 0]), h=rng.choice(['hdagg', 'glc2']), bp=1, **asc)
                elif op == 'cc':
                    lev = gen.levels_of(n, E)
                    n2l = [0] * n
                    for x, l in enumerate(lev):
                        for v in l:
                            n2l[v] = x
                    lb = rng.randint(0, len(lev) - 1)
                    for lb, ub in ((0, len(lev)), (lb, rng.randint(lb + 1, len(lev)))):
                        nodes = [v for l in lev[lb:ub] for v in l]
                        q = dict(b, op='cc', n2l=n2l, nodes=nodes, lb=lb, ub=ub, th=rng.randint(1, 8))
                        yield dict(q, a='hd')
                        yield dict(q, a='lbc', cost=c['cost'])
                elif op == 'exec':
                    q = dict(mats.system(rng, n, E), ip=c['ip'], ml=c['ml'], dr=max(2, c['dr']), bp=c['bp'], po=c['po'], th=c['th'], nt=b['nt'])
                    for a in ('serial', 'lvl', 'lvl2', 'lvlseq'):
                        yield dict(q, a=a)
                    for a in ('lbc', 'lbcseq'):
                        yield dict(q, a=a, h=rng.choice(['csc', 'tree', '03', 'par', 'hdagg', 'glc2']), sort=rng.randint(0, 1))
                    for a in ('glvl', 'sgroup'):
                        yield dict(q, a=a, gk=rng.randint(0, 2), gb=rng.randint(1, 30))
    return f

def big(*want, variants=SEQ, **k):
    return Stage('T_big', big_cases(*want, **k), variants, {}, ('Conforms',), cert.witness)

def huge_cases(rng, tier):
    """more than 250000 nodes in one coarsened level: the parallel coarsener merges small partitions there"""
    n = 260000 + rng.randint(0, 3000)
    for E in ([(j, j + 50) for j in range(n - 50)], gen.big_dag(rng, n, 'forest'))[:pick(tier, 2, 2)]:
        p, i = gen.csc(n, E)
        for bp in (0, 1):
            c = dict(op='lbc_03p', n=n, p=p, i=i, ip=rng.choice([2, 8, 20]), ml=1, dr=rng.choice([2, 3]), th=rng.choice([-1, 2, 4]), bp=bp, nt=rng.randint(2, 4), cost=[1] * n)
            if bp:
                c['cap'] = c['ip']
            yield c

def replay_cases(want):
    """behaviours of the design models, generated by TLC, as inputs of the code that consumes schedules and groupings"""
    def f(rng, tier):
        S = models.behaviours(4, 3) + models.behaviours(6, 3, pick(tier, 300, 6000), rng.randrange(1 << 30))
        if tier == 'quick':
            S = [s for k, s in enumerate(S) if rng.random() < (.5 if len(s[2]["np"]) > 4 else .3)]
        A = models.groupings(4, 'tree', 0) + models.groupings(4, 'tree', 2) + models.groupings(4, 'chain', 0)
        if tier != 'quick':
            A += models.groupings(5, 'tree', 0) + models.groupings(5, 'chain', 0)
        for n, E, s in S if want in ('G06', 'G03', 'X01') else []:
            p, i = gen.csc(n, E)
            rp, ri = gen.csr_of(n, E)
            if want == 'G06':
                yield dict(op='twod', n=n, p=rp, i=ri, nt=1, **s)
                for od in ('sort', 'post', 'none'):
                    yield dict(op='ungroup', n=n, p=p, i=i, nt=1, gp=list(range(n + 1)), gs=list(range(n)), ord=od, **s)
            elif want == 'G03':
                yield dict(op='finaldag', n=n, p=p, i=i, nt=rng.randint(1, 4), **s)
            else:
                c = mats.system(rng, n, E)
                for a in ('lbc', 'lbcseq'):
                    yield dict(c, a=a, h='given', sort=0, **s)
                yield dict(c, a='glbc', h='given', gk=1, gb=1, **s)
        for n, E, gp, gs, gi in A:
            p, i = gen.csc(n, E)
            rp, ri = gen.csr_of(n, E)
            if want == 'G03':
                yield dict(op='groupdag', n=n, p=p, i=i, nt=rng.randint(1, 4), gp=gp, gs=gs)
            elif want == 'G02':
                for a in 'row grow gdag'.split():
                    yield dict(op='gdep', n=n, p=rp, i=ri, nt=1, a=a, gp=gp, gs=gs, gi=gi, rows=1)
                yield dict(op='gdep', n=n, p=p, i=i, nt=1, a='ic0', gp=gp, gs=gs, gi=gi)
            elif want == 'X01':
                c = mats.system(rng, n, E)
                for a in ('glvl', 'sgroup'):
                    yield dict(c, a=a, gk=3, gp=gp, gs=gs, gi=gi)
    return f

RACE = ('op', 'a', 'k', 'h', 'n', 'nt', 'sd', 'st', 'acc', 'regions', 'phases', 'switches')
def race_cases(source, most=1300, per=(2000, 9000), skip=()):
    # calls with parallel regions, for the runtime that schedules the threads itself
    def f(rng, tier):
        cs = [c for c in source(rng, tier) if c.get('n', 0) <= most and c['op'] not in skip]
        k = pick(tier, *per)
        if len(cs) > k:
            cs = rng.sample(cs, k)
        if tier == 'quick':
            return cs
        return [dict(c, rep=r) for c in cs for r in range(3)]
    return f
REP = ('op', 'a', 'k', 'h', 'n', 'nt', 'nt2', 'sd', 'st', 'one', 'two')
def rep(props, variants, per=(500, 5000), most=900):
    """calls of the other stages, each made twice"""
    def f(rng, tier):
        cs = []
        for q in props:
            for st in PROPS[q]:
                if st.module in ('T_race', 'T_rep'):
                    continue
                src = [c for c in st.cases(random.Random(rng.random()), 'quick') if c.get('n', 0) <= most]
                cs += rng.sample(src, min(len(src), pick(tier, *per)))
        rng.shuffle(cs)
        for c in cs:
            yield dict(c, nt2=rng.choice([1, 2, 3, 5, 7, 16]))
    return Stage('T_rep', f, variants, slim=REP)

def race(source, **k):
    return Stage('T_race', race_cases(source, **k), ('sim',), slim=RACE)

def job(source):
    """the same calls, asked whether the coarsening is as strong as it should be"""
    def f(rng, tier):
        for c in source(rng, tier):
            yield dict(c, job=1)
    return f

PROPS = {
    'L01': [Stage('T_levels', level_cases, SEQ, {}, LV), big('levels')],
    'L02': [Stage('T_levels', tree_cases(levels=True), SEQ, {}, LV), Stage('T_levels', bcsc_cases(levels=True), SEQ, {}, LV), Stage('T_levels', multi_cases, SEQ, {}, LV), big('tree_levels', 'bcsc')],
    'S01': [sched(['lbc_csc', 'lbc_03'], per_big=3), big('lbc_csc', 'lbc_03', num=12)],
    'S02': [Stage('T_sched', tree_cases(), SEQ, EX), sched(['lbc_dagtree']), big('tree', 'lbc_dagtree', num=12)],
    'S03': [Stage('T_sched', bcsc_cases(), SEQ, EX), big('bcsc', num=12)],
    'S04': [sched(['hdagg', 'glc2'], variants=ALL, per_big=2), big('hdagg', 'glc2', num=14, variants=ALL)],
    'S05': [sched(['lbc_03p', 'coarsepar'], variants=ALL, per_big=2), Stage('T_sched', thick_cases, ('plain', 'omp'), {'EXEC': '0'}), big('lbc_03p', 'coarsepar', num=14, variants=ALL), Stage('T_big', huge_cases, ('plain', 'omp'), {}, ('Conforms',), cert.witness)],
    'P01': [sched(['lbc_csc', 'lbc_03', 'lbc_03p', 'lbc_dagtree', 'hdagg', 'glc2'], cap=True, per_small=1, per_big=1), Stage('T_sched', tree_cases(cap=True), SEQ, EX), Stage('T_sched', bcsc_cases(cap=True), SEQ, EX), big('lbc_csc', 'lbc_03', 'lbc_03p', 'lbc_dagtree', 'hdagg', 'glc2', num=12)],
    'P03': [Stage('T_sched', cut_cases, ALL, {'EXEC': '0'})],
    'P02': [Stage('T_sched', bal_cases, ALL, {'EXEC': '0'})],
    'G01': [pipe('grouping', variants=ALL), big('grouping', variants=ALL), big('grouping', num=2, sizes=(20100, 21000))],
    'G02': [pipe('ginspect', 'gdep'), Stage('T_pipe', mid.pipe_mid('ginspect', 'gdep')), Stage('T_pipe', replay_cases('G02'), SEQ)],
    'G03': [pipe('groupdag', 'finaldag', variants=ALL), Stage('T_pipe', mid.pipe_mid('groupdag', 'finaldag'), ALL), Stage('T_pipe', replay_cases('G03'), SEQ), big('groupdag')],
    'G04': [pipe('pipeline', variants=ALL), big('pipeline', variants=ALL)],
    'G05': [pipe('sparsify', variants=ALL), big('sparsify', num=12, variants=ALL)],
    'G06': [pipe('ungroup', 'postorder', 'twod'), Stage('T_pipe', mid.pipe_mid('ungroup', 'postorder', 'twod')), Stage('T_pipe', replay_cases('G06'), SEQ), big('groupdag')],
    'G07': [Stage('T_pipe', job(pipe_cases(('grouping', 'sparsify'))), ALL), Stage('T_big', job(big_cases('grouping', 'sparsify', num=12)), ALL, {}, ('Conforms',), cert.witness),
            Stage('T_big', job(big_cases('grouping', num=3, sizes=(20100, 21000, 29500))), ALL, {}, ('Conforms',), cert.witness)],
    'G08': [pipe('runs', 'blocks', 'ginspect2'), Stage('T_pipe', mid.pipe_mid('runs', 'blocks', 'ginspect2'))],
    'E01': [pipe('etree_hd'), Stage('T_pipe', mid.pipe_mid('etree_hd'))],
    'K01': [pipe('cost', variants=ALL), Stage('T_pipe', mid.pipe_mid('cost'), ALL)],
    'M01': [Stage('T_mat', mats.conv_cases), Stage('T_mat', mid.conv_mid)],
    'M02': [Stage('T_mat', mats.sym_cases), Stage('T_mat', mid.sym_mid)],
    'M03': [Stage('T_mat', mats.merge_cases), Stage('T_mat', mats.fused_cases), Stage('T_levels', mats.levels_bn_cases, SEQ, {}, LV), Stage('T_mat', mid.merge_mid), Stage('T_mat', mid.fused_mid), Stage('T_levels', mid.levels_bn_mid, SEQ, {}, LV)],
    'M04': [Stage('T_mat', mats.blocked_cases), Stage('T_mat', mid.blocked_mid)],
    'E02': [Stage('T_mat', mats.etree_cases), Stage('T_mat', mats.lfactor_cases), Stage('T_mat', mid.etree_mid), Stage('T_mat', mid.lfactor_mid)],
    'T01': [Stage('T_mat', mats.tree_measures), Stage('T_mat', mats.split_cases), Stage('T_mat', mid.treem_mid), Stage('T_mat', mid.split_mid)],
    'N01': [Stage('T_mat', mats.metis_cases), Stage('T_mat', mid.metis_mid)],
    'W01': [Stage('T_part', mats.part_cases), Stage('T_part', mid.part_mid)],
    'C01': [Stage('T_part', mats.cc_cases, ALL), big('cc', num=12, variants=ALL)],
    'B01': [Stage('T_part', mats.bin_cases), Stage('T_part', mats.hpart_cases), Stage('T_part', mid.bin_mid)],
    'I01': [Stage('T_mat', mats.read_cases), Stage('T_mat', mats.write_cases), Stage('T_mat', mid.read_mid), Stage('T_mat', mid.write_mid)],
    'X01': [Stage('T_exec', mats.exec_cases, ALL), Stage('T_exec', replay_cases('X01'), ALL), big('exec', variants=ALL)],
    'R01': [race(sched_cases(['hdagg', 'glc2', 'lbc_03p', 'coarsepar'])), race(pipe_cases(('grouping', 'groupdag', 'finaldag', 'pipeline', 'sparsify', 'cost')), per=(4000, 16000)),
            race(mats.cc_cases), race(mats.exec_cases, per=(3000, 12000)), race(mats.stats_cases),
            race(big_cases('hdagg', 'glc2', 'lbc_03p', 'coarsepar', 'grouping', 'sparsify', 'groupdag', 'pipeline', 'cc', 'exec', num=8, sizes=(200, 400, 700)), per=(160, 900))],
    'R02': [rep(('L01', 'L02', 'S01', 'S02', 'S03', 'P02', 'G02', 'G06', 'G08', 'E01', 'M01', 'M02', 'M03', 'M04', 'E02', 'T01', 'N01', 'W01', 'B01', 'I01', 'U01'), ('plain',)),
            rep(('S04', 'S05', 'P02', 'G01', 'G03', 'G04', 'G05', 'K01', 'C01', 'X01'), ('plain', 'omp', 'sim'))],
    'D01': [Stage('T_csv', ext.csv_cases)],
    'D02': [Stage('T_demo', ext.demo_cases)],
    'A01': [Stage('T_amd', ext.amd_cases)],
    'I03': [Stage('T_mm', ext.mm_cases)],
    'I02': [Stage('T_text', ext.text_cases)],
    'U01': [Stage('T_exec', mats.util_cases), Stage('T_exec', mid.util_mid), Stage('T_exec', mats.stats_cases, ALL)],
}
