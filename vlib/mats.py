"""Inputs for the matrix, tree, factor, merge and text-IO stages."""
from . import gen

def entries(rng, m, n, kind=None):
    """a random set of positions of an m x n matrix"""
    k = kind or rng.choice(['sparse', 'mid', 'dense', 'diag', 'rows', 'cols', 'none', 'band'])
    if k == 'none':
        return set()
    if k == 'diag':
        return {(j, j) for j in range(min(m, n))}
    if k == 'rows':
        rs = [r for r in range(m) if rng.random() < .4]
        return {(r, c) for r in rs for c in range(n) if rng.random() < .7}
    if k == 'cols':
        cs = [c for c in range(n) if rng.random() < .4]
        return {(r, c) for r in range(m) for c in cs if rng.random() < .7}
    if k == 'band':
        return {(r, c) for r in range(m) for c in range(n) if abs(r - c) <= 1 and rng.random() < .8}
    d = {'sparse': 1.5 / max(2, n), 'mid': 3.0 / max(3, n), 'dense': .6}[k]
    return {(r, c) for r in range(m) for c in range(n) if rng.random() < d}

def pack(pos, nm, major=1, shuffle=None):
    """positions -> (p, i) with `major` (1: column, 0: row) major"""
    L = [[] for _ in range(nm)]
    for e in sorted(pos):
        L[e[major]].append(e[1 - major])
    p, i = [0], []
    for l in L:
        if shuffle:
            shuffle.shuffle(l)
        i += l
        p.append(len(i))
    return p, i

WIDE = [499999999, -499999999, 300000001, 99999999, 33554433, 65537, -131071, 257, 1023]    # recorded times four, below 2^31

def vals(rng, k, zero=True):
    """real values are given as twice the value"""
    return [rng.choice([0, 1, -1, 2, 3, -4, 5, 7] if zero else [1, -1, 2, 3, -4, 5, 7]) for _ in range(k)]

def mat(rng, m, n, pos, major=1, num=True, shuffle=False, zero=True, wide=True):
    p, i = pack(pos, n if major else m, major, rng if shuffle else None)
    d = dict(m=m, n=n, p=p, i=i)
    if num:
        d['x'] = [rng.choice(WIDE + [1, 3, -4]) for _ in i] if wide and rng.random() < .25 else vals(rng, len(i), zero)
    return d

def all_pos(m, n):
    cells = [(r, c) for r in range(m) for c in range(n)]
    for b in range(1 << len(cells)):
        yield {cells[k] for k in range(len(cells)) if b >> k & 1}

def rects(rng, tier, q, t):
    small = [(m, n, e) for m in range(1, 4) for n in range(1, 4) if m * n <= (6 if tier == 'quick' else 9) for e in all_pos(m, n)]
    if tier == 'quick':
        rng.shuffle(small)
        small = small[:q]
    for s in small:
        yield s
    for _ in range(q if tier == 'quick' else t):
        m, n = rng.randint(1, 14), rng.randint(1, 14)
        yield m, n, entries(rng, m, n)
    for _ in range(4 if tier == 'quick' else 40):
        m, n = rng.randint(30, 60), rng.randint(30, 60)
        yield m, n, entries(rng, m, n, rng.choice(['sparse', 'mid', 'band']))

def conv_of(rng, m, n, e):
    num = rng.random() < .7
    sh = rng.random() < .5
    A = dict(mat(rng, m, n, e, 1, num, sh), stype=0)
    F = dict(mat(rng, m, n, e, 1, True, sh), stype=0)
    B = dict(mat(rng, m, n, e, 0, True, sh), stype=0)
    yield dict(A, op='mat', a='csc2csr')
    yield dict(F, op='mat', a='csc2csra')
    yield dict(B, op='mat', a='csr2csca')
    yield dict(B, op='mat', a='csr2csc')
    yield dict(A, op='mat', a='transpose')
    yield dict(F, op='mat', a='dense')
    yield dict(F, op='mat', a='todense')
    yield dict(A, op='mat', a='onebased')
    yield dict(dict(A, stype=rng.choice([0, -1, 1])), op='mat', a='copy')
    yield dict(F, op='mat', a='copyfrom')
    yield dict(B, op='mat', a='copyfromr')
    # queries: a column that lists its diagonal for the diagonal ones
    d = {(j, j) for j in range(n)}
    yield dict(mat(rng, n, n, {x for x in e if x[0] < n} | d, 1, False, sh), op='mat', a='facts', stype=0, diagok=1)
    yield dict(A, op='mat', a='facts', diagok=0)

def conv_cases(rng, tier):
    for m, n, e in rects(rng, tier, 150, 2000):
        yield from conv_of(rng, m, n, e)
    for n in range(1, 12):
        yield dict(op='mat', a='tridiag', n=n, a0=rng.randint(-3, 3), a1=rng.randint(1, 5), a2=rng.randint(-3, 3))
        yield dict(op='mat', a='diag', n=n, a1=rng.randint(1, 5))
    for _ in range(40):
        n = rng.randint(1, 30)
        q = list(range(n))
        rng.shuffle(q)
        yield dict(op='perm', perm=q, arr=vals(rng, n))
        x, y = vals(rng, n), vals(rng, n)
        a = rng.randint(0, n)
        yield dict(op='vecs', x=x, y=y, lb=a, ub=rng.randint(a, n))

def half(e, upper):
    return {(min(a, b), max(a, b)) if upper else (max(a, b), min(a, b)) for a, b in e}

def squares(rng, tier):
    small = [(n, e) for n in range(1, 4) for e in all_pos(n, n)]
    if tier == 'quick':
        small = [s for s in small if s[0] < 3] + rng.sample([s for s in small if s[0] == 3], 120)
    for s in small:
        yield s
    for _ in range(200 if tier == 'quick' else 2500):
        n = rng.randint(1, 14)
        yield n, entries(rng, n, n)
    for _ in range(4 if tier == 'quick' else 40):
        n = rng.randint(30, 50)
        yield n, entries(rng, n, n, rng.choice(['sparse', 'mid', 'band']))

def sym_of(rng, n, e):
    num = rng.random() < .75
    sh = rng.random() < .4
    A = dict(mat(rng, n, n, e, 1, num, sh), stype=0)
    yield dict(A, op='mat', a='halfl')
    yield dict(A, op='mat', a='halfu')
    for up in (0, 1):
        h = half(e, up)
        H = dict(mat(rng, n, n, h, 1, num, sh), stype=1 if up else -1)
        Hs = dict(mat(rng, n, n, h, 1, num, False), stype=1 if up else -1)
        yield dict(Hs, op='mat', a='full')
        yield dict(H, op='mat', a='tsym')
        q = list(range(n))
        rng.shuffle(q)
        yield dict(H, op='mat', a='tsym', perm=q)
        if rng.random() < .2:
            b = q[:]
            b[rng.randrange(n)] = rng.choice([-1, n, n + 1, b[0]])
            yield dict(H, op='mat', a='tsym', perm=b)
        yield dict(H, op='mat', a='msyml')
        yield dict(H, op='mat', a='msymu')
        Hd = dict(mat(rng, n, n, h, 1, True, False), stype=1 if up else -1)
        yield dict(Hd, op='mat', a='dense')
    yield dict(mat(rng, n, n, e, 1, num, sh), stype=0, op='mat', a='msyml')
    yield dict(mat(rng, n, n, e, 1, num, sh), stype=0, op='mat', a='msymu')
    for k in (1, 2, 3, n):
        yield dict(mat(rng, n, n, e, 1, False, sh), stype=rng.choice([-1, 0]), op='mat', a='coarsen', k=k)

def sym_cases(rng, tier):
    for n, e in squares(rng, tier):
        yield from sym_of(rng, n, e)

# ---- merged graphs, fused block graphs, blocked format ----
def merge_cases(rng, tier):
    G = [(n, [e]) for n in range(1, 4) for _, e in gen.all_dags(n)]
    G = [(n, es * k) for n, es in G for k in (1, 2, 3)]
    for _ in range(150 if tier == 'quick' else 1500):
        n = rng.randint(1, 12)
        G.append((n, [gen.rnd_dag(rng, n) for _ in range(rng.randint(1, 4))]))
    for n, es in G:
        yield from merge_of(rng, n, es)
    for n, e in [(n, e) for n in range(1, 5) for _, e in gen.all_dags(n)] + [(n, gen.rnd_dag(rng, n)) for n in [rng.randint(5, 30) for _ in range(100 if tier == 'quick' else 1000)]]:
        if n > 4 and rng.random() < .5:
            e = gen.relabel(rng, n, e)
        p, i = gen.csc_any(n, e, rng)
        yield dict(op='depth', m=n, n=n, p=p, i=i)

def merge_of(rng, n, es):
    k = len(es)
    c = dict(op='merge', n=n, k=k, gp=[], gi=[])
    for g, e in enumerate(es):
        p, i = gen.csc_any(n, e, rng) if rng.random() < .3 else gen.csc(n, e)
        c['p%d' % g], c['i%d' % g] = p, i
        c['gp'].append(p)
        c['gi'].append(i)
    yield dict(c, a='arr')
    yield dict(c, a='csc')
    c['dgp'], c['dgi'] = [], []
    for g in range(k - 1):
        p, i = pack(entries(rng, n, n), n)
        c['dp%d' % g], c['di%d' % g] = p, i
        c['dgp'].append(p)
        c['dgi'].append(i)
    yield dict(c, a='dags')

def blocky(rng, nb, E, wmax=3, upper=False):
    """a triangular matrix whose columns share their block's pattern: (n, sup, positions, block successors)"""
    w = [rng.randint(1, wmax) for _ in range(nb)]
    st = [0]
    for x in w:
        st.append(st[-1] + x)
    pos, blk = set(), [[b] for b in range(nb)]
    for b in range(nb):
        tail = set()
        for j, t in E:
            if j == b:
                rs = list(range(st[t], st[t + 1]))
                tail |= set(rng.sample(rs, rng.randint(1, len(rs))))
                blk[b].append(t)
        for c in range(st[b], st[b + 1]):
            pos |= {(r, c) for r in range(c, st[b + 1])} | {(r, c) for r in tail}
    return st[-1], st, pos, blk

def block_dags(rng, tier, q=150, t=1500, top=12):
    for n in range(1, 4):
        for _, e in gen.all_dags(n):
            yield n, e
    for _ in range(q if tier == 'quick' else t):
        n = rng.randint(1, top)
        yield n, gen.rnd_dag(rng, n)

def blocked_cases(rng, tier):
    for nb, E in block_dags(rng, tier):
        yield from blocked_of(rng, nb, E)

def blocked_of(rng, nb, E):
    n, sup, pos, blk = blocky(rng, nb, E)
    A = dict(mat(rng, n, n, pos), op='bcscm', stype=-1, comp=1)
    yield dict(A, supin=0)
    yield dict(A, supin=1, sup=sup, given=sup)
    # blocks that are not supernodes: padding
    e = half(entries(rng, n, n), 0) | {(j, j) for j in range(n)}
    B = dict(mat(rng, n, n, e), op='bcscm', stype=-1, comp=1)
    yield dict(B, supin=0)
    g = gen.blocks(rng, n)
    yield dict(B, supin=1, sup=g, given=g)

def fused_cases(rng, tier):
    for nb, E in block_dags(rng, tier, 200, 2000):
        yield from fused_of(rng, nb, E)

def fused_of(rng, nb, E):
    n, sup, pa, _ = blocky(rng, nb, E)
    w = [sup[b + 1] - sup[b] for b in range(nb)]
    def again():
        F = gen.rnd_dag(rng, nb) if rng.random() < .6 else E
        q = set()
        for b in range(nb):
            tail = set()
            for j, t in F:
                if j == b:
                    rs = list(range(sup[t], sup[t + 1]))
                    tail |= set(rng.sample(rs, rng.randint(1, len(rs))))
            for c in range(sup[b], sup[b + 1]):
                q |= {(r, c) for r in range(c, sup[b + 1])} | {(r, c) for r in tail}
        return q
    pc = again()
    pb = entries(rng, n, n)
    pd = pb | {(j, j) for j in range(n)}
    for a, b in (('graph', pb), ('levels', pd)):
        c = dict(op='fuse3', a=a, sup=sup)
        for s, q in (('a', pa), ('b', b), ('c', pc)):
            p, i = pack(q, n)
            c.update({'m' + s: n, 'n' + s: n, 'p' + s: p, 'i' + s: i, 'x' + s: vals(rng, len(i))})
        yield c

def levels_bn_cases(rng, tier):
    for nb, E in block_dags(rng, tier, 200, 2000, 20):
        yield from levels_bn_of(rng, nb, E)

def levels_bn_of(rng, nb, E):
    n, sup, pos, blk = blocky(rng, nb, E)
    p, i = pack(pos, n)
    for k in (1, 2, 3):
        yield dict(op='levels_bn', m=n, n=n, p=p, i=i, sup=sup, k=k, lower=1, blk=blk, nb=nb, s2n=1)
    # mirrored: an upper triangular matrix, blocks listed from the last one down
    up = {(n - 1 - r, n - 1 - c) for r, c in pos}
    p, i = pack(up, n)
    for k in (1, 2):
        yield dict(op='levels_bn', m=n, n=n, p=p, i=i, sup=[n - 1 - s for s in sup], k=k, lower=0, blk=blk, nb=nb)

# ---- elimination trees, symbolic factors, trees ----
def sym_patterns(rng, tier, small=4, q=150, t=1500, top=20):
    for n in range(1, small + 1):
        prs = [(j, i) for j in range(n) for i in range(j + 1, n)]
        for b in range(1 << len(prs)):
            yield n, {prs[k] for k in range(len(prs)) if b >> k & 1}
    for _ in range(q if tier == 'quick' else t):
        n = rng.randint(5, top)
        yield n, set(gen.rnd_dag(rng, n))
    for _ in range(3 if tier == 'quick' else 30):
        n = rng.randint(30, 45)
        yield n, set(gen.rnd_dag(rng, n, rng.choice(['sparse', 'tree', 'band', 'grid', 'rtree', 'forest'])))

def etree_of(rng, n, e):
    d = {(j, j) for j in range(n)}
    up = {(min(a, b), max(a, b)) for a, b in e}
    pu, iu = pack(up | d, n)
    pl, il = pack({(b, a) for a, b in up} | d, n)
    p, i = pack(up | d, n, 1, rng)
    yield dict(op='etree', m=n, n=n, p=p, i=i, stype=1)
    if rng.random() < .1:
        yield dict(op='etree', m=n, n=n, p=pl, i=il, stype=-1)
    yield dict(op='factor', mu=n, nu=n, pu=pu, iu=iu, ml=n, nl=n, pl=pl, il=il)

def etree_cases(rng, tier):
    for n, e in sym_patterns(rng, tier):
        yield from etree_of(rng, n, e)
    for m, n, e in rects(rng, tier, 120, 1500):
        if len(e) > 150:
            continue
        p, i = pack(e, n, 1, rng)
        yield dict(op='etree', m=m, n=n, p=p, i=i, stype=0)

def lfactor_cases(rng, tier):
    for n, e in sym_patterns(rng, tier, 4, 120, 1200, 16):
        yield from lfactor_of(rng, n, e)

def lfactor_of(rng, n, e):
    p, i = pack({(max(a, b), min(a, b)) for a, b in e} | {(j, j) for j in range(n)}, n)
    yield dict(op='lfactor', m=n, n=n, p=p, i=i, x=vals(rng, len(i)), stype=-1)

def trees(rng, tier):
    for n in range(1, 6 if tier == 'quick' else 7):
        yield from gen.all_trees(n)
    for _ in range(150 if tier == 'quick' else 2000):
        yield gen.rnd_tree(rng, rng.randint(6, 30))
    for _ in range(4 if tier == 'quick' else 40):
        yield gen.rnd_tree(rng, rng.randint(40, 80))

def tree_measures(rng, tier):
    for t in trees(rng, tier):
        yield dict(op='treem', t=t, w=gen.costs(rng, len(t)))

def split_cases(rng, tier):
    for t in trees(rng, tier):
        yield from split_of(rng, t)

def split_of(rng, t):
    n = len(t)
    h = [0] * n
    for v in range(n):
        if t[v] >= 0:
            h[t[v]] = max(h[t[v]], h[v] + 1)
    for _ in range(2 if n < 5 else 3):
        lb = rng.randint(0, max(h))
        ub = rng.randint(lb + 1, max(h) + 1)
        keep = [lb <= h[v] < ub for v in range(n)]
        s = [(t[v] if t[v] >= 0 and keep[t[v]] else -1) if keep[v] else -2 for v in range(n)]
        yield dict(op='posplit', t=s, w=gen.costs(rng, n), np=rng.randint(1, 4) if n < 100 else rng.choice([1, 2, 8, 30]))

def metis_cases(rng, tier):
    for n, e in sym_patterns(rng, tier, 3, 150, 1500, 25):
        yield from metis_of(rng, n, e, rng.randint(2, max(2, min(4, n // 2))))

def metis_of(rng, n, e, k):
    lo = {(max(a, b), min(a, b)) for a, b in e} | {(j, j) for j in range(n)}
    pl, il = pack(lo, n)
    pf, jf = pack(lo | {(b, a) for a, b in lo}, n)
    L = dict(op='metis', m=n, n=n, p=pl, i=il, x=vals(rng, len(il)), stype=-1)
    F = dict(op='metis', m=n, n=n, p=pf, i=jf, x=vals(rng, len(jf)), stype=0)
    yield dict(L, a='perms')
    yield dict(F, a='permg')
    yield dict(L, a='parts', k=k)
    yield dict(F, a='partg', k=k)
    yield dict(F, a='partc', k=k, cs=rng.choice([1, 2, 3]))
    yield dict(F, a='whole', k=k)
    yield dict({q: v for q, v in L.items() if q != 'x'}, a='whole', k=k)
    yield dict(L, a='partc', k=k, cs=rng.choice([1, 2, 3]))

# ---- Matrix Market text ----
def num(rng, v4, integer):
    """v4 = four times the value"""
    if integer:
        return str(v4 // 4)
    v = v4 / 4
    if abs(v4) >= 2 ** 24:
        return repr(v)
    return rng.choice(['%g', '%.3f', '%.17g', '%e', '%.2E', '%+g'] if abs(v) < 100 else ['%.2f', '%.17g', '%.12e']) % v

def mtx_text(rng, m, n, trip, arith, sym, old):
    banner = ['%%MatrixMarket', 'matrix', 'coordinate', arith, sym]
    if rng.random() < .3:
        banner = banner[:1] + [rng.choice([w, w.upper(), w.capitalize()]) for w in banner[1:]]
    if not old and rng.random() < .2:
        banner[0] = banner[0].lower()
    L = [' '.join(banner)]
    for _ in range(rng.choice([0, 0, 1, 3])):
        L.append('%' + rng.choice(['', ' a comment', ' 1 2 3', '%%', ' ' + 'x' * 70]))
    L.append(rng.choice(['%d %d %d', '%d  %d   %d', ' %d %d %d', '%d\t%d %d']) % (m, n, len(trip)))
    for r, c, v in trip:
        s = rng.choice(['%d %d', '%d  %d', ' %d %d', '%d\t%d']) % (r, c)
        L.append(s if arith == 'pattern' else s + ' ' + num(rng, v, arith == 'integer'))
    return '\n'.join(L) + ('\n' if rng.random() < .8 else '')

def hexs(s):
    return s.encode().hex()

def read_of(rng, m, n, e):
    sym = 'general'
    if m == n and rng.random() < .5:
        sym, e = 'symmetric', half(e, 0)
    arith = rng.choice(['real', 'real', 'integer', 'pattern'])
    E = sorted(e, key=lambda x: (x[1], x[0]))
    if rng.random() < .5:
        rng.shuffle(E)
    elif rng.random() < .4:
        E.sort()
    tr = [[r + 1, c + 1, 4 if arith == 'pattern' else rng.choice([0, 4, -4, 8, 12, 49380, -16, 493604, 1999999996, -1073741828] if arith == 'integer' else [0, 2, -2, 1, 3, 4, 6, -14, 4938, 493602, 493601, 1999999999, -1073741823])] for r, c in E]
    base = dict(op='readmtx', fe=tr, fm=m, fn=n, arith=arith, sym=sym, wantexc='', wantnull=0)
    yield dict(base, a='old', hex=hexs(mtx_text(rng, m, n, tr, arith, sym, 1)))
    yield dict(base, a='new', ins=0, hex=hexs(mtx_text(rng, m, n, tr, arith, sym, 0)))
    if m == n:
        yield dict(base, a='new', ins=1, hex=hexs(mtx_text(rng, m, n, tr, arith, sym, 0)))
    if tr and rng.random() < .3:
        t = mtx_text(rng, m, n, tr, arith, sym, 1).rstrip('\n').split('\n')
        yield dict(base, a='old', wantnull=1, hex=hexs('\n'.join(t[:-rng.randint(1, len(tr))]) + '\n'))

def read_cases(rng, tier):
    for m, n, e in rects(rng, tier, 220, 2500):
        yield from read_of(rng, m, n, e)
    ok = '%%MatrixMarket matrix coordinate real general'
    body = '\n2 2 1\n1 1 3\n'
    for b, x in ((ok, ''), (ok.replace('matrix coord', 'tensor coord'), 'header'), (ok.replace('%%M', '%M'), 'header'), ('', 'header'),
                 ('%%MatrixMarket matrix coordinate real', 'header'), (ok.replace('real', 'float'), 'header'), (ok.replace('coordinate', 'sparse'), 'header'),
                 (ok.replace('general', 'hermitian'), 'header'), (ok.replace('general', 'skew-symmetric'), 'header'), (ok.replace('real', 'complex'), 'arith'),
                 (ok.replace('coordinate', 'array'), 'format'), (ok.replace('coordinate', 'array').replace('real', 'complex'), 'arith')):
        yield dict(op='readmtx', a='new', ins=0, hex=hexs(b + body), fe=[[1, 1, 12]], fm=2, fn=2, arith='real', sym='general', wantexc=x)
    for b in (ok + '\n% only comments\n', ok + '\n2 2\n1 1 3\n', ok + '\n'):
        yield dict(op='readmtx', a='new', ins=0, hex=hexs(b), fe=[], fm=2, fn=2, arith='real', sym='general', wantexc='header')

def wide_vals(rng, k):
    return [rng.choice([0, 1, -1, 2, 7, 12345, -99999, 1000003, 40, 499999999, -300000001]) for _ in range(k)]

def write_of(rng, m, n, e):
    A = mat(rng, m, n, e, 1, True, rng.random() < .4)
    A['x'] = wide_vals(rng, len(A['i']))
    A['stype'] = 0
    for a in ('old', 'new', 'print'):
        yield dict(A, op='roundtrip', a=a)
    if m == n:
        yield dict(A, op='roundtrip', a='fd')
        H = mat(rng, n, n, half(e, 0), 1, True)
        H['x'] = wide_vals(rng, len(H['i']))
        H['stype'] = -1
        for a in ('print', 'fd'):
            yield dict(H, op='roundtrip', a=a)

def write_cases(rng, tier):
    for m, n, e in rects(rng, tier, 150, 1500):
        yield from write_of(rng, m, n, e)
    for nb, E in block_dags(rng, tier, 60, 600):
        yield from blkwrite_of(rng, nb, E)
    # dense arrays, constants, strings
    for _ in range(60 if tier == 'quick' else 400):
        m, n = rng.randint(1, 5), rng.randint(1, 5)
        yield dict(op='textio', a='array', m=m, n=n, x=wide_vals(rng, m * n))
        yield dict(op='textio', a='const', x=[rng.choice([0, 3, -8, 12345, 1000003, 499999999])])
        L = [rng.choice(['abc', 'x', 'two words', '1 2 3', 'a-b']) for _ in range(rng.randint(1, 5))]
        yield dict(op='textio', a='str', hex=hexs('\n'.join(L) + '\n'), text=[ord(ch) for ch in '\n'.join(L) + '\n'])

def blkwrite_of(rng, nb, E):
    n, sup, pos, blk = blocky(rng, nb, E)
    A = dict(mat(rng, n, n, pos), op='roundtrip', a='blk', stype=-1)
    A['x'] = wide_vals(rng, len(A['i']))
    yield A

# ---- partitioning building blocks ----
def dag_list(rng, tier, small=4, q=150, t=1500, top=25):
    for n in range(1, small + 1):
        for _, e in gen.all_dags(n):
            yield n, e
    for _ in range(q if tier == 'quick' else t):
        n = rng.randint(2, top)
        yield n, gen.rnd_dag(rng, n)

def weights(rng, n):
    return gen.costs(rng, n) if rng.random() < .7 else [rng.choice([0, 0, 5, 1]) for _ in range(n)]

def part_cases(rng, tier):
    for n, e in dag_list(rng, tier):
        for _ in range(1 if n < 5 else 2):
            yield from part_of(rng, n, e, rng.randint(1, 5))

def part_of(rng, n, e, k):
    w = weights(rng, n)
    s = list(range(n))
    if rng.random() < .6:
        rng.shuffle(s)
        s = s[:rng.randint(1, n)]
    c = dict(op='partw', set=s, w=w, np=k)
    yield c
    yield dict(c, cs=rng.choice([0, 0, 1, 3, -31]), tw=[rng.choice([0, 1, 2, 5, sum(w) // k, sum(w)]) for _ in range(k)])
    p, i = gen.csc_any(n, gen.relabel(rng, n, e) if rng.random() < .3 else e, rng)
    c = dict(op='partbfs', n=n, p=p, i=i, w=w, np=k)
    yield c
    yield dict(c, cs=rng.choice([0, 0, 1, 3, -31]), tw=[rng.choice([0, 1, 2, 5, sum(w) // k, sum(w)]) for _ in range(k)])

def cc_cases(rng, tier):
    for n, e in dag_list(rng, tier, 4, 250, 2500, 40):
        lev = gen.levels_of(n, e)
        n2l = [0] * n
        for k, l in enumerate(lev):
            for v in l:
                n2l[v] = k
        p, i = gen.csc_any(n, e, rng)
        for _ in range(1 if n < 4 else 2):
            lb = rng.randint(0, len(lev) - 1)
            ub = rng.randint(lb + 1, len(lev))
            if rng.random() < .4:
                lb, ub = 0, len(lev)
            nodes = [v for l in lev[lb:ub] for v in l]
            if rng.random() < .5:
                rng.shuffle(nodes)
            c = dict(op='cc', n=n, p=p, i=i, n2l=n2l, nodes=nodes, lb=lb, ub=ub, nt=rng.randint(1, 5), th=rng.randint(1, 5))
            yield dict(c, a='hd')
            yield dict(c, a='lbc', cost=gen.costs(rng, n), cs=rng.choice([0, 0, 1, 3, 12, -31]))
        yield dict(op='dfs_cc', n=n, p=p, i=i)

def bin_cases(rng, tier):
    for _ in range(600 if tier == 'quick' else 6000):
        k = rng.randint(1, 12)
        sz = [rng.choice([1, 1, 2, 3]) for _ in range(k)]
        if rng.random() < .1:
            sz[rng.randrange(k)] = 0
        nb = rng.randint(1, 6)
        yield dict(op='binpack', sz=sz, ic=gen.costs(rng, k), cs=rng.choice([0, 0, 1, 3, 12, -31]), nb=nb, th=rng.randint(0, 20))
        yield dict(op='mergeinner', sz=sz, ic=gen.costs(rng, k), th=rng.choice([1, 2, 5, rng.randint(1, 60)]))

def hpart_cases(rng, tier):
    for _ in range(800 if tier == 'quick' else 8000):
        L = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 40)])
        sizes = [rng.choice([1, 1, 2, 3, 5, 9, 20]) for _ in range(L)]
        if rng.random() < .5:
            sizes.sort(reverse=True)
        lp = [0]
        for s in sizes:
            lp.append(lp[-1] + s)
        c = dict(op='hpart', lp=lp, ip=rng.choice([1, 2, 3, 4, 8]))
        ml = rng.choice([-1, 0, 1, 2, 3, 5])
        yield dict(c, a='trng', ml=ml, dr=rng.choice([1, 2, 3, 4]) if ml >= 0 else rng.choice([2, 3, 4]))
        yield dict(c, a='tree', ml=ml, dr=rng.choice([2, 3, 4]))

# ---- executors, statistics, helpers ----
def system(rng, n, e):
    """a lower triangular system with small integer values and solution"""
    p, i = gen.csc(n, e)
    rp, ri = gen.csr_of(n, e)
    rx = vals(rng, len(ri))
    for v in range(n):
        rx[rp[v + 1] - 1] = rng.choice([1, -1, 2, 3, -5, 7])
    top = rng.choice([9, 9, min(4000000, 2 ** 30 // (7 * max(rp[v + 1] - rp[v] for v in range(n))))])
    x = [rng.randint(-top, top) for _ in range(n)]
    b = [sum(rx[q] * x[ri[q]] for q in range(rp[v], rp[v + 1])) for v in range(n)]
    return dict(op='exec', n=n, p=p, i=i, rp=rp, ri=ri, rx=rx, b=b, sol=x, nt=rng.randint(1, 5))

def exec_cases(rng, tier):
    for n, e in dag_list(rng, tier, 4, 150, 1500, 40):
        for _ in range(1 if n < 4 else 2):
            ml = rng.choice([0, 1, 2, 3])
            c = dict(system(rng, n, e), ip=rng.choice([1, 2, 3, 4]), ml=ml, dr=rng.choice([2, 3]), bp=rng.randint(0, 1), po=rng.randint(0, 1), th=rng.randint(1, 4))
            for a in ('serial', 'lvl', 'lvl2', 'lvlseq'):
                yield dict(c, a=a)
            for a in ('lbc', 'lbcseq'):
                yield dict(c, a=a, h=rng.choice(['csc', 'tree', '03', 'par', 'hdagg', 'glc2']), sort=rng.randint(0, 1))
            for a in ('glvl', 'sgroup'):
                yield dict(c, a=a, gk=rng.randint(0, 2), gb=rng.randint(1, 3))
            yield dict(c, a='glbc', h=rng.choice(['csc', '03', 'par', 'hdagg', 'glc2']), gk=rng.randint(0, 1), gb=rng.randint(1, 3))

def stats_cases(rng, tier):
    for n, e in dag_list(rng, tier, 3, 60, 600, 15):
        p, i = gen.csc(n, e)
        rp, ri = gen.csr_of(n, e)
        gp, gs, gi = gen.rgroup(rng, n)
        s = gen.topo_sched(rng, n, e)
        g = gen.rsched(rng, len(gp) - 1)
        L = len(s['lp'])
        while len(g['lp']) > L:
            g = gen.rsched(rng, len(gp) - 1)
        for a in ('row', 'ic0', 'lbc', 'glbc', 'glvl'):
            yield dict(op='stats', a=a, n=n, p=p, i=i, rp=rp, ri=ri, gp=gp, gs=gs, glp=g['lp'], gpp=g['pp'], gnp=g['np'], nt=1, **s)

def util_cases(rng, tier):
    for _ in range(100 if tier == 'quick' else 1000):
        yield from util_of(rng, rng.randint(0, 8))
    for s, w in (('a/b/c.mtx', 'c'), ('x.mtx', 'x'), ('plain', 'plain'), ('/abs/plain', 'plain'), ('a.b/c', 'c'), ('d/e.f.mtx', 'e.f'), ('/x.mtx', 'x')):
        yield dict(op='util', a='name', s=s, want=w)

def util_of(rng, n):
    big = n > 20
    x = [rng.randint(0, 2) for _ in range(n)]
    y = [v if rng.random() < .85 else rng.randint(0, 2) for v in x]
    v = rng.randint(0, 2)
    yield dict(op='util', a='eqc', x=x if rng.random() < .5 else [v if rng.random() < .9 else 1 for _ in x], val=v)
    lb = rng.randint(0, n)
    yield dict(op='util', a='eqv', x=x, y=y, lb=lb, ub=rng.randint(lb, n), nx=rng.choice([-1, -1, 0, 1, 4]), ny=rng.choice([-1, -1, 0, 1, 4]))
    yield dict(op='util', a='med', x=x if rng.random() < .5 else [rng.randint(0, 50) for _ in x])
    yield dict(op='util', a='sum', x=[rng.randint(-9, 99) for _ in x])
    q = list(range(n))
    rng.shuffle(q)
    if n and rng.random() < .5:
        q[rng.randrange(n)] = rng.choice([0, n - 1, n // 2])
    yield dict(op='util', a='uniq', x=q)
    k = rng.randint(1, 9) if not big else rng.randint(30, 100)
    yield dict(op='util', a='rvec', n=k, m=rng.randint(0, k), seed=rng.randint(1, 99))
    yield dict(op='util', a='rmat', n=k, den=rng.choice([0, 25, 50, 75, 100]), mx=rng.choice([1, 50]), seed=rng.randint(1, 99))
    m, n = (rng.randint(1, 5), rng.randint(1, 5)) if not big else (rng.randint(30, 90), rng.randint(30, 90))
    A = mat(rng, m, n, entries(rng, m, n), 1, True, True)
    B = dict(A)
    w = rng.randrange(6)
    if w == 1:
        B['m'] = m + 1
    elif w == 2:
        B['n'], B['p'] = n + 1, A['p'] + [A['p'][-1]]
    elif w == 3 and A['x']:
        B['x'] = A['x'][:-1] + [A['x'][-1] + 1]
    elif w == 4 and A['i']:
        B['i'] = A['i'][:-1] + [(A['i'][-1] + 1) % m]
    elif w == 5:
        B = mat(rng, m, n, entries(rng, m, n), 1, True, True)
    c = dict(op='util', a='eqm')
    for s, M in (('a', A), ('b', B)):
        c.update({'m' + s: M['m'], 'n' + s: M['n'], 'p' + s: M['p'], 'i' + s: M['i'], 'x' + s: M['x']})
    yield c
    yield dict(mat(rng, n, n, entries(rng, n, n), 1, True, True, True, False), op='util', a='rhs')
    nb = rng.randint(1, 5)
    b = gen.bcsc(nb, gen.rnd_dag(rng, nb), rng)
    yield dict(op='util', a='rhsb', n=b['n'], nb=nb, p=b['p'], lip=b['lip'], i=b['i'], x=vals(rng, b['p'][-1]))
    # checked arithmetic: operands shifted by 34 bits overflow from 2^30 on
    for a in ('mul', 'add'):
        sh, ok = rng.choice([0, 34]), rng.choice([1, 1, 1, 0])
        u, v = rng.choice([0, 1, 2, 3, 1000, 2 ** 20, 2 ** 29, 2 ** 30 - 1]), rng.choice([0, 1, 2, 3, 5])
        if a == 'add':
            v = rng.choice([0, 1, 2 ** 29, 2 ** 30 - 1])
        if (u * v if a == 'mul' else u + v) >= 2000000000:     # results are recorded up to there
            continue
        yield dict(op='util', a=a, x=u, y=v, sh=sh, ok=ok, ok0=ok, cap=2 ** 30)
