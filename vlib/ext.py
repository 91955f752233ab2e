"""Cases for record files, the demo protocol, AMD ordering and the Matrix Market primitives."""
from . import gen, models

def pick(tier, q, t):
    return q if tier == 'quick' else t

def csv_history(rng, length):
    """a history of two managers on two files; columns set with typed values, wrong columns, incomplete records, reopening"""
    ev, mg = [], [None, None]
    for _ in range(length):
        g = rng.randint(0, 1)
        if mg[g] is None:
            free = [f for f in (0, 1) if f not in [m[0] for m in mg if m]]
            f = rng.choice(free)
            if rng.random() < .1:
                ev += [4, f, 0, 0, 0]
            n = rng.choice([1, 2, 2, 3, 4])
            mg[g] = (f, n)
            ev += [0, g, f, n, rng.choice([0, 0, 1])]
        else:
            f, n = mg[g]
            r = rng.random()
            if r < .15:
                ev += [3, g, 0, 0, 0]
                mg[g] = None
            elif r < .4:
                ev += [2, g, 0, 0, 0]
            elif r < .6:                      # a whole record in some order, then commit
                cs = list(range(n))
                rng.shuffle(cs)
                for c in cs:
                    ev += [1, g, c, rng.randint(0, 3), rng.randint(0, 99)]
                if rng.random() < .8:
                    ev += [2, g, 0, 0, 0]
            else:
                ev += [1, g, rng.randint(0, n), rng.randint(0, 3), rng.randint(0, 99)]
    return ev

def csv_cases(rng, tier):
    for h in models.histories('MC_CSV', dict(LEN=9, EMIT=1), ['RightText', 'Emit'], pick(tier, 600, 6000), rng.randrange(1 << 30)):
        yield dict(op='csv', ev=[x for e in h for x in e], pr=0)
    for _ in range(pick(tier, 500, 5000)):
        yield dict(op='csv', ev=csv_history(rng, rng.choice([5, 10, 20, 40])), pr=rng.randint(0, 1))

# ---- measurement protocol
def demo_cases(rng, tier):
    for _ in range(pick(tier, 900, 9000)):
        n = rng.choice([0, 1, 2, 3, 5, 9])
        yield dict(op='demo', w=[rng.randint(-9, 9) for _ in range(n)], times=[rng.randint(0, rng.choice([1, 4, 50])) for _ in range(rng.randint(1, 9))],
                   runs=[rng.choice([-1, -1, 0, 1, 2, 3, 4, 7, 8]) for _ in range(rng.choice([1, 1, 2, 3]))], delta=rng.choice([0, 0, 1, -5, 9, 11, -11, 12, -100, 10 ** 7]) if n else 0,
                   at=rng.choice([0, n - 1, rng.randint(0, n - 1)]) if n else 0, nan=int(n > 0 and rng.random() < .1), ref=int(rng.random() < .8), ctor=rng.randint(0, 1), bt=rng.randint(0, 20))
    for _ in range(pick(tier, 300, 3000)):
        ck = [0, rng.randint(0, 5), 1, 0]
        for _ in range(rng.randint(0, 12)):
            ck += rng.choice([[0, rng.randint(0, 9)], [0, rng.randint(0, 9)], [1, 0], [2, 0], [2, 0]])
        yield dict(op='clock', ck=ck)
    for _ in range(pick(tier, 100, 1000)):
        w = lambda: ''.join(rng.choice('abcXYZ09_-./') for _ in range(rng.randint(1, 8)))
        yield dict(op='common', hdr=int(rng.random() < .1), n=rng.randint(1, 500), zb=rng.randint(1, 9000), zl=rng.choice([-1, 0, rng.randint(1, 999)]), s1=w(), s2=w(), s3=w(), nth=rng.randint(1, 128))

# ---- AMD ordering: jumbled, duplicated, unsymmetric, disconnected, dense and forest patterns; invalid ones; statistics
def pattern(rng, n, kind):
    """columns of row indices"""
    E = set()
    if kind == 0:                                        # forest
        for v in range(1, n):
            if rng.random() < .85:
                u = rng.choice([v - 1, rng.randrange(v)])
                E.add((u, v) if rng.random() < .5 else (v, u))
        if rng.random() < .5:                            # relabelled
            q = list(range(n)); rng.shuffle(q)
            E = {(q[a], q[b]) for a, b in E}
    elif kind == 1:
        for _ in range(rng.randint(0, 3 * n)):
            E.add((rng.randrange(n), rng.randrange(n)))
    elif kind == 2:                                      # grid
        w = max(1, int(n ** .5))
        for v in range(n):
            if v % w + 1 < w and v + 1 < n: E.add((v, v + 1))
            if v + w < n: E.add((v + w, v))
    elif kind == 3:                                      # cliques sharing nodes
        for _ in range(rng.randint(1, 4)):
            C = rng.sample(range(n), min(n, rng.randint(2, 6)))
            E |= {(a, b) for a in C for b in C if a < b}
    elif kind == 4:                                      # hubs
        for h in rng.sample(range(n), min(n, rng.randint(1, 3))):
            for v in range(n):
                if rng.random() < rng.choice([.6, .95, 1.0]): E.add((h, v) if rng.random() < .5 else (v, h))
        for _ in range(rng.randint(0, n)):
            E.add((rng.randrange(n), rng.randrange(n)))
    elif kind == 5:                                      # twins: many indistinguishable nodes
        k = rng.randint(1, max(1, n // 3))
        base = [(rng.randrange(k), rng.randrange(k)) for _ in range(2 * k)]
        cls = [rng.randrange(k) for _ in range(n)]
        B = set(base) | {(b, a) for a, b in base}
        E = {(a, b) for a in range(n) for b in range(n) if a != b and ((cls[a], cls[b]) in B or cls[a] == cls[b])}
    if rng.random() < .5: E |= {(b, a) for a, b in E}
    if rng.random() < .5: E |= {(v, v) for v in range(n)}
    cols = [[] for _ in range(n)]
    for a, b in sorted(E): cols[b].append(a)
    if rng.random() < .35:                               # jumbled
        for c in cols:
            if rng.random() < .5: rng.shuffle(c)
            if c and rng.random() < .3: c.insert(rng.randrange(len(c) + 1), rng.choice(c))
    return cols

def packed(cols):
    p, i = [0], []
    for c in cols:
        i += c
        p.append(len(i))
    return p, i

def amd_case(rng, n, kind=None):
    p, i = packed(pattern(rng, n, rng.randint(0, 5) if kind is None else kind)) if n > 0 else ([0], [])
    return dict(op='amd', n=n, p=p, i=i, nul=0, al=rng.choice([20, 20, 20, 0, 1, 2, 4, 9, -2]), ag=rng.choice([0, 1, 1]), nc=int(rng.random() < .15), ni=int(rng.random() < .1))

def broken(rng, c):
    """an invalid version of a case"""
    c = dict(c, p=list(c['p']), i=list(c['i']))
    n, nz = c['n'], len(c['i'])
    k = rng.randint(0, 5)
    if k == 0: c['nul'] = rng.randint(1, 3 if c['op'] == 'amd' else 2)
    elif k == 1 and nz: c['i'][rng.randrange(nz)] = rng.choice([-1, c.get('nr', n), c.get('nr', n) + 3])
    elif k == 2 and nz: c['p'][0] = 1
    elif k == 3 and n > 1:
        c['p'][rng.randrange(1, n)] = rng.randint(0, nz)
    elif k == 4: c['n'] = -1; c['p'] = [0]; c['i'] = []
    else: c['p'][n] = -1; c['i'] = c['i'] or []
    return c

def amd_cases(rng, tier):
    for n in range(0, 4):                                # every symmetric pattern on up to 4 nodes below, upper half stored
        pairs = [(a, b) for b in range(n + 1) for a in range(b)]
        for m in range(1 << len(pairs)):
            cols = [[] for _ in range(n + 1)]
            for t, (a, b) in enumerate(pairs):
                if m >> t & 1: cols[b].append(a)
            p, i = packed(cols)
            for ag in (0, 1):
                yield dict(op='amd', n=n + 1, p=p, i=i, nul=0, al=20, ag=ag, nc=0, ni=0)
    for n in (0, 1, 2):
        for ni in (0, 1):
            yield dict(amd_case(rng, n), ni=ni)
    for _ in range(pick(tier, 2600, 26000)):
        c = amd_case(rng, rng.choice([1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 14]))
        yield broken(rng, c) if rng.random() < .12 else c
    for _ in range(pick(tier, 500, 6000)):
        yield amd_case(rng, rng.randint(15, 45), rng.choice([0, 1, 2, 3, 4, 4, 4, 5]))
    for _ in range(pick(tier, 500, 5000)):
        n, nr = rng.randint(0, 8), rng.randint(1, 9)
        p, i = packed([[rng.randrange(nr) for _ in range(rng.randint(0, 3))] for _ in range(n)])
        if rng.random() < .6:
            p, i = packed([sorted(set(i[p[j]:p[j + 1]])) for j in range(n)])
        c = dict(op='amdvalid', nr=nr, n=n, p=p, i=i, nul=0)
        yield broken(rng, c) if rng.random() < .5 else c
    for _ in range(pick(tier, 600, 6000)):
        n = rng.randint(1, 12)
        p, i = packed(pattern(rng, n, rng.choice([0, 1, 2, 3, 4])))
        yield dict(op='amdpre', n=n, p=p, i=i)
    for _ in range(pick(tier, 1200, 12000)):
        n = rng.randint(1, 14)
        els = [v for v in range(n) if rng.random() < rng.choice([.5, .8, 1])]
        od = els[:]
        rng.shuffle(od)
        pa, nv, fs = [-1] * n, [0] * n, [rng.randint(0, 5) for _ in range(n)]
        for k, v in enumerate(od):
            nv[v] = rng.randint(1, 3)
            if k and rng.random() < .85: pa[v] = od[rng.choice([k - 1, rng.randrange(k)])]
        for v in range(n):                               # absorbed nodes point at something too
            if v not in els and els: pa[v] = rng.choice(els)
        yield dict(op='amdpost', pa=pa, nv=nv, fs=fs)

# ---- Matrix Market primitives
def mm_entries(rng, M, N, n):
    return [x for _ in range(n) for x in (rng.randint(1, max(1, M)), rng.randint(1, max(1, N)), rng.choice([rng.randint(-40, 40), rng.randint(-10 ** 6, 10 ** 6)]), rng.randint(-40, 40))]

def mm_case(rng, ty):
    M, N = rng.randint(1, 9), rng.randint(1, 9)
    n = rng.choice([0, 1, 2, 3, 5, 12])
    e = mm_entries(rng, M, N, n)
    if ty[1] == 3:
        e[2::4] = [x - x % 4 for x in e[2::4]]           # whole numbers
    return dict(ty=ty, sz=[M, N, n], e=e)

def mm_cases(rng, tier):
    types = [[f, d, s] for f in (0, 1, 2) for d in range(4) for s in range(4)]
    for ty in types:                                     # every type, every interface, well formed and slightly off
        for a in range(5):
            for w in range(pick(tier, 6, 30)):
                c = dict(mm_case(rng, ty), op='mmread', a=a, bn=[0] * 5, com=rng.choice([0, 0, 1, 3]), bl=rng.choice([0, 0, 0, 1, 2]), junk=0, none=0, cut0=0, ws=rng.randint(0, 1))
                if a in (2, 4) and ty[0] != 0:
                    c.update(e=[], sz=c['sz'][:2] + [0])
                if a == 3:
                    c.update(e=[], sz=c['sz'][:2])
                r = rng.random()
                if r < .25:
                    k = rng.randrange(5)
                    c['bn'][k] = rng.choice([1, 1, 2, 3, 4])
                    c['len'] = rng.choice([65, 100, 190])
                elif r < .3:
                    c['bn'] = [0, 1, 1, 1, 1]
                elif r < .36:
                    c['junk'] = 1
                elif r < .38 and a < 2:
                    c['none'] = 1
                elif r < .4:
                    c['cut0'] = 1
                elif r < .55:
                    per = 2 if ty[1] == 2 else 4 if ty[1] == 1 else 3
                    tot = len(c['sz']) + len(c['e']) // 4 * per
                    c['keep'] = rng.randrange(tot) if rng.random() < .5 else tot - 1
                yield c
    for ty in types:
        if ty[0] < 2:
            for w in range(pick(tier, 12, 60)):
                c = dict(mm_case(rng, ty), op='mmwrite', a=rng.choice([0, 0, 1, 2]), bits=int(rng.random() < .4 and ty[1] != 3))
                yield c
    yield dict(op='mmfull')

# ---- text forms
def text_cases(rng, tier):
    q = lambda: rng.choice([rng.randint(-9, 9), rng.randint(-4000, 4000), 4 * rng.randint(-50, 50), 0])
    h = lambda: rng.choice(['h', 'Level:', '%%MatrixMarket', 'x1'])
    yield dict(op='text', a='names')
    for _ in range(pick(tier, 2500, 25000)):
        a = rng.choice(['csc', 'csr', 'dense', 'levels', 'hlevels', 'vec', 'ivec', 'save'])
        c = dict(op='text', a=a, h=h())
        if a in ('csc', 'csr'):
            n = rng.choice([0, 1, 2, 3, 5, 9, 14])
            p, i = packed([sorted(rng.sample(range(n), rng.randint(0, min(n, 4)))) for _ in range(n)])
            c.update(n=n, p=p, i=i, x=[q() for _ in i], nox=int(rng.random() < .2), obj=rng.randint(0, 1))
        elif a == 'dense':
            m, n = rng.randint(1, 6), rng.randint(1, 6)
            c.update(m=m, n=n, x=[q() for _ in range(m * n)])
        elif a == 'levels':
            p, i = packed([[rng.randint(0, 99) for _ in range(rng.randint(0, 5))] for _ in range(rng.randint(0, 6))])
            c.update(n=len(p) - 1, lp=p, i=i)
        elif a == 'hlevels':
            lv = [[[rng.randint(0, 99) for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 5))]
            lp, w = packed(lv)
            pp, i = packed(w)
            c.update(n=len(lv), lp=lp, pp=pp, i=i)
        else:
            x = [q() for _ in range(rng.randint(0, 8))]
            b = rng.randint(0, len(x))
            c.update(x=x, b=b, e=rng.randint(b, len(x)))
        yield c
