"""Matrices, trees, patterns and files of several hundred rows, for code whose behaviour changes with size: long rows, many
levels, buffers that must grow, indices of three digits, deep trees."""
from . import gen, mats

KINDS = ['band', 'chain', 'chains', 'grid', 'rtree', 'forest', 'tree', 'intree', 'local', 'far', 'layers', 'comb', 'empty', 'diamond', 'few']

def pick(tier, q, t):
    return q if tier == 'quick' else t

def size(rng, hi=420, large=.1):
    if rng.random() < large:
        return rng.choice([rng.randint(1000, 1060), rng.randint(1000, 1300)])
    return rng.choice([rng.randint(100, 140), rng.randint(120, hi), rng.randint(250, 270), hi])

def lower(rng, n, k):
    """strictly lower positions (row, column) of n x n"""
    e = {(v, u) for u, v in gen.big_dag(rng, n, KINDS[k % len(KINDS)])}
    e = {(max(a, b), min(a, b)) for a, b in e if a != b}
    for _ in range(rng.choice([0, 0, n // 4])):
        a, b = rng.randrange(n), rng.randrange(n)
        if a != b:
            e.add((max(a, b), min(a, b)))
    if rng.random() < .5:                      # one long column, one long row
        c = rng.randrange(n // 2)
        e |= {(r, c) for r in range(c + 1, n) if rng.random() < .5}
        r = rng.randrange(n // 2, n)
        e |= {(r, c) for c in range(r) if rng.random() < .5}
    return e

def rect(rng, k):
    n = size(rng)
    m = rng.choice([n, n, size(rng), 3, 150])
    if rng.random() < .3:
        m, n = n, m
    e = set()
    for r, c in lower(rng, max(m, n), k):
        if rng.random() < .5:
            r, c = c, r
        e.add((r % m, c % n))
    e |= {(j, j) for j in range(min(m, n)) if rng.random() < .6}
    return m, n, e

def square(rng, k, diag=.7):
    n = size(rng)
    e = {(r, c) if rng.random() < .6 else (c, r) for r, c in lower(rng, n, k)}
    e |= {(c, r) for r, c in e if rng.random() < .3}
    e |= {(j, j) for j in range(n) if rng.random() < diag}
    return n, e

def conv_mid(rng, tier):
    for k in range(pick(tier, 18, 180)):
        m, n, e = rect(rng, k)
        yield from mats.conv_of(rng, m, n, e)
    for n in (100, 257, 300, 1000):
        yield dict(op='mat', a='tridiag', n=n, a0=rng.randint(-3, 3), a1=rng.randint(1, 5), a2=rng.randint(-3, 3))
        yield dict(op='mat', a='diag', n=n, a1=rng.randint(1, 5))
        q = list(range(n))
        rng.shuffle(q)
        yield dict(op='perm', perm=q, arr=mats.vals(rng, n))
        x, y = mats.wide_vals(rng, n), mats.wide_vals(rng, n)
        a = rng.randint(0, n)
        yield dict(op='vecs', x=x, y=y, lb=a, ub=rng.randint(a, n))

def sym_mid(rng, tier):
    for k in range(pick(tier, 15, 150)):
        yield from mats.sym_of(rng, *square(rng, k))

def merge_mid(rng, tier):
    for k in range(pick(tier, 15, 150)):
        n = rng.randint(60, 150)
        es = [gen.big_dag(rng, n, rng.choice(KINDS)) for _ in range(rng.randint(1, 4))]
        yield from mats.merge_of(rng, n, es)
    for k in range(pick(tier, 30, 300)):
        n = size(rng, 600)
        e = gen.big_dag(rng, n, KINDS[k % len(KINDS)])
        if rng.random() < .5:
            e = gen.relabel(rng, n, e)
        p, i = gen.csc_any(n, e, rng)
        yield dict(op='depth', m=n, n=n, p=p, i=i)

def block_mid(rng, tier, q=16, t=120):
    for k in range(pick(tier, q, t)):
        nb = rng.randint(40, 110)
        yield nb, [e for e in gen.big_dag(rng, nb, KINDS[k % len(KINDS)])]

def blocked_mid(rng, tier):
    for nb, E in block_mid(rng, tier):
        yield from mats.blocked_of(rng, nb, E)

def fused_mid(rng, tier):
    for nb, E in block_mid(rng, tier):
        yield from mats.fused_of(rng, nb, E)

def levels_bn_mid(rng, tier):
    for nb, E in block_mid(rng, tier, 8, 60):
        yield from mats.levels_bn_of(rng, nb, E)

def etree_mid(rng, tier):
    for k in range(pick(tier, 24, 240)):
        n = size(rng, 300)
        e = {(u, v) for u, v in gen.big_dag(rng, n, KINDS[k % len(KINDS)])}
        yield from mats.etree_of(rng, n, e)
        m, n, e = rect(rng, k)
        if len(e) < 2000:
            p, i = mats.pack(e, n, 1, rng)
            yield dict(op='etree', m=m, n=n, p=p, i=i, stype=0)

def lfactor_mid(rng, tier):
    for k in range(pick(tier, 15, 150)):
        n = size(rng, 300)
        yield from mats.lfactor_of(rng, n, {(u, v) for u, v in gen.big_dag(rng, n, KINDS[k % len(KINDS)])})

def trees_mid(rng, tier, q=24, t=160):
    for k in range(pick(tier, q, t)):
        n = size(rng, 500)
        t = [-1] * n
        if k % 3 == 0:
            t = gen.rnd_tree(rng, n)
        else:
            for u, v in gen.big_dag(rng, n, ['rtree', 'forest', 'tree', 'chain', 'chains'][k % 5]):
                t[u] = v
        yield t

def treem_mid(rng, tier):
    for t in trees_mid(rng, tier):
        yield dict(op='treem', t=t, w=gen.costs(rng, len(t)))

def split_mid(rng, tier):
    for t in trees_mid(rng, tier, 30, 200):
        yield from mats.split_of(rng, t)

def metis_mid(rng, tier):
    for k in range(pick(tier, 18, 180)):
        n = size(rng, 800)
        yield from mats.metis_of(rng, n, set(gen.big_dag(rng, n, KINDS[k % len(KINDS)])), rng.randint(2, 9))

def read_mid(rng, tier):
    for k in range(pick(tier, 15, 150)):
        m, n, e = rect(rng, k) if k % 2 else (lambda s: (s[0], s[0], s[1]))(square(rng, k))
        yield from mats.read_of(rng, m, n, e)

def write_mid(rng, tier):
    for k in range(pick(tier, 12, 120)):
        m, n, e = rect(rng, k) if k % 2 else (lambda s: (s[0], s[0], s[1]))(square(rng, k))
        yield from mats.write_of(rng, m, n, e)
    for nb, E in block_mid(rng, tier, 3, 30):
        yield from mats.blkwrite_of(rng, nb, E)
    for m, n in ((200, 3), (1, 500), (40, 40)):
        yield dict(op='textio', a='array', m=m, n=n, x=mats.wide_vals(rng, m * n))
    L = ['line %d of the text' % k for k in range(200)]
    yield dict(op='textio', a='str', hex=mats.hexs('\n'.join(L) + '\n'), text=[ord(ch) for ch in '\n'.join(L) + '\n'])

def part_mid(rng, tier):
    for k in range(pick(tier, 16, 160)):
        n = size(rng, 600, 0)
        yield from mats.part_of(rng, n, gen.big_dag(rng, n, KINDS[k % len(KINDS)]), rng.choice([2, 7, 16, 40]))

def bin_mid(rng, tier):
    for _ in range(pick(tier, 60, 600)):
        k = rng.randint(20, 300)
        yield dict(op='binpack', sz=[rng.choice([1, 1, 2, 3, 9]) for _ in range(k)], ic=[rng.choice([0, 1, 2, 50, rng.randint(1, 10 ** 6)]) for _ in range(k)], nb=rng.choice([1, 2, 7, 16, 40]), cs=rng.choice([0, 0, 1, 3, 12, -31]), th=rng.randint(0, 20))
    for _ in range(pick(tier, 100, 1000)):
        L = rng.randint(40, 400)
        sizes = [rng.choice([1, 1, 2, 3, 5, 9, 20, 200]) for _ in range(L)]
        if rng.random() < .5:
            sizes.sort(reverse=True)
        lp = [0]
        for s in sizes:
            lp.append(lp[-1] + s)
        c = dict(op='hpart', lp=lp, ip=rng.choice([1, 2, 4, 8, 20, 64]))
        ml = rng.choice([-1, 0, 1, 2, 5, 20, 100])
        yield dict(c, a='trng', ml=ml, dr=rng.choice([1, 2, 3, 10, 40]) if ml >= 0 else rng.choice([2, 3, 10, 40]))
        yield dict(c, a='tree', ml=ml, dr=rng.choice([2, 3, 4, 20]))

def util_mid(rng, tier):
    for _ in range(pick(tier, 60, 600)):
        yield from mats.util_of(rng, rng.randint(60, 400))

def pipe_mid(*want):
    """one-off HDAGG stages (E01, K01, G02, G06) on graphs of several hundred nodes"""
    from . import suites
    def f(rng, tier):
        for k in range(pick(tier, 6, 60) * 3):
            n = size(rng, 300)
            yield from suites.pipe_of(rng, n, gen.big_dag(rng, n, KINDS[k % len(KINDS)]), want)
    return f
