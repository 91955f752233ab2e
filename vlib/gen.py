"""Inputs: exhaustive small graphs (enumerated) and seeded structured larger ones."""
import itertools, random

def csc(n, E):
    cols = [[j] for j in range(n)]
    for j, i in E:
        cols[j].append(i)
    p, ii = [0], []
    for c in cols:
        ii += [c[0]] + sorted(c[1:])
        p.append(len(ii))
    return p, ii

def csr_of(n, E):
    """row pattern with the diagonal last"""
    rows = [[] for _ in range(n)]
    for j, i in E:
        rows[i].append(j)
    p, ii = [0], []
    for k, r in enumerate(rows):
        ii += sorted(r) + [k]
        p.append(len(ii))
    return p, ii

def all_dags(n):
    prs = [(j, i) for j in range(n) for i in range(j + 1, n)]
    for m in range(1 << len(prs)):
        yield n, [prs[k] for k in range(len(prs)) if m >> k & 1]

def all_trees(n):
    """parent vectors with parent > child or -1"""
    for t in itertools.product(*[[-1] + list(range(v + 1, n)) for v in range(n)]):
        yield list(t)

KINDS = ['sparse', 'dense', 'mid', 'tree', 'rtree', 'forest', 'chain', 'chains', 'band', 'wide', 'diamond',
         'arrow', 'star', 'empty', 'layers', 'islands', 'clique', 'grid', 'bipair', 'intree', 'sptail']

def rnd_dag(rng, n, kind=None):
    kind = kind or rng.choice(KINDS)
    E = set()
    if kind in ('sparse', 'mid', 'dense'):
        d = {'sparse': 1.2 / max(n, 2), 'mid': 3.0 / max(n, 3), 'dense': .5}[kind]
        for j in range(n):
            for i in range(j + 1, n):
                if rng.random() < d:
                    E.add((j, i))
    elif kind == 'tree':
        for j in range(n - 1):
            E.add((j, rng.randint(j + 1, min(n - 1, j + 4))))
    elif kind == 'rtree':
        for j in range(n - 1):
            E.add((j, rng.randint(j + 1, n - 1)))
    elif kind == 'intree':
        for j in range(1, n):
            E.add((rng.randint(max(0, j - 5), j - 1), j))
    elif kind == 'forest':
        for j in range(n - 1):
            if rng.random() < .8:
                E.add((j, rng.randint(j + 1, min(n - 1, j + 3))))
    elif kind == 'chain':
        for j in range(n - 1):
            E.add((j, j + 1))
    elif kind == 'chains':
        k = rng.randint(2, 5)
        for j in range(n - k):
            E.add((j, j + k))
    elif kind == 'band':
        b = rng.randint(1, 4)
        for j in range(n):
            for i in range(j + 1, min(n, j + b + 1)):
                if rng.random() < .7:
                    E.add((j, i))
    elif kind == 'wide':
        h = max(1, n // 3)
        for j in range(h):
            for i in range(h, n):
                if rng.random() < .2:
                    E.add((j, i))
    elif kind == 'diamond':
        j = 0
        while j + 3 < n:
            E |= {(j, j + 1), (j, j + 2), (j + 1, j + 3), (j + 2, j + 3)}
            j += rng.choice([3, 4])
    elif kind == 'arrow':
        for j in range(n - 1):
            E.add((j, n - 1))
    elif kind == 'star':
        for j in range(1, n):
            E.add((0, j))
    elif kind == 'layers':
        w = rng.randint(2, max(2, n // 3))
        for j in range(n):
            for i in range((j // w + 1) * w, min(n, (j // w + 2) * w)):
                if rng.random() < .4:
                    E.add((j, i))
    elif kind == 'islands':
        k = rng.randint(2, 6)
        lab = [rng.randrange(k) for _ in range(n)]
        for j in range(n):
            for i in range(j + 1, n):
                if lab[i] == lab[j] and rng.random() < .4:
                    E.add((j, i))
    elif kind == 'clique':
        j = 0
        while j < n:
            w = rng.randint(1, 5)
            tail = [i for i in range(min(n, j + w), n) if rng.random() < .15]
            for a in range(j, min(n, j + w)):
                for b in range(a + 1, min(n, j + w)):
                    E.add((a, b))
                for b in tail:
                    E.add((a, b))
            j += w
    elif kind == 'grid':
        w = rng.randint(2, 6)
        for j in range(n):
            if (j + 1) % w and j + 1 < n:
                E.add((j, j + 1))
            if j + w < n:
                E.add((j, j + w))
    elif kind == 'bipair':
        for j in range(0, n - 1, 2):
            E.add((j, j + 1))
            if j + 3 < n and rng.random() < .5:
                E.add((j, j + 3))
    elif kind == 'sptail':
        m = n // 2
        for j in range(m):
            if rng.random() < .3 and m < n:
                E.add((j, rng.randint(m, n - 1)))
        for j in range(m, n - 1):
            E.add((j, j + 1))
    return sorted(E)

def rnd_tree(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return [j + 1 if j + 1 < n else -1 for j in range(n)]
    if k == 1:
        return [n - 1 if j < n - 1 else -1 for j in range(n)]
    if k == 2:
        return [rng.randint(j + 1, min(n - 1, j + 4)) if j < n - 1 else -1 for j in range(n)]
    if k == 3:
        return [rng.randint(j + 1, n - 1) if j < n - 1 else -1 for j in range(n)]
    if k == 4:
        return [rng.randint(j + 1, min(n - 1, j + 3)) if j < n - 1 and rng.random() < .85 else -1 for j in range(n)]
    # balanced-ish: post-ordered binary
    t = [-1] * n
    def build(lo, hi):  # root hi
        if lo >= hi:
            return
        m = rng.randint(lo, hi - 1)
        t[hi - 1] = hi
        build(m, hi - 1)
        if m > lo:
            t[m - 1] = hi
            build(lo, m - 1)
    if n:
        build(0, n - 1)
    return t

def costs(rng, n, k=None):
    k = rng.randrange(5) if k is None else k
    if k == 0:
        return [1] * n
    if k == 1:
        return [rng.randint(1, 9) for _ in range(n)]
    if k == 2:
        return [rng.choice([1, 1, 1, 50]) for _ in range(n)]
    if k == 3:
        return [0] * n
    return [rng.randint(0, 3) for _ in range(n)]

def blocks(rng, n, maxw=3):
    """contiguous supernodes covering 0..n-1: boundaries"""
    b = [0]
    while b[-1] < n:
        b.append(min(n, b[-1] + rng.randint(1, maxw)))
    return b

def bcsc(nb, E, rng):
    """A column-blocked (supernodal) lower-triangular pattern whose block DAG is E on nb blocks, in the library's
    layout: p = nonzero offset per column, lip = first row index of the column's block, i = row indices per block."""
    w = [rng.randint(1, 3) for _ in range(nb)]
    st = [0]
    for x in w:
        st.append(st[-1] + x)
    n = st[-1]
    c2b = [b for b in range(nb) for _ in range(w[b])]
    lip, ii, p = [0] * (n + 1), [], [0]
    blk = [[b] for b in range(nb)]
    for b in range(nb):
        tail = []
        for j, t in E:
            if j == b:
                rs = list(range(st[t], st[t + 1]))
                tail += rng.sample(rs, rng.randint(1, len(rs)))
                blk[b].append(t)
        rows = list(range(st[b], st[b + 1])) + sorted(tail)
        for c in range(st[b], st[b + 1]):
            lip[c] = len(ii)
            p.append(p[-1] + len(rows))
        ii += rows
    lip[n] = len(ii)
    return dict(n=n, nb=nb, p=p, lip=lip, i=ii, b2c=st, c2b=c2b, blk=blk)

def csc_any(n, E, rng, shuf=True):
    """columns in any row order, diagonal first"""
    cols = [[] for _ in range(n)]
    for j, i in E:
        cols[j].append(i)
    p, ii = [0], []
    for j in range(n):
        c = sorted(cols[j])
        if shuf:
            rng.shuffle(c)
        ii += [j] + c
        p.append(len(ii))
    return p, ii

def relabel(rng, n, E):
    pi = list(range(n))
    rng.shuffle(pi)
    return sorted((pi[a], pi[b]) for a, b in E)

def rgroup(rng, n):
    """a random partition of the nodes into groups: (ptr, set, node->group)"""
    k = rng.randint(1, n)
    lab = [rng.randrange(k) for _ in range(n)]
    if rng.random() < .5:
        lab.sort()
    gs = [[v for v in range(n) if lab[v] == g] for g in range(k)]
    gs = [g for g in gs if g]
    if rng.random() < .3:
        rng.shuffle(gs)
    gp, f, gi = [0], [], [0] * n
    for k, g in enumerate(gs):
        f += g
        gp.append(len(f))
        for v in g:
            gi[v] = k
    return gp, f, gi

def deal(rng, levels):
    """levels of items -> (level ptr, part ptr, items), each level dealt over 1..3 w-partitions (some may be empty)"""
    lp, pp, np_ = [0], [0], []
    for mem in levels:
        parts = [[] for _ in range(rng.randint(1, 3))]
        for x in mem:
            parts[rng.randrange(len(parts))].append(x)
        for q in parts:
            np_ += q
            pp.append(len(np_))
        lp.append(len(pp) - 1)
    return dict(lp=lp, pp=pp, np=np_)

def rsched(rng, n):
    items = list(range(n))
    rng.shuffle(items)
    nl = rng.randint(1, min(n, 5))
    lev = [[] for _ in range(nl)]
    for x in items:
        lev[rng.randrange(nl)].append(x)
    return deal(rng, lev)

def levels_of(n, E):
    l = [0] * n
    for j, i in sorted(E):
        l[i] = max(l[i], l[j] + 1)
    return [[v for v in range(n) if l[v] == k] for k in range(max(l) + 1)]

def topo_sched(rng, n, E):
    """a valid node schedule: every level set dealt over w-partitions"""
    return deal(rng, levels_of(n, E))

def coarse_sched(rng, n, E, shuffle=False):
    """a valid schedule of coarsened levels: bands of level sets, whole connected components dealt over w-partitions,
    so that dependent nodes share a w-partition (ascending order inside, or any order with shuffle)"""
    L = levels_of(n, E)
    bands, k = [], 0
    while k < len(L):
        w = rng.choice([1, 1, 2, 3, 5, len(L)])
        bands.append([v for l in L[k:k + w] for v in l])
        k += w
    lp, pp, np_ = [0], [0], []
    for mem in bands:
        root = {v: v for v in mem}
        def find(v):
            while root[v] != v:
                v = root[v]
            return v
        for j, i in E:
            if j in root and i in root:
                a, b = find(j), find(i)
                if a != b:
                    root[max(a, b)] = min(a, b)
        parts = [[] for _ in range(rng.randint(1, 3))]
        where = {}
        for v in sorted(mem):
            r = find(v)
            where.setdefault(r, rng.randrange(len(parts)))
            parts[where[r]].append(v)
        for q in parts:
            if shuffle:
                rng.shuffle(q)
            np_ += q
            pp.append(len(np_))
        lp.append(len(pp) - 1)
    return dict(lp=lp, pp=pp, np=np_)

BIGKINDS = ['band', 'chain', 'chains', 'grid', 'rtree', 'forest', 'tree', 'intree', 'local', 'far', 'layers', 'blocks', 'comb', 'empty', 'diamond', 'clique', 'few']

def thick_dag(rng, per):
    """about per entries in each column (diagonal included): wavefronts of changing widths, each node feeding most nodes of the next few"""
    w = rng.choice([1, 2, 5, 12]) if per < 60 else rng.choice([15, 25, 40])
    reach = max(1, round(per / w / .9))
    lay, n = [], 0
    for _ in range(reach * rng.randint(3, 5) + rng.randint(2, 12)):
        m = rng.randint(max(1, w // 2), w + w // 2) if rng.random() < .8 else 1
        lay.append(range(n, n + m))
        n += m
    E = set()
    for a in range(len(lay)):
        lanes = rng.random() < .5
        for b in range(a + 1, min(len(lay), a + 1 + reach)):
            for u in lay[a]:
                for v in lay[b]:
                    if rng.random() < .9 and not (lanes and b == a + 1 and (u - v) % 2):
                        E.add((u, v))
    return n, sorted(E)

def big_dag(rng, n, kind):
    """sparse DAGs of thousands of nodes, a few edges per node"""
    if kind in ('band', 'chain', 'chains', 'grid', 'rtree', 'forest', 'tree', 'intree', 'diamond', 'clique') and kind != 'clique':
        return rnd_dag(rng, n, kind)
    E = set()
    if kind in ('local', 'far'):
        for j in range(1, n):
            for _ in range(rng.choice([0, 1, 1, 2, 3])):
                E.add((rng.randint(max(0, j - 40) if kind == 'local' else 0, j - 1), j))
    elif kind == 'layers':
        w = rng.choice([20, 100, 300])
        for j in range(w, n):
            for _ in range(rng.choice([1, 1, 2, 3])):
                E.add((rng.randrange((j // w - 1) * w, (j // w) * w), j))
    elif kind in ('blocks', 'clique'):
        j = 0
        while j < n:
            w = rng.choice([1, 2, 5, 12]) if kind == 'clique' else rng.choice([5, 20, 60])
            for a in range(j, min(n, j + w)):
                for b in range(a + 1, min(n, j + w)):
                    if kind == 'clique' or rng.random() < 3.0 / w:
                        E.add((a, b))
            if kind == 'clique' and j + w < n and rng.random() < .7:
                for a in range(j, j + w):
                    E.add((a, j + w))
            j += w
    elif kind == 'comb':
        for j in range(0, n - 2, 2):
            E |= {(j, j + 1), (j, j + 2)}
    elif kind == 'few':
        for _ in range(n // 10):
            a, b = rng.sample(range(n), 2)
            E.add((min(a, b), max(a, b)))
    return sorted(E)

def from_pos(n, pos):
    """compressed columns of a set of (row, column), rows ascending"""
    cols = [[] for _ in range(n)]
    for r, c in pos:
        cols[c].append(r)
    p, ii = [0], []
    for c in cols:
        ii += sorted(c)
        p.append(len(ii))
    return p, ii
