"""Witnesses for T_big: computed here, untrusted, checked by the specification against the recorded output."""
import collections

def adj(c):
    if 't' in c:
        return [[x] if x >= 0 else [] for x in c['t']]
    if 'blk' in c:
        return [[v for v in b if v != u] for u, b in enumerate(c['blk'])]
    p, i = c['p'], c['i']
    return [[v for v in i[p[u]:p[u + 1]] if v != u] for u in range(c['n'])]

def where(lists, n):
    w = [[0, 0] for _ in range(n)]
    for a, l in enumerate(lists):
        for b, v in enumerate(l):
            if 0 <= v < n:
                w[v] = [a + 1, b + 1]
    return w

def witness(c, o):
    if o.get('st') != 'ok':
        return {}
    r = {}
    A = adj(c)
    n = len(A)
    if 'lev' in o:
        r['wl'] = where(o['lev'], n)
    elif c['op'] == 'grouping':
        r['wg'] = where(o['groups'], n)
        if 'job' in c:
            r['wr'] = list(range(n))
            for v in range(n - 1, -1, -1):
                if len(A[v]) == 1:
                    r['wr'][v] = r['wr'][A[v][0]]
            if c['a'] == 'chain':
                r['pr'] = [[] for _ in range(n)]
                for u in range(n):
                    for v in A[u]:
                        r['pr'][v].append(u)
            return r
        g, k = [x[0] for x in r['wg']], len(o['groups'])
        out, deg = collections.defaultdict(set), [0] * (k + 1)
        for u in range(n):
            for v in A[u]:
                if g[u] and g[v] and g[u] != g[v] and g[v] not in out[g[u]]:
                    out[g[u]].add(g[v])
                    deg[g[v]] += 1
        rank, todo, t = [0] * k, [x for x in range(1, k + 1) if not deg[x]], 0
        while todo:
            x = todo.pop()
            t += 1
            rank[x - 1] = t
            for y in out[x]:
                deg[y] -= 1
                if not deg[y]:
                    todo.append(y)
        r['rank'] = rank
    elif c['op'] == 'groupdag':
        lab = [0] * n
        for g in range(len(c['gp']) - 1):
            for v in c['gs'][c['gp'][g]:c['gp'][g + 1]]:
                lab[v] = g
        r['lab'] = lab
    elif c['op'] == 'sparsify' and 'job' not in c:
        H = [[v for v in b if 0 <= v < n and v != u] for u, b in enumerate(o['dag'])] + [[]] * n
        gone, path = [], []
        for u in range(n):
            h = set(H[u])
            for w in A[u]:
                if w not in h:
                    gone.append([u, w])
                    par, q = {u: -1}, collections.deque([u])
                    while q and w not in par:
                        x = q.popleft()
                        for y in H[x]:
                            if y not in par and y <= w:
                                par[y] = x
                                q.append(y)
                    p = []
                    if w in par:
                        x = w
                        while x != -1:
                            p.append(x)
                            x = par[x]
                    path.append(p[::-1])
        r.update(gone=gone, path=path)
    elif c['op'] == 'cc':
        inu = [0] * n
        for v in c['nodes']:
            inu[v] = 1
        nb = [[] for _ in range(n)]
        for u in range(n):
            for v in A[u]:
                nb[u].append(v)
                nb[v].append(u)
        up, dep, seen = [-1] * n, [0] * n, [False] * n
        for s in range(n):
            if inu[s] and not seen[s]:
                seen[s] = True
                q = collections.deque([s])
                while q:
                    x = q.popleft()
                    for y in nb[x]:
                        if inu[y] and not seen[y]:
                            seen[y], up[y], dep[y] = True, x, dep[x] + 1
                            q.append(y)
        r.update(inu=inu, up=up, dep=dep)
    elif c['op'] == 'ungroup':
        r['tin'] = [[c['np'][c['pp'][q]:c['pp'][q + 1]] for q in range(c['lp'][l], c['lp'][l + 1])] for l in range(len(c['lp']) - 1)]
    elif 'sched' in o:
        w = [[0, 0, 0] for _ in range(n)]
        for a, l in enumerate(o['sched']):
            for b, x in enumerate(l):
                for k, v in enumerate(x):
                    if 0 <= v < n:
                        w[v] = [a + 1, b + 1, k + 1]
        r['wh'] = w
        if 'fgroups' in o:
            r['wf2'] = where(o['fgroups'], n)
    return r
