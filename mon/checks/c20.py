"""C20  combinatorial tools."""
import functools
import itertools as it
import re
import numpy as np
import qosy as qy
from qosy import tools as qt
from ..runtime import Family, Skip

PROP = 'C20'
RULE = ('A case draws permutations, vectors with ties, label tuples, graphs, lists with planted duplicates and strings with '
        'overlapping names, and compares each tool with a direct definition (inversion counts, brute-force cliques, flood fill, '
        'comparison-based orderings, left-to-right longest-match rewriting). Non-trivial = the answer is not the trivial one '
        '(identity, empty, unchanged).')
ASSUMPTIONS = ['numbers to sort are exactly equal or at least 1e-6 apart', 'graphs are undirected without self-loops']


def inversions(p):
    return sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i])


def perms(ctx, rng, idx):
    n = int(rng.randint(0, 12)) if rng.rand() < 0.6 else int(rng.randint(12, 60))
    p = [int(x) for x in rng.permutation(n)]
    arg = [p, np.array(p, dtype=int), tuple(p)][rng.randint(3)]
    ctx.check(qt.sign(arg) == (-1) ** inversions(p), 'sign', str(p))
    q = [int(x) for x in rng.permutation(n)]
    ctx.check(list(qt.compose_permutations(arg, q)) == [p[i] for i in q], 'compose', '{} {}'.format(p, q))
    ctx.check(qt.sign(qt.compose_permutations(p, q)) == qt.sign(p) * qt.sign(q), 'homomorphism', '{} {}'.format(p, q))
    inv = [p.index(i) for i in range(n)]
    ctx.check(list(qt.compose_permutations(p, inv)) == list(range(n)), 'inverse', str(p))
    if p != sorted(p):
        ctx.seen('p', p)
    # sort_sign on vectors with ties
    m = int(rng.randint(0, 10)) if rng.rand() < 0.6 else int(rng.randint(10, 70))
    scale = [1.0, 1.0, 1e-4, 1e6][rng.randint(4)]
    vals = [float(x) * scale for x in rng.randint(-3, 4, size=m)] if rng.rand() < 0.6 else [float(x) * scale for x in np.round(rng.uniform(-5, 5, size=m), 2)]
    if rng.rand() < 0.2:                    # close together on a large offset
        vals = [1000.0 + x * 1e-5 for x in rng.randint(-3, 4, size=m)]
    if rng.rand() < 0.15:                   # very close, clearly above the tolerance 1e-10
        gap = 10.0 ** rng.uniform(-8.5, -6)
        vals = [x * gap for x in rng.randint(-20, 21, size=m)]
        ctx.count('close-values')
    elif rng.rand() < 0.3:
        vals = [int(v) for v in vals]
    if rng.rand() < 0.15:                   # nearly sorted, or reversed
        vals = sorted(vals)[::int(rng.choice([1, -1]))]
        if m > 1 and rng.rand() < 0.5:
            i, j = rng.randint(0, m, size=2)
            vals[i], vals[j] = vals[j], vals[i]
    v = [vals, np.array(vals), tuple(vals)][rng.randint(3)]
    v0 = list(v)
    want = sorted(vals)
    sg = (-1) ** sum(1 for i in range(m) for j in range(i) if vals[j] > vals[i])
    for kw in ({}, dict(method='insertionsort'), dict(method='mergesort')):
        if m == 0 and kw.get('method') == 'mergesort':
            continue
        s, g = qt.sort_sign(v, **kw)
        ctx.check(list(s) == want and g == sg, 'sort-sign', lambda: '{} {} -> {} {}'.format(vals, kw, s, g))
    ctx.check(list(v) == v0, 'mutated', 'the vector was modified')
    ctx.raises(ValueError, 'method', qt.sort_sign, v, method='bogus')
    if vals != want:
        ctx.seen('v', vals)
        ctx.count('odd' if sg < 0 else 'even')
    ctx.sample('{} {}'.format(p, vals))


def cmp_labels(a, b):
    a, b = [int(x) for x in a], [int(x) for x in b]
    return (len(a) > len(b)) - (len(a) < len(b)) or (a > b) - (a < b)


def order(ctx, rng, idx):
    L = []
    for _ in range(rng.randint(2, 10) if rng.rand() < 0.8 else rng.randint(10, 40)):
        if rng.rand() < 0.6:
            t = [int(x) for x in rng.randint(0, 4, size=rng.randint(0, 4))]
        else:                               # long tuples that agree on a long prefix, large and negative labels
            t = [7, 300, -2, 10 ** 6, 5, 5, 12, 1, 0][:rng.randint(4, 10)]
            for _ in range(rng.randint(0, 3)):
                t[rng.randint(len(t))] += int(rng.choice([-1, 1, 1000]))
        L.append([t, tuple(t), np.array(t, dtype=int)][rng.randint(3)])
    for a, b in it.product(L[:14], repeat=2):
        ctx.check(qt.compare(a, b) == cmp_labels(list(a), list(b)), 'compare', '{} {}'.format(a, b))
    T = [tuple(int(x) for x in t) for t in L]
    kinds = [(None, lambda a, b: (a > b) - (a < b)), (qt.compare, cmp_labels), (lambda a, b: -cmp_labels(a, b), lambda a, b: -cmp_labels(a, b)),
             (lambda a, b: sum(a) - sum(b), lambda a, b: sum(a) - sum(b)), (lambda a, b: float(len(a) - len(b)) / 2, lambda a, b: len(a) - len(b))]
    comp, ref = kinds[rng.randint(len(kinds))]
    T0 = list(T)
    got = qt.argsort(T) if comp is None else qt.argsort(T, comp=comp)
    want = sorted(range(len(T)), key=functools.cmp_to_key(lambda i, j: ref(T[i], T[j])))     # stable
    ctx.check([int(i) for i in got] == want, 'argsort', lambda: '{} -> {} expected {}'.format(T, got, want))
    ctx.check(T == T0, 'mutated', 'list modified')
    if comp is not None:
        K = qt.cmp_to_key(comp)
        ctx.check(sorted(T, key=K) == [T[i] for i in want], 'cmp_to_key', str(T))
        for a, b in it.product(T[:5], repeat=2):
            r = ref(a, b)
            ka, kb = K(a), K(b)
            ctx.check((ka < kb, ka > kb, ka == kb, ka <= kb, ka >= kb, ka != kb) == (r < 0, r > 0, r == 0, r <= 0, r >= 0, r != 0), 'key-operators', '{} {}'.format(a, b))
    if want != list(range(len(T))):
        ctx.seen('o', T)
        ctx.count('reordered')
    ctx.sample('argsort {}'.format(T))


def duplicates(ctx, rng, idx):
    style = rng.randint(4) if idx % 10 else 4 + idx // 10 % 2
    m = int(rng.randint(0, 12))
    if style == 5:                      # many different objects, each of them more than once
        style, m = 1, int(rng.randint(40, 120))
        many = [np.round(rng.uniform(-1, 1, size=3), 1) for _ in range(m // 2)]
    else:
        many = None
    if style == 0:
        shape = (int(rng.randint(1, 4)),) if rng.rand() < 0.5 else (2, 2)
        pool = [rng.randint(-2, 3, size=shape) * 1.0 + (1j * rng.randint(0, 2, size=shape)) for _ in range(5)]
        ids = [int(rng.randint(5)) for _ in range(m)]
        objs = [pool[i].copy() + (rng.uniform(-1, 1) * 1e-14) for i in ids]
        kw, same = {}, lambda a, b: np.abs(a - b).max() < 1e-9
    elif style == 1:
        pool = many or [np.round(rng.uniform(-1, 1, size=3), 1) for _ in range(5)]
        objs = [pool[rng.randint(len(pool))] + rng.uniform(-1, 1, size=3) * 1e-6 for _ in range(m)]
        kw, same = dict(tol=1e-3), lambda a, b: np.abs(a - b).max() < 1e-2
    elif style == 2:
        objs = [int(x) for x in rng.randint(0, 20, size=m)]
        k = int(rng.randint(1, 6))
        kw, same = dict(equiv=lambda a, b: a % k == b % k), lambda a, b: a % k == b % k
    elif style == 4:
        m, k = int(rng.randint(60, 400)), int(rng.randint(20, 160))
        objs = [int(x) for x in rng.randint(0, 10 ** 6, size=m)]
        kw, same = dict(equiv=lambda a, b: a % k == b % k), lambda a, b: a % k == b % k
    else:
        objs = [['a', 'b', 'ab', 'A', 'B', ''][i] for i in rng.randint(0, 6, size=m)]
        kw, same = dict(equiv=lambda a, b: a.lower() == b.lower()), lambda a, b: a.lower() == b.lower()
    want = []
    for i, o in enumerate(objs):
        if not any(same(o, objs[j]) for j in want):
            want.append(i)
    snapshot = list(objs)
    got = qt.remove_duplicates(objs, **kw)
    ctx.check(len(objs) == len(snapshot) and all(a is b for a, b in zip(objs, snapshot)), 'mutated', 'list modified')
    ctx.check(len(got) == len(want), 'count', lambda: '{} -> {}'.format(objs, got))
    ctx.check(all(same(g, objs[i]) for g, i in zip(got, want)), 'order', lambda: '{} -> {}'.format(objs, got))
    if len(want) < len(objs):
        ctx.seen('d', style, [str(o) for o in objs])
        ctx.count('removed')
    ctx.sample('{} objects, {} distinct'.format(len(objs), len(want)))


def graph(rng, nmax):
    n = int(rng.randint(0, nmax + 1))
    style = rng.randint(5)
    A = np.zeros((n, n), dtype=bool)
    p = [0.15, 0.4, 0.7, 0.9, 1.0][style]
    if n > 14:
        p = [0.5, 1.0, 1.5, 3.0, 8.0][style] / n
    for i, j in it.combinations(range(n), 2):
        if rng.rand() < p:
            A[i, j] = A[j, i] = True
    if rng.rand() < 0.2 and n > 2:          # disjoint blocks
        b = rng.randint(0, 3, size=n)
        A &= b[:, None] == b[None, :]
    adj = []
    for i in range(n):
        nb = [int(j) for j in np.where(A[i])[0]]
        rng.shuffle(nb)
        adj.append(nb if rng.rand() < 0.7 else np.array(nb, dtype=int))
    return n, A, adj


def cliques(ctx, rng, idx):
    n, A, adj = graph(rng, 9)
    before = [list(a) for a in adj]
    got = qt.maximal_cliques(adj)
    ctx.check([list(a) for a in adj] == before, 'mutated', 'adjacency lists modified')
    sets = [frozenset(int(x) for x in c) for c in got]
    # brute force
    good = [m for m in range(1, 2 ** n) if all(A[i, j] for i, j in it.combinations([b for b in range(n) if m >> b & 1], 2))]
    gs = set(good)
    want = {m for m in good if not any((m | 1 << b) in gs for b in range(n) if not m >> b & 1)}
    want = {frozenset(b for b in range(n) if m >> b & 1) for m in want}
    what = lambda: 'graph {}: {}'.format(before, got)
    if n == 0:
        ctx.check(all(len(s) == 0 for s in sets), 'empty', what)
    else:
        ctx.check(all(len(c) == len(s) for c, s in zip(got, sets)), 'repeated-node', what)
        ctx.check(len(set(sets)) == len(sets), 'repeated-clique', what)
        ctx.check(set(sets) == want, 'cliques', what)
    if 1 < len(want) < n:
        ctx.seen('c', before)
        ctx.count('nontrivial-cliques')
    ctx.sample('{} cliques of {} nodes'.format(len(want), n))


def bigger(ctx, rng, idx):
    """larger graphs, against a bitmask clique enumeration that extends cliques one node at a time"""
    n = int(rng.randint(10, 26))
    p = rng.choice([0.1, 0.25, 0.4, 0.55])
    A = np.triu(rng.rand(n, n) < p, 1)
    if rng.rand() < 0.3:                    # disjoint cliques joined by a few edges
        b = rng.randint(0, 4, size=n)
        A = np.triu((b[:, None] == b[None, :]) ^ (rng.rand(n, n) < 0.04), 1)
    A = A | A.T
    adj = [[int(j) for j in rng.permutation(np.where(A[i])[0])] for i in range(n)]
    nb = [sum(1 << int(j) for j in adj[i]) for i in range(n)]
    want, level = set(), {(1 << i, nb[i]) for i in range(n)}
    while level:
        nxt = set()
        for c, common in level:
            if not common:
                want.add(c)
            for b in range(c.bit_length(), n):
                if common >> b & 1:
                    nxt.add((c | 1 << b, common & nb[b]))
        level = nxt
        if len(level) > 20000:
            raise Skip('too many cliques')
    got = [frozenset(int(x) for x in c) for c in qt.maximal_cliques(adj)]
    what = lambda: 'graph of {} nodes: {}'.format(n, adj)
    ctx.check(len(set(got)) == len(got), 'repeated-clique', what)
    ctx.check({sum(1 << x for x in c) for c in got} == want, 'cliques', what)
    ctx.seen('b', adj)
    ctx.count('large-graphs')
    ctx.sample('{} cliques of {} nodes'.format(len(want), n))


def components(ctx, rng, idx):
    n, A, adj = graph(rng, 14 if rng.rand() < 0.8 else 45)
    before = [list(a) for a in adj]
    label = list(range(n))
    for i in range(n):
        for j in range(n):
            if A[i, j] and label[i] != label[j]:
                old, new = label[j], label[i]
                label = [new if x == old else x for x in label]
    want = {frozenset(i for i in range(n) if label[i] == c) for c in set(label)}
    dist = np.full((n, n), np.inf)
    for i in range(n):
        dist[i, i] = 0
        fr = [i]
        while fr:
            nx = []
            for a in fr:
                for b in range(n):
                    if A[a, b] and np.isinf(dist[i, b]):
                        dist[i, b] = dist[i, a] + 1
                        nx.append(b)
            fr = nx
    for mode in (None, 'DFS', 'BFS'):
        got = qt.connected_components(adj) if mode is None else qt.connected_components(adj, mode=mode)
        what = lambda: 'graph {} mode {}: {}'.format(before, mode, got)
        ctx.check([list(a) for a in adj] == before, 'mutated', 'adjacency lists modified')
        sets = [frozenset(int(x) for x in c) for c in got]
        ctx.check(sum(len(c) for c in got) == n and len(set(sets)) == len(sets) and set(sets) == want, 'components', what)
        if mode == 'BFS':       # breadth first: distance from the first node never decreases
            for c in got:
                d = [dist[c[0], x] for x in c]
                ctx.check(all(a <= b for a, b in zip(d, d[1:])), 'bfs-order', what)
    if n:
        ctx.raises(ValueError, 'mode', qt.connected_components, adj, mode='bogus')
    if 1 < len(want) < n:
        ctx.seen('g', before)
        ctx.count('nontrivial-components')
    ctx.sample('{} components of {} nodes'.format(len(want), n))


def rewrite(s, sub):
    """left to right, longest name first"""
    names = sorted(sub, key=len, reverse=True)
    out, i = '', 0
    while i < len(s):
        for nm in names:
            if nm and s.startswith(nm, i):
                out += sub[nm]
                i += len(nm)
                break
        else:
            out += s[i]
            i += 1
    return out


ALPH = ['A', 'B', 'Up', 'Dn', 'U', 'p', '1', '2', '12', '(', ')', ' ', '.', '*', 'a+', '[x]', '\\', '$', '|', '  ', 'a ', ' a', 'a', 'b', 'AB', '\t']


def text(rng, k):
    return ''.join(ALPH[i] for i in rng.randint(0, len(ALPH), size=k))


def strings(ctx, rng, idx):
    s = text(rng, int(rng.randint(0, 15)))
    sub = {}
    for _ in range(rng.randint(0, 5)):
        k = text(rng, int(rng.randint(1, 3)))
        if sub and rng.rand() < 0.4:          # one name is a part of another
            j = list(sub)[rng.randint(len(sub))]
            k = [j + text(rng, 1), text(rng, 1) + j, j + ' ', j.upper()][rng.randint(4)]
            s = s + k + j if rng.rand() < 0.5 else k + s
        if k:
            sub[k] = text(rng, int(rng.randint(0, 3)))
    sub0 = dict(sub)
    got = qt.replace(s, sub)
    ctx.check(sub == sub0, 'mutated', 'substitutions modified')
    ctx.check(got == rewrite(s, sub), 'replace', lambda: '{!r} {!r} -> {!r} expected {!r}'.format(s, sub, got, rewrite(s, sub)))
    a, b = text(rng, int(rng.randint(1, 3))), text(rng, int(rng.randint(1, 3)))
    s = ''.join([a, b, text(rng, 1)][i] for i in rng.randint(0, 3, size=rng.randint(0, 8)))
    w = rewrite(s, {a: b, b: a})
    got = qt.swap(s, a, b)
    ctx.check(got == w, 'swap', lambda: '{!r} {!r} {!r} -> {!r} expected {!r}'.format(s, a, b, got, w))
    ctx.check(qt.swap(s, b, a) == w, 'swap-symmetric', lambda: '{!r} {!r} {!r}'.format(s, a, b))
    if w != s:
        ctx.seen('s', s, a, b)
        ctx.count('rewritten')
    ctx.sample('swap({!r},{!r},{!r}) -> {!r}'.format(s, a, b, w))


FAMILIES = [
    Family('perms', perms, 300, 8000, require=200),
    Family('order', order, 300, 8000, require=200),
    Family('duplicates', duplicates, 300, 8000, require=200),
    Family('cliques', cliques, 300, 6000, require=200),
    Family('bigger', bigger, 60, 1500, require=40),
    Family('components', components, 300, 6000, require=200),
    Family('strings', strings, 300, 8000, require=200),
]
REQUIRED_COUNTERS = ['odd', 'even', 'reordered', 'removed', 'nontrivial-cliques', 'large-graphs', 'nontrivial-components', 'rewritten']
