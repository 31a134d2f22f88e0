"""C14  symmetrized bases."""
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import transf as T
from ..spaces import check_space

PROP = 'C14'
RULE = ('A case draws generators of a permutation group (random permutations, transpositions generating symmetric groups, '
        'translations and reflections, redundant and identity generators) and a basis (cluster or random strings, not '
        'necessarily closed), and compares the symmetrized operators with group averages over the independently generated '
        'group. Non-trivial = group order > 1 and at least one operator returned with more than one string.')
ASSUMPTIONS = ['group order at most 1500, at most 60 orbitals', 'generators are label permutations']


def draw_group(rng):
    n = int(rng.randint(1, 7))
    style = rng.randint(6)
    ident = list(range(n))
    if style == 0:
        gens = [[(i + 1) % n for i in range(n)]]
    elif style == 1:
        gens = [[(i + 1) % n for i in range(n)], [n - 1 - i for i in range(n)]]
    elif style == 2 and 2 <= n <= 5:
        gens = []
        for i in range(n - 1):
            p = list(ident)
            p[i], p[i + 1] = p[i + 1], p[i]
            gens.append(p)
    elif style == 3:
        gens = [list(map(int, rng.permutation(n))) for _ in range(rng.randint(1, 4))]
    elif style == 4:
        _, sp = T.space_group(rng)
        return None, [sp]
    else:
        p = list(map(int, rng.permutation(n)))
        gens = [p, list(np.argsort(p))]
    if rng.rand() < 0.2:
        gens.append(list(ident))
    if rng.rand() < 0.2:
        gens.append(list(gens[0]))
    return n, [[int(x) for x in gens[i]] for i in rng.permutation(len(gens))]


def group_of(gens, limit=130):
    n = len(gens[0])
    seen, order = {tuple(range(n))}, [tuple(range(n))]
    for g in order:
        for h in gens:
            k = tuple(h[i] for i in g)
            if k not in seen:
                seen.add(k)
                order.append(k)
                if len(order) > limit:
                    raise Skip('large group')
    return order


def image(s, perm):
    return T.Spec('', None, lambda typ, o, l: [(1.0, o, perm[l])]).image_os(s)


def wide(ctx, rng, idx):
    """many orbitals: translations and reflections of chains of 10 to 60 orbitals, ladders, products of disjoint cycles"""
    n = int(rng.randint(10, 60))
    style = rng.randint(4)
    if style == 0:
        t = int(rng.choice([k for k in range(1, n) if n // np.gcd(n, k) <= 60]))
        gens = [[(i + t) % n for i in range(n)], [n - 1 - i for i in range(n)]]
    elif style == 1:                     # n // 2 rungs of two
        n = 2 * (n // 2)
        gens = [[(i + 2) % n for i in range(n)], [i ^ 1 for i in range(n)]]
    elif style == 2:                     # disjoint cycles of short lengths
        p, i = list(range(n)), 0
        o = [int(x) for x in rng.permutation(n)]
        while i < n:
            k = int(rng.choice([1, 2, 3, 4, 6]))
            for a, b in zip(o[i:i + k], o[i + 1:i + k] + o[i:i + 1]):
                p[a] = b
            i += k
        gens = [p]
    else:                                # the orbitals of two species, shifted together
        m = n // 2
        n = 2 * m
        gens = [[(i + 1) % m + m * (i // m) for i in range(m)] + [(i - m + 1) % m + m for i in range(m, n)], [(i + m) % n for i in range(n)]]
    gens = [gens[i] for i in rng.permutation(len(gens))]
    symmetrize(ctx, rng, idx, (n, gens))
    ctx.count('wide')


def large(ctx, rng, idx):
    """groups of more than a hundred elements: S5, S6, A6, wreath products, products of disjoint cycles"""
    k = idx % 5
    if k == 0:
        n = 5 + idx // 5 % 2
        gens = [[1, 0] + list(range(2, n)), [(i + 1) % n for i in range(n)]]
        if rng.rand() < 0.5:
            gens = [list(range(i)) + [i + 1, i] + list(range(i + 2, n)) for i in range(n - 1)]
    elif k == 1:
        n = 6
        gens = [[1, 2, 0, 3, 4, 5], [1, 2, 3, 4, 0, 5], [0, 2, 3, 4, 5, 1]][:2 + int(rng.randint(2))]
    elif k == 2:                          # cyclic, order 3 * 4 * 5 or 3 * 5 * 7 or 5 * 7 * 8
        c = [(3, 4, 5), (3, 5, 7), (5, 7, 8), (2, 7, 9)][rng.randint(4)]
        n = sum(c)
        p, i = [], 0
        for m in c:
            p += [i + (j + 1) % m for j in range(m)]
            i += m
        gens = [p]
    elif k == 3:                          # rungs exchanged one by one, and moved around
        m = int(rng.randint(3, 6))
        n = 2 * m
        gens = [[1, 0] + list(range(2, n)), [(i + 2) % n for i in range(n)]]
    else:                                 # independent chains, each with its own translation
        a, b = int(rng.randint(5, 9)), int(rng.randint(9, 13))
        n = a + b
        gens = [[(i + 1) % a for i in range(a)] + list(range(a, n)), list(range(a)) + [a + (i + 1) % b for i in range(b)]]
        if rng.rand() < 0.5:
            gens.append([a - 1 - i for i in range(a)] + list(range(a, n)))
    rel = [int(x) for x in rng.permutation(n)]
    inv = [rel.index(i) for i in range(n)]
    gens = [[rel[g[inv[i]]] for i in range(n)] for g in gens]
    ctx.count('large-groups')
    symmetrize(ctx, rng, idx, (n, [gens[i] for i in rng.permutation(len(gens))]), 1500, 2)


def symmetrize(ctx, rng, idx, case=None, limit=130, most=None):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n, gens = case or draw_group(rng)
    if n is None:
        tr = [gens[0].transform]
        gens = [gens[0].perm]
        n = len(gens[0])
    else:
        tr = [qy.label_permutation([list(g), np.array(g)][rng.randint(2)]) for g in gens]
    grp = group_of(gens, limit)
    lab = list(range(n))
    if rng.rand() < 0.5 and n <= 4:
        B = qy.cluster_basis(int(rng.randint(1, min(n, 3) + 1)), lab, typ, include_identity=bool(rng.randint(2)))
    else:
        B = qy.Basis(G.distinct_strings(rng, typ, lab, int(rng.randint(1, 16 if n < 10 else 7)) if most is None else int(rng.randint(1, most + 1)), max_k=(None if n < 10 else int(rng.choice([2, 4, 9]))) if most is None else int(rng.randint(1, 4))))
        if n >= 10 and rng.rand() < 0.5:     # images of strings already there
            s = B[rng.randint(len(B))]
            for g in gens:
                B += tr[gens.index(g)].apply(s)._basis
    names = [str(s) for s in B]
    ops = qy.symmetrize_basis(B, list(tr))
    ctx.check([str(s) for s in B] == names, 'input-modified', 'the Basis was modified')
    ctx.check(isinstance(ops, list) and all(isinstance(o, qy.Operator) for o in ops), 'type', str(type(ops)))
    polys = [O.op_poly(o) for o in ops]
    for o, p in zip(ops, polys):
        ctx.check(abs(O.pnorm(p) - 1.0) < 1e-9, 'normalized', lambda: G.desc(o))
        for g in (gens if len(grp) > 24 else grp):
            img = {}
            for c, s in o:
                img = O.padd(img, image(s, g), c)
            ctx.check(O.pdiff(img, p) < 1e-9, 'invariant', lambda: 'group generated by {}: {} is not invariant under {}'.format(gens, G.desc(o), g))
    used = set()
    for p in polys:
        ks = {r for r, a in p.items() if abs(a) > 1e-12}
        ctx.check(not (ks & used), 'disjoint', 'two operators share a string')
        used |= ks
    # group averages of the basis
    avg = []
    for s in B:
        P = {}
        for g in grp:
            P = O.padd(P, image(s, g))
        P = O.pclean(P, 1e-9)
        if P:
            avg.append(P)
    M, _ = O.polys_to_matrix(avg + polys)
    A, P = M[:, :len(avg)], M[:, len(avg):]
    dim = O.rank(A) if avg else 0
    ctx.check(len(ops) == dim, 'count', lambda: 'group generated by {}: {} operators, {} independent averages of {}'.format(gens, len(ops), dim, names))
    if dim:
        ctx.check(O.rank(M) == dim, 'span', lambda: 'group generated by {}: not the averages of {}'.format(gens, names))
    if len(grp) > 1 and any(len(p) > 1 for p in polys):
        ctx.seen(gens, names)
        ctx.count('nontrivial')
    if len(avg) < len(names):
        ctx.count('vanishing-averages')
    if len(gens) > 2:
        ctx.count('many-generators')
    ctx.sample('order {} on {} strings -> {} operators'.format(len(grp), len(names), dim))


FAMILIES = [Family('large', large, 60, 900, require=30), Family('wide', wide, 40, 600, require=20), Family('symmetrize', symmetrize, 400, 5000, require=120)]
REQUIRED_COUNTERS = ['large-groups', 'wide', 'nontrivial', 'vanishing-averages', 'many-generators']
