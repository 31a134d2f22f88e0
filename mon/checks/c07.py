"""C07  distance bases contain exactly the spatially local strings."""
import itertools as it
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import lat

PROP = 'C07'
RULE = ('A case draws a lattice (chain, square, cubic, kagome, triangular, honeycomb, random oblique cells with several '
        'orbitals; open and periodic), a range R (often exactly a shell distance), k, a type, allowed orbitals and the '
        'identity option, and compares the basis with a brute-force enumeration over independently computed distances; '
        'non-trivial = the basis holds a multi-orbital string and R excludes some pair, or allowed orbitals are restricted.')
ASSUMPTIONS = ['R is at least 1e-6 away from every orbital distance it does not equal']


def expected(D, k, R, typ, allowed, ident):
    n = len(D)
    ks = set(range(k + 1)) if isinstance(k, int) else set(int(x) for x in k)
    ok = lambda c: all(D[a, b] <= R + 1e-8 for a, b in it.combinations(c, 2))
    out = set()
    if ident:
        out.add((typ, '(1+0j)', ()))
    km = max(ks)
    for m in range(1, min(km, len(allowed)) + 1):
        if m not in ks:
            continue
        for I in it.combinations(sorted(allowed), m):
            if not ok(I):
                continue
            if typ != 'Fermion':
                names = O.PAULI if typ == 'Pauli' else O.MAJ
                for ops in it.product(names, repeat=m):
                    pf = O.maj_prefactor(ops) if typ == 'Majorana' else 1.0
                    out.add((typ, str(complex(pf)), tuple(zip(ops, I))))
            else:
                for l in range(0, m + 1):
                    for J in it.combinations(sorted(allowed), l):
                        if not ok(sorted(set(I) | set(J))):
                            continue
                        body = tuple([('CDag', i) for i in I] + [('C', j) for j in J[::-1]])
                        if I == J:
                            out.add((typ, str(complex(1)), body))
                        elif (l, J) < (m, I):
                            out.add((typ, str(complex(1)), body))
                            out.add((typ, str(complex(1j)), body))
    return out


def distance(ctx, rng, idx):
    typ = ('Pauli', 'Majorana', 'Fermion')[rng.randint(3)]
    sp = lat.spec(rng, max_orb=12 if typ != 'Fermion' else 8)
    n = len(sp.sites)
    L = sp.make()
    D = sp.distances()
    shells = sorted(set(np.round(D.ravel(), 7)))
    shells = [s for i, s in enumerate(shells) if i == 0 or s - shells[i - 1] > 1e-5]
    small = shells[:5]
    s = float(small[rng.randint(len(small))])
    style = rng.randint(4)
    exact = [float(x) for x in D.ravel() if abs(x - s) < 1e-6]
    R = exact[0] if style < 2 else (s + 1e-3 if style == 2 else s * rng.uniform(0.5, 0.99))
    if rng.rand() < 0.25 and s > 0:      # just below or above a distance
        R = s * (1 + float(rng.choice([-1, 1])) * 10 ** rng.uniform(-6.5, -2.5))
        ctx.count('close-to-a-distance')
    if rng.rand() < 0.1:
        R = 100.0
    off = np.abs(D - R)
    if np.any((off > 1e-11) & (off < 1e-7)):
        raise Skip('R too close to a distance')
    k = int(rng.randint(1, 4)) if n <= 8 and typ != 'Fermion' else int(rng.randint(1, 3))
    if rng.rand() < 0.25:
        k = [int(rng.randint(1, k + 1))]
    ident = bool(rng.rand() < 0.4)
    allowed, kw = list(range(n)), {}
    if rng.rand() < 0.4 and n > 1:
        allowed = sorted(int(x) for x in rng.choice(n, rng.randint(1, n + 1), replace=False))
        a = [allowed[i] for i in rng.permutation(len(allowed))]
        kw['allowed_orbitals'] = np.array(a) if rng.rand() < 0.3 else a
    if ident:
        kw['include_identity'] = True
    B = qy.distance_basis(L, k, R, typ, **kw)
    want = expected(D, k, R, typ, allowed, ident)
    got = [G.key_of(s) for s in B]
    ctx.check(len(got) == len(set(got)), 'duplicates', 'a string occurs twice')
    ctx.check(set(got) == want, 'content', lambda: '{} k={} R={} {} {}: missing {} extra {}'.format(
        sp.desc(), k, R, typ, kw, sorted(map(str, want - set(got)))[:4], sorted(map(str, set(got) - want))[:4]))
    for i in range(0, len(B), 7):
        ctx.check(B.index(B[i]) == i, 'index', 'wrong index')
    if any(len(g[2]) > 1 for g in got) and (np.any(D > R) or len(allowed) < n):
        ctx.seen(sp.desc(), str(k), round(R, 6), typ, str(allowed), ident)
        ctx.count('restricting')
    ctx.count('periodic' if any(sp.periodic) else 'open')
    ctx.count('strings', len(B))
    ctx.sample('{} k={} R={:.4g} {} -> {} strings'.format(sp.desc(), k, R, typ, len(B)))


def large(ctx, rng, idx):
    """more orbitals than the small lattices: one- and two-orbital strings of chains, ladders and planes"""
    sp = lat.big(rng)
    n = len(sp.sites)
    L = sp.make()
    D = sp.distances()
    shells = sorted(set(np.round(D.ravel(), 6)))
    # shells in between have too many maximal cliques for the library to enumerate
    R = float(shells[int(rng.choice([1, 2, 3, 4 if sp.dim == 1 else 1, -1]))]) + 1e-3
    if np.abs(D - R).min() < 1e-6:
        raise Skip('R too close to a distance')
    typ = ('Pauli', 'Majorana', 'Fermion')[rng.randint(3)]
    if (D <= R).sum() > 700 and typ == 'Fermion':
        typ = 'Pauli'
    k = [2, [2], [1, 2]][rng.randint(3)]
    allowed, kw = list(range(n)), {}
    if rng.rand() < 0.3:
        allowed = sorted(int(x) for x in rng.choice(n, rng.randint(n // 2, n + 1), replace=False))
        kw['allowed_orbitals'] = [allowed[i] for i in rng.permutation(len(allowed))]
    B = qy.distance_basis(L, k, R, typ, **kw)
    want = expected(D, k, R, typ, allowed, False)
    got = [G.key_of(s) for s in B]
    ctx.check(len(got) == len(set(got)), 'duplicates', 'a string occurs twice')
    ctx.check(set(got) == want, 'content', lambda: '{} k={} R={} {} {}: missing {} extra {}'.format(
        sp.desc(), k, R, typ, kw, sorted(map(str, want - set(got)))[:4], sorted(map(str, set(got) - want))[:4]))
    for i in range(0, len(B), 29):
        ctx.check(B.index(B[i]) == i, 'index', 'wrong index')
    if any(len(g[2]) == 2 and abs(g[2][0][1] - g[2][1][1]) > n // 2 for g in got):
        ctx.count('distant-labels')         # close in space, far apart in numbering
    ctx.seen(sp.desc(), str(k), round(R, 6), typ, str(allowed))
    ctx.count('strings', len(B))
    ctx.sample('{} orbitals k={} R={:.4g} {} -> {} strings'.format(n, k, R, typ, len(B)))


FAMILIES = [
    Family('large', large, 24, 400, require=12),
    Family('distance', distance, 700, 9000, require=80),
]
REQUIRED_COUNTERS = ['close-to-a-distance', 'restricting', 'periodic', 'open', 'distant-labels']
