"""C06  cluster bases: exactly the requested strings, complete and independent."""
import copy
import itertools as it
from math import comb
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G

PROP = 'C06'
RULE = ('A case draws orbital labels (gapped, unsorted, list or array), a support bound k (integer or list), a type and '
        'the identity option and compares the returned basis with an independent enumeration of the documented strings, '
        'their Hermiticity and the rank of the represented operators; non-trivial = at least 2 strings.')
ASSUMPTIONS = ['cluster labels are distinct']


def expected(k, labels, typ, ident):
    labels = sorted(int(l) for l in labels)
    n = len(labels)
    allowed = set(range(k + 1)) if isinstance(k, int) else set(int(x) for x in k)
    out = set()
    if ident:
        out.add((typ, '(1+0j)', ()))
    for m in range(1, n + 1):
        if m not in allowed:
            continue
        if typ != 'Fermion':
            names = O.PAULI if typ == 'Pauli' else O.MAJ
            for ls in it.combinations(labels, m):
                for ops in it.product(names, repeat=m):
                    pf = O.maj_prefactor(ops) if typ == 'Majorana' else 1.0
                    out.add((typ, str(complex(pf)), tuple(zip(ops, ls))))
        else:
            for I in it.combinations(labels, m):
                for l in range(0, m + 1):
                    for J in it.combinations(labels, l):
                        body = tuple([('CDag', i) for i in I] + [('C', j) for j in J[::-1]])
                        if I == J:
                            out.add((typ, str(complex(1)), body))
                        elif (l, J) < (m, I):
                            out.add((typ, str(complex(1)), body))
                            out.add((typ, str(complex(1j)), body))
    return out


def draw(rng, nmax):
    n = rng.randint(1, nmax + 1)
    pool = G.label_pool(rng, n)
    lab = [pool[i] for i in rng.permutation(n)]
    return lab, n


def enumerate_(ctx, rng, idx):
    typ = ('Pauli', 'Majorana', 'Fermion')[idx % 3]
    lab, n = draw(rng, 6 if typ != 'Fermion' else 5)
    kmax = {1: 1, 2: 2, 3: 3, 4: 4, 5: 3, 6: 2}[n]
    if typ == 'Fermion':
        kmax = min(kmax, 2 if n == 5 else 3)
    if rng.rand() < 0.5:
        k = int(rng.randint(1, kmax + 3)) if n <= 3 else int(rng.randint(1, kmax + 1))
    else:
        k = [int(x) for x in rng.permutation(kmax + 2)[:rng.randint(1, 3)]] if n <= 3 else [int(rng.randint(1, kmax + 1))]
        if rng.rand() < 0.3:
            k = np.array(k)
    ident = bool(rng.randint(2))
    arg = np.array(lab) if rng.rand() < 0.3 else list(lab)
    before = copy.deepcopy(arg)
    kw = dict(include_identity=ident) if ident or rng.rand() < 0.5 else {}
    B = qy.cluster_basis(k, arg, typ, **kw)
    ctx.check(np.array_equal(arg, before), 'argument-mutated', 'the list of labels was changed')
    want = expected(k, lab, typ, ident)
    got = [G.key_of(s) for s in B]
    ctx.check(len(got) == len(set(got)), 'duplicates', 'a string occurs twice')
    ctx.check(set(got) == want, 'content', lambda: 'k={} labels={} {}: missing {} extra {}'.format(
        k, lab, typ, sorted(map(str, want - set(got)))[:4], sorted(map(str, set(got) - want))[:4]))
    if not isinstance(k, (list, np.ndarray)) and typ != 'Fermion':
        ctx.check(len(B) == sum(comb(n, m) * 3 ** m for m in range(0 if ident else 1, min(n, k) + 1)), 'count', str(len(B)))
    if not isinstance(k, (list, np.ndarray)) and typ == 'Fermion' and k >= n:
        ctx.check(len(B) == 4 ** n - (0 if ident else 1), 'fermion-count', str(len(B)))
    for i, s in enumerate(B):
        ctx.check(B.index(s) == i and s in B, 'index', 'wrong index')
        P = O.os_poly(s)
        ctx.check(O.pdiff(P, O.pdag(P)) < 1e-12, 'hermitian', lambda: str(s))
        if i > 150:
            break
    if len(B) > 1:
        ctx.seen(typ, tuple(sorted(lab)), str(k), ident)
    ctx.count('strings', len(B))
    ctx.sample('{} k={} labels={} identity={}: {} strings'.format(typ, k, lab, ident, len(B)))


def independent(ctx, rng, idx):
    typ = ('Pauli', 'Majorana', 'Fermion')[idx % 3]
    lab, n = draw(rng, 3)
    ident = bool(rng.randint(2))
    k = n if rng.rand() < 0.6 else int(rng.randint(1, n + 1))
    B = qy.cluster_basis(k, list(lab), typ, include_identity=ident)
    M, _ = O.polys_to_matrix([O.os_poly(s) for s in B])
    r = O.rank(M)
    if r is None:
        raise Skip('rank gap')
    ctx.check(r == len(B), 'independent', lambda: '{} strings span only {} dimensions'.format(len(B), r))
    if k == n and ident:
        ctx.check(r == 4 ** n, 'complete', lambda: 'spans {} of {}'.format(r, 4 ** n))
        ctx.count('complete')
    if typ != 'Fermion':
        Gm = M.conj().T @ M
        ctx.check(np.allclose(Gm, np.eye(len(B))), 'orthonormal', 'strings are not orthonormal')
    ctx.seen('indep', typ, tuple(lab), k, ident)
    ctx.sample('{} labels {} k={}: rank {}'.format(typ, lab, k, r))


def large(ctx, rng, idx):
    """Many orbitals per string, or many orbitals."""
    typ = ('Pauli', 'Majorana', 'Fermion')[idx % 3]
    n, k = [(7, [7]), (8, [8]), (7, [6]), (30, 1), (14, [2]), (9, [1, 2]), (12, 2), (40, [1])][(idx // 3) % 8] if typ != 'Fermion' else \
        [(6, [1, 3]), (6, [4]), (7, [5]), (30, 1), (14, [1]), (7, [2]), (8, [2]), (20, [1])][(idx // 3) % 8]
    off = int(rng.randint(0, 90))
    lab = [off + int(i) for i in rng.permutation(n)]
    B = qy.cluster_basis(k, list(lab), typ)
    want = expected(k, lab, typ, False)
    got = [G.key_of(s) for s in B]
    ctx.check(len(got) == len(set(got)), 'duplicates', 'a string occurs twice')
    ctx.check(set(got) == want, 'large-content', lambda: 'k={} labels={} {}: {} missing {} extra'.format(k, lab, typ, len(want - set(got)), len(set(got) - want)))
    for i in rng.randint(0, len(B), size=20):
        s = B[int(i)]
        ctx.check(B.index(s) == int(i) and s in B, 'index', 'wrong index')
        P = O.os_poly(s)
        ctx.check(O.pdiff(P, O.pdag(P)) < 1e-12, 'hermitian', lambda: str(s))
    ctx.seen(typ, n, str(k), off)
    ctx.count('large')


FAMILIES = [Family('large', large, 24, 96, require=12), Family('enumerate', enumerate_, 500, 6000, require=80), Family('independent', independent, 60, 400, require=20)]
REQUIRED_COUNTERS = ['complete']
