"""C16  matrix representations and exact diagonalization."""
import numpy as np
import scipy.sparse as ss
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G

PROP = 'C16'
RULE = ('A case draws Pauli strings/operators (real or complex) on up to 6 orbitals (up to 11 through the action on state vectors) and compares matrices, coefficient vectors, '
        'operators rebuilt from matrices, and eigenvalues/eigenvectors of Pauli, Majorana and Fermion operators with independent '
        'dense matrices. Non-trivial = the operator has at least two strings or acts on two or more orbitals.')
ASSUMPTIONS = ['at most 11 orbitals', 'for Fermion input the identity component is dropped by convert(), so energies are compared up to it',
               'sparse solver: eigenpairs and lowest energy only (ARPACK may miss degenerate copies)']


def dense(M):
    return np.asarray(M.toarray() if ss.issparse(M) else M)


def matrix(ctx, rng, idx):
    n = int(rng.randint(1, 7))
    pool = list(range(n))
    A = G.operator(rng, 'Pauli', pool, n=int(rng.randint(1, 7)))
    B = G.operator(rng, 'Pauli', pool, n=int(rng.randint(1, 4)))
    PA, PB = O.op_poly(A), O.op_poly(B)
    MA, MB = qy.to_matrix(A, n), qy.to_matrix(B, n)
    ctx.check(MA.shape == (2 ** n, 2 ** n), 'shape', str(MA.shape))
    DA, DB = dense(MA), dense(MB)
    ctx.check(np.abs(DA - O.poly_dense(PA, n)).max() < 1e-10, 'matrix', lambda: G.desc(A))
    s = G.opstring(rng, 'Pauli', pool)
    ctx.check(np.abs(dense(qy.to_matrix(s, n)) - O.poly_dense(O.os_poly(s), n)).max() < 1e-12, 'string-matrix', str(s))
    # faithful: products, sums
    # terms are not lost next to much larger ones: strings with different patterns of flips do not share entries
    flips = lambda t: tuple(sorted(l for o, l in zip(t.orbital_operators, t.orbital_labels) if o != 'Z'))
    apart = {}
    for t in [s] + [t for _, t in A] + [t for _, t in B]:
        apart.setdefault(flips(t), t)
    sizes = [10 ** rng.uniform(-14, 4) for _ in apart]
    Dw = dense(qy.to_matrix(qy.Operator(np.array(sizes), list(apart.values())), n))
    for x, t in zip(sizes, apart.values()):
        E = x * O.poly_dense(O.os_poly(t), n)
        on = np.abs(E) > 0
        ctx.check(np.abs(Dw - E)[on].max() < 1e-9 * x, 'relative-accuracy', lambda: '{} times {} among {} {}'.format(x, t, sizes, [str(u) for u in apart.values()]))
    if len(apart) > 1:
        ctx.count('scales')
    if n <= 4:
        ctx.check(np.abs(dense(qy.to_matrix(qy.product(A, B), n)) - DA @ DB).max() < 1e-8, 'homomorphism', lambda: G.desc(A) + ' * ' + G.desc(B))
    ctx.check(np.abs(dense(qy.to_matrix(A + B, n)) - DA - DB).max() < 1e-9, 'sum', lambda: G.desc(A) + ' + ' + G.desc(B))
    bad = G.opstring(rng, 'Pauli', [n, n + int(rng.randint(1, 5))], k=1)
    ctx.raises(Exception, 'label-out-of-range', qy.to_matrix, bad, n)
    ctx.raises(Exception, 'label-out-of-range', qy.to_matrix, qy.Operator([1.0], [bad]), n)
    if len(PA) > 1 or n > 1:
        ctx.seen(n, G.desc(A))
    ctx.sample('{} on {} orbitals'.format(G.desc(A), n))


def vector(ctx, rng, idx):
    n = int(rng.randint(1, 5))
    pool = list(range(n))
    style = rng.randint(3)
    if style == 0 and n <= 3:
        basis = qy.cluster_basis(n, pool, 'Pauli', include_identity=bool(rng.randint(2)))
    else:
        basis = qy.Basis(G.distinct_strings(rng, 'Pauli', pool, int(rng.randint(1, 9))))
    polys = [O.os_poly(s) for s in basis]
    D = 2 ** n
    if rng.rand() < 0.5:
        op = G.operator(rng, 'Pauli', pool, n=int(rng.randint(1, 6)))
        M = qy.to_matrix(op, n)
        M = [M, M.toarray(), M.tocsc()][rng.randint(3)]
        X = O.poly_dense(O.op_poly(op), n)
    elif rng.rand() < 0.4:                      # Hermitian up to a small part
        X = rng.normal(size=(D, D)) + 1j * rng.normal(size=(D, D))
        Y = rng.normal(size=(D, D)) + 1j * rng.normal(size=(D, D))
        X = X + X.conj().T + 10.0 ** rng.uniform(-9, -3) * (Y - Y.conj().T)
        M = [X.copy(), ss.csr_matrix(X)][rng.randint(2)]
        ctx.count('nearly-hermitian')
    else:
        X = rng.normal(size=(D, D)) + 1j * rng.normal(size=(D, D))
        M = [X.copy(), ss.csr_matrix(X)][rng.randint(2)]
    v = qy.to_vector(M, basis, n)
    want = np.array([np.trace(O.poly_dense(P, n).conj().T @ X) / D for P in polys])
    ctx.check(np.asarray(v).shape == (len(polys),) and np.abs(v - want).max() < 1e-11, 'vector', lambda: '{} expected {}'.format(v, want))
    r = qy.to_operator(M, basis, n)
    ctx.check(isinstance(r, qy.Operator) and O.pdiff(O.op_poly(r), O.lincomb(want, polys)) < 1e-11, 'operator', lambda: G.desc(r))
    if len(basis) == 4 ** n:
        ctx.check(np.abs(O.poly_dense(O.op_poly(r), n) - X).max() < 1e-9, 'complete', 'matrix not reproduced in the complete basis')
        ctx.count('complete-bases')
    if rng.rand() < 0.3:
        # a string on an orbital that the matrix does not have
        extra = G.opstring(rng, 'Pauli', [int(l) for l in rng.choice(n + 3, rng.randint(0, min(n, 2) + 1), replace=False) if l < n] + [n + int(rng.randint(3))])
        if any(int(l) >= n for l in extra.orbital_labels):
            strs = [s for s in basis]
            strs.insert(int(rng.randint(len(strs) + 1)), extra)
            wider = qy.Basis(strs)
            ctx.raises(ValueError, 'vector-outside', lambda: 'to_vector of {} orbitals in {} -> {}'.format(n, [str(s) for s in wider], qy.to_vector(M, wider, n)))
            ctx.raises(ValueError, 'operator-outside', lambda: 'to_operator of {} orbitals in {} -> {}'.format(n, [str(s) for s in wider], qy.to_operator(M, wider, n)))
            ctx.count('outside')
    ctx.seen(n, [str(s) for s in basis], np.round(want, 6).tolist())
    ctx.sample('{} strings on {} orbitals'.format(len(basis), n))


def fermion_op(rng, pool):
    out, seen = [], set()
    for _ in range(rng.randint(1, 6)):
        s = G.fermion_string(rng, pool)
        k = (G.key_of(s)[2:], s.prefactor)
        if k not in seen:
            seen.add(k)
            out.append(s)
    return qy.Operator([G.coeff(rng) for _ in out], out, op_type='Fermion')


def eigen(ctx, rng, idx):
    typ = ['Pauli', 'Majorana', 'Fermion', 'Pauli'][idx % 4]
    n = int(rng.randint(1, 6))
    pool = list(range(n))
    cplx = idx % 8 == 3
    op = fermion_op(rng, pool) if typ == 'Fermion' else G.operator(rng, typ, pool, n=int(rng.randint(1, 7)), complex_=cplx)
    P = O.op_poly(op)
    H = O.poly_dense(P, n)
    D = 2 ** n
    arg = op
    if rng.rand() < 0.15 and typ != 'Fermion':
        arg = [s for c, s in op][0]
        H = O.poly_dense(O.os_poly(arg), n)
        cplx = False
    what = lambda: '{} on {} orbitals'.format(G.desc(arg), n)
    if cplx:
        w, V = qy.diagonalize(arg, n, mode='general')
        ctx.check(w.shape == (D,) and V.shape == (D, D), 'shape', str(V.shape))
        ctx.check(np.abs(H @ V - V * w).max() < 1e-8 * max(1, np.abs(H).max() * D), 'eigenpairs', what)
        ctx.check(abs(w.sum() - np.trace(H)) < 1e-7 * D and abs((w ** 2).sum() - np.trace(H @ H)) < 1e-7 * D * max(1, np.abs(H @ H).max()), 'moments', what)
        ctx.count('general')
        if D >= 8:
            k = int(rng.randint(1, D - 2))
            try:
                w, V = qy.diagonalize(arg, n, mode='general', num_vecs=k)
            except Exception as e:
                if 'Arpack' in type(e).__name__:
                    ctx.count('arpack-no-convergence')
                    return
                raise
            ctx.check(w.shape == (k,) and V.shape == (D, k), 'shape-num_vecs', lambda: '{}: {} {} for num_vecs={}'.format(what(), w.shape, V.shape, k))
            ctx.check(np.abs(H @ V - V * w).max() < 1e-6 * max(1, np.abs(H).max() * D), 'eigenpairs-num_vecs', what)
            ctx.count('general-num_vecs')
        return
    shift = np.trace(H).real / D
    if typ == 'Fermion':
        H0 = H - shift * np.eye(D)
    else:
        H0 = H
    full = np.linalg.eigvalsh(H0)
    w, V = qy.diagonalize(arg, n)
    tol = 1e-9 * max(1.0, np.abs(full).max()) * D
    if typ == 'Fermion' and abs(w[0] - full[0]) > tol and abs(w[0] - full[0] - shift) < tol:   # identity kept: also right
        H0, full = H, full + shift
    ctx.check(w.shape == (D,) and np.abs(w - full).max() < tol, 'spectrum', lambda: what() + ': {} expected {}'.format(w, full))
    ctx.check(V.shape == (D, D) and np.abs(H0 @ V - V * w).max() < tol and np.abs(V.conj().T @ V - np.eye(D)).max() < 1e-9, 'eigenvectors', what)
    if D >= 4 and rng.rand() < 0.6:
        k = int(rng.randint(1, min(4, D - 1)))
        try:
            w, V = qy.diagonalize(arg, n, num_vecs=k)
        except Exception as e:
            if 'Arpack' in type(e).__name__:
                ctx.count('arpack-no-convergence')
                return
            raise
        w, V = np.asarray(w), np.asarray(V)
        stol = 1e-6 * max(1.0, np.abs(full).max())
        ctx.check(w.shape == (k,) and V.shape == (D, k), 'sparse-shape', str(V.shape))
        ctx.check(np.all(np.diff(w) >= -stol), 'sparse-order', str(w))
        ctx.check(np.abs(H0 @ V - V * w).max() < stol and abs(w[0] - full[0]) < stol, 'sparse-eigenpairs', lambda: what() + ': {} expected {}'.format(w, full[:k]))
        ctx.check(all(w[i] >= full[i] - stol for i in range(k)) and all(np.abs(full - x).min() < stol for x in w), 'sparse-spectrum', lambda: what() + ': {}'.format(w))
        ctx.count('sparse')
    ctx.count('type ' + typ)
    ctx.seen(G.desc(op))
    ctx.sample(what())


def action(P, vec, n):
    """Pauli polynomial applied to a state vector, orbital 0 being the most significant bit"""
    out = np.zeros(len(vec), dtype=complex)
    conf = np.arange(len(vec))
    for (x, z), c in P.items():
        mx = sum(1 << (n - 1 - j) for j in range(n) if (x >> j) & 1)
        mz = sum(1 << (n - 1 - j) for j in range(n) if (z >> j) & 1)
        par = np.zeros(len(vec), dtype=int)
        t = conf & mz
        while t.any():
            par ^= t & 1
            t = t >> 1
        ny = bin(x & z).count('1')
        # P = prod over orbitals of X^x Z^z with Y = i X Z
        out[conf ^ mx] += c * (1j ** ny) * np.where(par, -1.0, 1.0) * vec
    return out


def wide(ctx, rng, idx):
    """more orbitals and coefficients over many orders of magnitude, through the action on state vectors"""
    n = int(rng.randint(6, 12)) if idx % 12 else int(rng.randint(12, 14))
    pool = list(range(n))
    A = G.operator(rng, 'Pauli', pool, n=int(rng.randint(1, 9 if n < 12 else 4)) if n > 11 or rng.rand() < 0.7 else int(rng.randint(20, 60)), wide=rng.rand() < 0.6)
    if len(A) > 20 and rng.rand() < 0.6:          # a few terms far smaller than the many others
        A = qy.Operator([c * (10.0 ** rng.uniform(-10, -6) if rng.rand() < 0.1 else 1) for c in G.operator(rng, 'Pauli', pool, n=len(A)).coeffs], [s for _, s in A])
        ctx.count('tiny-terms')
    ctx.count('many-terms', int(len(A) > 20))
    if idx % 20 == 0:
        v = rng.normal(size=2 ** 3) + 0j
        Q = O.op_poly(G.operator(rng, 'Pauli', [0, 1, 2], n=5))
        ctx.check(np.abs(action(Q, v, 3) - O.poly_dense(Q, 3) @ v).max() < 1e-12, 'self-test', 'the two oracles disagree')
    PA = O.op_poly(A)
    M = qy.to_matrix(A, n)
    ctx.check(M.shape == (2 ** n, 2 ** n), 'shape', str(M.shape))
    big = max(abs(c) for c in PA.values()) if PA else 1.0
    what = lambda: '{} on {} orbitals'.format(G.desc(A), n)
    for _ in range(2):
        v = rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n)
        ctx.check(np.abs(M @ v - action(PA, v, n)).max() < 1e-11 * big * max(1, np.abs(v).max()), 'action', what)
    # every coefficient is recovered, the small ones too
    strs = [s for _, s in A]
    basis = qy.Basis([strs[i] for i in rng.permutation(len(strs))])
    vec = np.asarray(qy.to_vector(M, basis, n))
    want = {G.key_of(s)[2]: c for c, s in A}
    for c, s in zip(vec, basis):
        w = want[G.key_of(s)[2]]
        ctx.check(abs(c - w) < 1e-9 * abs(w) + 1e-13 * big, 'coefficient', lambda: what() + ': {} -> {} expected {}'.format(s, c, w))
    R = qy.to_operator(M, basis, n)
    got = {G.key_of(s)[2]: c for c, s in R}
    ctx.check(all(abs(got.get(k, 0) - w) < 1e-9 * abs(w) + 1e-13 * big for k, w in want.items()) and len(got) <= len(want), 'rebuilt', what)
    for s in strs[:2]:
        ctx.check(np.abs(qy.to_matrix(s, n) @ v - action(O.os_poly(s), v, n)).max() < 1e-11, 'string-action', str(s))
    # lowest levels by the sparse solver
    if idx % 2 == 0 and n <= 9:
        typ = ['Pauli', 'Majorana', 'Fermion'][idx // 2 % 3]
        scale = 10.0 ** rng.uniform(-2, 2)
        op = (fermion_op(rng, pool) if typ == 'Fermion' else G.operator(rng, typ, pool, n=int(rng.randint(2, 9)), complex_=False)) * scale
        P = O.op_poly(op)
        if typ == 'Fermion':
            P = O.pdrop_identity(P)
        H = O.poly_dense(P, n)
        full = np.linalg.eigvalsh(H)
        tol = 1e-8 * max(scale, np.abs(full).max())
        w, V = qy.diagonalize(op, n)
        w = np.asarray(w)
        d = (w - full).mean() if typ == 'Fermion' else 0.0
        if typ == 'Fermion' and abs(d - O.op_poly(op).get((0, 0), 0)) > tol:
            d = 0.0
        ctx.check(w.shape == full.shape and np.abs(w - full - d).max() < tol, 'spectrum', lambda: '{} on {} orbitals'.format(G.desc(op), n))
        k = int(rng.randint(1, 7))
        try:
            w, V = qy.diagonalize(op, n, num_vecs=k)
            ctx.check(w.shape == (k,) and V.shape == (2 ** n, k) and np.abs(H @ V + d * V - V * w).max() < 1e3 * tol and abs(w[0] - full[0] - d) < 1e3 * tol
                      and np.all(np.diff(w) >= 0), 'sparse', lambda: '{} on {} orbitals: {} expected {}'.format(G.desc(op), n, w, full[:k]))
            ctx.count('wide-sparse')
        except Exception as e:
            if 'Arpack' not in type(e).__name__:
                raise
        ctx.count('wide-spectra ' + typ)
    ctx.count('many-orbitals', int(n > 11))
    ctx.count('orbitals {}'.format(n))
    ctx.seen(n, G.desc(A))
    ctx.sample(what())


FAMILIES = [
    Family('wide', wide, 60, 900, require=30),
    Family('matrix', matrix, 250, 4000, require=100),
    Family('vector', vector, 200, 3000, require=80),
    Family('eigen', eigen, 300, 5000, require=100),
]
REQUIRED_COUNTERS = ['tiny-terms', 'many-terms', 'nearly-hermitian', 'outside', 'scales', 'wide-sparse', 'wide-spectra Pauli', 'wide-spectra Majorana', 'wide-spectra Fermion', 'complete-bases', 'general', 'sparse', 'type Pauli', 'type Majorana', 'type Fermion']
