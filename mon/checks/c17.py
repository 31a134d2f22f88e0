"""C17  free-fermion solvers agree with exact many-body physics."""
import itertools as it
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G

PROP = 'C17'
RULE = ('A case draws a quadratic fermionic Hamiltonian (hopping, chemical potentials, pairings; real or imaginary amplitudes; '
        'disordered, Kitaev chains with zero modes, disconnected or untouched orbitals; Fermion or Majorana spelling) and '
        'compares single-particle energies with the exact many-body spectrum, ground state energies, and returned modes through '
        'their commutator with the Hamiltonian. Non-trivial = at least two orbitals are coupled.')
ASSUMPTIONS = ['at most 5 orbitals for many-body spectra (up to 42 through the commutator with the single-particle operators)', 'real coefficients', 'energies up to the identity component, which the conversions drop']


def terms(rng, n, pairing):
    """quadratic Hermitian strings with distinct (i,j,kind)"""
    style = rng.randint(4)
    T = []
    cs = lambda: G.coeff(rng)
    if style == 0:                      # chain with uniform parameters, incl. exact zero modes
        t, mu, D = cs(), float(rng.choice([0.0, 0.0, 0.5, -1.0])), cs()
        if rng.rand() < 0.4:
            D = abs(t)
        for i in range(n - 1):
            T.append((-t, ['CDag', 'C'], [i, i + 1], 1.0))
            if pairing:
                T.append((-D, ['CDag', 'CDag'], [i, i + 1], 1.0))
        if mu:
            T += [(-mu, ['CDag', 'C'], [i, i], 1.0) for i in range(n)]
        if not T:
            T.append((cs(), ['CDag', 'C'], [0, 0], 1.0))
        return T
    p = [0.3, 0.6, 1.0][rng.randint(3)]
    for i in range(n):
        for j in range(i, n):
            if rng.rand() < p:
                if i == j:
                    T.append((cs(), ['CDag', 'C'], [i, i], 1.0))
                else:
                    if rng.rand() < 0.7:
                        T.append((cs(), ['CDag', 'C'], [i, j], 1.0))
                    if rng.rand() < 0.4:
                        T.append((cs(), ['CDag', 'C'], [i, j], 1j))
                    if pairing and rng.rand() < 0.6:
                        T.append((cs(), ['CDag', 'CDag'], [i, j], 1.0))
                    if pairing and rng.rand() < 0.3:
                        T.append((cs(), ['CDag', 'CDag'], [i, j], 1j))
    if not T:
        T.append((cs(), ['CDag', 'C'], [0, n - 1], 1.0))
    if rng.rand() < 0.5:                # the other spelling, c^dag_j c_i with j > i
        T = [(c, o, l[::-1] if o[1] == 'C' else l, p) for c, o, l, p in T]
    return [T[i] for i in rng.permutation(len(T))]


def build(T):
    cs, strs = [], []
    for c, ops, labels, pf in T:
        strs.append(qy.OperatorString(ops, labels, 'Fermion', pf))
        cs.append(c)
    return qy.Operator(cs, strs, op_type='Fermion')


def poly(op):
    return O.op_poly(op)


def draw(rng, pairing, nmax=5):
    n = int(rng.randint(1, nmax + 1))
    T = terms(rng, n, pairing)
    op = build(T)
    P = poly(op)
    N = n + (int(rng.randint(0, 2)) if n < nmax else 0)     # an untouched orbital
    return N, op, P


def subset_sums(E):
    s = np.zeros(1)
    for e in E:
        s = np.concatenate([s, s + e])
    return np.sort(s)


def mode_polys(N):
    """c_j as Pauli polynomials (Jordan-Wigner, same as the oracle)"""
    a = [O.string_poly(['A'], [j], 'Majorana') for j in range(N)]
    b = [O.string_poly(['B'], [j], 'Majorana') for j in range(N)]
    c = [O.padd(O.pscale(a[j], 0.5), O.pscale(b[j], 0.5j)) for j in range(N)]
    return a, b, c


def maybe_majorana(rng, op, P):
    """respell as a Majorana operator (without identity), using the oracle for the coefficients"""
    strs, cs = [], []
    for (x, z), a in sorted(O.pdrop_identity(P).items()):
        labels = [j for j in range(12) if ((x | z) >> j) & 1]
        # bilinears: Z_j = D_j ; otherwise endpoints X/Y with Z between
        if x == 0:
            strs.append(qy.OperatorString(['D'], [labels[0]], 'Majorana'))
        else:
            i, j = labels[0], labels[-1]
            found = None
            for p, q in it.product('AB', repeat=2):
                s = qy.OperatorString([p, q], [i, j], 'Majorana')
                Q = O.os_poly(s)
                if (x, z) in Q:
                    found = s
            strs.append(found)
        cs.append((a / O.os_poly(strs[-1])[(x, z)]).real)
    if not strs:
        return op
    return qy.Operator(cs, strs, op_type='Majorana')


def lowest_levels(ctx, w, full, label, what):
    """the levels of the sparse solver are the lowest ones (unless there are degenerate ones, of which it can miss a copy)"""
    k = len(w)
    top = max(np.abs(full).max(), 1e-300)
    if np.all(np.diff(full[:k + 1]) > 1e-4 * top):
        ctx.check(np.abs(np.sort(w) - full[:k]).max() < 1e-5 * top, label, lambda: '{}: the lowest {} levels {} expected {}'.format(what(), k, np.sort(w), full[:k]))
        ctx.count('sparse-lowest', int(k > 3))


def tight(ctx, rng, idx):
    N, op, P = draw(rng, False)
    shift = 0.0
    w, V = qy.diagonalize_quadratic_tightbinding(op, N)
    H = O.poly_dense(P, N)
    full = np.linalg.eigvalsh(H)
    tol = 1e-8 * max(1.0, np.abs(full).max())
    what = lambda: '{} on {} orbitals -> {}'.format(G.desc(op), N, w)
    ctx.check(w.shape == (N,) and V.shape == (N, N), 'shape', what)
    ctx.check(np.abs(subset_sums(w) - full).max() < tol, 'spectrum', what)
    ctx.check(np.all(np.diff(w) >= -tol), 'order', what)
    ctx.check(np.abs(V.conj().T @ V - np.eye(N)).max() < 1e-9, 'orthonormal', what)
    _, _, c = mode_polys(N)
    for k in range(N):
        A = {}
        for j in range(N):
            A = O.padd(A, O.pscale(O.pdag(c[j]), V[j, k]))
        ctx.check(O.pdiff(O.pcomm(P, A), O.pscale(A, w[k])) < tol, 'mode', lambda: what() + ' mode {}: [H, A] != E A'.format(k))
    if N >= 3:
        k = int(rng.randint(1, N - 1))
        try:
            w2, V2 = qy.diagonalize_quadratic_tightbinding(op, N, num_vecs=k)
            ctx.check(len(w2) == k and V2.shape == (N, k) and abs(min(w2) - w[0]) < 1e-6 * max(1, abs(w[0])), 'sparse', what)
            lowest_levels(ctx, w2, w, 'sparse-lowest', what)
            M = np.array([[0j] * N for _ in range(N)])
            for e in range(k):
                A = {}
                for j in range(N):
                    A = O.padd(A, O.pscale(O.pdag(c[j]), V2[j, e]))
                ctx.check(O.pdiff(O.pcomm(P, A), O.pscale(A, w2[e])) < 1e-6 * max(1.0, np.abs(full).max()), 'sparse-mode', what)
            ctx.count('sparse')
        except Exception as e:
            if 'Arpack' not in type(e).__name__:
                raise
    if len(op) > 1:
        ctx.seen('t', G.desc(op))
    ctx.sample(what())


def bdg(ctx, rng, idx):
    N, op, P = draw(rng, rng.rand() < 0.8)
    arg = maybe_majorana(rng, op, P) if rng.rand() < 0.35 else op
    before = G.desc(arg)
    P0 = O.pdrop_identity(P)
    H = O.poly_dense(P0, N)
    full = np.linalg.eigvalsh(H)
    tol = 1e-8 * max(1.0, np.abs(full).max())
    E, U, V = qy.diagonalize_bdg(arg, N)
    what = lambda: '{} on {} orbitals -> {}'.format(before, N, E)
    ctx.check(E.shape == (N,) and U.shape == (N, N) and V.shape == (N, N), 'shape', what)
    ctx.check(np.all(E >= -tol) and np.all(np.diff(E) <= tol), 'sign-order', what)
    ctx.check(np.abs(subset_sums(E) - 0.5 * E.sum() - full).max() < tol, 'spectrum', what)
    _, _, c = mode_polys(N)
    for k in range(N):
        A = {}
        for j in range(N):
            A = O.padd(A, O.pscale(O.pdag(c[j]), U[j, k]))
            A = O.padd(A, O.pscale(c[j], V[j, k]))
        ctx.check(O.pdiff(O.pcomm(P0, A), O.pscale(A, -E[k])) < tol, 'mode', lambda: what() + ' mode {}'.format(k))
    ctx.check(np.abs(U.conj().T @ U + V.conj().T @ V - np.eye(N)).max() < 1e-9, 'orthonormal', what)
    if E.min() > 1e-6:
        ctx.check(np.abs(U.T @ V + V.T @ U).max() < 1e-7 / min(1.0, E.min()), 'anticommuting', what)
        ctx.count('gapped')
    else:
        ctx.count('zero-modes')
    ctx.check(G.desc(arg) == before, 'mutated', 'operator modified')
    ctx.count('input ' + arg.op_type)
    if len(op) > 1:
        ctx.seen('b', before)
    ctx.sample(what())


def quadratic(ctx, rng, idx):
    N, op, P = draw(rng, rng.rand() < 0.8)
    arg = maybe_majorana(rng, op, P) if rng.rand() < 0.35 else op
    before = G.desc(arg)
    P0 = O.pdrop_identity(P)
    full = np.linalg.eigvalsh(O.poly_dense(P0, N))
    tol = 1e-8 * max(1.0, np.abs(full).max())
    e0, E, F, Z = qy.diagonalize_quadratic(arg, N)
    what = lambda: '{} on {} orbitals -> {} {}'.format(before, N, e0, E)
    ctx.check(E.shape == (N,) and Z.shape == (2 * N, 2 * N) and F.shape == (2 * N, 2 * N), 'shape', what)
    ctx.check(np.all(E >= -tol), 'sign', what)
    ctx.check(abs(e0 - full[0]) < tol, 'ground-energy', lambda: what() + ': exact {}'.format(full[0]))
    ctx.check(np.abs(subset_sums(E) + e0 - full).max() < tol, 'spectrum', what)
    ctx.check(np.abs(Z.T @ Z - np.eye(2 * N)).max() < 1e-9, 'orthogonal', what)
    a, b, c = mode_polys(N)
    for m in range(N):
        A, B, C, Cd = {}, {}, {}, {}
        for j in range(N):
            A = O.padd(A, O.padd(O.pscale(a[j], Z[2 * j, 2 * m]), O.pscale(b[j], Z[2 * j + 1, 2 * m])))
            B = O.padd(B, O.padd(O.pscale(a[j], Z[2 * j, 2 * m + 1]), O.pscale(b[j], Z[2 * j + 1, 2 * m + 1])))
            C = O.padd(C, O.padd(O.pscale(c[j], F[j, m]), O.pscale(O.pdag(c[j]), F[N + j, m])))
            Cd = O.padd(Cd, O.padd(O.pscale(c[j], F[j, N + m]), O.pscale(O.pdag(c[j]), F[N + j, N + m])))
        L = O.padd(O.pscale(A, 0.5), O.pscale(B, 0.5j))
        ctx.check(O.pdiff(O.pcomm(P0, L), O.pscale(L, -E[m])) < tol, 'majorana-mode', lambda: what() + ' mode {}'.format(m))
        ctx.check(O.pdiff(C, L) < 1e-9, 'fermion-mode', lambda: what() + ' mode {}'.format(m))
        ctx.check(O.pdiff(Cd, O.pdag(L)) < 1e-9, 'fermion-mode-dagger', lambda: what() + ' mode {}'.format(m))
    nz = int(np.sum(E < 1e-9))
    if nz:
        ctx.count('zero-modes')
        if np.sum(E > 1e-9):
            ctx.count('zero-and-finite-modes')
    ctx.check(G.desc(arg) == before, 'mutated', 'operator modified')
    if len(op) > 1:
        ctx.seen('q', before)
    ctx.sample(what())


def rejects(ctx, rng, idx):
    """Hamiltonians that are not quadratic must not be silently diagonalized"""
    n = int(rng.randint(2, 5))
    T = terms(rng, n, False)
    op = build(T)
    bad = qy.OperatorString(['CDag', 'CDag', 'C', 'C'], [0, 1, 1, 0], 'Fermion')
    op2 = qy.Operator(list(op.coeffs) + [0.7], list(s for _, s in op) + [bad], op_type='Fermion')
    for f in (qy.diagonalize_quadratic, qy.diagonalize_bdg, qy.diagonalize_quadratic_tightbinding):
        ctx.raises(ValueError, 'interaction-accepted', f, op2, n)
    pair = qy.Operator(list(op.coeffs) + [0.7], list(s for _, s in op) + [qy.OperatorString(['CDag', 'CDag'], [0, 1], 'Fermion')], op_type='Fermion')
    ctx.raises(ValueError, 'pairing-accepted', qy.diagonalize_quadratic_tightbinding, pair, n)
    ctx.seen('r', G.desc(op2))
    # any other number of fermion operators
    n = int(rng.randint(2, 7))
    T = terms(rng, n, bool(rng.randint(2)))
    op = build(T)
    if rng.rand() < 0.6:
        for _ in range(50):
            s = G.opstring(rng, 'Majorana', list(range(n)), min_k=1)
            if sum(2 if o == 'D' else 1 for o in s.orbital_operators) != 2:
                break
        else:
            return
        H = qy.convert(op, 'Majorana').remove_zeros(1e-12)
        typ = 'Majorana'
    else:
        for _ in range(50):
            s = G.fermion_string(rng, list(range(n)))
            if len(s.orbital_operators) != 2:
                break
        else:
            return
        H, typ = op, 'Fermion'
    at = int(rng.randint(len(H) + 1))
    strs = [t for _, t in H]
    if s in strs:
        return
    cs = list(H.coeffs)
    strs.insert(at, s)
    cs.insert(at, 10 ** rng.uniform(-3, 1))
    mixed = qy.Operator(cs, strs, op_type=typ)
    for f in (qy.diagonalize_quadratic, qy.diagonalize_bdg, qy.diagonalize_quadratic_tightbinding):
        ctx.raises(ValueError, 'not-quadratic-accepted', f, mixed, n)
    ctx.count('not-quadratic {} operators'.format(sum(2 if o == 'D' else 1 for o in s.orbital_operators)))
    ctx.seen('q', G.desc(mixed))


def commutator_matrix(T, N):
    """[H, .] on the 2N operators c^dag_0.. c^dag_{N-1}, c_0 .. c_{N-1} (columns: what each one becomes), from the term list"""
    K = np.zeros((2 * N, 2 * N), dtype=complex)

    def hop(a, b, t):           # t c^dag_a c_b
        K[a, b] += t
        K[N + b, N + a] -= t

    def pair(a, b, t):          # t c^dag_a c^dag_b
        K[a, N + b] += t
        K[b, N + a] -= t

    def unpair(a, b, t):        # t c_b c_a
        K[N + b, a] += t
        K[N + a, b] -= t
    for c, ops, (i, j), pf in T:
        t = c * pf
        if ops[1] == 'C':
            hop(i, j, t)
            if i != j:
                hop(j, i, np.conj(t))
        else:
            pair(i, j, t)
            unpair(i, j, np.conj(t))
    return K


def large(ctx, rng, idx):
    """many orbitals, energies of any scale: everything is decided from the 2N single-particle operators"""
    n = int(rng.randint(5, 41))
    pairing = rng.rand() < 0.6
    T = terms(rng, n, pairing)
    if n > 12 and len(T) > 3 * n:
        T = [T[i] for i in rng.permutation(len(T))[:int(rng.randint(n, 4 * n))]]
    scale = 10.0 ** rng.uniform(*[(-3, 3), (-8, -3)][int(rng.rand() < 0.3)]) if rng.rand() < 0.6 else 1.0
    T = [(c * scale, o, l, p) for c, o, l, p in T]
    if rng.rand() < 0.3:
        T = [(c * 10.0 ** rng.uniform(-4, 0), o, l, p) for c, o, l, p in T]
    if rng.rand() < 0.3:        # relabelled
        perm = [int(x) for x in rng.permutation(n)]
        fix = lambda l: [perm[x] for x in l]
        T = [(c, o, fix(l), p) for c, o, l, p in T]
    if idx % 10 == 0:           # the single-particle oracle against the many-body one
        T3 = terms(rng, 3, True)
        P3 = poly(build(T3))
        K3 = commutator_matrix(T3, 3)
        _, _, c = mode_polys(3)
        basis = [O.pdag(x) for x in c] + c
        for k in range(6):
            A = {}
            for m in range(6):
                A = O.padd(A, O.pscale(basis[m], K3[m, k]))
            ctx.check(O.pdiff(O.pcomm(P3, basis[k]), A) < 1e-12, 'self-test', 'the two oracles disagree')
    N = n + int(rng.randint(0, 3))
    op = build(T)
    K = commutator_matrix(T, N)
    ev = np.sort(np.linalg.eigvalsh((K + K.conj().T) / 2))
    ctx.check(np.abs(K - K.conj().T).max() < 1e-12 * scale, 'self-test', 'not Hermitian')
    want = ev[N:]                       # nonnegative half
    top = max(np.abs(ev).max(), 1e-300)
    tol = 1e-9 * top + 4e-12        # energies below the documented threshold 1e-12 count as zero modes
    what = lambda: '{} terms on {} orbitals, scale {:.3g}: {}'.format(len(T), N, scale, G.desc(op)[:300])
    E, U, V = qy.diagonalize_bdg(op, N)
    ctx.check(E.shape == (N,) and np.abs(np.sort(E) - want).max() < tol, 'bdg-energies', lambda: '{}: {} expected {}'.format(what(), np.sort(E), want))
    X = np.vstack([U, V])
    ctx.check(np.abs(K @ X + X * E).max() < tol, 'bdg-modes', what)
    ctx.check(np.abs(X.conj().T @ X - np.eye(N)).max() < 1e-9, 'bdg-orthonormal', what)
    if want.min() > 1e-6 * top:
        Y = np.vstack([V, U])
        ctx.check(np.abs(X.T @ Y).max() < 1e-7 * top / want.min(), 'bdg-anticommuting', what)
    e0, E, F, Z = qy.diagonalize_quadratic(op, N)
    ctx.check(E.shape == (N,) and np.all(E >= -tol) and np.abs(np.sort(E) - want).max() < tol, 'quadratic-energies', lambda: '{}: {} expected {}'.format(what(), np.sort(E), want))
    ctx.check(abs(e0 + 0.5 * want.sum()) < N * tol, 'ground-energy', lambda: '{}: {} expected {}'.format(what(), e0, -0.5 * want.sum()))
    ctx.check(np.abs(Z.T @ Z - np.eye(2 * N)).max() < 1e-9, 'orthogonal', what)
    L = np.vstack([F[N:, :N], F[:N, :N]])       # coefficients of c^dag, c
    ctx.check(np.abs(K @ L + L * E).max() < 2 * tol, 'quadratic-modes', what)
    Ld = np.vstack([F[N:, N:], F[:N, N:]])
    ctx.check(np.abs(Ld - np.vstack([L[N:], L[:N]]).conj()).max() < 1e-9, 'quadratic-daggers', what)
    a, b = Z[0::2, 0::2] + 1j * Z[0::2, 1::2], Z[1::2, 0::2] + 1j * Z[1::2, 1::2]   # a_j, b_j parts of (A + iB)
    ctx.check(np.abs(L - 0.5 * np.vstack([a + 1j * b, a - 1j * b])).max() < 1e-9, 'majorana-modes', what)
    ctx.count('large-zero-modes', int(want.min() < 1e-10 * top))
    if not pairing and all(o[1] == 'C' for _, o, _, _ in T):
        w, W = qy.diagonalize_quadratic_tightbinding(op, N)
        h = K[:N, :N]
        full = np.linalg.eigvalsh(h)
        ctx.check(w.shape == (N,) and np.abs(w - full).max() < tol, 'tight-energies', what)
        ctx.check(np.abs(h @ W - W * w).max() < tol and np.abs(W.conj().T @ W - np.eye(N)).max() < 1e-9, 'tight-modes', what)
        k = int(rng.randint(1, min(12, N - 1)))
        try:
            w, W = qy.diagonalize_quadratic_tightbinding(op, N, num_vecs=k)
            ctx.check(len(w) == k and W.shape == (N, k) and np.abs(h @ W - W * w).max() < 1e3 * tol and abs(np.min(w) - full[0]) < 1e3 * tol, 'tight-sparse', what)
            lowest_levels(ctx, w, full, 'tight-sparse-lowest', what)
            ctx.count('large-sparse')
        except Exception as e:
            if 'Arpack' not in type(e).__name__:
                raise
        ctx.count('large-tight')
    if pairing and rng.rand() < 0.5:            # a few of the modes by the sparse solver
        k = int(rng.randint(1, min(9, N)))
        try:
            E, U, V = qy.diagonalize_bdg(op, N, num_vecs=k)
            X = np.vstack([U, V])
            ctx.check(E.shape == (k,) and X.shape == (2 * N, k) and np.abs(K @ X + X * E).max() < 1e3 * tol and abs(E.max() - want.max()) < 1e3 * tol, 'bdg-sparse', what)
            lowest_levels(ctx, -E, np.linalg.eigvalsh(K), 'bdg-sparse-lowest', what)
            ctx.count('large-bdg-sparse')
        except Exception as e:
            if 'Arpack' not in type(e).__name__:
                raise
    ctx.count('orbitals {}s'.format(N // 10 * 10))
    ctx.seen('large', G.desc(op))
    ctx.sample(what())


FAMILIES = [
    Family('large', large, 60, 1200, require=30),
    Family('tight', tight, 250, 4000, require=100),
    Family('bdg', bdg, 250, 4000, require=100),
    Family('quadratic', quadratic, 300, 5000, require=100),
    Family('rejects', rejects, 40, 400, require=10),
]
REQUIRED_COUNTERS = ['sparse-lowest', 'not-quadratic 1 operators', 'not-quadratic 5 operators', 'large-zero-modes', 'large-tight', 'large-sparse', 'large-bdg-sparse', 'sparse', 'gapped', 'zero-modes', 'zero-and-finite-modes', 'input Majorana', 'input Fermion']
