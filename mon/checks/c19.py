"""C19  linear-algebra tools: spans, orthonormality, intersections, sparsification."""
import numpy as np
import scipy.sparse as ss
import qosy as qy
from ..runtime import Family, Skip

PROP = 'C19'
RULE = ('A case draws matrices (random, orthonormal, integer, sparse, structured, with zero or dependent columns, real or complex) '
        'and checks orthonormality, nested spans and column counts of gram_schmidt, orthonormality and dimension of the '
        'intersection of spaces with a planted common subspace, and span / order / normalisation of sparsified vectors. '
        'Non-trivial = at least two columns.')
ASSUMPTIONS = ['smallest singular value of independent columns at least 1e-3 of the largest', 'planted intersections have other principal angles above 1e-2',
               'sparsify: linearly independent vectors']


def dense(M):
    return np.asarray(M.toarray() if ss.issparse(M) else M)


def fmt(rng, M):
    k = rng.randint(6)
    if k < 3:
        return M.copy(), 'array'
    return [ss.csr_matrix, ss.csc_matrix, ss.csr_matrix][k - 3](M), 'sparse'


def columns(rng, n, k):
    """n x k with independent columns"""
    for _ in range(100):
        s = rng.randint(5)
        if s == 0:
            M = rng.normal(size=(n, k))
        elif s == 1:
            M = rng.normal(size=(n, k)) + 1j * rng.normal(size=(n, k))
        elif s == 2:
            M = rng.randint(-2, 3, size=(n, k)).astype(float)
        elif s == 3:
            M = np.linalg.qr(rng.normal(size=(n, k)))[0]
        else:
            M = rng.normal(size=(n, k)) * (rng.rand(n, k) < 0.4)
        if k == 0:
            return M
        sv = np.linalg.svd(M, compute_uv=False)
        if sv[-1] > 1e-2 * sv[0] and sv[0] > 0:
            return M
    return np.eye(n)[:, :k]


def proj(M):
    if M.shape[1] == 0:
        return np.zeros((M.shape[0],) * 2)
    U, s, _ = np.linalg.svd(M, full_matrices=False)
    U = U[:, s > 1e-8 * max(s[0], 1e-300)]
    return U @ U.conj().T


def close(ctx, rng, idx):
    """nearly parallel columns: what rounding costs grows with the condition number, not faster"""
    n = int(rng.randint(4, 12))
    k = int(rng.randint(3, min(n, 7) + 1))
    e = 10.0 ** rng.uniform(-7, -4)
    M = rng.normal(size=(n, 1)) @ np.ones((1, k)) + e * rng.normal(size=(n, k))
    if rng.randint(2):
        M = M + 1j * (rng.normal(size=(n, 1)) @ np.ones((1, k)) + e * rng.normal(size=(n, k)))
    M /= np.linalg.norm(M, axis=0)
    sv = np.linalg.svd(M, compute_uv=False)
    kappa = sv[0] / sv[-1]
    if not 1e3 < kappa < 1e9:
        raise Skip('condition')
    arg, kind = fmt(rng, M)
    Q = dense(qy.gram_schmidt(arg))
    what = lambda: '{} columns in {} dimensions, condition number {:.1e}'.format(k, n, kappa)
    ctx.check(Q.shape == (n, k), 'columns', what)
    ctx.check(np.abs(np.linalg.norm(Q, axis=0) - 1).max() < 1e-12 and np.abs(Q.conj().T @ Q - np.eye(k)).max() < 1e-13 * kappa, 'close-orthonormal',
              lambda: what() + ': {}'.format(np.abs(Q.conj().T @ Q - np.eye(k)).max()))
    U = np.linalg.svd(M, full_matrices=False)[0]
    ctx.check(np.abs(Q - U @ (U.conj().T @ Q)).max() < 1e-13 * kappa, 'close-span', what)
    ctx.seen(n, k, idx)
    ctx.count('close-' + kind)


def size(rng, lo, hi):
    return int(rng.randint(lo, hi)) if rng.rand() < 0.88 else int(rng.randint(hi, 48))


def gs(ctx, rng, idx):
    n = size(rng, 1, 9)
    k = int(rng.randint(1, min(n, 24) + 1))
    M = columns(rng, n, k)
    cols = [M[:, i] for i in range(k)]
    dep = rng.rand() < 0.5
    tol = 0.0
    if dep:                                   # insert zero, repeated and combined columns
        tol = float(10.0 ** rng.randint(-10, -5))
        for _ in range(rng.randint(1, 4)):
            t = rng.randint(3)
            pos = rng.randint(len(cols) + 1)
            prev = np.array(cols[:pos]).T if pos else np.zeros((n, 0))
            if t == 0 or pos == 0:
                cols.insert(pos, np.zeros(n, dtype=M.dtype))
            elif t == 1:
                cols.insert(pos, prev[:, rng.randint(pos)] * float(rng.uniform(-3, 3)))
            else:
                cols.insert(pos, prev @ rng.uniform(-1, 1, size=pos))
        ctx.count('dependent')
    X = np.array(cols).T
    if rng.rand() < 0.2:
        X = X * float(rng.choice([100.0, 0.05]))
    unit = X / np.maximum(np.linalg.norm(X, axis=0), 1e-300)
    if not dep and rng.rand() < 0.3:          # columns of very different length
        sv = np.linalg.svd(unit, compute_uv=False)
        if sv[-1] > 0.03:
            e = rng.uniform(-9, 6, size=k)
            X = unit * 10.0 ** e
            if rng.rand() < 0.5:              # an absolute tolerance far below what remains of every column
                tol = float(np.linalg.norm(X, axis=0).min()) * 0.01 * 10.0 ** -rng.uniform(0, 3)
                ctx.count('lengths-tol')
            ctx.count('lengths')
    else:
        unit = X
    arg, kind = fmt(rng, X)
    before = dense(arg).copy()
    out = qy.gram_schmidt(arg, tol=tol) if tol else qy.gram_schmidt(arg)
    ctx.check(np.array_equal(dense(arg), before), 'mutated', 'the matrix was modified')
    ctx.check(ss.issparse(out) == (kind == 'sparse'), 'type', str(type(out)))
    Q = dense(out)
    what = lambda: 'matrix {} tol {}'.format(np.round(X, 3).tolist(), tol)
    ctx.check(Q.shape == (n, k), 'columns', lambda: what() + ': {} columns, expected {}'.format(Q.shape, k))
    ctx.check(np.abs(Q.conj().T @ Q - np.eye(k)).max() < 1e-8, 'orthonormal', what)
    # nested spans: the new columns appear in order
    j, r = 0, 0
    for i in range(X.shape[1]):
        P = proj(unit[:, :i + 1])
        r = int(round(np.trace(P).real))
        ctx.check(np.abs(Q[:, :r] @ Q[:, :r].conj().T - P).max() < 1e-9, 'nested-span', lambda: what() + ' after {} columns'.format(i + 1))
        if r > j:
            c = Q[:, r - 1].conj() @ unit[:, i]
            ctx.check(c.real > 0 and abs(c.imag) < 1e-8 * max(1, abs(c)), 'direction', what)
        j = r
    if k > 1:
        ctx.seen(kind, np.round(X, 4).tolist())
    if n > 10:
        ctx.count('large-matrices')
    ctx.count('gs-' + kind)
    ctx.sample(what())


def inter(ctx, rng, idx):
    n = size(rng, 1, 10)
    k = int(rng.randint(0, n + 1))
    common = columns(rng, n, k)
    ka = int(rng.randint(0, n - k + 1))
    kb = int(rng.randint(0, n - k - ka + 1))
    if k + ka == 0 or k + kb == 0:
        raise Skip('empty space')
    cplx = rng.rand() < 0.4
    A = np.hstack([common, rng.normal(size=(n, ka)) + (1j * rng.normal(size=(n, ka)) if cplx else 0)])
    B = np.hstack([common @ np.linalg.qr(rng.normal(size=(k, k)))[0] if k else common, rng.normal(size=(n, kb)) + (1j * rng.normal(size=(n, kb)) if cplx else 0)])
    A, B = np.linalg.qr(A)[0], np.linalg.qr(B)[0]
    A = A @ np.linalg.qr(rng.normal(size=(k + ka,) * 2))[0]
    s = np.linalg.svd(A.conj().T @ B, compute_uv=False)
    if not (np.all(s[:k] > 1 - 1e-9) and (len(s) == k or s[k] < 1 - 1e-4)):
        raise Skip('no clear intersection')
    A0, B0 = A.copy(), B.copy()
    C = qy.intersection(A, B)
    ctx.check(np.array_equal(A, A0) and np.array_equal(B, B0), 'mutated', 'arguments modified')
    what = lambda: 'n={} dims {} {} common {}'.format(n, k + ka, k + kb, k)
    ctx.check(C.shape == (n, k), 'dimension', lambda: what() + ' got {}'.format(C.shape))
    if k:
        ctx.check(np.abs(C.conj().T @ C - np.eye(k)).max() < 1e-6, 'orthonormal', what)
        ctx.check(np.abs(A @ (A.conj().T @ C) - C).max() < 1e-5 and np.abs(B @ (B.conj().T @ C) - C).max() < 1e-5, 'inside', what)
        ctx.count('nonzero-intersections')
    else:
        ctx.count('zero-intersections')
    ctx.raises(ValueError, 'sizes', qy.intersection, A, np.vstack([B, B[:1]]))
    if k + ka > 1:
        ctx.seen('i', n, k, ka, kb, round(float(abs(A[0, 0])), 5))
    ctx.sample(what())


def angles(ctx, rng, idx):
    """two spaces with given principal angles, some of them small: only the vanishing ones are common"""
    n = int(rng.randint(2, 14))
    ka, kb = int(rng.randint(1, n)), int(rng.randint(1, n))
    k = min(ka, kb, n - max(ka, kb))            # principal angles that can be chosen
    th = np.array([0.0 if rng.rand() < 0.3 else 10.0 ** rng.uniform(-4, -0.5) for _ in range(k)])
    cplx = rng.rand() < 0.4
    U = np.linalg.qr(rng.normal(size=(n, n)) + (1j * rng.normal(size=(n, n)) if cplx else 0))[0]
    big = max(ka, kb)
    A = U[:, :big]
    B = np.array([np.cos(t) * U[:, i] + np.sin(t) * U[:, big + i] for i, t in enumerate(th)]).T if k else np.zeros((n, 0))
    rest = min(ka, kb) - k                      # the remaining directions lie inside A
    B = np.hstack([B.reshape(n, k), U[:, k:k + rest]])
    if ka < kb:
        A, B = B, A
    mix = lambda M: M @ np.linalg.qr(rng.normal(size=(M.shape[1],) * 2) + (1j * rng.normal(size=(M.shape[1],) * 2) if cplx else 0))[0]
    A, B = mix(A), mix(B)
    want = int(np.sum(th == 0)) + rest
    small = th[th > 0].min() if np.any(th > 0) else 1.0
    kw = {}
    if rng.rand() < 0.3 and small > 1e-2:       # 1 - cos(angle), the quantity compared with tol, is about angle^2 / 2
        kw['tol'] = float(10.0 ** rng.uniform(-10, -6))
    C = qy.intersection(A, B, **kw)
    what = lambda: 'dims {} {} in {} with principal angles {} and {} exactly common ({})'.format(A.shape[1], B.shape[1], n, th, want, kw)
    ctx.check(C.shape == (n, want), 'angles-dimension', lambda: what() + ': got {}'.format(C.shape))
    if want:
        tol = 1e-12 / small ** 2 + 1e-6
        ctx.check(np.abs(A @ (A.conj().T @ C) - C).max() < tol and np.abs(B @ (B.conj().T @ C) - C).max() < tol, 'angles-inside', what)
        ctx.check(np.abs(C.conj().T @ C - np.eye(want)).max() < tol, 'angles-orthonormal', what)
    ctx.count('small-angles', int(small < 1e-3))
    if small < 1:
        ctx.seen('a', n, ka, kb, round(float(small), 8))
    ctx.sample(what())


def sparse(ctx, rng, idx):
    n = size(rng, 1, 10)
    k = int(rng.randint(1, min(n, 24) + 1))
    style = rng.randint(4)
    if style == 0:
        M = columns(rng, n, k)
    else:                                    # hidden sparse vectors, rotated
        M = np.zeros((n, k), dtype=complex if style == 3 else float)
        for j in range(k):
            sup = rng.choice(n, rng.randint(1, min(3, n) + 1), replace=False)
            M[sup, j] = rng.randint(1, 4, size=len(sup)) * rng.choice([-1, 1], size=len(sup))
        M[rng.permutation(n)[:k], np.arange(k)] += 1.0 + (1j if style == 3 else 0)
        sv = np.linalg.svd(M, compute_uv=False)
        if sv[-1] < 1e-2 * sv[0]:
            raise Skip('nearly dependent')
        M = np.linalg.qr(M)[0] @ np.linalg.qr(rng.normal(size=(k, k)))[0] if style > 1 else M
    if rng.rand() < 0.3:                     # small components beside large ones
        M = M + (rng.normal(size=(n, k)) * (rng.rand(n, k) < 0.5)) * 10.0 ** rng.uniform(-9, -2)
        sv = np.linalg.svd(M, compute_uv=False)
        if sv[-1] < 1e-2 * sv[0]:
            raise Skip('nearly dependent')
        ctx.count('small-components')
    arg, kind = fmt(rng, M)
    before = dense(arg).copy()
    orth = [None, True, False][rng.randint(3)]
    out = qy.sparsify(arg) if orth is None else qy.sparsify(arg, orthogonalize=orth)
    S = dense(out)
    ctx.check(np.array_equal(dense(arg), before), 'mutated', 'the vectors were modified')
    what = lambda: 'vectors {} orthogonalize {}'.format(np.round(M, 3).tolist(), orth)
    ctx.check(S.shape == (n, k), 'shape', lambda: what() + ' -> {}'.format(S.shape))
    ctx.check(np.all(np.isfinite(S)), 'finite', what)
    ctx.check(np.abs(proj(S) - proj(M)).max() < 1e-10, 'span', what)
    if k > 1:
        ctx.check(np.abs(np.linalg.norm(S, axis=0) - 1).max() < 1e-9, 'normalized', what)
        if orth is not False:
            ctx.check(np.abs(S.conj().T @ S - np.eye(k)).max() < 1e-7, 'orthogonal', what)
            ctx.count('orthogonalized')
        nz = [int(np.sum(np.abs(S[:, j]) > 1e-12)) for j in range(k)]
        sure = [int(np.sum(np.abs(S[:, j]) > 1e-9)) for j in range(k)]
        if nz == sure:
            ctx.check(all(a <= b for a, b in zip(nz, nz[1:])), 'order', lambda: what() + ' non-zeros {}'.format(nz))
            ctx.count('orders')
        if nz == sure:           # both ways keep the staircase of zeros of an echelon form
            ctx.check(all(c <= n - k + 1 + i for i, c in enumerate(nz)) or nz != sure, 'sparser', lambda: what() + ': not an echelon form, non-zeros {}'.format(nz))
        ctx.seen('s', np.round(M, 4).tolist())
    ctx.count('sparsify-' + kind)
    ctx.sample(what())


FAMILIES = [
    Family('gs', gs, 400, 8000, require=200),
    Family('close', close, 150, 3000, require=100),
    Family('inter', inter, 400, 8000, require=150),
    Family('angles', angles, 400, 8000, require=150),
    Family('sparse', sparse, 400, 8000, require=150),
]
REQUIRED_COUNTERS = ['small-components', 'lengths', 'small-angles', 'large-matrices', 'dependent', 'gs-array', 'gs-sparse', 'nonzero-intersections', 'zero-intersections', 'orthogonalized', 'orders', 'sparsify-array', 'sparsify-sparse']
