"""Independent reference model of the operator algebra.

Nothing in this file imports qosy.  Every operator is represented as an
exact-structure polynomial  {(x, z): coeff}  over Hermitian Pauli monomials

        P(x, z) = prod_j  i^{x_j z_j} X_j^{x_j} Z_j^{z_j}        (= X, Z or Y on j)

with x and z arbitrary-precision integer bit masks, so that there is no limit on
orbital labels.  Fermions are embedded with the Jordan-Wigner convention that
qosy documents:

        a_j = (prod_{i<j} Z_i) X_j,  b_j = (prod_{i<j} Z_i) Y_j,  d_j = Z_j
        c_j = (a_j + i b_j)/2

Dense matrices (orbital 0 = most significant bit) are available for small systems;
`selftest` cross-checks the two representations against each other.
"""
import numpy as np

PAULI = ('X', 'Y', 'Z')
MAJ = ('A', 'B', 'D')
FERM = ('CDag', 'C')

ONE = {(0, 0): 1.0 + 0j}


def _pop(n):
    return bin(n).count('1')


_I4 = (1.0 + 0j, 1j, -1.0 + 0j, -1j)


def mono_mul(p, q):
    """P(p) P(q) = phase * P(r): returns (phase, r)."""
    (x1, z1), (x2, z2) = p, q
    x, z = x1 ^ x2, z1 ^ z2
    # P(x,z) = i^{|x&z|} X^x Z^z ;  X^x1 Z^z1 X^x2 Z^z2 = (-1)^{|z1&x2|} X^x Z^z
    e = _pop(x1 & z1) + _pop(x2 & z2) - _pop(x & z) + 2 * _pop(z1 & x2)
    return _I4[e % 4], (x, z)


def pmul(A, B):
    out = {}
    for p, a in A.items():
        for q, b in B.items():
            ph, r = mono_mul(p, q)
            out[r] = out.get(r, 0.0) + a * b * ph
    return out


def padd(A, B, s=1.0):
    out = dict(A)
    for r, b in B.items():
        out[r] = out.get(r, 0.0) + s * b
    return out


def pscale(A, s):
    return {r: s * a for r, a in A.items()}


def pdag(A):
    return {r: np.conj(a) for r, a in A.items()}


def psub(A, B):
    return padd(A, B, -1.0)


def pnorm(A):
    return float(np.sqrt(sum(abs(a) ** 2 for a in A.values()))) if A else 0.0


def pmax(A):
    return max((abs(a) for a in A.values()), default=0.0)


def pclean(A, tol=1e-13):
    return {r: a for r, a in A.items() if abs(a) > tol}


def pdiff(A, B):
    return pmax(psub(A, B))


def pcomm(A, B):
    return psub(pmul(A, B), pmul(B, A))


def panti(A, B):
    return padd(pmul(A, B), pmul(B, A))


def pinner(A, B):
    """tr(A^dag B)/tr(1)"""
    if len(A) > len(B):
        return np.conj(pinner(B, A))
    return sum(np.conj(a) * B[r] for r, a in A.items() if r in B)


def pdrop_identity(A):
    return {r: a for r, a in A.items() if r != (0, 0)}


def single(op, j):
    """Polynomial of one orbital operator."""
    j = int(j)
    bit = 1 << j
    below = bit - 1
    if op == 'X':
        return {(bit, 0): 1.0 + 0j}
    if op == 'Y':
        return {(bit, bit): 1.0 + 0j}
    if op == 'Z' or op == 'D':
        return {(0, bit): 1.0 + 0j}
    if op == 'A':
        return {(bit, below): 1.0 + 0j}
    if op == 'B':
        return {(bit, bit | below): 1.0 + 0j}
    if op == 'C':
        return {(bit, below): 0.5 + 0j, (bit, bit | below): 0.5j}
    if op == 'CDag':
        return {(bit, below): 0.5 + 0j, (bit, bit | below): -0.5j}
    raise ValueError('oracle: unknown orbital operator {!r}'.format(op))


def raw_string(ops, labels):
    out = dict(ONE)
    for op, j in zip(ops, labels):
        out = pmul(out, single(str(op), j))
    return out


def maj_prefactor(ops):
    """the power of i (1 or i) that makes the Majorana string Hermitian"""
    n = sum(1 for o in ops if o in ('A', 'B'))
    return 1j if (n * (n - 1) // 2) % 2 else 1.0


def string_poly(ops, labels, op_type, prefactor=1.0):
    """The Hermitian operator that an operator string denotes (documented meaning)."""
    ops = [str(o) for o in ops]
    labels = [int(l) for l in labels]
    R = raw_string(ops, labels)
    if op_type == 'Pauli':
        return R
    if op_type == 'Majorana':
        return pscale(R, maj_prefactor(ops))
    if op_type == 'Fermion':
        cd = [l for o, l in zip(ops, labels) if o == 'CDag']
        c = [l for o, l in zip(ops, labels) if o == 'C']
        S = pscale(R, prefactor)
        if cd == c[::-1]:           # type 1: no + H.c.
            return S
        return pclean(padd(S, pdag(S)), 1e-15)
    raise ValueError(op_type)


def os_poly(os_):
    return string_poly(os_.orbital_operators, os_.orbital_labels, os_.op_type, os_.prefactor)


def op_poly(op, cache=None):
    out = {}
    for c, s in op:
        if cache is None:
            P = os_poly(s)
        else:
            key = str(s) + s.op_type
            P = cache.get(key)
            if P is None:
                P = cache[key] = os_poly(s)
        for r, a in P.items():
            out[r] = out.get(r, 0.0) + c * a
    return out


def lincomb(vec, polys):
    out = {}
    for v, P in zip(vec, polys):
        if v != 0:
            for r, a in P.items():
                out[r] = out.get(r, 0.0) + v * a
    return out


def polys_to_matrix(polys):
    """Columns = polys over the union of monomials. Returns (matrix, monomials)."""
    keys = {}
    for P in polys:
        for r in P:
            keys.setdefault(r, len(keys))
    M = np.zeros((len(keys), len(polys)), dtype=complex)
    for j, P in enumerate(polys):
        for r, a in P.items():
            M[keys[r], j] += a
    return M, keys


# ------------------------------------------------------------------ dense
_PM = {
    (0, 0): np.eye(2, dtype=complex),
    (1, 0): np.array([[0, 1], [1, 0]], dtype=complex),
    (0, 1): np.array([[1, 0], [0, -1]], dtype=complex),
    (1, 1): np.array([[0, -1j], [1j, 0]], dtype=complex),
}


def mono_dense(r, n):
    x, z = r
    M = np.eye(1, dtype=complex)
    for j in range(n):
        M = np.kron(M, _PM[((x >> j) & 1, (z >> j) & 1)])
    return M


def poly_dense(P, n):
    """orbital 0 is the leftmost tensor factor (most significant bit)."""
    D = 2 ** n
    M = np.zeros((D, D), dtype=complex)
    for (x, z), a in P.items():
        if (x >> n) or (z >> n):
            raise ValueError('oracle: label out of range')
        # vectorised action on basis states
        conf = np.arange(D)
        xr = sum(((x >> j) & 1) << (n - 1 - j) for j in range(n))
        zr = sum(((z >> j) & 1) << (n - 1 - j) for j in range(n))
        par = np.zeros(D, dtype=int)
        for b in range(n):
            if (zr >> b) & 1:
                par ^= (conf >> b) & 1
        M[conf ^ xr, conf] += a * (1j ** (_pop(x & z) % 4)) * np.where(par, -1.0, 1.0)
    return M


# ------------------------------------------------------------------ linear algebra
def nullspace(M, rtol=1e-9, gap=1e-6):
    """Orthonormal null space; None when the spectrum has no clear gap (inconclusive)."""
    M = np.asarray(M)
    n = M.shape[1]
    if n == 0:
        return np.zeros((0, 0), dtype=complex)
    if M.shape[0] == 0:
        return np.eye(n, dtype=complex)
    u, s, vh = np.linalg.svd(M, full_matrices=True)
    sv = np.zeros(n)
    sv[:len(s)] = s
    scale = max(1.0, sv.max())
    if np.any((sv > rtol * scale) & (sv < gap * scale)):
        return None
    return vh[sv <= rtol * scale].conj().T


def rank(M, rtol=1e-9, gap=1e-6, scale=0.0):
    M = np.asarray(M)
    if min(M.shape) == 0:
        return 0
    s = np.linalg.svd(M, compute_uv=False)
    scale = max(s.max(), scale, 1e-300)
    if scale < 1e-12:
        return 0
    if np.any((s > rtol * scale) & (s < gap * scale)):
        return None
    return int(np.sum(s > rtol * scale))


def same_span(A, B, tol=1e-7):
    """Column spans equal?"""
    A = np.asarray(A); B = np.asarray(B)
    ra, rb = rank(A), rank(B)
    if ra is None or rb is None:
        return None
    if ra != rb:
        return False
    r = rank(np.hstack([A, B]))
    if r is None:
        return None
    return r == ra


def selftest(rng):
    n = 4
    import itertools
    for _ in range(60):
        typ = ('Pauli', 'Majorana', 'Fermion')[rng.randint(3)]
        def rs():
            k = rng.randint(0, n + 1)
            names = {'Pauli': PAULI, 'Majorana': MAJ, 'Fermion': FERM}[typ]
            if typ == 'Fermion':
                i = sorted(rng.choice(n, rng.randint(0, n + 1), replace=False))
                j = sorted(rng.choice(n, rng.randint(0, n + 1), replace=False))
                return ['CDag'] * len(i) + ['C'] * len(j), i + j
            l = sorted(rng.choice(n, k, replace=False))
            return [names[rng.randint(3)] for _ in l], l
        # dense matrices from explicit kron / ladder matrices, built differently from poly_dense
        def dense(ops, labs):
            M = np.eye(2 ** n, dtype=complex)
            sm = {'X': _PM[(1, 0)], 'Y': _PM[(1, 1)], 'Z': _PM[(0, 1)], 'D': _PM[(0, 1)]}
            for o, l in zip(ops, labs):
                if o in ('X', 'Y', 'Z', 'D'):
                    f = [sm[o] if j == l else np.eye(2) for j in range(n)]
                else:
                    c = np.array([[0, 1], [0, 0]], dtype=complex)     # (X+iY)/2
                    loc = {'C': c, 'CDag': c.T, 'A': c + c.T, 'B': -1j * (c - c.T)}[o]
                    f = [_PM[(0, 1)] if j < l else (loc if j == l else np.eye(2)) for j in range(n)]
                K = np.eye(1)
                for m in f:
                    K = np.kron(K, m)
                M = M @ K
            return M
        (o1, l1), (o2, l2) = rs(), rs()
        P1, P2 = raw_string(o1, l1), raw_string(o2, l2)
        assert np.allclose(poly_dense(P1, n), dense(o1, l1)), (o1, l1)
        assert np.allclose(poly_dense(pmul(P1, P2), n), dense(o1, l1) @ dense(o2, l2))
        if typ != 'Fermion':
            H = poly_dense(string_poly(o1, l1, typ), n)
            assert np.allclose(H, H.conj().T)
        for r in list(P1)[:3]:
            assert np.allclose(mono_dense(r, n), poly_dense({r: 1.0}, n))
    return True
