"""C09  symmetry matrices and invariant operators."""
import numpy as np
import scipy.sparse as ss
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import transf as T
from ..spaces import check_space, truncated, silent

PROP = 'C09'
RULE = ('A case draws a transformation and a search space (cluster basis, random strings not closed under it, or a list of '
        'operators: orthonormal, overlapping or linearly dependent), then checks every column of the symmetry matrix and '
        'that the invariant (or sign-changing) operators found are invariant under the independently computed action, '
        'linearly independent and as many as an independent null-space computation gives. Non-trivial = 0 < dim < search dim.')
ASSUMPTIONS = ['real coefficients', 'the reference null space has a clear spectral gap (else the case is inconclusive)']


def cases(rng, typ, nmax=3, tiny=False):
    n, sp = T.draw(rng, typ, nmax=nmax)
    lab = list(range(n))
    style = rng.randint(5)
    if style == 0 and n <= 4:
        B = qy.cluster_basis(min(2, n), lab, typ, include_identity=bool(rng.randint(2)))
        return n, sp, B, [O.os_poly(s) for s in B], 'cluster'
    if style == 1:
        B = qy.Basis(G.distinct_strings(rng, typ, lab, rng.randint(1, 14)))
        return n, sp, B, [O.os_poly(s) for s in B], 'strings'
    m = rng.randint(1, 7)
    if style == 2:
        strs = G.distinct_strings(rng, typ, lab, 2 * m)
        ops, i = [], 0
        while i < len(strs):
            k = rng.randint(1, 4)
            o = qy.Operator([G.coeff(rng) for _ in strs[i:i + k]], strs[i:i + k])
            o.normalize()
            ops.append(o)
            i += k
        kind = 'orthonormal'
    else:
        # ingredients related by the transformation, so that invariants exist
        ops = []
        for _ in range(m):
            s = G.operator(rng, typ, lab, rng.randint(1, 3), False)
            ops.append(s)
            cur = s
            for _ in range(rng.randint(0, 3)):
                cur = sp.transform.apply(cur).remove_zeros(1e-12)
                ops.append(G.coeff(rng) * ops[rng.randint(len(ops))] + G.coeff(rng) * cur)
        ops = [o for o in (o.remove_zeros(1e-10) for o in ops) if len(o)]
        kind = 'overlapping'
        if rng.rand() < 0.3 and len(ops) > 1:
            ops.append(ops[0] + 0.5 * ops[1])
            kind = 'dependent'
        if tiny and rng.rand() < 0.35:     # terms much smaller than the others
            small = G.distinct_strings(rng, typ, lab, 3)
            ops = [o if rng.rand() < 0.4 else o + qy.Operator([G.coeff(rng) * 10.0 ** rng.uniform(-6, -1)], [small[rng.randint(len(small))]]) for o in ops]
            ops += [qy.Operator([1.0], [t]) for t in small if rng.rand() < 0.3]
            kind = 'small-terms'
        ops = ops[:10]
        ops = [o for o in (o.remove_zeros(1e-10) for o in ops) if len(o)]
        if not ops:
            ops = [G.operator(rng, typ, lab, 2, False)]
    return n, sp, ops, [O.op_poly(o) for o in ops], kind


def images(sp, space):
    return [sp.image_os(s) for s in space] if isinstance(space, qy.Basis) else [sp.image_op(o) for o in space]


def wide(ctx, rng, idx):
    """many orbitals: orbits of long strings under permutations (with time reversal) of 10 to 70 labels"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(10, 70))
    if rng.rand() < 0.5:
        sp = T.permutation(rng, n)
    else:
        t, R = int(rng.randint(1, n)), int(rng.choice([1, -1]))
        sp = T.permutation(rng, n, [(R * i + t) % n for i in range(n)])
    if rng.rand() < 0.3:
        b = T.time_reversal()
        sp = sp.then(b, b.transform * sp.transform, 'T * ' + sp.name)
    strs = {}
    for s in G.distinct_strings(rng, typ, list(range(n)), rng.randint(2, 6), max_k=7):
        for _ in range(rng.randint(1, 8)):
            strs[G.key_of(s)] = s
            s = sp.transform.apply(s)._basis[0]
    strs = list(strs.values())
    strs = [strs[i] for i in rng.permutation(len(strs))]
    if rng.rand() < 0.5:
        space = qy.Basis(strs)
        polys = [O.os_poly(s) for s in space]
        kind = 'wide-strings'
    else:
        space = []
        while strs:
            m = int(rng.randint(1, 4))
            o = qy.Operator([G.coeff(rng) for _ in strs[:m]], strs[:m])
            o.normalize()
            space.append(o)
            strs = strs[m:]
        polys = [O.op_poly(o) for o in space]
        kind = 'wide-operators'
    matrix(ctx, rng, idx, (n, sp, space, polys, kind))
    mode = ['commutator', 'anticommutator'][rng.randint(2)]
    sign = -1.0 if mode == 'anticommutator' else 1.0
    R, _ = O.polys_to_matrix([O.psub(i, O.pscale(p, sign)) for i, p in zip(images(sp, space), polys)])
    check_space(ctx, qy.invariant_operators(space, sp.transform, operation_mode=mode), R, polys, 'invariant-wide')


def matrix(ctx, rng, idx, case=None):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n, sp, space, polys, kind = case or cases(rng, typ, tiny=True)
    imgs = images(sp, space)
    M = qy.symmetry_matrix(space, sp.transform)
    ctx.check(ss.issparse(M) and M.shape == (len(polys), len(polys)), 'shape', str(getattr(M, 'shape', None)))
    M = M.toarray()
    C, keys = O.polys_to_matrix(polys + imgs)
    C, I = C[:, :len(polys)], C[:, len(polys):]
    r = O.rank(C, rtol=1e-13)
    if r is None:
        raise Skip('rank gap')
    proj = C @ np.linalg.pinv(C, rcond=1e-8) @ I
    ctx.check(np.allclose(C @ M, proj, atol=1e-7 * max(1, np.abs(proj).max(initial=0))), 'matrix-' + ('strings' if isinstance(space, qy.Basis) else 'operators'),
              lambda: '{} on {}: columns are not the transformed operators'.format(sp.name, [G.desc(o) for o in space]))
    closed = np.allclose(proj, I, atol=1e-8)
    if isinstance(space, qy.Basis) and closed:
        ctx.check(np.allclose(M.conj().T @ M, np.eye(len(M)), atol=1e-8), 'unitary', 'not unitary on a closed basis')
        ctx.count('closed')
    ctx.count('matrix-' + kind)
    ctx.seen('m', sp.name, [G.desc(o) for o in space])
    ctx.sample('{} on {} {} elements ({})'.format(sp.name, len(space), kind, 'closed' if closed else 'not closed'))


def invariant(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n, sp, space, polys, kind = cases(rng, typ)
    imgs = images(sp, space)
    mode = [None, 'commutator', 'anticommutator', 'anticommutator'][rng.randint(4)]
    sign = -1.0 if mode == 'anticommutator' else 1.0
    R, _ = O.polys_to_matrix([O.psub(i, O.pscale(p, sign)) for i, p in zip(imgs, polys)])
    kw = {} if mode is None else dict(operation_mode=mode)
    vecs = qy.invariant_operators(space, sp.transform, **kw)
    dim = check_space(ctx, vecs, R, polys, 'invariant-' + ('strings' if isinstance(space, qy.Basis) else 'operators'))
    V2, sup, ev, evec = qy.invariant_operators(space, sp.transform, return_superoperator=True, **kw)
    check_space(ctx, V2, R, polys, 'invariant-superoperator')
    sup = sup.toarray() if ss.issparse(sup) else np.asarray(sup)
    sc = max(1.0, np.abs(sup).max())
    ctx.check(np.allclose(sup, sup.conj().T, atol=1e-9 * sc), 'superoperator-hermitian', 'not Hermitian')
    ctx.check(np.abs(sup @ V2).max(initial=0) < 1e-4 * sc, 'superoperator-null', 'the superoperator does not annihilate the results')
    ctx.check(np.allclose(sup @ evec, evec * np.asarray(ev)[None, :], atol=1e-6 * sc), 'superoperator-eigen', 'eigenvectors do not belong to the superoperator')
    N = len(polys)
    if N >= 4 and dim + 1 < N - 1 and rng.rand() < 0.4:
        k = int(rng.randint(dim + 1, N + 2))
        try:
            V3 = qy.invariant_operators(space, sp.transform, num_vecs=k, **kw)
        except (RuntimeError, np.linalg.LinAlgError):
            ctx.count('sparse-solver-failed')
        else:
            check_space(ctx, V3, R, polys, 'invariant-num_vecs', complete=k >= N - 1, k=k)
            ctx.count('num_vecs-sparse', int(k < N - 1 and dim > 0))
            ctx.count('num_vecs')
    if N >= 4 and dim and rng.rand() < 0.4:
        truncated(ctx, rng, lambda k: qy.invariant_operators(space, sp.transform, num_vecs=k, **kw), R, N, dim, 'invariant')
        silent(ctx, lambda: (lambda k: qy.invariant_operators(space, sp.transform, num_vecs=k, **kw))(None), 'invariant')
    ctx.count('inv-' + kind)
    if sp.anti:
        ctx.count('inv-antiunitary')
    if 0 < dim < N:
        ctx.seen('i', sp.name, mode, [G.desc(o) for o in space])
    ctx.sample('{} {} on {} {} elements: {} operators'.format(sp.name, mode, N, kind, dim))


def gentle(ctx, rng, idx):
    """rotations by small angles: matrix elements of very different size, and nearly invariant operators"""
    n = int(rng.randint(1, 4))
    theta = float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-9, -1)
    sp = T.rotation(rng, theta=theta)
    strs = list(qy.cluster_basis(n, list(range(n)), 'Pauli')) if n < 3 else G.distinct_strings(rng, 'Pauli', list(range(n)), rng.randint(3, 30))
    strs = [strs[i] for i in rng.permutation(len(strs))]
    B = qy.Basis(strs)
    polys = [O.os_poly(s) for s in B]
    imgs = images(sp, B)
    M = qy.symmetry_matrix(B, sp.transform).toarray()
    keys = [next(iter(p)) for p in polys]
    want = np.array([[img.get(k, 0.0) / p[k] for img in imgs] for k, p in zip(keys, polys)])
    ctx.check(M.shape == want.shape and np.abs(M - want).max() < 4e-12, 'gentle-matrix', lambda: '{} by {:.1e}: an element differs by {:.1e}'.format(sp.name, theta, np.abs(M - want).max()))
    L = qy.symmetry_matrix([qy.Operator([1.0], [s]) for s in B], sp.transform).toarray()
    ctx.check(np.abs(L - want).max() < 4e-12, 'gentle-operators', lambda: '{} by {:.1e}'.format(sp.name, theta))
    ctx.count('gentle')
    if abs(theta) > 3e-3:
        R, _ = O.polys_to_matrix([O.psub(i, p) for i, p in zip(imgs, polys)])
        check_space(ctx, qy.invariant_operators(B, sp.transform), R, polys, 'invariant-gentle')
        ctx.count('gentle-invariant')
    ctx.seen('gentle', sp.name, theta, len(B))


def large(ctx, rng, idx):
    """bigger bases on lattices"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n, sp = T.space_group(rng)
    if n > 8:
        raise Skip('big')
    B = qy.cluster_basis(2, list(range(n)), typ)
    polys = [O.os_poly(s) for s in B]
    imgs = images(sp, B)
    sign = [1.0, -1.0][rng.randint(2)]
    R, _ = O.polys_to_matrix([O.psub(i, O.pscale(p, sign)) for i, p in zip(imgs, polys)])
    vecs = qy.invariant_operators(B, sp.transform, operation_mode='commutator' if sign > 0 else 'anticommutator')
    dim = check_space(ctx, vecs, R, polys, 'invariant-large')
    ctx.seen('L', sp.name, typ, sign)
    ctx.count('large')
    ctx.sample('{} on {} strings: {}'.format(sp.name, len(B), dim))


FAMILIES = [
    Family('matrix', matrix, 400, 6000, require=150),
    Family('invariant', invariant, 500, 8000, require=150),
    Family('gentle', gentle, 80, 1500, require=60),
    Family('wide', wide, 60, 1000, require=30),
    Family('large', large, 16, 150, require=5),
]
REQUIRED_COUNTERS = ['truncated', 'matrix-small-terms', 'matrix-wide-strings', 'matrix-wide-operators', 'matrix-cluster', 'matrix-strings', 'matrix-orthonormal', 'matrix-overlapping', 'inv-cluster', 'inv-strings',
                     'inv-orthonormal', 'inv-overlapping', 'inv-dependent', 'inv-antiunitary', 'num_vecs', 'num_vecs-sparse', 'closed']
