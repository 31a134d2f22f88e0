"""C10  operators commuting / anticommuting with a given operator: sound and complete."""
import numpy as np
import scipy.sparse as ss
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from ..spaces import check_space, truncated, silent

PROP = 'C10'
RULE = ('A case draws an operator (with built-in conserved quantities in part of the cases) and a search space (cluster '
        'basis, random strings, list of operators incl. complex and dependent ones), and checks that every returned '
        'combination (anti)commutes in an independent algebra and that their number equals an independent null-space '
        'dimension. Non-trivial = 0 < dimension < size of the search space.')
ASSUMPTIONS = ['coefficients between 1e-2 and 100', 'the reference null space has a clear spectral gap (else inconclusive)']


def hamiltonian(rng, typ, lab):
    style = rng.randint(4)
    n = len(lab)
    if style == 0 and n > 1 and typ == 'Pauli':
        strs, cs = [], []
        J = [1.0, 1.0, float(rng.choice([1.0, 0.5, 0.0]))]
        for i in range(n - 1):
            for c, p in zip(J, 'XYZ'):
                if c:
                    cs.append(c)
                    strs.append(qy.OperatorString([p, p], [lab[i], lab[i + 1]], 'Pauli'))
        return qy.Operator(cs, strs)
    if style == 1:
        nm = 'Z' if typ == 'Pauli' else 'D'
        return qy.Operator(np.ones(n), [qy.OperatorString([nm], [l], typ) for l in lab])
    if style == 2:
        s = G.opstring(rng, typ, lab, min_k=1)
        return qy.Operator([G.coeff(rng)], [s])
    return G.operator(rng, typ, lab, rng.randint(1, 6), False, min_k=1)


def space_(rng, typ, lab, H):
    n = len(lab)
    style = rng.randint(4)
    if style == 0 and n <= 3:
        B = qy.cluster_basis(int(rng.randint(1, n + 1)), list(lab), typ, include_identity=bool(rng.randint(2)))
        return B, [O.os_poly(s) for s in B], 'cluster'
    if style <= 1:
        B = qy.Basis(G.distinct_strings(rng, typ, lab, rng.randint(1, 14)))
        return B, [O.os_poly(s) for s in B], 'strings'
    ops = [G.operator(rng, typ, lab, rng.randint(1, 4), rng.rand() < 0.3) for _ in range(rng.randint(1, 6))]
    if rng.rand() < 0.5:
        ops.append(H + 0.5 * ops[0])
        ops.append(H - 2.0 * ops[0])
    if rng.rand() < 0.2 and len(ops) > 1:
        ops.append(ops[0] - ops[1])
    ops = [o for o in (o.remove_zeros(1e-10) for o in ops) if len(o)]
    return ops, [O.op_poly(o) for o in ops], 'operators'


def commuting(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    lab = G.label_pool(rng, rng.randint(1, 5))
    H = hamiltonian(rng, typ, lab)
    r = rng.rand()
    if r < 0.12:                    # the operator contains the identity
        H = H + float(rng.choice([1.0, -0.5, 2.0])) * qy.Operator([1.0], [qy.OperatorString([], [], typ)])
        ctx.count('identity-term')
    there = lab
    if 0.12 < r < 0.3 and len(lab) <= 3:    # the space acts on other orbitals, or only partly on the same ones
        other = [l for l in range(max(lab) + 6) if l not in lab]
        there = sorted(int(x) for x in rng.choice(other, rng.randint(1, 4), replace=False))
        if rng.rand() < 0.3:
            there = sorted(there + [lab[rng.randint(len(lab))]])[:4]
        ctx.count('elsewhere')
    space, polys, kind = space_(rng, typ, there, H)
    if not polys:
        raise Skip('empty')
    factor = 1.0
    if rng.rand() < 0.25:           # the same problem in other units
        factor = float(rng.choice([0.03, 0.1, 10.0, 30.0]))
        H = H * factor
    PH = O.op_poly(H)
    mode = [None, 'commutator', 'anticommutator'][rng.randint(3)]
    ref = O.panti if mode == 'anticommutator' else O.pcomm
    R, _ = O.polys_to_matrix([ref(p, PH) for p in polys])
    kw = {} if mode is None else dict(operation_mode=mode)
    sv = np.linalg.svd(R, compute_uv=False) if R.size else np.zeros(0)
    if np.any((sv > 1e-9) & (sv < 1e-4)):
        raise Skip('gap')
    # rounding of the eigenvalues of the commutant matrix, which are compared with an absolute tolerance
    noise = 2e-16 * sv.max(initial=0) ** 2
    if noise > 2e-12:
        kw['tol'] = 100 * noise
        if np.any((sv > 1e-9) & (sv ** 2 < 1000 * noise)):
            raise Skip('gap')
        ctx.count('large-norms')
    elif factor == 1.0 and rng.rand() < 0.3:
        kw['tol'] = float(rng.choice([1e-9, 1e-8, 1e-11])) if noise < 1e-13 else 1e-9
    if factor != 1.0:
        ctx.count('rescaled')
    vecs = qy.commuting_operators(space, H, **kw)
    dim = check_space(ctx, vecs, R, polys, 'commuting-' + ('anti' if ref is O.panti else 'comm'))
    V2, com, ev, evec = qy.commuting_operators(space, H, return_superoperator=True, **kw)
    check_space(ctx, V2, R, polys, 'commuting-superoperator')
    com = com.toarray() if ss.issparse(com) else np.asarray(com)
    sc = max(1.0, np.abs(com).max(initial=0))
    G0 = R.conj().T @ R
    ctx.check(np.allclose(com, G0, atol=1e-8 * sc), 'superoperator', 'the superoperator is not the Gram matrix of the images')
    ctx.check(np.allclose(com @ evec, evec * np.asarray(ev)[None, :], atol=1e-6 * sc), 'superoperator-eigen', 'eigenvectors do not belong to the superoperator')
    N = len(polys)
    if rng.rand() < 0.3:            # a cutoff above some of the eigenvalues: nearly commuting operators
        sq = np.sort(np.linalg.eigvalsh(G0))
        cuts = [(a + b) / 2 for a, b in zip(sq, sq[1:]) if b - a > 1e-3 * sc]
        if cuts:
            t = float(cuts[rng.randint(len(cuts))])
            V4 = np.asarray(qy.commuting_operators(space, H, **dict(kw, tol=t)))
            ctx.check(V4.shape == (N, int((sq < t).sum())), 'cutoff-count', lambda: '{} operators below the cutoff {} of {}'.format(V4.shape[1], t, sq))
            ctx.check(np.linalg.norm(R @ V4, axis=0).max(initial=0) ** 2 < t + 1e-7 * sc, 'cutoff', lambda: 'commutators are larger than the cutoff {}'.format(t))
            ctx.count('cutoffs')
    if N >= 4 and dim + 1 < N - 1 and rng.rand() < 0.4:
        k = int(rng.randint(dim + 1, N + 2))
        try:
            V3 = qy.commuting_operators(space, H, num_vecs=k, **kw)
        except (RuntimeError, np.linalg.LinAlgError):
            ctx.count('sparse-solver-failed')
        else:
            check_space(ctx, V3, R, polys, 'commuting-num_vecs', complete=k >= N - 1, k=k)
            ctx.count('num_vecs')
            ctx.count('num_vecs-sparse', int(k < N - 1 and dim > 0))
    if N >= 4 and dim and rng.rand() < 0.4:
        truncated(ctx, rng, lambda k: qy.commuting_operators(space, H, num_vecs=k, **kw), R, N, dim, 'commuting')
        silent(ctx, lambda: (lambda k: qy.commuting_operators(space, H, num_vecs=k, **kw))(None), 'commuting')
    ctx.count('c-' + kind)
    ctx.count('mode-' + ('anti' if ref is O.panti else 'comm'))
    if 0 < dim < N:
        ctx.seen(mode, G.desc(H), [G.desc(o) for o in space])
        ctx.count('nontrivial-' + kind)
    ctx.sample('{} with {} in {} {} elements: {}'.format(mode, G.desc(H), N, kind, dim))


def large(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    lab = G.label_pool(rng, rng.randint(4, 7))
    H = hamiltonian(rng, typ, lab)
    B = qy.cluster_basis(2, list(lab), typ)
    polys = [O.os_poly(s) for s in B]
    PH = O.op_poly(H)
    mode = ['commutator', 'anticommutator'][rng.randint(2)]
    ref = O.panti if mode == 'anticommutator' else O.pcomm
    R, _ = O.polys_to_matrix([ref(p, PH) for p in polys])
    dim = check_space(ctx, qy.commuting_operators(B, H, operation_mode=mode), R, polys, 'commuting-large')
    ctx.seen('L', mode, G.desc(H))
    ctx.count('large')
    ctx.sample('{} with {} in {} strings: {}'.format(mode, G.desc(H), len(B), dim))


FAMILIES = [Family('commuting', commuting, 700, 10000, require=200), Family('large', large, 16, 200, require=5)]
REQUIRED_COUNTERS = ['truncated', 'rescaled', 'cutoffs', 'c-cluster', 'c-strings', 'c-operators', 'mode-anti', 'mode-comm', 'num_vecs', 'num_vecs-sparse', 'nontrivial-operators', 'nontrivial-strings']
