"""C02  structure constants / Liouvillian / commutant matrices represent the superoperator."""
import numpy as np
import scipy.sparse as ss
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G

PROP = 'C02'
RULE = ('A case draws a set of Pauli/Majorana strings (or a list of operators, possibly linearly dependent, complex), '
        'an operator, a mode, and rebuilds every column of the returned matrix from the extended basis with the '
        'independent algebra; non-trivial = at least one non-zero matrix entry.')
ASSUMPTIONS = ['operators passed in have distinct strings; coefficients between 1e-7 and 1e4 in magnitude']
MODES = {'commutator': O.pcomm, 'anticommutator': O.panti, 'product': O.pmul}


def dense(M):
    return M.toarray() if ss.issparse(M) else np.asarray(M)


def check_ext(ctx, ext, what):
    strs = [G.key_of(s) for s in ext]
    ctx.check(len(strs) == len(set(strs)), what + '-extended-duplicates', 'extended basis repeats a string')
    for i, s in enumerate(ext):
        ctx.check(ext.index(s) == i, what + '-extended-index', 'extended basis index is not its position')


def columns(ctx, L, ext_polys, inputs, PO, ref, what):
    L = dense(L)
    ctx.check(L.shape == (len(ext_polys), len(inputs)), what + '-shape', lambda: 'shape {}'.format(L.shape))
    for a, Pa in enumerate(inputs):
        got = O.lincomb(L[:, a], ext_polys)
        ctx.check(O.pdiff(got, ref(Pa, PO)) < 1e-8, what + '-column',
                  lambda: 'column {}: got {} expected {}'.format(a, O.pclean(got), O.pclean(ref(Pa, PO))))


def structure(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    pool = G.label_pool(rng, rng.randint(1, 6))
    SA = G.distinct_strings(rng, typ, pool, rng.randint(1, 8))
    SB = G.distinct_strings(rng, typ, pool, rng.randint(1, 6))
    mode = list(MODES)[rng.randint(3)]
    ref = MODES[mode]
    A, B = qy.Basis(list(SA)), qy.Basis(list(SB))
    PA, PB = [O.os_poly(s) for s in SA], [O.os_poly(s) for s in SB]
    (res, ext) = qy.structure_constants(A, B, operation_mode=mode, return_extended_basis=True)
    check_ext(ctx, ext, 'structure')
    EP = [O.os_poly(s) for s in ext]
    used = np.zeros(len(ext), dtype=bool)
    for s, Pb in zip(SB, PB):
        columns(ctx, res[s], EP, PA, Pb, ref, 'structure-' + mode)
        used |= np.abs(dense(res[s])).sum(axis=1) > 1e-12
    ctx.check(bool(used.all()), 'structure-extended-minimal', 'extended basis holds a string that nothing generates')
    ctx.check(len(res) == len(SB), 'structure-keys', 'one matrix per string expected')
    # the other result formats describe the same numbers
    res2 = qy.structure_constants(A, B, operation_mode=mode)
    tup, ext3 = qy.structure_constants(A, B, operation_mode=mode, return_extended_basis=True, return_data_tuple=True)
    EP3 = [O.os_poly(s) for s in ext3]
    for s, Pb in zip(SB, PB):
        D = dense(res[s])
        D2 = dense(res2[s])
        ctx.check(D2.shape[1] == len(SA) and np.allclose(D2.conj().T @ D2, D.conj().T @ D), 'structure-format',
                  'result without extended basis differs')
        r, c, d = tup[s]
        M = np.zeros((len(ext3), len(SA)), dtype=complex)
        for i, j, v in zip(r, c, d):
            M[i, j] += v
        columns(ctx, M, EP3, PA, Pb, ref, 'structure-tuple-' + mode)
    if len(ext):
        ctx.seen(mode, [str(s) for s in SA], [str(s) for s in SB])
        ctx.count('nonzero-structure')
    ctx.sample('{} {} strings x {} strings -> {} products'.format(mode, len(SA), len(SB), len(ext)))


def gram(inputs, PO, ref):
    im = [ref(P, PO) for P in inputs]
    return np.array([[O.pinner(a, b) for b in im] for a in im], dtype=complex).reshape(len(inputs), len(inputs))


def liouvillian(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    aslist = (idx // 2) % 2
    pool = G.label_pool(rng, rng.randint(1, 6))
    mode = list(MODES)[rng.choice(3, p=[0.5, 0.3, 0.2])]
    ref = MODES[mode]
    H = G.operator(rng, typ, pool, rng.randint(1, 7), rng.rand() < 0.4)
    PO = O.op_poly(H)
    if aslist:
        basis = [G.operator(rng, typ, pool, rng.randint(1, 5), rng.rand() < 0.4) for _ in range(rng.randint(1, 6))]
        if rng.rand() < 0.3 and len(basis) > 1:
            basis.append(2.0 * basis[0] + basis[1])
        if rng.rand() < 0.3:            # the same object more than once
            i = rng.randint(len(basis))
            basis.insert([i, rng.randint(len(basis) + 1)][rng.randint(2)], basis[i])
            ctx.count('repeated-object')
        inputs = [O.op_poly(o) for o in basis]
        d = [G.desc(o) for o in basis]
    else:
        if rng.rand() < 0.3 and len(pool) <= 2:
            basis = qy.cluster_basis(len(pool), list(pool), typ, include_identity=bool(rng.randint(2)))
        else:
            basis = qy.Basis(G.distinct_strings(rng, typ, pool, rng.randint(1, 10)))
        inputs = [O.os_poly(s) for s in basis]
        d = [str(s) for s in basis]
    kw = {} if mode == 'commutator' and rng.rand() < 0.5 else dict(operation_mode=mode)
    L, ext = qy.liouvillian_matrix(basis, H, return_extended_basis=True, **kw)
    check_ext(ctx, ext, 'liouvillian')
    EP = [O.os_poly(s) for s in ext]
    columns(ctx, L, EP, inputs, PO, ref, 'liouvillian-' + mode)
    G0 = gram(inputs, PO, ref)
    scale = max(1.0, np.abs(G0).max() if G0.size else 1.0)
    L2 = dense(qy.liouvillian_matrix(basis, H, **kw))
    ctx.check(L2.shape[1] == len(inputs) and np.allclose(L2.conj().T @ L2, G0, atol=1e-8 * scale), 'liouvillian-plain',
              'matrix returned without the extended basis differs')
    C1, ext2 = qy.commutant_matrix(basis, H, return_extended_basis=True, **kw)
    C2 = qy.commutant_matrix(basis, H, **kw)
    for C in (C1, C2):
        C = dense(C)
        ctx.check(C.shape == G0.shape and np.allclose(C, G0, atol=1e-8 * scale), 'commutant-' + mode,
                  lambda: 'commutant matrix is not the Gram matrix of the images')
        ctx.check(np.allclose(C, C.conj().T, atol=1e-9 * scale), 'commutant-hermitian', 'not Hermitian')
    ctx.check([str(s) for s in ext2] == [str(s) for s in ext] or sorted(str(s) for s in ext2) == sorted(str(s) for s in ext),
              'commutant-extended', 'extended bases disagree')
    if np.abs(G0).max() > 1e-9:
        ctx.seen(mode, d, G.desc(H))
        ctx.count('nonzero-liouvillian')
    else:
        ctx.count('zero-liouvillian')
    ctx.sample('{} of {} inputs with {}'.format(mode, len(inputs), G.desc(H)))


def wide(ctx, rng, idx):
    """many strings, coefficients over many orders of magnitude: small entries are as exact as large ones"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    aslist = (idx // 2) % 2
    pool = G.label_pool(rng, int(rng.randint(4, 12)))
    mode = list(MODES)[rng.choice(3, p=[0.5, 0.3, 0.2])]
    ref = MODES[mode]
    H = G.operator(rng, typ, pool, int(rng.randint(2, 16)), rng.rand() < 0.4, max_k=4, wide=True)
    if aslist:
        basis = [G.operator(rng, typ, pool, int(rng.randint(1, 8)), rng.rand() < 0.4, max_k=4, wide=True) for _ in range(rng.randint(2, 12))]
        inputs = [O.op_poly(o) for o in basis]
    else:
        basis = qy.Basis(G.distinct_strings(rng, typ, pool, int(rng.randint(10, 61)), max_k=5))
        inputs = [O.os_poly(s) for s in basis]
    L, ext = qy.liouvillian_matrix(basis, H, operation_mode=mode, return_extended_basis=True)
    check_ext(ctx, ext, 'wide')
    EP = [O.os_poly(s) for s in ext]
    D = dense(L)
    ctx.check(D.shape == (len(ext), len(inputs)), 'wide-shape', str(D.shape))
    Hp = [(c, O.os_poly(s)) for c, s in H]
    small = 0
    for a, Pa in enumerate(inputs):
        want = {}
        size = {}               # what the rounding of each entry may be
        for c, P in Hp:
            Q = ref(Pa, O.pscale(P, c))
            want = O.padd(want, Q)
            for k, v in Q.items():
                size[k] = size.get(k, 0.0) + abs(v)
        for k, (x,) in ((i, tuple(P.items())) for i, P in enumerate(EP) if len(P) == 1):
            key, f = x
            got = D[k, a] * f
            w = want.get(key, 0.0)
            ctx.check(abs(got - w) <= 1e-9 * abs(w) + 1e-11 * max((abs(v) for v in size.values()), default=0.0) * 1e-3 + 1e-14, 'wide-entry',
                      lambda: '{} column {} row {}: {} expected {}'.format(mode, a, ext[k], got, w))
            small += 0 < abs(w) < 1e-6
        missing = [k for k, v in O.pclean(want).items() if abs(v) > 1e-13 and not any(k in P for P in EP)]
        ctx.check(not missing, 'wide-missing', lambda: '{} column {}: a term of the image is not in the extended basis'.format(mode, a))
    ctx.count('wide-entries', D.size)
    ctx.count('small-entries', small)
    C = dense(qy.commutant_matrix(basis, H, operation_mode=mode))
    ref_C = D.conj().T @ D
    ctx.check(C.shape == ref_C.shape and np.abs(C - ref_C).max() <= 1e-12 * max(1e-30, np.abs(ref_C).max()), 'wide-commutant', 'not the Gram matrix of the columns')
    ctx.seen('wide', mode, len(inputs), G.desc(H))
    ctx.sample('{} of {} inputs with {}'.format(mode, len(inputs), G.desc(H)))


FAMILIES = [
    Family('wide', wide, 60, 1200, require=30),
    Family('structure', structure, 300, 5000, require=100),
    Family('liouvillian', liouvillian, 500, 8000, require=100),
]
REQUIRED_COUNTERS = ['small-entries', 'nonzero-structure', 'nonzero-liouvillian', 'zero-liouvillian']
