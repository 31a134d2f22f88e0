"""C11  SymmetricOperatorGenerator: every entry satisfies its symmetries and none is missing."""
import contextlib
import io
import numpy as np
import scipy.sparse as ss
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import transf as T
from ..spaces import check_space
from .c09 import cases, images
from .c10 import hamiltonian

PROP = 'C11'
RULE = ('A case draws a search space (Basis or list of operators) and 1-4 symmetries (operators and transformations, commuting '
        'or anti-commuting), runs the generator in cumulative and/or noncumulative mode with random options (sparsify, '
        'orthogonalize, num_vecs, repeated calls, symmetries added between calls), and compares each entry with the '
        'null space of the stacked residuals of the symmetries up to that entry, computed in an independent algebra. '
        'Non-trivial = the final space is neither empty nor the whole search space.')
ASSUMPTIONS = ['real coefficients', 'the reference null spaces have a clear spectral gap (else inconclusive)',
               'num_vecs larger than the dimensions of the wanted spaces']


def symmetry(rng, typ, n):
    if rng.rand() < 0.5:
        _, sp = T.draw(rng, typ, n=n, nmax=max(n, 3))
        return sp
    k = rng.randint(3)
    if k == 0:
        nm = ['X', 'Y', 'Z'][rng.randint(3)] if typ == 'Pauli' else 'D'
        return qy.Operator(np.ones(n), [qy.OperatorString([nm], [l], typ) for l in range(n)])
    return hamiltonian(rng, typ, list(range(n)))


def residuals(sym, mode, space, polys):
    if isinstance(sym, T.Spec):
        s = -1.0 if mode == 'anticommutator' else 1.0
        imgs = images(sym, space)
        return [O.psub(i, O.pscale(p, s)) for i, p in zip(imgs, polys)]
    ref = O.panti if mode == 'anticommutator' else O.pcomm
    P = O.op_poly(sym)
    return [ref(p, P) for p in polys]


def vectors_of(ctx, entry, space, polys):
    """coefficients of a list of operators in the search space (least squares, must be exact)"""
    ps = [O.op_poly(o) for o in entry]
    for p in ps:
        ctx.check(abs(O.pnorm(p) - 1.0) < 1e-6, 'cumulative-normalized', lambda: 'norm {}'.format(O.pnorm(p)))
    M, _ = O.polys_to_matrix(list(polys) + ps)
    C, P = M[:, :len(polys)], M[:, len(polys):]
    V = np.linalg.pinv(C, rcond=1e-9) @ P
    ctx.check(np.allclose(C @ V, P, atol=1e-6), 'cumulative-inside', 'an operator is not in the search space')
    return V


def run(ctx, gen, sparse, **kw):
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            gen.generate(**kw)
    except RuntimeError:
        if not sparse:
            raise
        raise Skip('sparse solver failed')
    if kw.get('verbose') is False:
        ctx.check(out.getvalue() == '', 'verbose', 'printed with verbose=False: {!r}'.format(out.getvalue()[:200]))


def setup(rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n, sp, space, polys, kind = cases(rng, typ)
    if n > 6:
        raise Skip('big')
    syms = [sp] + [symmetry(rng, typ, n) for _ in range(rng.randint(0, 4))]
    syms = [syms[i] for i in rng.permutation(len(syms))]
    modes = [['commutator', 'anticommutator'][int(rng.rand() < 0.25)] for _ in syms]
    return typ, n, space, polys, kind, syms, modes


def stacked(blocks):
    keys, rows = {}, []
    N = len(blocks[0])
    Ms = []
    for b in blocks:
        M, _ = O.polys_to_matrix(b)
        Ms.append(M)
    return np.vstack(Ms) if Ms else np.zeros((0, N))


def dense_(M):
    return M.toarray() if ss.issparse(M) else np.asarray(M)


def check_records(ctx, gen, mode, k, N, name):
    """the recorded superoperators belong to the recorded eigenvalues and eigenvectors"""
    if mode == 'noncumulative':
        for S, w, v in zip(gen.superoperators[-k:], gen.eigenvalues[-k:], gen.eigenvectors[-k:]):
            S, w, v = dense_(S), np.asarray(w), np.asarray(v)
            sc = max(1.0, np.abs(S).max(initial=0))
            ctx.check(S.shape == (N, N) and v.shape == (N, len(w)), name + '-record-shape', lambda: str((S.shape, v.shape, w.shape)))
            ctx.check(np.allclose(S @ v, v * w[None, :], atol=1e-6 * sc), name + '-record-eigen', 'eigenvectors do not belong to the superoperator')
        ctx.check(len(gen.superoperators) >= k and len(gen.superoperators) == len(gen.eigenvalues) == len(gen.eigenvectors) == len(gen.output_operators),
                  name + '-record-count', 'not a record per symmetry')
        for i in range(k):
            w, v = np.asarray(gen.projected_eigenvalues[-k:][i]), np.asarray(gen.projected_eigenvectors[-k:][i])
            S = dense_(gen.superoperators[-k:][i])
            sc = max(1.0, np.abs(S).max(initial=0))
            ctx.check(v.shape == (N, len(w)), name + '-projected-shape', lambda: str(v.shape))
            ctx.check(np.allclose(np.einsum('ij,ik,kj->j', v.conj(), S, v) if v.size else np.zeros(0), w, atol=1e-6 * sc), name + '-projected-eigen',
                      'projected eigenvalues are not those of the projected operators')
            ctx.count('records')
    else:
        for S, w, v in zip(gen.projected_superoperators[-k:], gen.projected_eigenvalues[-k:], gen.projected_eigenvectors[-k:]):
            S, w, v = dense_(S), np.asarray(w), np.asarray(v)
            sc = max(1.0, np.abs(S).max(initial=0))
            ctx.check(v.shape[1] == len(w) and v.shape[0] == S.shape[0], name + '-projected-shape', lambda: str((S.shape, v.shape, w.shape)))
            ctx.check(np.allclose(S @ v, v * w[None, :], atol=1e-6 * sc), name + '-projected-eigen', 'projected eigenvectors do not belong to the superoperator')
            ctx.count('projected-records')
    ctx.check(len(gen.projected_superoperators) == len(gen.projected_eigenvalues) == len(gen.projected_eigenvectors) == len(gen.projected_output_operators),
              name + '-projected-count', 'not a projected record per symmetry')


def staircase(ctx, V, what, name):
    """sparsified vectors come from an echelon form: sorted by size, the i-th has at most N-k+1+i entries"""
    N, k = V.shape
    nz = sorted(int(np.sum(np.abs(V[:, j]) > 1e-7 * np.abs(V[:, j]).max(initial=0))) for j in range(k))
    ctx.check(all(c <= N - k + 1 + i for i, c in enumerate(nz)), name + '-sparsified', lambda: '{}: {} vectors of {} entries have {} non-zeros'.format(what, k, N, nz))
    ctx.count('sparsified', int(1 < k < N))


def compare(ctx, gen, mode, space, polys, blocks, dense, kw, name, complete):
    """dense: no sparse solver involved (it does not promise orthonormal vectors)"""
    k = len(blocks)
    N = len(polys)
    dims = []
    check_records(ctx, gen, mode, k, N, name)
    proj = gen.projected_output_operators[-k:]
    ctx.check(len(gen.projected_output_operators) >= k, 'entries', 'not one entry per symmetry')
    for i in range(k):
        R = stacked(blocks[:i + 1])
        if mode == 'cumulative':
            entry = proj[i]
            ctx.check(isinstance(entry, list), 'entry-type', str(type(entry)))
            V = vectors_of(ctx, entry, space, polys) if entry else np.zeros((N, 0))
            if kw.get('sparsification') is not False and isinstance(space, qy.Basis):
                if i == 0:
                    staircase(ctx, V, 'entry 0', name)
                elif len(proj[i - 1]) and V.shape[1]:
                    W = vectors_of(ctx, proj[i - 1], space, polys)
                    sv = np.linalg.svd(W, compute_uv=False)
                    if sv[-1] > 1e-2 * sv[0]:
                        staircase(ctx, np.linalg.pinv(W) @ V, 'entry {}'.format(i), name)
            # operators (not coefficient vectors) are returned: dependent lists are compared by rank only
            dims.append(check_space(ctx, V, R, polys, name + '-joint', complete))
            if dense and i == 0 and isinstance(space, qy.Basis) and (kw.get('orthogonalization') or kw.get('sparsification') is False):
                ctx.check(np.allclose(V.conj().T @ V, np.eye(V.shape[1]), atol=1e-5), name + '-orthonormal', 'not orthonormal')
                ctx.count('cumulative-orthonormal')
        else:
            V = np.asarray(proj[i])
            if kw.get('sparsification') is not False and dense and (i == k - 1 or not kw.get('orthogonalization')):
                staircase(ctx, V, 'entry {}'.format(i), name)
            dims.append(check_space(ctx, V, R, polys, name + '-joint', complete))
            out = np.asarray(gen.output_operators[-k:][i])
            check_space(ctx, out, stacked([blocks[i]]), polys, name + '-single', complete)
            sup = gen.superoperators[-k:][i]
            sup = sup.toarray() if ss.issparse(sup) else np.asarray(sup)
            sc = max(1.0, np.abs(sup).max(initial=0))
            ctx.check(np.abs(sup @ out).max(initial=0) < 1e-4 * sc, name + '-superoperator', 'not in the null space of the superoperator')
            if dense:
                ctx.check(np.allclose(V.conj().T @ V, np.eye(V.shape[1]), atol=1e-5), name + '-orthonormal', 'columns are not orthonormal')
            if dense and kw.get('orthogonalization') and i + 1 < k:
                W = np.asarray(proj[i + 1])
                ctx.check(np.allclose(V[:, :W.shape[1]], W, atol=1e-5), name + '-nested', 'later operators are not the first columns')
    return dims


def generate(ctx, rng, idx):
    typ, n, space, polys, kind, syms, modes = setup(rng, idx)
    if not polys:
        raise Skip('empty')
    if not isinstance(space, qy.Basis):
        sv = np.linalg.svd(O.polys_to_matrix(polys)[0], compute_uv=False)
        if sv.max() > 30 or np.any((sv > 1e-9) & (sv < 0.02)):
            raise Skip('badly scaled list of operators')
    blocks = [residuals(s, m, space, polys) for s, m in zip(syms, modes)]
    mode = ['cumulative', 'noncumulative', None][rng.randint(3)]
    kw = {}
    if mode is not None:
        kw['mode'] = mode
    for nm in ('sparsification', 'orthogonalization', 'verbose'):
        if rng.rand() < 0.6:
            kw[nm] = bool(rng.randint(2))
    eff = mode or 'cumulative'
    gen = qy.SymmetricOperatorGenerator(space)
    use_nv = rng.rand() < 0.15 and not any(isinstance(s, T.Spec) and s.anti for s in syms)
    complete = True
    before = [O.op_poly(o) if isinstance(o, qy.Operator) else O.os_poly(o) for o in space]
    for s, m, b in zip(syms, modes, blocks):
        a = {}
        if m != 'commutator' or rng.rand() < 0.3:
            a['operation_mode'] = m
        if use_nv:
            null = O.nullspace(stacked([b]), gap=3e-4)
            if null is None:
                raise Skip('gap')
            # (the sparse solver can miss copies of degenerate eigenvalues)
            a['num_vecs'] = int(rng.randint(null.shape[1] + 1, len(polys) + 4)) if rng.rand() < 0.6 else None
            complete = complete and (a['num_vecs'] is None or a['num_vecs'] >= len(polys) - 1)
        gen.add_symmetry(s.transform if isinstance(s, T.Spec) else s, **a)
    run(ctx, gen, not complete, **kw)
    dims = compare(ctx, gen, eff, space, polys, blocks, not use_nv, kw, eff, complete)
    after = [O.op_poly(o) if isinstance(o, qy.Operator) else O.os_poly(o) for o in space]
    ctx.check(len(before) == len(after) and all(O.pdiff(a, b) < 1e-12 for a, b in zip(before, after)), 'search-space-modified', 'generate changed the search space')
    again = rng.rand()
    if again < 0.5:
        if again < 0.25:
            s, m = symmetry(rng, typ, n), ['commutator', 'anticommutator'][int(rng.rand() < 0.25)]
            if not (use_nv and isinstance(s, T.Spec) and s.anti):
                gen.add_symmetry(s.transform if isinstance(s, T.Spec) else s, operation_mode=m)
                blocks.append(residuals(s, m, space, polys))
                ctx.count('symmetry-added-later')
        kw2 = dict(kw, mode=['cumulative', 'noncumulative'][rng.randint(2)])
        run(ctx, gen, not complete, **kw2)
        dims = compare(ctx, gen, kw2['mode'], space, polys, blocks, not use_nv, kw2, 'repeated-' + kw2['mode'], complete)
        ctx.count('repeated')
    ctx.count('mode-' + eff)
    ctx.count('g-' + kind)
    if use_nv:
        ctx.count('num_vecs')
    if 0 in dims:
        ctx.count('became-empty')
    if any(isinstance(s, T.Spec) for s in syms) and any(isinstance(s, qy.Operator) for s in syms):
        ctx.count('mixed-symmetries')
    if 0 < dims[-1] < len(polys):
        ctx.count('nontrivial-' + kind)
        ctx.seen(typ, [s.name if isinstance(s, T.Spec) else G.desc(s) for s in syms], modes, [G.desc(o) for o in space])
    ctx.sample('{} symmetries {} on {} {} elements, dims {}'.format(eff, [s.name if isinstance(s, T.Spec) else G.desc(s) for s in syms], len(polys), kind, dims))


def lattice(ctx, rng, idx):
    """the documented workflow: k-local strings of a lattice, space group, time reversal and total spin or charge"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(4, 7))
    lab = list(range(n))
    t = int(rng.randint(1, n))
    pool = [T.permutation(rng, n, [(i + t) % n for i in lab]), T.permutation(rng, n, lab[::-1]), T.time_reversal()]
    if typ == 'Majorana':
        pool.append(T.particle_hole(rng))
        pool.append(qy.Operator(np.ones(n), [qy.OperatorString(['D'], [l], typ) for l in lab]))
    else:
        pool += [qy.Operator(np.ones(n), [qy.OperatorString([nm], [l], typ) for l in lab]) for nm in 'XYZ']
    syms = [pool[i] for i in rng.choice(len(pool), rng.randint(2, len(pool) + 1), replace=False)]
    modes = [['commutator', 'anticommutator'][int(rng.rand() < 0.15)] for _ in syms]
    B = qy.cluster_basis(2, list(lab), typ)
    polys = [O.os_poly(s) for s in B]
    blocks = [residuals(s, m, B, polys) for s, m in zip(syms, modes)]
    mode = ['cumulative', 'noncumulative'][rng.randint(2)]
    kw = dict(mode=mode, verbose=False)
    for nm in ('sparsification', 'orthogonalization'):
        if rng.rand() < 0.6:
            kw[nm] = bool(rng.randint(2))
    gen = qy.SymmetricOperatorGenerator(B)
    for s, m in zip(syms, modes):
        gen.add_symmetry(s.transform if isinstance(s, T.Spec) else s, operation_mode=m)
    run(ctx, gen, False, **kw)
    dims = compare(ctx, gen, mode, B, polys, blocks, True, kw, 'lattice-' + mode, True)
    if 0 < dims[-1] < len(polys):
        ctx.count('lattice-nontrivial')
        ctx.seen(typ, n, [s.name if isinstance(s, T.Spec) else G.desc(s) for s in syms], modes, mode)
    ctx.sample('{} of {} strings of {} orbitals: dims {}'.format(mode, len(polys), n, dims))


def limited(ctx, rng, idx):
    """a number of vectors for each symmetry: that many are computed, and whatever is found is right"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(3, 6))
    lab = list(range(n))
    B = qy.cluster_basis(int(rng.randint(2, 4)) if n < 5 else 2, lab, typ)
    names = O.PAULI if typ == 'Pauli' else O.MAJ
    syms, nvs = [], []
    for _ in range(rng.randint(2, 5)):
        if rng.rand() < 0.3:
            syms.append(T.permutation(rng, n))
        else:
            syms.append(qy.Operator([G.coeff(rng) for _ in range(2)], G.distinct_strings(rng, typ, lab, 2, max_k=2)))
        nvs.append(None if rng.rand() < 0.2 else int(rng.randint(1, 1 + len(B) // int(rng.choice([1, 2, 6])))))
    syms = [qy.Operator([1.0], [qy.OperatorString([names[rng.randint(3)]], [int(rng.randint(n))], typ)]) if not isinstance(s, T.Spec) and rng.rand() < 0.4 else s for s in syms]
    mode = ['cumulative', 'noncumulative'][rng.randint(2)]
    gen = qy.SymmetricOperatorGenerator(B)
    for s, k in zip(syms, nvs):
        gen.add_symmetry(s.transform if isinstance(s, T.Spec) else s, **({} if k is None and rng.rand() < 0.5 else dict(num_vecs=k)))
    run(ctx, gen, True, mode=mode, verbose=False)
    polys = [O.os_poly(s) for s in B]
    blocks = [residuals(s, 'commutator', B, polys) for s in syms]
    what = lambda: '{} of {} strings, {} vectors for {}'.format(mode, len(B), nvs, [s.name if isinstance(s, T.Spec) else G.desc(s) for s in syms])
    left = len(B)
    for i, k in enumerate(nvs):
        want = lambda dim: dim if k is None or k >= dim - 1 else k
        if mode == 'cumulative':
            ws = [gen.projected_eigenvalues[i]]
            dims = [left]
        else:
            ws = [gen.eigenvalues[i], gen.projected_eigenvalues[i]]
            dims = [len(B), gen.projected_superoperators[i].shape[0]]
        for w, dim in zip(ws, dims):
            ctx.check(len(w) == want(dim), 'limited-count', lambda: '{}: {} eigenvalues for symmetry {}, expected {}'.format(what(), len(w), i, want(dim)))
            ctx.count('limited-eigensolves', int(k is not None and k < dim - 1))
        entry = gen.projected_output_operators[i]
        P = [O.op_poly(o) for o in entry] if mode == 'cumulative' else [O.lincomb(v, polys) for v in np.asarray(entry).T]
        for p in P:
            ctx.check(abs(O.pnorm(p) - 1) < 1e-6, 'limited-norm', what)
        if mode == 'cumulative':
            C = vectors_of(ctx, entry, B, polys) if entry else np.zeros((len(B), 0))
        else:
            C = np.asarray(entry)
        R = stacked(blocks[:i + 1])
        ctx.check(np.abs(R @ C).max(initial=0) < 2e-4, 'limited-sound', lambda: '{}: entry {} has a residual of {}'.format(what(), i, np.abs(R @ C).max(initial=0)))
        left = len(P)
        ctx.count('limited-nonempty', int(bool(P)))
        if not P and mode == 'cumulative':
            break
    if len(set(nvs)) > 1:
        ctx.seen('limited', what())
    ctx.sample(what())


def tolerance(ctx, rng, idx):
    """nearly symmetric operators: the given tolerance decides which of them are accepted"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(2, 4))
    lab = list(range(n))
    B = qy.cluster_basis(int(rng.randint(1, n + 1)), lab, typ) if rng.rand() < 0.5 else qy.Basis(G.distinct_strings(rng, typ, lab, rng.randint(4, 16)))
    polys = [O.os_poly(s) for s in B]
    tol = 10.0 ** rng.uniform(-8, -4)
    syms = []
    for _ in range(rng.randint(1, 4)):
        H = hamiltonian(rng, typ, lab)
        small = G.distinct_strings(rng, typ, lab, rng.randint(1, 3), max_k=2)
        eps = 10.0 ** rng.uniform(-4.5, -1.5) if rng.rand() < 0.4 else np.sqrt(tol) * 10.0 ** -rng.uniform(0.7, 2)
        syms.append(H + eps * qy.Operator([G.coeff(rng) for _ in small], small))
    mode = ['cumulative', 'noncumulative'][idx // 2 % 2]
    gen = qy.SymmetricOperatorGenerator(B)
    for s in syms:
        gen.add_symmetry(s)
    kw = dict(mode=mode, tol=tol, verbose=False)
    if rng.randint(2):
        kw['sparsification'] = False
    else:
        kw['orthogonalization'] = True if mode == 'cumulative' else False
    run(ctx, gen, False, **kw)
    V = np.eye(len(B), dtype=complex)
    what = lambda: '{} tol {:.1e}: {} in {} strings'.format(mode, tol, [G.desc(s) for s in syms], len(B))
    for i, s in enumerate(syms):
        R = stacked([residuals(s, 'commutator', B, polys)])
        if mode == 'noncumulative':
            V = np.eye(len(B), dtype=complex)
        ev = np.linalg.svd(R @ V, compute_uv=False) ** 2
        ev = np.concatenate([ev, np.zeros(V.shape[1] - len(ev))])
        if np.any((ev > tol / 20) & (ev < tol * 20)):
            raise Skip('gap')
        want = int((ev < tol).sum())
        if mode == 'cumulative':
            entry = gen.projected_output_operators[i]
            got, W = len(entry), vectors_of(ctx, entry, B, polys) if entry else np.zeros((len(B), 0))
        else:
            W = np.asarray(gen.output_operators[i])
            got = W.shape[1]
        ctx.check(got == want, 'tolerance-count', lambda: '{}: {} operators for symmetry {}, expected {} (eigenvalues {})'.format(what(), got, i, want, np.sort(ev)[:12]))
        ctx.check(got == 0 or np.abs((R @ W)).max() < 3 * np.sqrt(tol), 'tolerance-sound', what)
        ctx.count('tolerance-accepted', int((ev[ev < tol] > 1e-14).any()))
        ctx.count('tolerance-refused', int((ev[ev > tol] < 1e-2).any()))
        if not got:
            break
        V = np.linalg.qr(W)[0]
    ctx.seen('tolerance', what())


FAMILIES = [Family('tolerance', tolerance, 160, 2500, require=40), Family('limited', limited, 60, 900, require=20), Family('lattice', lattice, 16, 250, require=8), Family('generate', generate, 900, 12000, require=250)]
REQUIRED_COUNTERS = ['tolerance-accepted', 'tolerance-refused', 'limited-eigensolves', 'limited-nonempty', 'sparsified', 'lattice-nontrivial', 'records', 'projected-records', 'mode-cumulative', 'mode-noncumulative', 'g-cluster', 'g-strings', 'g-orthonormal', 'g-overlapping', 'g-dependent',
                     'num_vecs', 'became-empty', 'mixed-symmetries', 'repeated', 'symmetry-added-later', 'nontrivial-cluster', 'nontrivial-orthonormal']
