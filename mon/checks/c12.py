"""C12  ladder operators of an operator, and operators with a given ladder operator."""
import contextlib
import io
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G

PROP = 'C12'
RULE = ('A case draws a Hermitian operator (few-body, quadratic or uniform) and a search space (cluster basis, random strings, '
        'strings closed under commutation, single Majoranas); every returned R is re-commuted in an independent algebra and, for every '
        'positive energy, their number is compared with the dimension of the eigenspace of the full superoperator that lies in the search '
        'space. The inverse search is checked against an independent linear solve. Non-trivial = at least one ladder operator exists.')
ASSUMPTIONS = ['real coefficients (Hermitian operators), complex ones for the given ladder operator', 'at most 3 orbitals, 5 for single-Majorana spaces',
               'energies and singular values are separated by clear gaps (else inconclusive)']


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def closed(space, H, limit=80):
    """the strings reachable from space by commutators with the strings of H"""
    out = list(space)
    seen = set(out)
    todo = list(out)
    while todo:
        s = todo.pop()
        for _, h in H:
            if O.pnorm(O.pcomm(O.os_poly(s), O.os_poly(h))) < 1e-12:
                continue
            _, t = qy.commutator(s, h)
            if t not in seen:
                seen.add(t)
                out.append(t)
                todo.append(t)
                if len(out) > limit:
                    raise Skip('large')
    return out


def quadratic(rng, lab):
    strs = {}
    for _ in range(rng.randint(1, 3 * len(lab) + 1)):
        i, j = lab[rng.randint(len(lab))], lab[rng.randint(len(lab))]
        if i == j:
            s = qy.OperatorString(['D'], [i], 'Majorana')
        else:
            i, j = min(i, j), max(i, j)
            s = qy.OperatorString(['AB'[rng.randint(2)], 'AB'[rng.randint(2)]], [i, j], 'Majorana')
        strs[s] = G.coeff(rng)
    return qy.Operator(list(strs.values()), list(strs))


def modes(typ, lab):
    """strings that anticommute with each other: Majorana fermions, or their Jordan-Wigner strings"""
    if typ == 'Majorana':
        return [qy.OperatorString([n], [l], typ) for l in lab for n in 'AB']
    lab = sorted(lab)
    return [qy.OperatorString(['Z'] * i + [n], lab[:i + 1], typ) for i in range(len(lab)) for n in 'XY']


def leaking(rng, typ):
    """a few chains of modes; the search space misses the ends of some of them, so that the commutators leave it step by step"""
    lab = G.label_pool(rng, rng.randint(2, 6))
    ms = modes(typ, lab)
    ms = [ms[i] for i in rng.permutation(len(ms))]
    terms, space, i = {}, [], 0
    weak = rng.rand() < 0.5            # some links much weaker than others
    while i < len(ms):
        n = int(rng.randint(1, len(ms) + 1 - i))
        chain = ms[i:i + n]
        i += n
        for a, b in zip(chain, chain[1:]):
            terms[qy.product(a, b)[1]] = G.coeff(rng) * (10.0 ** rng.uniform(-2, 0) if weak and rng.rand() < 0.3 else 1.0)
        m = n if rng.rand() < 0.5 else int(rng.randint(0, n + 1))
        space += chain[:m]
    if not terms:
        raise Skip('empty')
    return lab, qy.Operator(list(terms.values()), list(terms)), qy.Basis([space[j] for j in rng.permutation(len(space))])


def nearby(rng, typ):
    """modes of energies in a few groups, nearly but not quite equal within a group"""
    lab = G.label_pool(rng, rng.randint(3, 6))
    base = [float(x) for x in rng.choice([0.7, 1.0, 1.6, 2.5], 2, replace=False)]
    c = [base[rng.randint(2)] * (1.0 + 0.004 * int(rng.randint(0, 4))) for _ in lab]
    nm = 'Z' if typ == 'Pauli' else 'D'
    strs = list(qy.cluster_basis([1], list(lab), typ))
    if rng.rand() < 0.4:               # a small term that leads out of the search space
        out = list(qy.cluster_basis([2], list(lab)[:3], typ))
        more = [out[j] for j in rng.choice(len(out), rng.randint(1, 3), replace=False)]
        H = qy.Operator(c + [10.0 ** rng.uniform(-3, -1) for _ in more], [qy.OperatorString([nm], [l], typ) for l in lab] + more)
        return lab, H, qy.Basis([strs[j] for j in rng.permutation(len(strs))])
    H = qy.Operator(c, [qy.OperatorString([nm], [l], typ) for l in lab])
    return lab, H, qy.Basis([strs[j] for j in rng.permutation(len(strs))])


def setting(rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    if idx % 12 in (2, 3):
        lab, H, space = nearby(rng, typ)
        return typ, lab, H, space, 'nearby'
    if idx % 6 >= 4:
        lab, H, space = leaking(rng, typ)
        return typ, lab, H, space, 'leaking'
    style = rng.randint(5)
    if style == 0 and typ == 'Majorana':
        lab = G.label_pool(rng, rng.randint(1, 6))
        H = quadratic(rng, lab)
        return typ, lab, H, qy.cluster_basis([1], list(lab), typ), 'single'
    lab = G.label_pool(rng, rng.randint(1, 4))
    if style == 1:
        nm = 'Z' if typ == 'Pauli' else 'D'
        c = G.coeff(rng)
        H = qy.Operator([c] * len(lab), [qy.OperatorString([nm], [l], typ) for l in lab])
    elif style == 2 and typ == 'Majorana':
        H = quadratic(rng, lab)
    else:
        H = G.operator(rng, typ, lab, rng.randint(1, 5), False)
    style = rng.randint(4)
    if style == 0:
        return typ, lab, H, qy.cluster_basis(int(rng.randint(1, len(lab) + 1)), list(lab), typ, include_identity=bool(rng.randint(2))), 'cluster'
    strs = G.distinct_strings(rng, typ, lab, rng.randint(1, 20))
    if style == 1:
        return typ, lab, H, qy.Basis(strs), 'strings'
    return typ, lab, H, qy.Basis(closed(strs[:4], H)), 'closed'


def full(typ, lab, space, H):
    """the strings of a space, closed under commutation with H, that contains the search space"""
    return closed(list(space), H, 300)


def columns(polys, index):
    M = np.zeros((len(index), len(polys)), dtype=complex)
    for j, p in enumerate(polys):
        for k, v in p.items():
            M[index[k], j] = v
    return M


def reference(typ, lab, space, H):
    """[(energy, number of independent ladder operators in the span of space)]"""
    F = full(typ, lab, space, H)
    polys = [O.os_poly(s) for s in F]
    index = {}
    for p in polys:
        (k, v), = p.items()
        index[k] = len(index)
    D = columns(polys, index)                  # string coordinates (phases)
    PH = O.op_poly(H)
    A = np.zeros((len(F), len(F)), dtype=complex)
    for j, p in enumerate(polys):
        for k, v in O.pcomm(PH, p).items():
            if abs(v) > 1e-12:
                A[index[k], j] += v            # closed by construction
    A = np.linalg.solve(D, A)                  # in the coordinates of the strings
    try:
        return by_energy(A, np.array([s in space for s in F]))
    except Skip:
        return by_steps(A, np.array([s in space for s in F]))


def by_steps(A, inside):
    """[(energy, 1)] on the largest subspace of the search space that [H, .] maps into itself, found by discarding,
    step by step, what leaves it. Decides also when energies are nearly equal."""
    w = np.linalg.eigvalsh(0.5 * (A + A.conj().T))
    scale = max(1.0, np.abs(w).max())
    V = np.eye(len(A))[:, inside].astype(complex)
    while V.shape[1]:
        X = A @ V
        X = X - V @ (V.conj().T @ X)
        _, sv, vh = np.linalg.svd(X)
        if np.any((sv > 1e-12 * scale) & (sv < 1e-6 * scale)):
            raise Skip('gap')
        r = int((sv > 1e-9 * scale).sum())
        if not r:
            break
        V = np.linalg.qr(V @ vh.conj().T[:, r:])[0] if r < V.shape[1] else V[:, :0]
    w = np.linalg.eigvalsh(V.conj().T @ A @ V) if V.shape[1] else np.zeros(0)
    if np.any((np.abs(w) > 1e-11 * scale) & (np.abs(w) < 1e-3 * scale)):
        raise Skip('gap')
    return [(float(e), 1) for e in w if e > 1e-6 * scale], scale


def by_energy(A, inside):
    w, V = np.linalg.eigh(0.5 * (A + A.conj().T))
    if np.abs(A - A.conj().T).max() > 1e-9:
        raise AssertionError('oracle: superoperator of a Hermitian operator is not Hermitian')
    out = []
    i = 0
    scale = max(1.0, np.abs(w).max())
    while i < len(w):
        j = i + 1
        while j < len(w) and w[j] - w[j - 1] < 1e-6 * scale:
            j += 1
        if j < len(w) and w[j] - w[i] < 1e-3 * scale:
            raise Skip('gap')
        if 1e-11 * scale < np.abs(w[i:j]).max() < 1e-3 * scale:
            raise Skip('gap')
        if w[i] > 1e-6 * scale:
            E = V[~inside, i:j]
            sv = np.linalg.svd(E, compute_uv=False) if E.shape[0] else np.zeros(0)
            r = int(np.sum(sv > 1e-7))
            if np.any((sv > 1e-12) & (sv < 1e-4)):
                raise Skip('gap')
            if j - i - r:
                out.append((float(w[i]), j - i - r))
        i = j
    return out, scale


def ladder(ctx, rng, idx):
    typ, lab, H, space, kind = setting(rng, idx)
    if not len(space) or not len(H):
        raise Skip('empty')
    factor = 10.0 ** rng.randint(-4, 2) if rng.rand() < 0.35 else 1.0
    ref, scale = reference(typ, lab, space, H)
    if factor != 1.0:
        H = H * factor                 # the same ladder operators, energies in other units
        ref, scale = [(e * factor, m) for e, m in ref], scale * factor
        ctx.count('rescaled', len(ref))
    kw = {}
    sp = bool(rng.rand() < (0.8 if kind == 'nearby' else 0.3))
    if sp or rng.rand() < 0.3:
        kw['sparsification'] = sp
    if kind in ('strings', 'cluster', 'leaking', 'nearby') or scale > 20 or factor != 1.0 or rng.rand() < 0.5:
        kw['tol'] = 1e-9 * scale
    polysH = O.op_poly(H)
    ops, ev = quiet(qy.core._ladder_operators, space, H, **kw)
    vecs, ev2 = quiet(qy.core._ladder_operators, space, H, return_operators=False, **kw)
    vecs = np.asarray(vecs)
    ctx.check(len(ops) == len(ev) == vecs.shape[1] == len(ev2), 'lengths', 'as many energies as operators')
    if len(ops) or vecs.size:
        ctx.check(vecs.shape[0] == len(space), 'rows', 'a row per string of the basis')
    polys = []
    for R, e in zip(ops, ev):
        ctx.check(complex(e).imag == 0 and complex(e).real > 0, 'energy-positive', 'energy {}'.format(e))
        P = O.op_poly(R)
        ctx.check(all(s in space for c, s in R if abs(c) > 1e-12), 'in-space', 'terms outside of the search space')
        d = O.padd(O.pcomm(polysH, P), P, -complex(e))
        ctx.check(O.pnorm(d) < 1e-7 * scale, 'ladder', lambda: '[O, R] - d R = {} for d = {}'.format(O.pnorm(d), e))
        ctx.check(abs(O.pnorm(P) - 1) < 1e-8, 'normalised', 'norm {}'.format(O.pnorm(P)))
        polys.append(P)
        ctx.count('ladder-operators')
    strs = list(space)
    for k in range(vecs.shape[1]):
        P = {}
        for c, s in zip(vecs[:, k], strs):
            P = O.padd(P, O.os_poly(s), complex(c))
        d = O.padd(O.pcomm(polysH, P), P, -complex(ev2[k]))
        ctx.check(O.pnorm(d) < 1e-7 * scale and abs(O.pnorm(P) - 1) < 1e-8, 'ladder-vector', 'column {} is not a ladder operator for {}'.format(k, ev2[k]))
    if polys:
        C, _ = O.polys_to_matrix(polys)
        Gm = C.conj().T @ C
        if not sp:
            ctx.check(np.abs(Gm - np.diag(np.diag(Gm))).max() < 1e-8, 'orthogonal', 'ladder operators are not orthogonal')
        ctx.check(np.linalg.svd(C / np.linalg.norm(C, axis=0), compute_uv=False)[-1] > 1e-7, 'independent', 'ladder operators are linearly dependent')
    got = sorted(float(np.real(e)) for e in ev)
    want = sorted(e for e, m in ref for _ in range(m))
    ctx.check(len(got) == len(want) and all(abs(a - b) < 1e-6 * scale for a, b in zip(got, want)), 'complete',
              lambda: 'energies {}, expected {}'.format(got[:12], want[:12]))
    ctx.count('space-' + kind)
    if kind == 'leaking' and not want:
        ctx.count('leaked-away')
    if want:
        ctx.seen(G.desc(H), [str(s) for s in space])
        ctx.count('nontrivial-' + kind)
    ctx.sample('{} in {} {}: {} ladder operators'.format(G.desc(H), len(space), kind, len(ops)))


def inverse(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    lab = G.label_pool(rng, rng.randint(1, 4))
    allb = qy.cluster_basis(len(lab), list(lab), typ)
    kind, eps = 'random', 1.0
    if rng.rand() < 0.65:
        H = quadratic(rng, lab) if typ == 'Majorana' and rng.randint(2) else G.operator(rng, typ, lab, rng.randint(1, 4), False)
        ops, ev = quiet(qy.core._ladder_operators, allb, H, tol=1e-9)
        if not len(ops):
            raise Skip('no ladder operator')
        pick = int(rng.randint(len(ops)))
        R = ops[pick].remove_zeros(1e-10)
        kind = 'ladder'
        same = [i for i in range(len(ops)) if i != pick and abs(ev[i] - ev[pick]) < 1e-9]
        if same and rng.rand() < 0.5:
            # another ladder operator of the same energy with a small weight: terms of very different sizes
            eps = 10.0 ** -float(rng.uniform(0.5, 3.0))
            R = R + eps * ops[same[rng.randint(len(same))]].remove_zeros(1e-10)
            kind = 'uneven'
    else:
        R = G.operator(rng, typ, lab, rng.randint(1, 4), True)
    m = len(allb) if rng.rand() < 0.4 else rng.randint(1, len(allb) + 1)
    idxs = [int(i) for i in rng.choice(len(allb), m, replace=False)]
    if kind != 'random' and rng.rand() < 0.5:
        idxs += [i for i, s in enumerate(allb) if any(s == t for _, t in H) and i not in idxs]
    space = qy.Basis([allb.op_strings[i] for i in idxs])
    if rng.rand() < 0.3:
        space += qy.opstring('I', typ)
    polys = [O.os_poly(s) for s in space]
    PR = O.op_poly(R)
    nR = O.pnorm(PR)
    # reference
    X, _ = O.polys_to_matrix([O.pcomm(p, PR) for p in polys] + [PR])
    L, r = X[:, :-1], X[:, -1]
    sv = np.linalg.svd(L, compute_uv=False)
    if np.any((sv > 1e-9) & (sv < 1e-2 * eps)):
        raise Skip('gap')
    dim = len(polys) - int(np.sum(sv > 1e-6))
    x = np.linalg.lstsq(L, r, rcond=1e-7)[0]
    res = np.linalg.norm(L @ x - r) / np.linalg.norm(r)
    if 1e-8 < res < 1e-3:
        raise Skip('gap')
    solvable = res < 1e-5
    sp = bool(rng.randint(2))
    part, null = quiet(qy.core._inverse_ladder_operators, space, R, sparsification=sp, tol=1e-9)
    pvec, nvec = quiet(qy.core._inverse_ladder_operators, space, R, sparsification=sp, tol=1e-9, return_operators=False)
    if not solvable:
        ctx.check(part is None and pvec is None, 'no-solution', 'an operator is returned although none has R as a ladder operator')
        ctx.count('unsolvable')
    else:
        ctx.check(part is not None and pvec is not None, 'solution', 'no operator is returned although one exists')
        P2 = {}
        for c, s in zip(pvec, space):
            P2 = O.padd(P2, O.os_poly(s), complex(c))
        for P in (O.op_poly(part), P2):
            ctx.check(abs(O.pnorm(P) - 1) < 1e-7, 'normalised', 'norm {}'.format(O.pnorm(P)))
            C = O.pcomm(P, PR)
            d = sum(np.conj(PR[k]) * C.get(k, 0) for k in PR) / nR ** 2
            ctx.check(abs(d) > 1e-9 and d.real > 0 and abs(d.imag) < 1e-7 * abs(d), 'energy-positive', 'energy {}'.format(d))
            ctx.check(O.pnorm(O.padd(C, PR, -d)) < 1e-6 * max(1, abs(d)) * nR, 'inverse', '[O, R] is not proportional to R')
        ctx.check(all(s in space for c, s in part), 'in-space', 'terms outside of the search space')
        ctx.count('solvable-' + kind)
    ctx.check(isinstance(null, list), 'type', 'a list of Operators is documented')
    nvec = np.asarray(nvec)
    cols = [nvec[:, k] for k in range(nvec.shape[1])]
    from_vec = []
    for c in cols:
        P = {}
        for v, s in zip(c, space):
            P = O.padd(P, O.os_poly(s), complex(v))
        from_vec.append(P)
    for what, ps in (('operators', [O.op_poly(o) for o in null]), ('vectors', from_vec)):
        ctx.check(len(ps) == dim, 'null-complete', lambda: '{} {} commute with R, {} exist'.format(len(ps), what, dim))
        for p in ps:
            ctx.check(O.pnorm(O.pcomm(p, PR)) < 1e-6 * nR, 'null-sound', 'a returned operator does not commute with R')
        if ps:
            C, _ = O.polys_to_matrix(ps)
            ctx.check(np.linalg.svd(C, compute_uv=False)[-1] > 1e-7, 'null-independent', 'dependent operators')
    if 0 < dim < len(polys):
        ctx.seen(G.desc(R), [str(s) for s in space])
        ctx.count('null-nontrivial')
    ctx.sample('{} {} in {}: {}solvable, {} commute'.format(kind, G.desc(R), len(space), '' if solvable else 'un', dim))


FAMILIES = [Family('ladder', ladder, 420, 9000, require=140), Family('inverse', inverse, 200, 5000, require=80)]
REQUIRED_COUNTERS = ['ladder-operators', 'rescaled', 'nontrivial-closed', 'nontrivial-cluster', 'nontrivial-strings', 'nontrivial-single', 'nontrivial-leaking', 'leaked-away', 'unsolvable', 'solvable-ladder', 'solvable-uneven', 'null-nontrivial']
