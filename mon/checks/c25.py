"""C25  results only change as they must when a problem is stated in another way."""
import contextlib
import io
import numpy as np
import scipy.sparse as ss
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import transf as T
from .. import lat
from . import c12, c13, c14

PROP = 'C25'
RULE = ('A case states one problem (search space, operators, symmetries, generators, or lattice) in two ways: orbitals relabelled, strings, '
        'terms, symmetries or generators reordered, other units, Majorana instead of Pauli strings, another mode of the generator, '
        'another choice of the unit cell. Both are solved by the real code and the spaces, operators and energies are compared after '
        'translating one into the other with the independent algebra. Non-trivial = the answer is neither empty nor everything.')
ASSUMPTIONS = ['real coefficients between 0.1 and 5', 'the eigenvalues found have a clear gap above the tolerance (else inconclusive)',
               'ladder operators and Lie algebras: at most 4 orbitals, strings up to 9']


# ---------------------------------------------------------------- restating a problem

_MAJ = {}


def majoranas(n):
    """monomial -> (operators, labels) of the Majorana string on orbitals 0..n-1"""
    if n not in _MAJ:
        out = {(0, 0): ([], [])}
        for l in range(n):
            for (r, (ops, labs)) in list(out.items()):
                for o in O.MAJ:
                    (r2, _), = O.string_poly(ops + [o], labs + [l], 'Majorana', O.maj_prefactor(ops + [o])).items()
                    out[r2] = (ops + [o], labs + [l])
        _MAJ[n] = out
    return _MAJ[n]


class Restate:
    """string -> coefficient * string, extended linearly"""
    def __init__(self, typ, kind, rng, n):
        self.typ, self.kind, self.n = typ, kind, n
        self.to = typ
        self.labels = list(range(n))
        if kind == 'labels':
            self.labels = [int(x) for x in rng.permutation(n)]
            if n <= 16 and rng.rand() < 0.5:
                pool = sorted(int(x) for x in rng.choice([0, 1, 2, 8, 9, 10, 11, 12, 19, 20, 21, 30, 31, 45, 60, 61, 62, 98, 99, 100, 101], n, replace=False))
                self.labels = [pool[i] for i in self.labels]
        elif kind == 'type':
            self.to = 'Majorana' if typ == 'Pauli' else 'Pauli'
        self.memo = {}

    def string(self, s):
        k = G.key_of(s)[2]
        if k not in self.memo:
            ops, labs = [o for o, _ in k], [l for _, l in k]
            if self.to != self.typ:
                (r, c), = O.os_poly(s).items()
                if self.to == 'Majorana':
                    ops, labs = majoranas(self.n)[r]
                else:
                    labs = [l for l in range(self.n) if (r[0] | r[1]) >> l & 1]
                    ops = [{(1, 0): 'X', (0, 1): 'Z', (1, 1): 'Y'}[(r[0] >> l & 1, r[1] >> l & 1)] for l in labs]
                new = qy.OperatorString(list(ops), list(labs), self.to)
                (r2, c2), = O.os_poly(new).items()
                assert r2 == r
                self.memo[k] = (c / c2, new)
            else:
                raw = [self.labels[l] for l in labs]
                o = [int(i) for i in np.argsort(raw)]
                new = qy.OperatorString([ops[i] for i in o], [raw[i] for i in o], self.typ)
                c = 1.0
                if self.typ == 'Majorana':
                    P = dict(O.ONE)
                    for a, l in zip(ops, raw):
                        P = O.pmul(P, O.single(a, l))
                    (r, a), = P.items()
                    (r2, b), = O.os_poly(new).items()
                    assert r == r2
                    c = a * O.maj_prefactor(ops) / b
                self.memo[k] = (c, new)
        c, t = self.memo[k]
        assert abs(abs(c) - 1) < 1e-12 and abs(np.imag(c)) < 1e-12
        return float(np.real(c)), t

    def basis(self, B, order=None):
        strs = [self.string(s)[1] for s in B]
        order = range(len(strs)) if order is None else order
        return qy.Basis([strs[int(i)] for i in order])

    def op(self, op, order=None, factor=1.0):
        terms = [(float(np.real(c)) * self.string(s)[0] * factor, self.string(s)[1]) for c, s in op]
        order = range(len(terms)) if order is None else order
        terms = [terms[int(i)] for i in order]
        return qy.Operator([c for c, _ in terms], [s for _, s in terms], op_type=self.to)

    def perm(self, p):
        """the permutation p of the orbitals 0..n-1 in the new labels"""
        full = list(range(max(self.labels) + 1))
        for i, j in enumerate(p):
            full[self.labels[i]] = self.labels[j]
        return full

    def poly(self, op):
        P = {}
        for c, s in op:
            k, t = self.string(s)
            P = O.padd(P, O.os_poly(t), complex(c) * k)
        return P


def draw(rng, typ, n, kinds=('labels', 'type', 'order', 'units')):
    kind = kinds[rng.randint(len(kinds))]
    return kind, Restate(typ, kind, rng, n)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def dense(M):
    return M.toarray() if ss.issparse(M) else np.asarray(M)


def ops_of(V, B):
    """list of polynomials-ready term lists of the columns of V"""
    strs = list(B)
    V = np.asarray(V)
    return [[(V[i, j], strs[i]) for i in range(len(strs)) if abs(V[i, j]) > 1e-13] for j in range(V.shape[1])]


def same(ctx, polysA, polysB, what, msg):
    """equally many, equally spanned"""
    ctx.check(len(polysA) == len(polysB), what + '-number', lambda: '{}: {} against {}'.format(msg(), len(polysA), len(polysB)))
    if not polysA:
        return
    M, _ = O.polys_to_matrix(list(polysA) + list(polysB))
    A, B = M[:, :len(polysA)], M[:, len(polysA):]
    r = O.same_span(A, B)
    if r is None:
        raise Skip('gap')
    ctx.check(r, what + '-span', msg)


def gap(ev, tol=1e-10):
    ev = np.abs(np.asarray(ev))
    if np.any((ev > 0.02 * tol) & (ev < 1e4 * tol)):
        raise Skip('gap')


def hamiltonian(rng, typ, n):
    lab = list(range(n))
    style = rng.randint(4)
    if style == 0:          # nearest neighbours on a ring, with a field
        nm = 'XYZ' if typ == 'Pauli' else 'ABD'
        strs, cs = [], []
        for i in range(n):
            j = (i + 1) % n
            if i == j or (n == 2 and i == 1):
                continue
            for _ in range(rng.randint(1, 3)):
                a, b = nm[rng.randint(3)], nm[rng.randint(3)]
                s = qy.OperatorString([a, b], [min(i, j), max(i, j)], typ)
                if s not in strs:
                    strs.append(s)
                    cs.append(G.coeff(rng))
        for i in range(n):
            if rng.rand() < 0.5:
                strs.append(qy.OperatorString([nm[2]], [i], typ))
                cs.append(G.coeff(rng))
        return qy.Operator(cs, strs, op_type=typ)
    if style == 1:
        nm = ('XYZ' if typ == 'Pauli' else 'ABD')[rng.randint(3)]
        return qy.Operator([1.0] * n, [qy.OperatorString([nm], [l], typ) for l in lab])
    return G.operator(rng, typ, lab, rng.randint(1, 8), False, min_k=1, max_k=3)


def space_of(rng, typ, n):
    if rng.rand() < 0.6:
        return qy.cluster_basis(2 if n > 4 else int(rng.randint(1, 3)), list(range(n)), typ)
    return qy.Basis(G.distinct_strings(rng, typ, list(range(n)), int(rng.randint(5, 60))))


# ---------------------------------------------------------------- searches

def commuting(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(2, 8))
    kind, f = draw(rng, typ, n)
    H, B = hamiltonian(rng, typ, n), space_of(rng, typ, n)
    mode = ['commutator', 'anticommutator'][int(rng.rand() < 0.3)]
    order = rng.permutation(len(B))
    c = float(rng.choice([-0.5, 2.0, 3.0, 0.25])) if kind == 'units' else 1.0
    H2, B2 = f.op(H, rng.permutation(len(H)), c), f.basis(B, order)
    V, M, ev, _ = qy.commuting_operators(B, H, operation_mode=mode, return_superoperator=True)
    V2, M2, ev2, _ = qy.commuting_operators(B2, H2, operation_mode=mode, return_superoperator=True)
    msg = lambda: '{} {} of {} in {} strings {}'.format(kind, mode, G.desc(H), len(B), f.labels)
    sc = max(1.0, np.abs(ev).max())
    ctx.check(np.abs(np.sort(ev) * c * c - np.sort(ev2)).max() < 1e-9 * sc * max(1, c * c), 'spectrum', msg)
    # entry by entry
    sg = np.array([f.string(s)[0] for s in B])
    A = (dense(M) * np.outer(sg, sg))[np.ix_(order, order)] * c * c
    ctx.check(np.abs(A - dense(M2)).max() < 1e-9 * sc, 'matrix', msg)
    if sc > 3e3:
        raise Skip('large norms')
    gap(ev)
    gap(ev2)
    same(ctx, [f.poly(o) for o in ops_of(V, B)], [O.op_poly(o) for o in ops_of(V2, B2)], 'commuting', msg)
    ctx.count('restated-' + kind)
    if 0 < np.asarray(V).shape[1] < len(B):
        ctx.seen('c', kind, G.desc(H), len(B), f.labels)
    ctx.sample(msg())


def liouvillian(ctx, rng, idx):
    """matrices of structure constants and Liouvillians of large bases, with the extended basis of each"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(2, 8))
    kind, f = draw(rng, typ, n)
    H, B = hamiltonian(rng, typ, n), space_of(rng, typ, n)
    mode = ['commutator', 'anticommutator', 'product'][rng.randint(3)]
    order = rng.permutation(len(B))
    c = float(rng.choice([-0.5, 2.0, 3.0, 0.25])) if kind == 'units' else 1.0
    H2, B2 = f.op(H, rng.permutation(len(H)), c), f.basis(B, order)
    L, X = qy.liouvillian_matrix(B, H, return_extended_basis=True, operation_mode=mode)
    L2, X2 = qy.liouvillian_matrix(B2, H2, return_extended_basis=True, operation_mode=mode)
    msg = lambda: '{} {} of {} in {} strings {}'.format(kind, mode, G.desc(H), len(B), f.labels)
    D, D2 = dense(L), dense(L2)
    ctx.check(len(X) == D.shape[0] and len(X2) == D2.shape[0], 'liouvillian-shape', msg)
    back = {s: i for i, s in enumerate(X2)}
    tr = [f.string(s) for s in X]
    nz = [i for i in range(len(X)) if np.abs(D[i]).max(initial=0) > 1e-12]
    ctx.check(all(tr[i][1] in back for i in nz), 'liouvillian-rows', msg)
    sg = np.array([f.string(s)[0] for s in B])
    want = np.zeros_like(D2)
    for i in nz:
        want[back[tr[i][1]]] = (D[i] * tr[i][0] * sg)[order] * c
    ctx.check(np.abs(want - D2).max(initial=0) < 1e-10 * max(1, np.abs(D2).max(initial=0)), 'liouvillian', msg)
    ctx.count('liouvillians')
    ctx.seen('L', kind, mode, G.desc(H), len(B), f.labels)
    ctx.sample(msg())


def generator(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(3, 8))
    kind, f = draw(rng, typ, n, ('labels', 'order', 'units', 'labels', 'type'))
    B = qy.cluster_basis(2, list(range(n)), typ)
    t = int(rng.randint(1, n))
    perms = [[(i + t) % n for i in range(n)], list(range(n))[::-1], [int(x) for x in rng.permutation(n)]]
    nm = 'XYZ' if typ == 'Pauli' else 'D'
    pool = [('op', qy.Operator(np.ones(n), [qy.OperatorString([a], [l], typ) for l in range(n)])) for a in nm]
    if kind != 'type':
        pool += [('perm', p) for p in perms] + [('T', None)]
        if typ == 'Majorana':
            pool.append(('C', None))
    pool.append(('op', hamiltonian(rng, typ, n)))
    picks = [pool[i] for i in rng.choice(len(pool), min(len(pool), rng.randint(1, 4)), replace=False)]
    modes = ['anticommutator' if rng.rand() < 0.15 else 'commutator' for _ in picks]
    c = float(rng.choice([-0.5, 2.0])) if kind == 'units' else 1.0
    o2 = rng.permutation(len(picks))

    def solve(basis, items, ms, g, m):
        gen = qy.SymmetricOperatorGenerator(basis)
        for (k, v), om in zip(items, ms):
            if k == 'op':
                s = v if g is None else g.op(v, rng.permutation(len(v)), c)
            elif k == 'perm':
                s = qy.label_permutation(v if g is None else g.perm(v))
            else:
                s = qy.time_reversal() if k == 'T' else [qy.particle_hole, qy.charge_conjugation][rng.randint(2)]()
            gen.add_symmetry(s, operation_mode=om)
        kw = dict(mode=m, verbose=False, sparsification=bool(rng.randint(2)))
        if m == 'noncumulative':
            kw['orthogonalization'] = bool(rng.randint(2))
        quiet(gen.generate, **kw)
        for ev in list(gen.eigenvalues) + list(gen.projected_eigenvalues):
            gap(ev)
        r = gen.projected_output_operators[-1]
        if isinstance(r, list):
            return [list(op) for op in r]
        return ops_of(r, basis)
    m1, m2 = ['cumulative', 'noncumulative'][rng.randint(2)], ['cumulative', 'noncumulative'][rng.randint(2)]
    A = solve(B, picks, modes, None, m1)
    order = rng.permutation(len(B))
    A2 = solve(f.basis(B, order), [picks[i] for i in o2], [modes[i] for i in o2], f, m2)
    msg = lambda: '{} {}/{} symmetries {} {} of {} strings {}'.format(kind, m1, m2, [(k, v if k == 'perm' else '' if v is None else G.desc(v)) for k, v in picks], modes, len(B), f.labels)
    same(ctx, [f.poly(o) for o in A], [O.op_poly(o) for o in A2], 'generator', msg)
    ctx.count('generator-' + kind)
    ctx.count('modes-compared', int(m1 != m2))
    if 0 < len(A) < len(B):
        ctx.seen('g', kind, [k for k, _ in picks], n, f.labels)
        ctx.count('generator-nontrivial')
    ctx.sample(msg() + ': {}'.format(len(A)))


def lie(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    if rng.rand() < 0.5:                # bases of strings
        n = int(rng.randint(2, 10))
        kind, f = draw(rng, typ, min(n, 6) if rng.rand() < 0.3 else n, ('labels', 'type', 'order'))
        n = f.n
        if kind == 'type' and n > 6:
            raise Skip('large table')
        B = qy.Basis(G.distinct_strings(rng, typ, list(range(n)), int(rng.randint(2, 8)), min_k=1, max_k=3))
        # size of the closure, by monomials
        mon = [list(O.os_poly(s))[0] for s in B]
        seen, out = set(mon), list(dict.fromkeys(mon))
        for i, p in enumerate(out):
            for q in out[:i]:
                if (O._pop(p[1] & q[0]) + O._pop(p[0] & q[1])) % 2:
                    r = (p[0] ^ q[0], p[1] ^ q[1])
                    if r not in seen:
                        seen.add(r)
                        out.append(r)
                if len(out) > 150:
                    raise Skip('algebra too large')
        A = qy.generate_lie_algebra(B)
        A2 = qy.generate_lie_algebra(f.basis(B, rng.permutation(len(B))))
        want = {f.string(s)[1] for s in A}
        ctx.check(len(A) == len(A2) and want == set(A2), 'lie-strings', lambda: '{} of {}: {} against {}'.format(kind, [str(s) for s in B], len(A), len(A2)))
        ctx.count('lie-strings')
        if len(A) > len(B):
            ctx.seen('ls', kind, [str(s) for s in B])
        return
    n = int(rng.randint(2, 5))
    kind, f = draw(rng, typ, n)
    ops, _ = c13.generators(rng, typ, list(range(n)))
    ops = [o for o in ops if O.pnorm(O.op_poly(o)) > 0.1]
    if not ops or not c13.well_conditioned([O.op_poly(o) for o in ops], 1e-2):
        raise Skip('gap')
    A = qy.generate_lie_algebra(list(ops))
    o2 = rng.permutation(len(ops))
    A2 = qy.generate_lie_algebra([f.op(ops[i], rng.permutation(len(ops[i])), float(rng.choice([-1, 0.5, 2])) if kind == 'units' else 1.0) for i in o2])
    msg = lambda: '{} of {}'.format(kind, [G.desc(o) for o in ops])
    PA, PB = [c13.unit(f.poly(o)) for o in A], [c13.unit(O.op_poly(o)) for o in A2]
    M, _ = O.polys_to_matrix(PA + PB)
    r = [O.rank(M[:, :len(PA)], gap=1e-4), O.rank(M[:, len(PA):], gap=1e-4), O.rank(M, gap=1e-4)]
    if None in r:
        raise Skip('gap')
    ctx.check(r[0] == r[1] == r[2], 'lie-operators', lambda: msg() + ': ranks {}'.format(r))
    ctx.count('lie-operators')
    if len(A) > len(ops):
        ctx.seen('lo', kind, [G.desc(o) for o in ops])
    ctx.sample(msg() + ': {}'.format(len(A)))


def ladder(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(1, 4))
    kind, f = draw(rng, typ, n)
    lab = list(range(n))
    H = c12.quadratic(rng, lab) if typ == 'Majorana' and rng.randint(2) else G.operator(rng, typ, lab, rng.randint(1, 5), False)
    H = H.remove_zeros(1e-10)
    if not len(H):
        raise Skip('empty')
    B = qy.cluster_basis(int(rng.randint(1, n + 1)), list(lab), typ) if rng.randint(2) else qy.Basis(G.distinct_strings(rng, typ, lab, rng.randint(2, 20)))
    ref, scale = c12.reference(typ, lab, B, H)
    c = float(rng.choice([0.5, 2.0, 3.0])) if kind == 'units' else 1.0
    tol = 1e-9 * scale
    H2, B2 = f.op(H, rng.permutation(len(H)), c), f.basis(B, rng.permutation(len(B)))
    ops, ev = quiet(qy.core._ladder_operators, B, H, tol=tol)
    ops2, ev2 = quiet(qy.core._ladder_operators, B2, H2, tol=tol * c)
    ev, ev2 = np.real(np.asarray(ev)), np.real(np.asarray(ev2))
    msg = lambda: '{} of {} in {}: energies {} and {}'.format(kind, G.desc(H), [str(s) for s in B][:8], ev, ev2)
    ctx.check(len(ev) == len(ev2) and np.allclose(np.sort(ev) * c, np.sort(ev2), atol=1e-7 * scale * c), 'ladder-energies', msg)
    done = set()
    for e in ev:
        if any(abs(e - d) < 1e-5 * scale for d in done):
            continue
        done.add(e)
        same(ctx, [f.poly(ops[i]) for i in range(len(ev)) if abs(ev[i] - e) < 1e-5 * scale],
             [O.op_poly(ops2[i]) for i in range(len(ev2)) if abs(ev2[i] - c * e) < 1e-5 * scale * c], 'ladder', msg)
    ctx.count('ladder-pairs', len(ev))
    if len(ev):
        ctx.seen('ladder', kind, G.desc(H), len(B))
    ctx.sample(msg())


def symmetrized(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(2, 9))
    kind, f = draw(rng, typ, n, ('labels', 'order', 'redundant'))
    if rng.rand() < 0.5:
        gens = [[(i + 1) % n for i in range(n)]] + ([list(range(n))[::-1]] if rng.randint(2) else [])
    elif n <= 5:
        gens = [[int(x) for x in rng.permutation(n)] for _ in range(rng.randint(1, 3))]
    else:
        k = int(rng.randint(2, 5))
        gens = [list(range(1, k)) + [0] + list(range(k, n)), list(range(n))[:k] + list(range(n))[k:][::-1]]
    B = space_of(rng, typ, n)
    g2 = [list(g) for g in gens]
    if kind == 'redundant':             # products of generators generate nothing new
        for _ in range(rng.randint(1, 3)):
            a, b = g2[rng.randint(len(g2))], g2[rng.randint(len(g2))]
            g2.append([b[i] for i in a])
    g2 = [g2[i] for i in rng.permutation(len(g2))]
    mk = lambda b, gs: qy.symmetrize_basis(b, [qy.label_permutation(g) for g in gs])
    A = mk(B, gens)
    A2 = mk(f.basis(B, rng.permutation(len(B))), [f.perm(g) for g in g2])
    msg = lambda: '{} generators {} {} strings {}'.format(kind, gens, len(B), f.labels)
    same(ctx, [f.poly(o) for o in A], [O.op_poly(o) for o in A2], 'symmetrized', msg)
    ctx.count('symmetrized-' + kind)
    if 0 < len(A) < len(B):
        ctx.seen('sym', kind, gens, len(B))
    ctx.sample(msg() + ': {}'.format(len(A)))


def pauli(op):
    return op if op.op_type == 'Pauli' else qy.convert(op, 'Pauli', include_identity=True)


def matrix(op, n):
    return dense(qy.to_matrix(pauli(op), n))


def spectra(ctx, rng, idx):
    """energies and entropies do not depend on how the orbitals are called, nor on the type of the strings"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(1, 7))
    f = Restate(typ, ['labels', 'type'][rng.randint(2)], rng, n)
    if max(f.labels) >= n:
        f = Restate(typ, 'type', rng, n)
    H = hamiltonian(rng, typ, n)
    H2 = f.op(H, rng.permutation(len(H)))
    e, v = qy.diagonalize(pauli(H), n)
    e2, v2 = qy.diagonalize(pauli(H2), n)
    e, e2 = np.real(np.asarray(e)), np.real(np.asarray(e2))
    msg = lambda: '{} of {}'.format(f.kind, G.desc(H))
    sc = max(1.0, np.abs(e).max())
    ctx.check(len(e) == 2 ** n and np.allclose(e, e2, atol=1e-9 * sc), 'energies', msg)
    M, M2 = matrix(H, n), matrix(H2, n)
    if f.kind == 'type':
        ctx.check(np.abs(M - M2).max() < 1e-11 * sc, 'matrix-type', msg)
        for to in ('Pauli', 'Majorana', 'Fermion'):
            M3 = matrix(qy.convert(H, to, include_identity=True), n)
            ctx.check(np.abs(M - M3).max() < 1e-10 * sc, 'matrix-converted', lambda: msg() + ' to ' + to)
    else:
        t = qy.label_permutation(f.labels)
        x = rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n)
        if typ == 'Pauli':
            ctx.check(np.abs(qy.apply_transformation(t, M @ x, n) - M2 @ qy.apply_transformation(t, x, n)).max() < 1e-9 * sc * 2 ** n, 'matrix-labels', msg)
            A = [int(i) for i in rng.choice(n, rng.randint(0, n + 1), replace=False)]
            r1 = qy.reduced_density_matrix(x, A, n)
            r2 = qy.reduced_density_matrix(qy.apply_transformation(t, x, n), [f.labels[i] for i in A], n)
            ctx.check(np.abs(r1 - r2).max() < 1e-9 * 2 ** n, 'reduced', msg)
    ctx.count('spectra-' + f.kind)
    ctx.seen('sp', f.kind, f.labels, G.desc(H))
    ctx.sample(msg())


def free(ctx, rng, idx):
    """single-particle energies of quadratic Hamiltonians of up to 24 orbitals"""
    n = int(rng.randint(2, 25))
    H = c12.quadratic(rng, list(range(n))).remove_zeros(1e-10)
    if not len(H):
        raise Skip('empty')
    f = Restate('Majorana', 'labels', rng, n)
    if max(f.labels) >= n:
        f.labels = [int(x) for x in rng.permutation(n)]
    c = float(rng.choice([1.0, 0.5, 4.0]))
    H2 = f.op(H, rng.permutation(len(H)), c)
    r, r2 = qy.diagonalize_quadratic(H, n), qy.diagonalize_quadratic(H2, n)
    e, e2 = np.sort(np.real(r[1])), np.sort(np.real(r2[1]))
    sc = max(1.0, np.abs(e).max(initial=0))
    msg = lambda: 'quadratic {} orbitals {} factor {}'.format(n, f.labels, c)
    ctx.check(len(e) == len(e2) and np.allclose(e * c, e2, atol=1e-8 * sc * c), 'modes', lambda: msg() + ': {} {}'.format(e, e2))
    ctx.check(abs(r[0] * c - r2[0]) < 1e-8 * sc * c * n, 'ground', lambda: msg() + ': {} {}'.format(r[0], r2[0]))
    ctx.count('free')
    ctx.seen('free', n, f.labels)
    ctx.sample(msg())


# ---------------------------------------------------------------- lattices

def frame(ctx, rng, idx):
    """one crystal described with other axes, another origin, other atoms first, or a doubled unit cell"""
    sp = lat.spec(rng, max_orb=20)
    d = sp.dim
    style = ['rotated', 'origin', 'atoms', 'supercell', 'scale'][rng.randint(5)]
    vec, atoms, names, num, per = [v.copy() for v in sp.vectors], [a.copy() for a in sp.atoms], [list(x) for x in sp.names], list(sp.num), list(sp.periodic)
    move = lambda p: p
    unit = 1.0
    if style == 'rotated':
        Q = np.linalg.qr(rng.normal(size=(d, d)))[0]
        vec, atoms = [Q @ v for v in vec], [Q @ a for a in atoms]
        move = lambda p: Q @ p
    elif style == 'origin':
        shift = rng.uniform(-2, 2, size=d) * float(rng.choice([1.0, 1.0, 300.0, 5000.0]))
        atoms = [a + shift for a in atoms]
        move = lambda p: p + shift
    elif style == 'atoms':
        o = rng.permutation(len(atoms))
        atoms, names = [atoms[i] for i in o], [[names[i][j] for j in rng.permutation(len(names[i]))] for i in o]
    elif style == 'supercell':
        k = int(rng.randint(d))
        if num[k] % 2:
            raise Skip('odd')
        atoms, names = atoms + [a + vec[k] for a in atoms], names + [list(x) for x in names]
        vec[k], num[k] = 2 * vec[k], num[k] // 2
    else:
        unit = float(rng.choice([0.5, 3.0, 10.0]))
        vec, atoms = [unit * v for v in vec], [unit * a for a in atoms]
        move = lambda p: unit * p
    c = qy.UnitCell(vec)
    for a, o in zip(atoms, names):
        c.add_atom(a, orbitals=o)
    L, L2 = sp.make(), qy.Lattice(c, tuple(num), periodic_boundaries=tuple(per))
    msg = lambda: '{} {}'.format(style, sp.desc())
    ctx.check(len(L) == len(L2), 'frame-size', msg)
    n = len(L)
    pos2 = [np.array(p) for p, _, _ in L2]
    nm2 = [x for _, x, _ in L2]
    to = []
    for p, nm, _ in L:
        q = move(np.array(p))
        m = [j for j in range(n) if nm2[j] == nm and np.abs(pos2[j] - q).max() < 1e-7 * max(1, unit)]
        ctx.check(len(m) == 1, 'frame-orbital', lambda: '{}: {} {} found {} times'.format(msg(), nm, q, len(m)))
        to.append(m[0])
    D = np.array([[L.distance(i, j) for j in range(n)] for i in range(n)])
    D2 = np.array([[L2.distance(to[i], to[j]) for j in range(n)] for i in range(n)])
    ctx.check(np.abs(D * unit - D2).max() < 1e-8 * max(1, unit), 'frame-distance', msg)
    typ = ('Pauli', 'Majorana')[idx % 2]
    near = np.sort(np.unique(np.round(D[D > 1e-6], 6)))
    if len(near) and n <= 14:
        r = float(near[rng.randint(min(3, len(near)))])
        k = int(rng.randint(1, 3))
        r1 = r * 1.0001
        B, B2 = qy.distance_basis(L, k, r1, typ), qy.distance_basis(L2, k, r1 * unit, typ)
        f = Restate(typ, 'order', rng, n)
        f.labels = to
        want = {f.string(s)[1] for s in B}
        ctx.check(len(B) == len(B2) and want == set(B2), 'frame-basis', lambda: '{}: {} against {} strings within {}'.format(msg(), len(B), len(B2), r1))
        ctx.count('frame-bases')
    # the same symmetry operation, described in both frames
    R, t = -np.eye(d), sp.sites[rng.randint(n)][0] + sp.sites[rng.randint(n)][0]
    if rng.rand() < 0.5:
        R, t = np.eye(d), sum(int(rng.randint(-2, 3)) * v for v in sp.vectors)
    m0 = move(np.zeros(d))
    A = np.column_stack([move(np.eye(d)[:, i]) - m0 for i in range(d)])
    R2 = A @ R @ np.linalg.inv(A)
    t2 = move(t) - R2 @ m0 if style == 'origin' else A @ t
    got = []
    for LL, RR, tt in ((L, R, t), (L2, R2, t2)):
        try:
            got.append(qy.space_group_symmetry(LL, RR, tt))
        except ValueError:
            got.append(None)
    ctx.check((got[0] is None) == (got[1] is None), 'frame-symmetry', lambda: '{}: {} {} accepted in one frame only'.format(msg(), R.tolist(), t))
    if got[0] is not None:
        a, b = [int(x) for x in got[0].info], [int(x) for x in got[1].info]
        ctx.check(all(b[to[i]] == to[a[i]] for i in range(n)), 'frame-permutation', lambda: '{}: {} {}'.format(msg(), a, b))
        ctx.count('frame-symmetries')
    ctx.count('frame-' + style)
    if n > 1:
        ctx.seen('frame', style, sp.desc())
    ctx.sample(msg())


FAMILIES = [
    Family('commuting', commuting, 100, 1500, require=40),
    Family('liouvillian', liouvillian, 80, 1200, require=40),
    Family('generator', generator, 60, 900, require=25),
    Family('lie', lie, 140, 2500, require=40),
    Family('ladder', ladder, 120, 2500, require=40),
    Family('symmetrized', symmetrized, 80, 1200, require=40),
    Family('spectra', spectra, 80, 1200, require=40),
    Family('free', free, 80, 1200, require=40),
    Family('frame', frame, 120, 2000, require=50),
]
REQUIRED_COUNTERS = ['restated-labels', 'restated-type', 'restated-order', 'restated-units', 'liouvillians', 'generator-nontrivial', 'modes-compared', 'lie-strings',
                     'lie-operators', 'ladder-pairs', 'symmetrized-redundant', 'spectra-labels', 'spectra-type', 'free', 'frame-bases', 'frame-symmetries',
                     'frame-rotated', 'frame-origin', 'frame-atoms', 'frame-supercell', 'frame-scale']
