"""C26  calls outside the domain of a function are refused, and a refused call changes nothing."""
import contextlib
import io
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import qosy as qy
from qosy import algorithms as al
from qosy import tools as qt
from ..runtime import Family, Skip
from .. import gen as G
from .. import lat
from . import c23
from .c23 import fp, close

PROP = 'C26'
RULE = ('A case makes a call that a function of the library does not support (mixed types, wrong kinds of objects, unknown names, modes, '
        'formats, sizes, labels out of range, non-quadratic Hamiltonians, transformations that do not fit a lattice, ...) on random, otherwise '
        'valid data, in place or not. It must raise an error; deep fingerprints of everything passed in are unchanged; a valid '
        'call on the same data gives the same before and after; histories of valid calls are not affected by refused calls in between. '
        'Non-trivial = the arguments hold data.')
ASSUMPTIONS = ['only inputs that the library refuses by design are used: it does not check everything (listed in DESIGN.md)']

BAD = {}


def bad(f):
    BAD[f.__name__] = f
    return f


def typ_of(rng):
    return ('Pauli', 'Majorana')[rng.randint(2)]


def other(typ):
    return 'Majorana' if typ == 'Pauli' else 'Pauli'


def pool(rng):
    return G.label_pool(rng, int(rng.randint(2, 6)))


def strs_on(rng, typ, p, n=4, k=1):
    """strings that all act on the first label of the pool"""
    out = []
    for s in G.distinct_strings(rng, typ, p, 4 * n, min_k=k):
        if p[0] in [int(l) for l in s.orbital_labels]:
            out.append(s)
    out = out[:n]
    if not out:
        out = [qy.OperatorString(['X' if typ == 'Pauli' else 'D'], [p[0]], typ)]
    return out


def foreign(rng, t, p):
    """strings of the other type, that act on the first label of the pool or only on labels outside of the pool"""
    if rng.rand() < 0.5:
        return strs_on(rng, other(t), p)
    return strs_on(rng, other(t), [max(p) + 1 + x for x in p])


def op_of(rng, strs, **kw):
    return qy.Operator([G.coeff(rng) for _ in strs], list(strs), **kw)


class Junk:
    """an object of no use"""
    def __repr__(self):
        return 'junk'


def junk(rng):
    return [3, 2.5, 'X 1', None, Junk(), {'X': 1}][rng.randint(6)]


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


# every entry returns (call that must be refused, arguments to watch, valid call on the same data or None)

@bad
def algebra_types(rng):
    f = [qy.product, qy.commutator, qy.anticommutator][rng.randint(3)]
    t, p = typ_of(rng), pool(rng)
    A, B = strs_on(rng, t, p), foreign(rng, t, p)
    k = rng.randint(6)
    if k == 0:
        a, b = A[0], B[0]
    elif k == 1:
        a, b = op_of(rng, A), op_of(rng, B)
    elif k == 2:
        a, b = (op_of(rng, A), qy.Operator([], [], other(t))) if rng.rand() < 0.5 else (qy.Operator([], [], t), op_of(rng, B))
    elif k == 3:
        a, b = A[0], op_of(rng, A)
        if rng.rand() < 0.5:
            a, b = b, a
    elif k == 4:
        a, b = (op_of(rng, A) if rng.rand() < 0.5 else A[0]), junk(rng)
        if rng.rand() < 0.5:
            a, b = b, a
    else:
        F = G.fermion_string(rng, p)
        a = b = F if rng.rand() < 0.5 else op_of(rng, [F])
    good = lambda: [f(x, y) for x in A for y in A]
    return (lambda: f(a, b)), [a, b, A], good


@bad
def linear_maps(rng):
    t, p = typ_of(rng), pool(rng)
    A, B = strs_on(rng, t, p), foreign(rng, t, p)
    basis, ok, wrong = qy.Basis(A), op_of(rng, A), op_of(rng, B)
    k = rng.randint(6)
    if k == 0:
        f, args = qy.liouvillian_matrix, (basis, wrong)
    elif k == 1:
        f, args = qy.liouvillian_matrix, ([ok], wrong)
    elif k == 2:
        f, args = qy.liouvillian_matrix, (junk(rng), ok)
    elif k == 3:
        f, args = qy.commutant_matrix, (basis, wrong)
    elif k == 4:
        f, args = qy.structure_constants, (basis, qy.Basis(B))
    else:
        F = qy.Basis([G.fermion_string(rng, p)])
        f, args = qy.structure_constants, (F, F)
    return (lambda: f(*args)), list(args) + [basis, ok], lambda: qy.commutant_matrix(basis, ok)


@bad
def searches(rng):
    t, p = typ_of(rng), pool(rng)
    A, B = strs_on(rng, t, p), foreign(rng, t, p)
    basis, ok, wrong = qy.Basis(A), op_of(rng, A), op_of(rng, B)
    n = max(p) + 1
    T = qy.label_permutation(list(rng.permutation(n)))
    k = rng.randint(6)
    if k == 0:
        f, args = qy.commuting_operators, (basis, wrong)
    elif k == 1:
        f, args = qy.commuting_operators, (basis, T)
    elif k == 2:
        f, args = qy.invariant_operators, (basis, ok)
    elif k == 3:
        f, args = (lambda b, s: qy.invariant_operators(b, s, operation_mode=['foo', '', 'com', 'anti'][rng.randint(4)])), (basis, T)
    elif k == 4:
        f, args = qy.symmetry_matrix, (junk(rng), T)
    else:
        f, args = qy.symmetry_matrix, (basis, ok)
    return (lambda: f(*args)), list(args) + [basis, ok], lambda: c23.projector(qy.commuting_operators(basis, ok))


@bad
def lie(rng):
    t, p = typ_of(rng), pool(rng)[:3]
    A, B = strs_on(rng, t, p), strs_on(rng, other(t), p)
    ops = [op_of(rng, A[:2]), op_of(rng, B[:2])]
    k = rng.randint(3)
    args = [ops, junk(rng), qy.product][k]
    return (lambda: qy.generate_lie_algebra(args)), [ops, qy.Basis(A)], lambda: sorted(str(s) for s in qy.generate_lie_algebra(qy.Basis(A)))


@bad
def generator(rng):
    t, p = typ_of(rng), pool(rng)[:3]
    A, B = strs_on(rng, t, p), strs_on(rng, other(t), p)
    basis, ok, wrong = qy.Basis(A), op_of(rng, A), op_of(rng, B)
    T = qy.label_permutation(list(rng.permutation(max(p) + 1)))
    mode = ['cumulative', 'noncumulative'][rng.randint(2)]
    k = rng.randint(4)
    gen = qy.SymmetricOperatorGenerator(basis)
    gen.add_symmetry(ok)

    def go():
        if k == 0:
            return quiet(gen.generate, mode=['foo', '', 'Cumul', 'non'][rng.randint(4)])
        g = qy.SymmetricOperatorGenerator(basis)
        if k == 1:
            g.add_symmetry(junk(rng))
        elif k == 2:
            g.add_symmetry(wrong)
        else:
            g.add_symmetry(T, operation_mode='foo')
        return quiet(g.generate, mode=mode)

    def good():         # the same generator keeps working
        before = len(gen.projected_output_operators)
        quiet(gen.generate, mode='cumulative')
        return [before == len(gen.projected_output_operators) - 1, c23.opspace(gen.projected_output_operators[-1])]
    if k == 0:
        return go, [basis, ok], None if rng.rand() < 0.2 else lambda: (go_quietly(go), good())[1]
    return go, [basis, ok, wrong], lambda: c23.projector(qy.commuting_operators(basis, ok))


def go_quietly(go):
    try:
        go()
    except Exception:
        pass


@bad
def bases(rng):
    t, p = typ_of(rng), pool(rng)
    A = strs_on(rng, t, p)
    basis = qy.Basis(A)
    k = rng.randint(7)

    def go():
        b = basis
        if k == 0:
            return qy.Basis(A + [qy.opstring(str(A[rng.randint(len(A))]))])
        if k == 1:
            return b + junk(rng)
        if k == 2:
            b += junk(rng)
            return b
        if k == 3:
            return b.index(strs_on(rng, other(t), p)[0])
        if k == 4:
            return b[len(A) + int(rng.randint(3))]
        if k == 5:
            b += list(A)
            return b
        b += (A[0],)
        return b
    new = strs_on(rng, other(t), p)[0]
    return go, [basis, A], lambda: [basis + new, [basis.index(s) for s in basis], new in basis, basis == qy.Basis(list(A))]


@bad
def operators(rng):
    t, p = typ_of(rng), pool(rng)
    A, B = strs_on(rng, t, p), strs_on(rng, other(t), p)
    op, wrong = op_of(rng, A), op_of(rng, B)
    k = rng.randint(11)

    def go():
        o = op
        if k == 0:
            return o + wrong
        if k == 1:
            o += wrong
            return o
        if k == 2:
            return o - wrong
        if k == 3:
            o += qy.Operator([], [], other(t))
            return o
        if k == 4:
            return o + junk(rng)
        if k == 5:
            o += [junk(rng), A[0]][rng.randint(2)]
            return o
        if k == 6:
            return o * op
        if k == 7:
            return o.to_vector(qy.Basis(A), ['foo', 'dense', '', 'CSR'][rng.randint(4)])
        if k == 8:
            return o.to_vector(qy.Basis(B), fmt=['numpy', 'csc'][rng.randint(2)])
        if k == 9:
            return qy.Operator([], [])
        return qy.Operator([1.0] * len(A), [tuple(A), 'X 1', A[0]][rng.randint(3)])
    return go, [op, wrong, A], lambda: [op + op, 2.0 * op, op.to_vector(qy.Basis(A)), op.norm()]


@bad
def duplicates(rng):
    t, p = typ_of(rng), pool(rng)
    A = strs_on(rng, t, p)
    i = rng.randint(len(A))
    twice = A + [qy.OperatorString(list(A[i].orbital_operators), list(A[i].orbital_labels), t)]
    twice = [twice[j] for j in rng.permutation(len(twice))]
    f = [qy.Basis, lambda s: qy.Operator([1.0] * len(s), s)][rng.randint(2)]
    return (lambda: f(twice)), [twice], lambda: qy.Basis(A)


@bad
def names(rng):
    l = int(rng.randint(0, 120))
    cases = [('Q {0}', None), ('x {0}', None), ('X {0} Y', None), ('X', None), ('X {0}', 'Majorana'), ('A {0}', 'Pauli'), ('D {0}', 'Fermion'),
             ('CDag {0} C {0}', 'Majorana'), ('I', None), ('1', None), ('', None), ('1.0', None), ('1j X {0}', None), ('2 X {0}', None), ('-1.0 X {0}', None),
             ('X a', None), ('X {0} Y 1.5', None), ('foo', 'Pauli'), ('1j Z {0}', 'Pauli'), ('Cdag {0} C {0}', None)]
    s, t = cases[rng.randint(len(cases))]
    s = s.format(l)
    return (lambda: qy.opstring(s, t) if t is not None or rng.rand() < 0.5 else qy.opstring(s)), [s, t], lambda: qy.opstring('X {}'.format(l))


@bad
def strings(rng):
    t, p = typ_of(rng), pool(rng)
    s = G.opstring(rng, t, p, min_k=1)
    ops, labs = [str(o) for o in s.orbital_operators], [int(l) for l in s.orbital_labels]
    k = rng.randint(5)
    pf = [2.0, -1.0, -1j, 0.0, 0.5][rng.randint(5)]
    if k == 0:
        args = (ops + ops[:1], labs, t)
    elif k == 3:
        i = rng.randint(len(ops))
        args = (ops[:i] + [[o for o in ('X', 'Y', 'Z', 'A', 'B', 'D', 'C', 'CDag', 'I', 'x', '', 'XY') if o not in {'Pauli': G.PAULI, 'Majorana': G.MAJ}[t]][rng.randint(7)]] + ops[i + 1:], labs, t)
    elif k == 4:
        args = (ops, labs, ['pauli', 'Spin', '', None, other(t)][rng.randint(5)])
    elif k == 1:
        args = (ops, labs + [max(labs) + 1], t)
    elif t == 'Pauli':
        args = (ops, labs, t, [pf, 1j][rng.randint(2)])
    else:
        args = (['CDag', 'C'], [labs[0], labs[0]], 'Fermion', pf)
    return (lambda: qy.OperatorString(*args)), [list(args[0]), list(args[1])], lambda: qy.OperatorString(ops, labs, t)


@bad
def enumerations(rng):
    p = pool(rng)
    sp = lat.spec(rng, max_orb=6)
    L = sp.make()
    t = typ_of(rng)
    k = rng.randint(4)
    foo = ['Foo', 'pauli', '', 'Spin', None][rng.randint(5)]
    bk = ['a', 1.5, None, {'k': 1}][rng.randint(4)]
    go = [lambda: qy.cluster_basis(2, p, foo), lambda: qy.cluster_basis(bk, p, t),
          lambda: qy.distance_basis(L, 2, 1.5, foo), lambda: qy.distance_basis(L, bk, 1.5, t)][k]
    if len(L) == 0:
        raise Skip('empty')
    return go, [p, L], lambda: [qy.cluster_basis(1, p, t), qy.distance_basis(L, 1, 1.0, t)]


@bad
def conversions(rng):
    t, p = typ_of(rng), [int(x) for x in rng.choice(6, 3, replace=False)]
    p.sort()
    A = strs_on(rng, t, p)
    F = G.fermion_string(rng, p)
    op = op_of(rng, A)
    foo = ['Foo', 'pauli', '', 'Spin', None, 3][rng.randint(6)]
    k = rng.randint(6)
    wrong = lambda: qy.OperatorString(['Q' if rng.rand() < 0.5 else 'A' if t == 'Pauli' else 'X'], [p[0]], t)
    small = qy.Basis(strs_on(rng, other(t), [40, 41]))
    go = [lambda: qy.convert(op, foo), lambda: qy.convert(A[0], foo), lambda: qy.convert(F, foo), lambda: qy.convert(junk(rng), t),
          lambda: qy.conversion_matrix(qy.Basis(A), small), lambda: qy.convert(wrong(), other(t))][k]
    return go, [op, A, F, small], lambda: [qy.convert(op, other(t)), qy.convert(F, 'Majorana')]


@bad
def matrices(rng):
    n = int(rng.randint(1, 5))
    s = G.opstring(rng, 'Pauli', list(range(n)), min_k=1)
    far = G.opstring(rng, 'Pauli', [n + int(rng.randint(3))], k=1)
    op, bad_op = op_of(rng, [s]), op_of(rng, [s, far])
    v = rng.normal(size=2 ** n)
    k = rng.randint(7)
    go = [lambda: qy.to_matrix(far, n), lambda: qy.to_matrix(bad_op, n), lambda: qy.diagonalize(bad_op, n), lambda: qy.to_matrix(junk(rng), n),
          lambda: qy.reduced_density_matrix(['state', None, Junk()][rng.randint(3)], [0], n),
          lambda: qy.reduced_density_matrix(v, [n + int(rng.randint(3))], n),
          lambda: qy.to_matrix(qy.Basis([s]), n)][k]
    return go, [op, bad_op, v], lambda: [qy.to_matrix(op, n), qy.reduced_density_matrix(v, [0], n)]


@bad
def states(rng):
    n = int(rng.randint(2, 5))
    v = rng.normal(size=2 ** n)
    q = [int(x) for x in rng.permutation(n)]
    wrong = list(q)
    k = rng.randint(4)
    if k == 0:
        wrong[0] = wrong[1]
    elif k == 1:
        wrong[wrong.index(n - 1)] = n
    elif k == 2:
        wrong = wrong + [n]
    T = qy.label_permutation(wrong) if k < 3 else qy.time_reversal()
    f = [qy.apply_transformation, lambda t, x, m: c18_conf(t, int(rng.randint(2 ** n)), m)][rng.randint(2)]
    return (lambda: f(T, v, n)), [v, wrong], lambda: qy.apply_transformation(qy.label_permutation(q), v, n)


def c18_conf(t, c, n):
    from qosy.diagonalization import apply_transformation_conf
    return apply_transformation_conf(t, c, n)


@bad
def not_quadratic(rng):
    from . import c12
    n = int(rng.randint(2, 8))
    H = c12.quadratic(rng, list(range(n))).remove_zeros(1e-10)
    if rng.rand() < 0.3:
        H = qy.Operator(op_type='Majorana')
    for _ in range(50):
        s = G.opstring(rng, 'Majorana', list(range(n)), min_k=1, k=int(rng.randint(1, n + 1)))
        if sum(2 if o == 'D' else 1 for o in s.orbital_operators) != 2:
            break
    else:
        raise Skip('quadratic')
    strs, cs = [t for _, t in H], list(H.coeffs)
    if s in strs:
        raise Skip('same')
    at = int(rng.randint(len(strs) + 1))
    strs.insert(at, s)
    cs.insert(at, 10 ** rng.uniform(-3, 1))
    X = qy.Operator(cs, strs, op_type='Majorana')
    go = [lambda: qy.diagonalize_quadratic(X, n), lambda: qy.diagonalize_quadratic(X, n), lambda: qy.diagonalize_bdg(X, n), lambda: qy.diagonalize_quadratic_tightbinding(X, n)][rng.randint(4)]
    return go, [H, X], (lambda: np.sort(np.real(qy.diagonalize_quadratic(H, n)[1]))) if len(H) else (lambda: 0)


@bad
def free_fermions(rng):
    from . import c12
    n = int(rng.randint(2, 7))
    H = c12.quadratic(rng, list(range(n))).remove_zeros(1e-10)
    if not len(H):
        raise Skip('empty')
    k = rng.randint(7)
    four = qy.OperatorString([['A', 'B', 'D'][rng.randint(3)] for _ in range(n)], list(range(n)), 'Majorana') if n > 2 else qy.opstring('D 0 D 1')
    pair = qy.OperatorString(['CDag', 'CDag'], [0, 1], 'Fermion')
    hop = qy.Operator([1.0], [qy.OperatorString(['CDag', 'C'], [1, 0], 'Fermion')])
    dens = qy.OperatorString(['CDag', 'CDag', 'C', 'C'], [0, 1, 1, 0], 'Fermion')
    P = op_of(rng, [G.opstring(rng, 'Pauli', list(range(n)), min_k=1)]) if rng.rand() < 0.7 else qy.Operator(op_type='Pauli')
    far = H + qy.Operator([0.5], [qy.OperatorString(['D'], [n + int(rng.randint(n))], 'Majorana')])
    inter = H + qy.Operator([0.3], [four])
    go = [lambda: qy.diagonalize_quadratic(P, n), lambda: qy.diagonalize_bdg(P, n), lambda: qy.diagonalize_quadratic(inter, n),
          lambda: qy.diagonalize_quadratic(far, n), lambda: qy.diagonalize_quadratic_tightbinding(hop + qy.Operator([G.coeff(rng)], [pair]), n),
          lambda: qy.diagonalize_bdg(hop + qy.Operator([G.coeff(rng)], [dens]), n),
          lambda: qy.diagonalize_quadratic_tightbinding(hop + qy.Operator([G.coeff(rng)], [dens]), n)][k]
    return go, [H, inter, P, hop, far], lambda: [np.sort(np.real(qy.diagonalize_quadratic(H, n)[1])), qy.diagonalize_quadratic_tightbinding(hop, n)[0]]


@bad
def transformations(rng):
    t, p = typ_of(rng), pool(rng)
    A = strs_on(rng, t, p)
    op = op_of(rng, A)
    perm = qy.label_permutation(list(rng.permutation(max(p) + 1)))
    short = qy.label_permutation(list(rng.permutation(max(p))) if max(p) else [])
    top = op_of(rng, [qy.OperatorString(['X' if t == 'Pauli' else 'A'], [max(p)], t)])
    F = op_of(rng, [G.fermion_string(rng, p)])
    P = op_of(rng, strs_on(rng, 'Pauli', p))
    k = rng.randint(10)
    e = [-1, 1.5, 'a', None, -int(rng.randint(2, 9)), 2.0][rng.randint(6)]
    mine = [perm, qy.time_reversal()][rng.randint(2)]
    L = qy.lattice.chain(max(p) // 2 + 1, orbital_names=['Up', 'Dn'])
    spinful = [qy.spin_parity_symmetry(L), qy.time_reversal(L), perm * qy.spin_parity_symmetry(L), qy.time_reversal((L, 'Up', 'Dn')) ** 2][rng.randint(4)]
    odd = lambda: qy.OperatorString(['Q'], [p[0]], 'Majorana')
    go = [lambda: mine.apply(junk(rng)), lambda: mine.apply(qy.Basis(A)), lambda: mine ** e, lambda: mine * junk(rng),
          lambda: short.apply(top), lambda: qy.time_reversal().apply(F), lambda: [qy.particle_hole, qy.charge_conjugation][rng.randint(2)]().apply([P, F][rng.randint(2)]),
          lambda: [qy.time_reversal, qy.particle_hole, qy.charge_conjugation][rng.randint(3)]().apply(odd()),
          lambda: spinful.apply([P, F, A[0], qy.opstring('Z {}'.format(p[0]))][rng.randint(4) if t == 'Pauli' else rng.randint(2)]), lambda: perm.apply(F)][k]
    return go, [op, top, F, P, A], lambda: [mine.apply(op), (mine * mine).apply(op), (mine ** 2).apply(op)]


@bad
def lattice_symmetries(rng):
    sp = lat.spec(rng, max_orb=20)
    L = sp.make()
    if len(L) < 1:
        raise Skip('empty')
    d = sp.dim
    k = rng.randint(3)
    if k == 0:          # a generic displacement
        go = lambda: qy.space_group_symmetry(L, np.eye(d), np.array(sp.vectors[0]) * 0.3141 + 0.01234)
    elif k == 1:        # no partner of that name
        if any(nm == 'Up' for x in sp.names for nm in x) and all(('Up' in x) == ('Dn' in x) for x in sp.names):
            raise Skip('has partners')
        nm = sp.names[0][0]
        go = lambda: qy.spin_flip_symmetry(L, nm, 'nobody')
    else:
        go = lambda: qy.time_reversal([3, 'Up', (L, 'Up'), [L, 'Up', 'Dn'], L.unit_cell][rng.randint(5)])
    return go, [L], lambda: [qy.space_group_symmetry(L, np.eye(d), np.zeros(d)).info, [L.distance(0, i) for i in range(len(L))]]


@bad
def helpers(rng):
    v = [int(x) for x in rng.permutation(int(rng.randint(1, 8)))]
    A = rng.normal(size=(int(rng.randint(2, 6)), 2))
    B = rng.normal(size=(A.shape[0] + int(rng.randint(1, 4)), 2))
    n = int(rng.randint(2, 7))
    m = np.triu(rng.rand(n, n) < 0.4, 1)
    adj = [[int(j) for j in np.where((m | m.T)[i])[0]] for i in range(n)]
    k = rng.randint(3)
    go = [lambda: qt.sort_sign(v, method=['foo', '', 'quick'][rng.randint(3)]), lambda: qy.intersection(A, B),
          lambda: qt.connected_components(adj, mode=['foo', ''][rng.randint(2)])][k]
    return go, [v, A, B, adj], lambda: [qt.sort_sign(v), qt.connected_components(adj)]


@bad
def printing(rng):
    t, p = typ_of(rng), pool(rng)
    A = strs_on(rng, t, p)
    basis = qy.Basis(A)
    vec = rng.normal(size=(len(A) + [1, 2, -1][rng.randint(3)], 2))
    good = rng.normal(size=(len(A), 2))

    def shown():
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            qy.print_vectors(basis, good)
        return out.getvalue()
    return (lambda: quiet(qy.print_vectors, basis, vec)), [basis, vec], shown


@bad
def plotting(rng):
    d = [1, 4][rng.randint(2)]
    k = rng.randint(2)
    L4 = qy.lattice.cubic(4, (2, 1, 1, 2))
    L3 = qy.lattice.cubic(3, (2, 2, 1))
    s4 = G.opstring(rng, typ_of(rng), [0, 1, 2, 3], k=int(rng.randint(1, 3)))
    s3 = G.opstring(rng, typ_of(rng), [0, 1, 2, 3], k=int(rng.randint(3, 5)))

    def go():
        plt.close('all')
        try:
            if k == 0:
                return quiet(qy.plot, L4) if rng.rand() < 0.5 else quiet(qy.plot_opstring, s4, L4)
            return quiet(qy.plot_opstring, s3, L3)
        finally:
            plt.close('all')
    return go, [L4, L3, s4, s3], None


@bad
def selected_ci(rng):
    n = 3
    H = op_of(rng, strs_on(rng, 'Pauli', list(range(n))))
    O = op_of(rng, [qy.opstring('Z 0')])
    foo = [3, None, 'H', (H,), {'H': H}, [3]][rng.randint(6)]
    return (lambda: quiet(al.selected_ci_greedy, O, foo, 2, verbose=False)), [H, O], None


BAD_NAMES = sorted(BAD)


def attempt(go):
    try:
        return ('returned', go())
    except Exception as e:
        return ('refused', e)


def refused(ctx, rng, idx):
    name = BAD_NAMES[idx % len(BAD_NAMES)]
    go, watch, good = BAD[name](rng)
    before = fp(watch)
    first = fp(good()) if good else None
    ctx.check(fp(watch) == before, 'valid-call-modifies', name)
    st = rng.get_state()
    for rep in range(2):
        rng.set_state(st)                   # the same refused call twice
        kind, r = attempt(go)
        ctx.check(kind == 'refused', 'accepted', lambda: '{}: {} gave {}'.format(name, str(before)[:1200], str(fp(r))[:600]))
        after = fp(watch)
        ctx.check(after == before, 'changed-by-refused-call', lambda: '{} ({!r}): {} -> {}'.format(name, r, str(before)[:900], str(after)[:900]))
    ctx.count('refused:' + name)
    ctx.count('error:' + type(r).__name__)
    if good:
        again = fp(good())
        ctx.check(close(again, first), 'later-call-affected', lambda: '{} ({!r}): {} then {}'.format(name, r, str(first)[:900], str(again)[:900]))
        ctx.count('valid-again')
    ctx.seen(name, str(before))
    ctx.sample('{}: {!r}'.format(name, str(r)[:200]))


def interleaved(ctx, rng, idx):
    """valid calls give the same with refused calls in between"""
    jobs = [(c23.NAMES[rng.randint(len(c23.NAMES))], int(rng.randint(1 << 30))) for _ in range(12)]
    plain = [c23.evaluate(n, s) for n, s in jobs]
    failed = 0
    for i in rng.permutation(len(jobs)):
        for _ in range(rng.randint(1, 4)):
            name = BAD_NAMES[rng.randint(len(BAD_NAMES))]
            try:
                go, watch, _g = BAD[name](rng)
            except Skip:
                continue
            kind, r = attempt(go)
            ctx.check(kind == 'refused', 'accepted', lambda: '{}: {} gave {}'.format(name, str(fp(watch))[:1200], str(fp(r))[:600]))
            failed += 1
        n, s = jobs[i]
        now = c23.evaluate(n, s)
        ctx.check(close(now, plain[i]), 'history', lambda: '{} seed {} after refused calls: {} then {}'.format(n, s, str(plain[i])[:700], str(now)[:700]))
        ctx.seen(n, s)
    ctx.count('interleaved-refusals', failed)


def doubtful(ctx, rng, idx):
    """accepted, but not without a warning"""
    if idx % 3 == 2:
        # a conversion between bases of different sizes cannot be inverted
        a, b = [('Fermion', 'Majorana'), ('Majorana', 'Fermion')][rng.randint(2)]
        p = sorted(int(x) for x in rng.choice(9, rng.randint(1, 3), replace=False))
        k = len(p)
        full = dict(include_identity=True)
        small, large = qy.cluster_basis(k, p, a, **full), qy.cluster_basis(k, p, b, **full)
        if rng.rand() < 0.6:
            strs = list(large)
            if rng.rand() < 0.5 or len(strs) < 3:
                q = max(p) + 1
                extra = qy.opstring('A {}'.format(q)) if b == 'Majorana' else qy.opstring('CDag {} C {}'.format(q, q))
                strs.append(extra)
                large = qy.Basis(strs)
            else:
                strs = list(small)
                strs.pop(int(rng.randint(len(strs))))
                small = qy.Basis(strs)
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter('always')
            qy.conversion_matrix(small, large)
        told = any('invertible' in str(w.message).lower() or 'size' in str(w.message).lower() for w in log)
        what = 'conversion of {} {} to {} {} strings'.format(len(small), a, len(large), b)
        ctx.check(told == (len(small) != len(large)), 'warning', lambda: '{}: {}'.format(what, 'silent' if not told else 'warned'))
        ctx.count('conversion-warned' if told else 'conversion-silent')
        ctx.seen(what, p)
        ctx.sample(what)
        return
    t, p = typ_of(rng), pool(rng)
    A = strs_on(rng, t, p)
    cs = np.array([G.coeff(rng) for _ in A], dtype=complex)
    real = rng.rand() < 0.4
    i = rng.randint(len(cs))
    if not real:
        cs[i] += 1j * float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-6, 1))
    if idx % 2 == 0:
        T = [qy.time_reversal(), qy.label_permutation(list(rng.permutation(max(p) + 1)))][rng.randint(2)]
        op = qy.Operator(cs, A)
        f = lambda: T.apply(op)
        what = 'apply ' + G.desc(op)
    else:
        L = [qy.lattice.chain(5), qy.lattice.square(2, 3), qy.lattice.cubic(3, (2, 2, 2))][rng.randint(3)]
        s = G.opstring(rng, t, list(range(5)), k=int(rng.randint(1, 3)))
        w = complex(cs[i]) / max(1.0, abs(complex(cs[i])))          # plots expect weights up to one
        what = 'plot {} times {}'.format(w, s)

        def f():
            plt.close('all')
            qy.plot_opstring(s, L, weight=w if not real else float(np.real(w)))
            plt.close('all')
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter('always')
        f()
    told = any('complex' in str(w.message).lower() or 'imaginary' in str(w.message).lower() for w in log)
    ctx.check(told == (not real), 'warning', lambda: '{}: {}'.format(what, 'silent' if not told else 'warned'))
    ctx.count('doubtful-warned' if told else 'doubtful-silent')
    ctx.seen(what)
    ctx.sample(what)


FAMILIES = [
    Family('refused', refused, 1200, 20000, require=700),
    Family('interleaved', interleaved, 24, 400, require=12),
    Family('doubtful', doubtful, 120, 1800, require=60),
]
REQUIRED_COUNTERS = ['conversion-warned', 'conversion-silent', 'valid-again', 'interleaved-refusals', 'doubtful-warned', 'doubtful-silent'] + ['refused:' + n for n in BAD_NAMES]
