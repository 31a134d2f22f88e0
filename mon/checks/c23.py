"""C23  purity, independence of results, repeatability, independence of history."""
import contextlib
import copy
import io
import json
import os
import subprocess
import sys
import warnings
import numpy as np
import scipy.sparse as ss
import matplotlib
matplotlib.use('Agg')
import qosy as qy
from qosy import algorithms as al
from qosy import tools as qt
from .. import runtime
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import transf as T
from .. import lat

PROP = 'C23'
RULE = ('A case draws calls of the public API from a registry covering every module; deep fingerprints of all arguments are '
        'taken before and after each call, results are modified in place through the public API while arguments and earlier '
        'results are watched, calls are repeated, and a sequence of calls is recomputed in another order in a fresh process '
        'with another hash seed and random state. Non-trivial = a call with arguments that hold data.')
ASSUMPTIONS = ['functions documented to work in place are excluded', 'dense solvers only (the sparse solver is randomised)',
               'numbers are compared to 1e-7 and spaces of operators as spaces where the choice of vectors is a convention']


# ---- fingerprints -------------------------------------------------------------------------
def fp(x, depth=0):
    if depth > 8:
        return 'deep'
    d = depth + 1
    if x is None or isinstance(x, (str, bool, np.bool_)):
        return str(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, complex, np.floating, np.complexfloating)):
        x = complex(x)
        return ['n', x.real + 0.0, x.imag + 0.0]
    if isinstance(x, qy.OperatorString):
        return ['os', str(x.op_type)] + fp(complex(x.prefactor)) + [str(o) for o in x.orbital_operators] + [int(l) for l in x.orbital_labels] + [str(x)]
    if isinstance(x, qy.Operator):
        return ['op', str(x.op_type)] + [[fp(complex(c)), fp(s)] for c, s in x] + [len(x)]
    if isinstance(x, qy.Basis):
        return ['basis'] + [fp(s) for s in x] + [x.index(s) for s in x]
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ['obj'] + [fp(y, d) for y in x.ravel()]
        return ['arr', list(x.shape)] + [fp(complex(v)) for v in x.ravel()]
    if ss.issparse(x):
        c = ss.coo_matrix(x)
        c.sum_duplicates()
        e = sorted((int(i), int(j), complex(v)) for i, j, v in zip(c.row, c.col, c.data) if abs(v) > 1e-13)
        return ['sparse', list(x.shape)] + [[i, j, fp(v)] for i, j, v in e]
    if isinstance(x, dict):
        items = [[fp(k, d), fp(v, d)] for k, v in x.items()]
        return ['dict'] + sorted(items, key=lambda t: json.dumps(t[0]))
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [fp(y, d) for y in x]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted([fp(y, d) for y in x], key=json.dumps)
    if isinstance(x, qy.UnitCell):
        return ['cell', fp(list(x.lattice_vectors)), fp(list(x.atom_positions)), fp([list(a) for a in x.atom_orbitals])]
    if isinstance(x, qy.Lattice):
        return ['lattice', fp(x.unit_cell), fp(list(x.num_cells)), fp(list(x.periodic_boundaries)), [[fp(np.array(p)), fp(n), fp(list(c))] for p, n, c in x]]
    if isinstance(x, qy.Transformation):
        return ['transf', fp(x.info, d)]
    if callable(x):
        return 'fn'
    return ['?', type(x).__name__]


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) == 3 and a[0] == 'n' and len(b) == 3 and b[0] == 'n':
            s = max(1.0, abs(a[1]), abs(a[2]))
            return all(abs(x - y) <= 1e-7 * s or x == y or (x != x and y != y) for x, y in zip(a[1:], b[1:]))
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b


# ---- canonical forms where the choice of vectors is a convention ----------------------------
def projector(V):
    V = np.array(V)
    if V.ndim != 2 or V.shape[1] == 0:
        return fp(V)
    U, s, _ = np.linalg.svd(V, full_matrices=False)
    U = U[:, s > 1e-9 * s[0]] if s[0] > 0 else U[:, :0]
    return [fp(V.shape[0]), fp(U @ U.conj().T)]


def opspace(ops):
    """projector on the span of operators, in a canonical order of strings"""
    keys = sorted(set(json.dumps(fp(s)) for o in ops for _, s in o))
    ind = {k: i for i, k in enumerate(keys)}
    V = np.zeros((len(keys), len(ops)), dtype=complex)
    for j, o in enumerate(ops):
        for c, s in o:
            V[ind[json.dumps(fp(s))], j] += c
    if len(ops) == 0 or len(keys) == 0:
        return [keys, len(ops)]
    P = projector(V)
    return [len(ops), P if len(keys) < 40 else fp(np.linalg.matrix_rank(V))]


# ---- registry of calls ----------------------------------------------------------------------
CALLS = {}


def call(canon=None, inplace=()):
    def deco(f):
        CALLS[f.__name__] = (f, canon or fp)
        return f
    return deco


def pool_of(rng, n=None):
    return list(range(n or int(rng.randint(1, 5))))


def two(rng, typ=None):
    typ = typ or ['Pauli', 'Majorana'][rng.randint(2)]
    return typ, G.label_pool(rng, int(rng.randint(1, 5)))


def alg(name):
    def f(rng):
        typ, p = two(rng)
        if rng.rand() < 0.5:
            return getattr(qy, name), (G.opstring(rng, typ, p), G.opstring(rng, typ, p)), {}
        return getattr(qy, name), (G.operator(rng, typ, p), G.operator(rng, typ, p)), {}
    f.__name__ = name
    return f


for _n in ('product', 'commutator', 'anticommutator'):
    call()(alg(_n))


@call()
def op_add(rng):
    typ, p = two(rng)
    k = rng.randint(6)
    a, b = G.operator(rng, typ, p), G.operator(rng, typ, p)
    f = [lambda x, y: x + y, lambda x, y: x - y, lambda x, y: -x, lambda x, y: 2.5 * x, lambda x, y: x * (0.5 + 1j),
         lambda x, y: x.remove_zeros()][k]
    return f, (a, b), {}


@call()
def op_query(rng):
    typ, p = two(rng)
    a, b = G.operator(rng, typ, p), G.operator(rng, typ, p)
    f = [lambda x, y: x.norm(), lambda x, y: x == y, lambda x, y: x != y, lambda x, y: str(x), lambda x, y: len(x), lambda x, y: [c for c in x],
         lambda x, y: x.inner_product(y) if hasattr(x, 'inner_product') else None][rng.randint(7)]
    return f, (a, b), {}


@call()
def op_vector(rng):
    typ, p = two(rng)
    a = G.operator(rng, typ, p)
    strs = [s for _, s in a] + G.distinct_strings(rng, typ, [200, 201], 2, min_k=1)
    b = qy.Basis([strs[i] for i in rng.permutation(len(strs))])
    return (lambda x, y: x.to_vector(y)), (a, b), {}


@call()
def basis_ops(rng):
    typ, p = two(rng)
    A, B = qy.Basis(G.distinct_strings(rng, typ, p, 4)), qy.Basis(G.distinct_strings(rng, typ, p, 4))
    f = [lambda x, y: x + y, lambda x, y: x == y, lambda x, y: [s in x for s in y], lambda x, y: str(x), lambda x, y: len(x), lambda x, y: x + y[0],
         lambda x, y: x + list(y)][rng.randint(7)]
    return f, (A, B), {}


@call()
def make_basis(rng):
    typ, p = two(rng)
    return qy.Basis, (G.distinct_strings(rng, typ, p, 4),), {}


@call()
def make_operator(rng):
    typ, p = two(rng)
    s = G.distinct_strings(rng, typ, p, 4)
    return qy.Operator, (np.array([G.coeff(rng) for _ in s]), s), {}


@call()
def make_string(rng):
    typ, p = two(rng)
    s = G.opstring(rng, typ, p, min_k=1)
    if rng.rand() < 0.5:
        return qy.opstring, (str(s), typ), {}
    return qy.OperatorString, (list(s.orbital_operators), list(s.orbital_labels), typ), {}


@call()
def cluster(rng):
    typ = ['Pauli', 'Majorana', 'Fermion'][rng.randint(3)]
    p = [int(i) for i in rng.permutation(G.label_pool(rng, int(rng.randint(1, 5))))]
    return qy.cluster_basis, ([int(k) for k in rng.permutation(len(p))[:2]] or [0], p, typ), {}


@call()
def distance(rng):
    sp = lat.spec(rng, max_orb=7)
    return qy.distance_basis, (sp.make(), 2, 1.1, ['Pauli', 'Majorana'][rng.randint(2)]), {}


@call()
def convert(rng):
    typ = ['Pauli', 'Majorana'][rng.randint(2)]
    to = ['Pauli', 'Majorana', 'Fermion'][rng.randint(3)]
    p = pool_of(rng)
    x = G.operator(rng, typ, p) if rng.rand() < 0.6 else G.opstring(rng, typ, p)
    return qy.convert, (x, to), dict(include_identity=bool(rng.randint(2)))


@call()
def convert_fermion(rng):
    return qy.convert, (G.fermion_string(rng, pool_of(rng, 3)), ['Pauli', 'Majorana'][rng.randint(2)]), {}


@call()
def conv_matrix(rng):
    n = int(rng.randint(1, 4))
    A, B = qy.cluster_basis(list(range(n + 1)), list(range(n)), 'Pauli'), qy.cluster_basis(list(range(n + 1)), list(range(n)), 'Majorana')
    if rng.rand() < 0.5:
        A, B = B, A
    return qy.conversion_matrix, (A, B), {}


@call()
def s_constants(rng):
    typ, p = two(rng)
    A, B = qy.Basis(G.distinct_strings(rng, typ, p, 4)), qy.Basis(G.distinct_strings(rng, typ, p, 3))
    return qy.structure_constants, (A, B), dict(operation_mode=['commutator', 'anticommutator', 'product'][rng.randint(3)], return_extended_basis=True)


def liou(name):
    def f(rng):
        typ, p = two(rng)
        b = qy.Basis(G.distinct_strings(rng, typ, p, 5)) if rng.rand() < 0.5 else [G.operator(rng, typ, p) for _ in range(3)]
        return getattr(qy, name), (b, G.operator(rng, typ, p)), dict(return_extended_basis=bool(rng.randint(2)))
    f.__name__ = name
    return f


for _n in ('liouvillian_matrix', 'commutant_matrix'):
    call()(liou(_n))


@call()
def liou_closed(rng):
    """one operator (or a basis) whose strings are mapped to themselves"""
    l = int(rng.randint(6))
    typ = ['Pauli', 'Majorana'][rng.randint(2)]
    x = ('X', 'Y', 'Z') if typ == 'Pauli' else ('A', 'B', 'D')
    p = [int(i) for i in rng.permutation(3)] if typ == 'Pauli' else [0, 1, 2]
    a, b = [qy.opstring('{} {}'.format(x[p[i]], l)) for i in (0, 1)]
    op = qy.Operator([G.coeff(rng)], [qy.opstring('{} {}'.format(x[p[2]], l))])
    k = rng.randint(3)
    basis = [qy.Operator([G.coeff(rng), G.coeff(rng)], [a, b])] if k == 0 else qy.Basis([a, b]) if k == 1 else [qy.Operator([G.coeff(rng)], [s]) for s in (a, b)]
    f = [qy.liouvillian_matrix, qy.commutant_matrix][rng.randint(2)]
    return f, (basis, op), dict(return_extended_basis=True)


@call(opspace)
def lie(rng):
    typ, p = two(rng)
    p = p[:2]
    return qy.generate_lie_algebra, ([G.operator(rng, typ, p, n=1, complex_=False, min_k=1) for _ in range(rng.randint(1, 4))],), {}


@call(projector)
def commuting(rng):
    typ, p = two(rng)
    b = qy.Basis(G.distinct_strings(rng, typ, p, 6))
    return qy.commuting_operators, (b, G.operator(rng, typ, p)), {}


@call(projector)
def invariant(rng):
    typ = ['Pauli', 'Majorana'][rng.randint(2)]
    n, sp = T.draw(rng, typ, nmax=4)
    b = qy.Basis(G.distinct_strings(rng, typ, list(range(n)), 6))
    return qy.invariant_operators, (b, sp.transform), {}


@call()
def transform(rng):
    typ = ['Pauli', 'Majorana'][rng.randint(2)]
    n, sp = T.draw(rng, typ, nmax=4)
    x = G.operator(rng, typ, list(range(n))) if rng.rand() < 0.6 else G.opstring(rng, typ, list(range(n)))
    return (lambda t, y: t.apply(y)), (sp.transform, x), {}


@call()
def sym_matrix(rng):
    typ = ['Pauli', 'Majorana'][rng.randint(2)]
    n, sp = T.draw(rng, typ, nmax=3)
    b = qy.Basis(G.distinct_strings(rng, typ, list(range(n)), 5))
    return qy.symmetry_matrix, (b, sp.transform), {}


@call()
def compose(rng):
    n = int(rng.randint(2, 5))
    a, b = T.permutation(rng, n), T.permutation(rng, n)
    x = G.opstring(rng, 'Pauli', list(range(n)))
    return (lambda s, t, y: ((s * t) ** 2).apply(y)), (a.transform, b.transform, x), {}


@call()
def sgs(rng):
    sp = lat.spec(rng, max_orb=8)
    L = sp.make()
    return (lambda l, R, d: qy.space_group_symmetry(l, R, d)), (L, np.eye(sp.dim), np.zeros(sp.dim)), {}


@call()
def lattice_query(rng):
    sp = lat.spec(rng, max_orb=10)
    n = len(sp.sites)
    i, j = int(rng.randint(n)), int(rng.randint(n))
    p, nm, _ = sp.sites[i]
    f = [lambda l, q: l.distance(i, j), lambda l, q: l.index(q, nm), lambda l, q: str(l), lambda l, q: len(l), lambda l, q: [x for x in l]][rng.randint(5)]
    return f, (sp.make(), np.array(p)), {}


@call()
def make_lattice(rng):
    sp = lat.spec(rng, max_orb=10)
    return (lambda c, n, p: qy.Lattice(c, n, periodic_boundaries=p)), (sp.make().unit_cell, sp.num, sp.periodic), {}


@call(opspace)
def sym_basis(rng):
    typ = ['Pauli', 'Majorana'][rng.randint(2)]
    n = int(rng.randint(2, 4))
    b = qy.Basis(G.distinct_strings(rng, typ, list(range(n)), 4))
    return qy.symmetrize_basis, (b, [T.permutation(rng, n).transform for _ in range(rng.randint(1, 3))]), {}


@call()
def sym_lattice(rng):
    L = qy.lattice.chain(1, periodic=True) if rng.rand() < 0.3 else qy.Lattice(qy.UnitCell([np.array([1.0, 0.0]), np.array([0.0, 1.0])], [np.array([0.3, 0.1])], [['']]), (1, 1))
    return qy.symmetrize_lattice, (L, [-np.eye(L.dim)]), {}


@call()
def matrix(rng):
    n = int(rng.randint(1, 4))
    return qy.to_matrix, (G.operator(rng, 'Pauli', list(range(n))), n), {}


@call()
def tovec(rng):
    n = int(rng.randint(1, 3))
    b = qy.cluster_basis(list(range(n + 1)), list(range(n)), 'Pauli')
    M = rng.normal(size=(2 ** n, 2 ** n))
    f = qy.to_vector if rng.rand() < 0.5 else qy.to_operator
    return f, (ss.csr_matrix(M), b, n), {}


@call(lambda r: fp(np.sort(np.real(r[0]))))
def diag(rng):
    n = int(rng.randint(1, 4))
    return qy.diagonalize, (G.operator(rng, 'Pauli', list(range(n)), complex_=False), n), {}


@call(lambda r: [fp(complex(r[0])), fp(np.sort(np.ravel(np.abs(np.array(r[1])))))])
def diagq(rng):
    n = int(rng.randint(1, 4))
    strs = [s for s in qy.cluster_basis([2], list(range(n)), 'Majorana')] + [qy.opstring('D {}'.format(i)) for i in range(n)]
    k = [strs[i] for i in rng.permutation(len(strs))[:4]]
    return qy.diagonalize_quadratic, (qy.Operator(np.array([G.coeff(rng) for _ in k]), k), n), {}


@call()
def apply_t(rng):
    n = int(rng.randint(2, 4))
    v = rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n)
    return qy.apply_transformation, (T.permutation(rng, n).transform, v / np.linalg.norm(v), n), {}


@call()
def rdm(rng):
    n = int(rng.randint(2, 5))
    v = rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n)
    keep = [int(x) for x in rng.permutation(n)[:rng.randint(1, n)]]
    return qy.reduced_density_matrix, (v / np.linalg.norm(v), keep, n), {}


@call()
def entropy(rng):
    A = rng.normal(size=(4, 4)) + 1j * rng.normal(size=(4, 4))
    r = A @ A.conj().T
    return qy.renyi_entropy, (r / np.trace(r),), dict(n=int(rng.randint(2, 4)))


@call()
def gs(rng):
    A = rng.normal(size=(rng.randint(3, 8), rng.randint(1, 4)))
    if rng.rand() < 0.5:
        A = A + 1j * rng.normal(size=A.shape)
    if rng.rand() < 0.3:
        A = ss.csc_matrix(A)
    return qt.gram_schmidt, (A,), {}


@call(projector)
def intersect(rng):
    n, k = int(rng.randint(5, 8)), int(rng.randint(3))
    C = rng.normal(size=(n, 1))
    return qt.intersection, (np.hstack([C, rng.normal(size=(n, 2))]), np.hstack([C, rng.normal(size=(n, k))])), {}


@call(lambda r: projector(r.toarray() if ss.issparse(r) else r))
def sparse_vecs(rng):
    return qt.sparsify, (rng.normal(size=(rng.randint(2, 8), rng.randint(1, 4))) * 10.0 ** rng.randint(-2, 3),), dict(orthogonalize=bool(rng.randint(2)))


@call()
def combin(rng):
    k = rng.randint(7)
    n = int(rng.randint(2, 8))
    p, q = [int(x) for x in rng.permutation(n)], [int(x) for x in rng.permutation(n)]
    adj = [set() for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if rng.rand() < 0.4:
                adj[i].add(j)
                adj[j].add(i)
    if k == 0:
        return qt.sign, (p,), {}
    if k == 1:
        return qt.sort_sign, (np.array(p, dtype=float),), dict(method=['insertionsort', 'mergesort'][rng.randint(2)])
    if k == 2:
        return (lambda a: sorted(sorted(int(y) for y in x) for x in qt.maximal_cliques(a))), (adj,), {}
    if k == 3:
        return (lambda a: sorted(sorted(int(y) for y in x) for x in qt.connected_components(a))), (adj,), {}
    if k == 4:
        return qt.argsort, (p,), {}
    if k == 5:
        return qt.remove_duplicates, ([float(x) for x in rng.randint(0, 4, size=6)],), {}
    return qt.compose_permutations, (p, q), {}


@call()
def show(rng):
    typ, p = two(rng)
    ops = [G.operator(rng, typ, p) for _ in range(2)]
    kw = dict(norm_order=[None, np.inf][rng.randint(2)])

    def f(ops):
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            qy.print_operators(ops, **kw)
        return buf.getvalue()
    return f, (ops,), {}


def sci_data(r):
    return [fp([float(x) for x in r[3]]), fp([len(o) for o in r[2]])]


@call(lambda r: fp(float(np.abs(r[1]))))
def sci(rng):
    n = 3
    ss_ = G.distinct_strings(rng, 'Pauli', list(range(n)), 4, min_k=1, max_k=2)
    H = qy.Operator(np.array([G.coeff(rng) for _ in ss_]), ss_)
    i = qy.Operator([1.0], [G.opstring(rng, 'Pauli', list(range(n)), min_k=1)])
    return (lambda a, b: quiet(al.selected_ci_simple, a, b, 1)), (i, H), {}


@call(lambda r: [opspace(x) for x in r])
def generator(rng):
    typ = ['Pauli', 'Majorana'][rng.randint(2)]
    n = int(rng.randint(2, 4))
    b = qy.Basis(G.distinct_strings(rng, typ, list(range(n)), 6))
    H = G.operator(rng, typ, list(range(n)), complex_=False)
    t = T.permutation(rng, n).transform

    def f(b, H, t):
        g = qy.SymmetricOperatorGenerator(b)
        g.add_symmetry(H)
        g.add_symmetry(t)
        return [list(x) for x in quiet(g.generate)[0]]
    return f, (b, H, t), {}


def quiet(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        return f(*a, **kw)


def outcome(fn, args, kw):
    try:
        return 'ok', quiet(fn, *args, **kw)
    except Exception as e:
        return 'raised', type(e).__name__


def canonical(name, o):
    return ['raised', o[1]] if o[0] == 'raised' else ['ok', CALLS[name][1](o[1])]


# ---- in-place modification of results through the public API --------------------------------
def spoil(x, depth=0):
    """modify everything reachable in a result that its owner may modify"""
    if depth > 3:
        return
    if isinstance(x, qy.Operator):
        if len(x) and not x.coeffs.flags.writeable:
            return
        typ = x.op_type
        extra = qy.OperatorString(['X' if typ == 'Pauli' else 'A' if typ == 'Majorana' else 'CDag'] + (['C'] if typ == 'Fermion' else []),
                                  [777] + ([777] if typ == 'Fermion' else []), typ)
        x.coeffs *= 3.0
        x += qy.Operator([2.0], [extra])
        if len(x):
            x.normalize()
    elif isinstance(x, qy.Basis):
        x += qy.OperatorString(['X'], [778], 'Pauli')
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object and x.size:
            x.flat[:] = x.flat[0] + 17
    elif ss.issparse(x):
        if x.nnz and x.data.flags.writeable:
            x.data[:] = 17
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x['spoiled'] = 1
    elif isinstance(x, list):
        for v in x:
            spoil(v, depth + 1)
        x.append('spoiled')
    elif isinstance(x, tuple):
        for v in x:
            spoil(v, depth + 1)
    elif isinstance(x, qy.UnitCell):
        x.add_atom(np.array(x.lattice_vectors[0]) * 0.123)


# what is returned includes the given objects (generators; positions of the lattice itself)
SHARES = {'lie', 'lattice_query'}


def pure(ctx, rng, idx):
    name = NAMES[idx % len(NAMES)]
    fn, args, kw = CALLS[name][0](rng)
    before = fp([args, kw])
    r1 = outcome(fn, args, kw)
    ctx.check(fp([args, kw]) == before, 'argument-modified', lambda: '{}: {} -> {}'.format(name, str(before)[:700], str(fp([args, kw]))[:700]))
    c1 = canonical(name, r1)
    r2 = outcome(fn, args, kw)
    ctx.check(close(canonical(name, r2), c1), 'not-repeatable', lambda: '{}: {} then {}'.format(name, str(c1)[:700], str(canonical(name, r2))[:700]))
    ctx.check(fp([args, kw]) == before, 'argument-modified', name)
    if r1[0] == 'ok' and not isinstance(r1[1], qy.Lattice) and name not in SHARES:
        raw2 = fp(r2[1])
        spoil(r1[1])
        ctx.check(fp([args, kw]) == before, 'result-shares-argument', lambda: '{}: modifying the result changed the arguments {} -> {}'.format(
            name, str(before)[:700], str(fp([args, kw]))[:700]))
        ctx.check(fp(r2[1]) == raw2, 'results-share', lambda: '{}: modifying one result changed another one {} -> {}'.format(name, str(raw2)[:500], str(fp(r2[1]))[:500]))
        r3 = outcome(fn, args, kw)
        ctx.check(close(canonical(name, r3), c1), 'later-calls-affected', lambda: '{}: {} then {}'.format(name, str(c1)[:700], str(canonical(name, r3))[:700]))
    ctx.count('call:' + name)
    ctx.count(r1[0])
    ctx.seen(name, str(before))
    ctx.sample('{} {}'.format(name, str(before)[:200]))


def inputs_shared(ctx, rng, idx):
    """what was built from an argument is not affected by later changes of that argument"""
    typ, p = two(rng)
    strs = G.distinct_strings(rng, typ, p, 4)
    cs = np.array([G.coeff(rng) for _ in strs], dtype=complex)
    lst = list(strs)
    k = idx % 4
    if k == 0:
        obj = qy.Operator(cs, lst)
    elif k == 1:
        obj = qy.Basis(lst)
    elif k == 2:
        s = G.opstring(rng, typ, p, min_k=1)
        ops, labs = list(s.orbital_operators), list(s.orbital_labels)
        obj = qy.OperatorString(ops, labs, typ)
    else:
        b = qy.Basis(lst)
        obj = b + qy.Basis(G.distinct_strings(rng, typ, p, 2))
    f0 = fp(obj)
    other = qy.OperatorString(['X' if typ == 'Pauli' else 'A'], [555], typ)
    cs[:] = 99
    lst.append(other)
    if k == 2:
        ops[0] = 'Z' if typ == 'Pauli' else 'D'
        labs[-1] = 400
    if k == 3:
        b += other
    ctx.check(fp(obj) == f0, 'keeps-reference', lambda: 'kind {}: {} -> {}'.format(k, str(f0)[:500], str(fp(obj))[:500]))
    if k != 2:
        derived = [copy.deepcopy(obj)] + ([obj + 0 * obj, -obj, 1 * obj, obj.remove_zeros()] if k == 0 else [obj + qy.Basis([])])
        for c in derived:
            ctx.check(len(c) == len(obj), 'copy', '')
            spoil(c)
            ctx.check(fp(obj) == f0, 'copy-shares', lambda: 'kind {}'.format(k))
    ctx.seen(k, str(f0))


CHILD = '''
import sys, json
sys.path[:0] = json.loads(sys.argv[1])
import warnings; warnings.simplefilter('ignore')
from mon.checks import c23
import numpy as np
np.random.seed(int(sys.argv[2]) % 1000)
jobs = json.loads(sys.argv[3])
out = {}
for key, name, s, kin in jobs:
    out[key] = c23.evaluate(name, s, kin)
sys.stdout.write('RESULT' + json.dumps(out))
'''


# ---- the same call with one thing about its arguments changed --------------------------------
def relative(x, rng, depth=0):
    """something of the same kind as x, different in one respect"""
    if depth > 3:
        return x
    if isinstance(x, qy.Operator):
        cs, strs = [complex(c) for c, _ in x], [s for _, s in x]
        if not strs:
            return x
        k, i = rng.randint(6), rng.randint(len(strs))
        if k == 0:
            cs[i] = -cs[i]
        elif k == 1:
            cs[i] = cs[i] * 1.5
        elif k == 2:
            cs = [c * 2 for c in cs]
        elif k == 3 and len(strs) > 1:
            q = rng.permutation(len(strs))
            strs = [strs[j] for j in q]                 # the same coefficients on other strings
        elif k == 4:
            strs[i] = relative(strs[i], rng)
            if len(set(strs)) < len(strs):
                return x
        elif len(strs) > 1:
            del cs[i], strs[i]
        return qy.Operator(np.array([c.real for c in cs]) if all(c.imag == 0 for c in cs) else cs, strs, x.op_type)
    if isinstance(x, qy.Basis):
        strs = list(x)
        if not strs:
            return x
        k = rng.randint(3)
        if k == 0:
            strs = [strs[j] for j in rng.permutation(len(strs))]
        elif k == 1 and len(strs) > 1:
            del strs[rng.randint(len(strs))]
        else:
            i = rng.randint(len(strs))
            new = relative(strs[i], rng)
            if new in strs:
                return x
            strs[i] = new
        return qy.Basis(strs)
    if isinstance(x, qy.OperatorString):
        ops, labs = [str(o) for o in x.orbital_operators], [int(l) for l in x.orbital_labels]
        if not ops or x.op_type == 'Fermion':
            return x
        names = O.PAULI if x.op_type == 'Pauli' else O.MAJ
        i = rng.randint(len(ops))
        if rng.rand() < 0.6:
            ops[i] = names[(names.index(ops[i]) + int(rng.randint(1, 3))) % 3]
        elif i + 1 < len(labs) and labs[i] + 1 < labs[i + 1]:
            labs[i] += 1
        return G.make(ops, labs, x.op_type)
    if isinstance(x, np.ndarray):
        if x.dtype.kind not in 'fc' or not x.size:
            return x
        y = x.copy()
        if rng.rand() < 0.5:
            y.flat[rng.randint(y.size)] += 0.25
        else:
            y = -y
        return y
    if isinstance(x, qy.Lattice):
        vec, atoms, orbs = [np.array(v) for v in x.unit_cell.lattice_vectors], [np.array(a) for a in x.unit_cell.atom_positions], [list(o) for o in x.unit_cell.atom_orbitals]
        num, per = tuple(x.num_cells), tuple(x.periodic_boundaries)
        k = rng.randint(4)
        if k == 0:
            t = 0.25 * vec[rng.randint(len(vec))]
            atoms = [a + t for a in atoms]
        elif k == 1:
            q = rng.permutation(len(atoms))
            atoms, orbs = [atoms[i] for i in q], [orbs[i] for i in q]
        elif k == 2:
            per = tuple(not p for p in per)
        else:
            vec, atoms = [1.5 * v for v in vec], [1.5 * a for a in atoms]
        return qy.Lattice(qy.UnitCell(vec, atoms, orbs), num, periodic_boundaries=per)
    if isinstance(x, bool):
        return not x
    if isinstance(x, (list, tuple)) and len(x):
        if all(isinstance(y, (int, np.integer)) for y in x):
            return type(x)(x[j] for j in rng.permutation(len(x)))
        i = rng.randint(len(x))
        return type(x)(relative(y, rng, depth + 1) if j == i else y for j, y in enumerate(x))
    return x


def evaluate(name, s, kin=0):
    """the call of this seed, or a relative of it (chain of changes)"""
    fn, args, kw = CALLS[name][0](np.random.RandomState(s))
    if kin and name not in FIXED:
        r = np.random.RandomState(kin)
        for _ in range(int(r.randint(1, 3))):
            i = r.randint(len(args) + (1 if kw else 0))
            if i < len(args):
                args = tuple(relative(a, r) if j == i else a for j, a in enumerate(args))
            else:
                k = sorted(kw)[r.randint(len(kw))]
                kw = dict(kw, **{k: relative(kw[k], r)})
    return json.loads(json.dumps(canonical(name, outcome(fn, args, kw))))


@call()
def lattice_index(rng):
    """few lattices and few positions: the same ones come again"""
    d = int(rng.randint(1, 3))
    shift = rng.randint(4) / 4.0
    nm = ['', 'a', 'b'][rng.randint(3)]
    c = qy.UnitCell([np.eye(d)[i] for i in range(d)])
    c.add_atom(np.full(d, shift), orbitals=[[''], ['a', 'b'], ['b', 'a']][rng.randint(3)])
    L = qy.Lattice(c, (3,) * d, periodic_boundaries=(bool(rng.randint(2)),) * d)
    f = [lambda l, q: l.index(q, nm), lambda l, q: l.distance(0, len(l) - 1), lambda l, q: l.distance(q, 0), lambda l, q: [list(p) for p, _, _ in l]][rng.choice(4, p=[0.55, 0.15, 0.15, 0.15])]
    return f, (L, np.full(d, rng.randint(4) / 4.0 + rng.randint(3))), {}


NAMES = sorted(CALLS)
FIXED = {'sym_lattice'}         # a changed matrix generates an infinite group


def kinship(ctx, rng, idx):
    """calls that differ in one respect, in one process and in another order in a fresh one"""
    names = [NAMES[(3 * idx + i) % len(NAMES)] for i in range(3)]
    jobs = []
    for n in names:
        for _ in range(4):
            s = int(rng.randint(1 << 30))
            jobs += [(str(len(jobs) + i), n, s, 0 if i == 0 else int(rng.randint(1, 1 << 30))) for i in range(5)]
        if n == 'lattice_index':
            jobs += [(str(len(jobs) + i), n, int(rng.randint(1 << 30)), 0) for i in range(60)]
    compare_history(ctx, rng, jobs)
    ctx.count('relatives', len(jobs))


def history(ctx, rng, idx):
    compare_history(ctx, rng, [(str(i), NAMES[rng.randint(len(NAMES))], int(rng.randint(1 << 30)), 0) for i in range(40)])


def compare_history(ctx, rng, jobs):
    m = len(jobs)
    here = {j[0]: evaluate(*j[1:]) for j in jobs}                      # after everything this process did before
    again = {j[0]: evaluate(*j[1:]) for j in [jobs[i] for i in rng.permutation(m)]}
    for k, n, s, kin in jobs:
        ctx.check(close(here[k], again[k]), 'order-dependent', lambda: '{} seed {} {}: {} then {}'.format(n, s, kin, str(here[k])[:600], str(again[k])[:600]))
    env = dict(os.environ, PYTHONHASHSEED=str(int(rng.randint(1, 10000))), PYTHONPATH=runtime.REPO + os.pathsep + runtime.VERIF)
    order = [jobs[i] for i in rng.permutation(m)]
    r = subprocess.run([sys.executable, '-c', CHILD, json.dumps([runtime.REPO, runtime.VERIF]), str(int(rng.randint(1000))), json.dumps(order)],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=140)
    if b'RESULT' not in r.stdout:
        raise RuntimeError('fresh process failed: ' + r.stderr.decode()[-1500:])
    fresh = json.loads(r.stdout.decode().split('RESULT', 1)[1])
    for k, n, s, kin in jobs:
        ctx.check(close(here[k], fresh[k]), 'history-dependent', lambda: '{} seed {} {}: here {} fresh process {}'.format(n, s, kin, str(here[k])[:600], str(fresh[k])[:600]))
        ctx.seen(n, s, kin)
        ctx.count('compared-calls')
        if here[k][0] == 'ok':
            ctx.count('compared-ok')


def built(ctx, rng, idx):
    """objects made from lists, arrays and unit cells are not affected by what happens to those later"""
    d = int(rng.randint(1, 4))
    vec = [np.eye(d)[i] * float(rng.choice([1.0, 2.0])) for i in range(d)]
    pos = [rng.randint(0, 4, size=d) / 4.0 + k / 10.0 for k in range(rng.randint(1, 4))]
    cell = qy.UnitCell(vec)
    for p in pos:
        cell.add_atom(p, ['Up', 'Dn'] if rng.rand() < 0.4 else None)
    L = qy.Lattice(cell, tuple(int(n) for n in rng.randint(1, 4, size=d)), periodic_boundaries=tuple(bool(b) for b in rng.randint(0, 2, size=d)))
    pts = [(np.array(p), nm) for p, nm, _ in L]

    def look():
        return ([tuple(p) for p, _, _ in L], [nm for _, nm, _ in L], [c for _, _, c in L], [L.index(p.copy(), nm) for p, nm in pts],
                [L.index(p + v0, nm) for p, nm in pts for v0 in shifts], [L.distance(i, j) for i in range(min(6, len(L))) for j in range(min(6, len(L)))], len(L), str(L))
    shifts = [v.copy() for v in vec]
    first = look()
    what = rng.randint(3)
    if what == 0:
        cell.add_atom(np.full(d, 0.77))
    elif what == 1:
        pos[rng.randint(len(pos))][:] += 0.3
    else:
        vec[rng.randint(d)][:] *= 1.5
    ctx.check(look() == first, 'lattice-follows', lambda: ['another atom in the unit cell', 'a moved position array', 'a changed lattice vector'][what] + ' changed a lattice made before')
    B0 = list(qy.cluster_basis(2, [0, 1, 3], ('Pauli', 'Majorana')[idx % 2]))
    names = [B0[i] for i in rng.choice(len(B0), 4, replace=False)]
    c = np.array(rng.randint(1, 5, size=4), dtype=complex)
    B, op = qy.Basis(names), qy.Operator(c, names)
    f = str(B), str(op), list(op.coeffs)
    extra = [s for s in B0 if s not in names][0]
    if rng.randint(2):
        names.append(extra)
    else:
        names[0] = extra
    c[0] = 9.0
    o, l = [str(x) for x in np.array(['X', 'Y', 'Z'])[rng.randint(0, 3, size=3)]], np.sort(rng.choice(9, 3, replace=False)).astype(int)
    oa = np.array(o)
    s = qy.OperatorString(oa, l, 'Pauli')
    t = qy.OperatorString(list(o), [int(x) for x in l], 'Pauli')
    l += 1
    oa[rng.randint(3)] = 'X'
    ctx.check(s == t and str(s) == str(t) and hash(s) == hash(t) and [int(x) for x in s.orbital_labels] == [int(x) for x in t.orbital_labels] and [str(x) for x in s.orbital_operators] == o,
              'string-follows', 'changing the arrays of names and labels changed the OperatorString made before')
    ctx.check((str(B), str(op), list(op.coeffs)) == f and len(B) == 4 and extra not in B and B.index(B[3]) == 3, 'operator-follows', 'a changed list or array changed a Basis or Operator made before')
    ctx.seen(idx, what, d)
    ctx.count('built-' + ('atom', 'position', 'vector')[what])


FAMILIES = [
    Family('built', built, 60, 600, require=50),
    Family('pure', pure, 1000, 20000, require=800),
    Family('inputs_shared', inputs_shared, 200, 3000, require=150),
    Family('kinship', kinship, 32, 400, require=20),
    Family('history', history, 24, 300, require=20),
]
REQUIRED_COUNTERS = ['relatives', 'ok', 'compared-ok'] + ['call:' + n for n in NAMES]
