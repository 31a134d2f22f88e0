"""C01  products, commutators and anticommutators are the true operator algebra."""
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import monitors as M

PROP = 'C01'
RULE = ('A case draws operator strings or operators (Pauli/Majorana, labels contiguous, gapped, >100, around '
        '9/10 and 99/100, real/complex coefficients) and compares product, commutator and anticommutator with an '
        'independent bit-mask Pauli-polynomial algebra; non-trivial = both operands differ from the identity.')
ASSUMPTIONS = ['Jordan-Wigner convention as documented in qosy/conversion; op strings have sorted distinct labels']

OPS = [('product', O.pmul), ('commutator', O.pcomm), ('anticommutator', O.panti)]


def _res_poly(res):
    c, s = res
    if s is None:
        return {}, c
    return O.pscale(O.os_poly(s), c), c


def strings(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    pool = G.label_pool(rng, rng.randint(1, 9))
    for _ in range(25):
        A = G.opstring(rng, typ, pool)
        B = A if rng.rand() < 0.1 else G.opstring(rng, typ, pool)
        if rng.rand() < 0.1:      # equal but a distinct object
            B = G.make(list(A.orbital_operators), list(A.orbital_labels), typ)
        PA, PB = O.os_poly(A), O.os_poly(B)
        for name, ref in OPS:
            res = getattr(qy, name)(A, B)
            ctx.check(isinstance(res, tuple) and len(res) == 2, 'shape', lambda: '{}({}, {}) = {!r}'.format(name, A, B, res))
            P, c = _res_poly(res)
            want = O.pclean(ref(PA, PB))
            ctx.check(np.isfinite(complex(c)), 'nan', 'non-finite coefficient')
            ctx.check(O.pdiff(P, want) < 1e-9, name + '-value',
                      lambda: '{}({}, {}) = {} [{}], expected {}'.format(name, A, B, res[0], res[1], want))
            if not want:
                ctx.check(abs(complex(c)) < 1e-12, name + '-zero', lambda: '{}({}, {}) should vanish, got {}'.format(name, A, B, c))
            else:
                ctx.check(res[1] is not None and res[1].op_type == typ, name + '-type', 'wrong or missing string')
                labs = [int(l) for l in res[1].orbital_labels]
                ctx.check(labs == sorted(set(labs)), name + '-labels', lambda: 'labels not sorted: {}'.format(labs))
                if name == 'commutator':
                    ctx.count('noncommuting')
                if name == 'anticommutator':
                    ctx.count('anticommutator-nonzero')
        if len(A.orbital_labels) and len(B.orbital_labels):
            ctx.seen(G.key_of(A), G.key_of(B))
    ctx.sample('[{}] x [{}] -> {} * [{}]'.format(A, B, res[0], res[1]))


def operators(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    pool = G.label_pool(rng, rng.randint(1, 7))
    cplx = rng.rand() < 0.4
    A = G.operator(rng, typ, pool, rng.randint(1, 8), cplx)
    B = G.operator(rng, typ, pool, rng.randint(1, 8), cplx)
    if rng.rand() < 0.1:
        B = A
    if rng.rand() < 0.08:
        B = qy.Operator([], [], typ)
    scale = 10.0 ** rng.randint(-2, 4) if rng.rand() < 0.3 else 1.0
    A = A * scale
    PA, PB = O.op_poly(A), O.op_poly(B)
    for name, ref in OPS:
        C = getattr(qy, name)(A, B)
        want = ref(PA, PB)
        ctx.check(isinstance(C, qy.Operator) and C.op_type == typ, name + '-type', 'bad result type')
        ctx.check(O.pdiff(O.op_poly(C), want) < 1e-9 * max(1.0, scale), name + '-operator-value',
                  lambda: '{}({}, {}) = {}'.format(name, G.desc(A), G.desc(B), G.desc(C)))
        strs = [str(s) for _, s in C]
        ctx.check(len(strs) == len(set(strs)), name + '-duplicates', 'repeated strings in a result')
    # algebraic laws on the results themselves
    C1, C2 = qy.commutator(A, B), qy.commutator(B, A)
    ctx.check(O.pmax(O.padd(O.op_poly(C1), O.op_poly(C2))) < 1e-9 * max(1, scale), 'antisymmetry', '[A,B] != -[B,A]')
    D = G.operator(rng, typ, pool, rng.randint(1, 5), cplx)
    J = (qy.commutator(A, qy.commutator(B, D)) + qy.commutator(B, qy.commutator(D, A)) + qy.commutator(D, qy.commutator(A, B)))
    ctx.check(O.pmax(O.op_poly(J)) < 1e-7 * max(1.0, scale), 'jacobi', 'Jacobi identity fails')
    L = qy.product(qy.product(A, B), D)
    R = qy.product(A, qy.product(B, D))
    ctx.check(O.pdiff(O.op_poly(L), O.op_poly(R)) < 1e-7 * max(1.0, scale), 'associativity', '(AB)D != A(BD)')
    ctx.seen(G.desc(A), G.desc(B))
    ctx.sample('{} , {}'.format(G.desc(A), G.desc(B)))


def magnitudes(ctx, rng, idx):
    """Coefficients of very different magnitude: the small terms of a result are as exact as the large ones."""
    typ = ('Pauli', 'Majorana')[idx % 2]
    pool = G.label_pool(rng, rng.randint(1, 6))
    cplx = rng.rand() < 0.4

    def graded(op, lo):
        return qy.Operator([complex(c) * 10.0 ** rng.randint(lo, 1) if cplx else c * 10.0 ** rng.randint(lo, 1) for c, _ in op], [s for _, s in op], typ)
    A = graded(G.operator(rng, typ, pool, rng.randint(1, 7), cplx), -7)
    B = graded(G.operator(rng, typ, pool, rng.randint(1, 7), cplx), -6)
    if rng.rand() < 0.3:
        A = A * 10.0 ** rng.randint(-5, 5)
    PA, PB = O.op_poly(A), O.op_poly(B)
    unit = O.pmax(PA) * O.pmax(PB)
    for name, ref in OPS:
        C = getattr(qy, name)(A, B)
        want = ref(PA, PB)
        ctx.check(O.pdiff(O.op_poly(C), want) < 1e-13 * unit + 1e-15, name + '-small-terms',
                  lambda: '{}({}, {}) = {}'.format(name, [(c, str(s)) for c, s in A], [(c, str(s)) for c, s in B], [(c, str(s)) for c, s in C]))
        small = [v for v in want.values() if 1e-14 < abs(v) < 1e-8]
        ctx.count('small-terms', len(small))
    ctx.seen(G.desc(A), G.desc(B))


def long_strings(ctx, rng, idx):
    """Long strings and operators with many terms, on many orbitals."""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(9, 80))
    pool = sorted(int(x) for x in rng.choice(3 * n, n, replace=False)) if rng.rand() < 0.5 else list(range(n))
    for _ in range(8):
        A = G.opstring(rng, typ, pool, k=int(rng.randint(1, n + 1)))
        k = int(rng.randint(0, 3))
        if k == 0:              # differs from A in a few places only
            ops, labs = [str(o) for o in A.orbital_operators], [int(l) for l in A.orbital_labels]
            for i in rng.randint(0, len(ops), size=int(rng.randint(1, 4))):
                ops[i] = (O.PAULI if typ == 'Pauli' else O.MAJ)[rng.randint(3)]
            keep = rng.rand(len(ops)) < 0.9
            B = G.make([o for o, q in zip(ops, keep) if q], [l for l, q in zip(labs, keep) if q], typ)
        else:
            B = G.opstring(rng, typ, pool, k=int(rng.randint(1, n + 1)) if k == 1 else int(rng.randint(1, 4)))
        PA, PB = O.os_poly(A), O.os_poly(B)
        for name, ref in OPS:
            res = getattr(qy, name)(A, B)
            P, c = _res_poly(res)
            ctx.check(O.pdiff(P, O.pclean(ref(PA, PB))) < 1e-9, name + '-value', lambda: '{}({}, {}) = {} [{}]'.format(name, A, B, res[0], res[1]))
        ctx.count('long-strings', int(max(len(A.orbital_labels), len(B.orbital_labels)) > 12))
        ctx.seen(G.key_of(A), G.key_of(B))
    A = G.operator(rng, typ, pool, n=int(rng.randint(8, 41)), max_k=int(rng.randint(1, 7)))
    B = G.operator(rng, typ, pool[:12], n=int(rng.randint(8, 31)), max_k=int(rng.randint(1, 5)))
    PA, PB = O.op_poly(A), O.op_poly(B)
    for name, ref in OPS:
        C = getattr(qy, name)(A, B)
        ctx.check(O.pdiff(O.op_poly(C), ref(PA, PB)) < 1e-9, name + '-operator-value', lambda: '{} of {} and {} terms: {} , {}'.format(name, len(A), len(B), G.desc(A), G.desc(B)))
        strs = [G.key_of(s) for _, s in C]
        ctx.check(len(strs) == len(set(strs)), name + '-duplicates', 'repeated strings in a result')
    ctx.sample('{} terms x {} terms on {} orbitals'.format(len(A), len(B), n))


def relabelled(ctx, rng, idx):
    """The algebra knows labels only by their order: an increasing relabelling (to very large labels too) commutes with it."""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(1, 9))
    top = int(rng.choice([300, 40000, 70000, 2 ** 33, 2 ** 60]))
    image = sorted(int(x) for x in set(int(top * rng.rand()) + int(rng.randint(3)) for _ in range(n)))
    n = len(image)
    if rng.rand() < 0.5:
        image = [image[0] + k for k in range(n)]            # neighbours, far from zero
    move = lambda s: G.make([str(o) for o in s.orbital_operators], [image[int(l)] for l in s.orbital_labels], typ)
    mvop = lambda o: qy.Operator(list(o.coeffs), [move(s) for _, s in o], typ)
    for _ in range(6):
        A, B = G.opstring(rng, typ, list(range(n))), G.opstring(rng, typ, list(range(n)))
        for name, ref in OPS:
            c, s = getattr(qy, name)(move(A), move(B))
            want = O.pclean(ref(O.os_poly(A), O.os_poly(B)))
            if not want:
                ctx.check(abs(complex(c)) < 1e-12, name + '-zero', lambda: '{}({}, {}) = {} {}'.format(name, move(A), move(B), c, s))
                continue
            back = dict(zip(image, range(n)))
            ctx.check(s is not None and all(int(l) in back for l in s.orbital_labels), name + '-relabelled', lambda: '{}({}, {}) = {} {}'.format(name, move(A), move(B), c, s))
            P = O.pscale(O.os_poly(G.make([str(o) for o in s.orbital_operators], [back[int(l)] for l in s.orbital_labels], typ)), complex(c))
            ctx.check(O.pdiff(P, want) < 1e-9, name + '-relabelled', lambda: '{}({}, {}) = {} {}'.format(name, move(A), move(B), c, s))
    A, B = G.operator(rng, typ, list(range(n))), G.operator(rng, typ, list(range(n)))
    for name, _ in OPS:
        X, Y = mvop(getattr(qy, name)(A, B)), getattr(qy, name)(mvop(A), mvop(B))
        d = {G.key_of(s): complex(c) for c, s in X}
        e = {G.key_of(s): complex(c) for c, s in Y}
        ctx.check(all(abs(d.get(k, 0) - e.get(k, 0)) < 1e-9 for k in set(d) | set(e)), name + '-relabelled-operator', lambda: '{} {} with labels {}'.format(G.desc(A), G.desc(B), image))
    ctx.count('labels-beyond-16-bits', int(max(image) > 65536))
    ctx.seen(G.desc(A), G.desc(B), image)


def graded_terms(ctx, rng, idx):
    """Operators whose terms differ by up to twelve orders of magnitude, products in distinct strings: every term is accurate by itself."""
    typ = ('Pauli', 'Majorana')[idx % 2]
    k = int(rng.randint(2, 5))
    A = [G.opstring(rng, typ, [10 * i, 10 * i + 1], min_k=1) for i in range(k)]
    B = [G.opstring(rng, typ, [10 * i + (0 if rng.rand() < 0.6 else 3), 10 * i + 4], min_k=1) for i in range(k)]
    ca = [complex(G.coeff(rng, rng.rand() < 0.3)) * 10.0 ** rng.randint(-7, 7) for _ in A]
    cb = [complex(G.coeff(rng, rng.rand() < 0.3)) * 10.0 ** rng.randint(-7, 7) for _ in B]
    opA, opB = qy.Operator(ca, A, typ), qy.Operator(cb, B, typ)
    for name, ref in OPS:
        want, size = {}, {}
        for a, x in zip(ca, A):
            for b, y in zip(cb, B):
                for key, v in ref(O.os_poly(x), O.os_poly(y)).items():
                    want[key] = want.get(key, 0) + a * b * v
                    size[key] = size.get(key, 0) + abs(a * b * v)
        got = O.op_poly(getattr(qy, name)(opA, opB))
        for key in set(want) | set(got):
            w = want.get(key, 0)
            s = size.get(key, 0)
            ctx.check(abs(got.get(key, 0) - w) <= 1e-9 * s + 1e-15, name + '-term', lambda: '{} of {} and {}: a term {} should be {}'.format(
                name, [(c, str(t)) for c, t in opA], [(c, str(t)) for c, t in opB], got.get(key, 0), w))
        sz = [abs(v) for v in want.values() if abs(v) > 1e-14]
        ctx.count('graded-products', int(len(sz) > 1 and max(sz) > 1e12 * min(sz)))
    ctx.seen(G.desc(opA), G.desc(opB))


def exhaustive(ctx, rng, idx):
    """All pairs of strings on two (or three, thorough) orbitals."""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = 2 if ctx.tier == 'quick' else 3
    labsets = [[0, 1, 2], [1, 2, 3], [3, 7, 50], [9, 10, 100]]
    labels = labsets[(idx // 2) % 4][:n]
    import itertools
    names = ('',) + (O.PAULI if typ == 'Pauli' else O.MAJ)
    strs = []
    for ops in itertools.product(names, repeat=n):
        o = [x for x in ops if x]
        l = [lab for x, lab in zip(ops, labels) if x]
        strs.append(G.make(o, l, typ))
    polys = [O.os_poly(s) for s in strs]
    for A, PA in zip(strs, polys):
        for B, PB in zip(strs, polys):
            for name, ref in OPS:
                P, c = _res_poly(getattr(qy, name)(A, B))
                ctx.check(O.pdiff(P, ref(PA, PB)) < 1e-9, name + '-value', lambda: '{}({}, {})'.format(name, A, B))
            ctx.seen(G.key_of(A), G.key_of(B))
    ctx.count('exhaustive-tables')


def rejected(ctx, rng, idx):
    """The algebra is defined for matching Pauli/Majorana operands only."""
    P = qy.Operator([1.0], [qy.opstring('X 1')])
    Mj = qy.Operator([1.0], [qy.opstring('A 1')])
    F = qy.opstring('CDag 1 C 2')
    for name, _ in OPS:
        f = getattr(qy, name)
        ctx.raises(Exception, name + '-mixed-types', f, P, Mj)
        ctx.raises(Exception, name + '-fermion', f, F, F)
        ctx.raises(Exception, name + '-mixed-objects', f, P, qy.opstring('X 1'))


def observed(ctx, rng, idx):
    """Higher-level qosy code runs with the algebra monitored at its call boundary."""
    with M.monitored(ctx, ['commutator', 'anticommutator', 'product']):
        M.highlevel_workload(rng, idx)


FAMILIES = [
    Family('strings', strings, 400, 6000, require=100),
    Family('operators', operators, 400, 6000, require=100),
    Family('magnitudes', magnitudes, 300, 6000, require=100),
    Family('graded', graded_terms, 120, 3000, require=50),
    Family('relabelled', relabelled, 120, 3000, require=60),
    Family('long', long_strings, 60, 1500, require=30),
    Family('exhaustive', exhaustive, 8, 8, require=4),
    Family('rejected', rejected, 1, 1),
    Family('observed', observed, 24, 200, require=8),
]
REQUIRED_COUNTERS = ['graded-products', 'labels-beyond-16-bits', 'long-strings', 'noncommuting', 'small-terms', 'anticommutator-nonzero', 'monitor:commutator', 'monitor:product']
