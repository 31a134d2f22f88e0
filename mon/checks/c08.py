"""C08  transformations act as (anti)unitary automorphisms with their documented action."""
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import transf as T

PROP = 'C08'
RULE = ('A case draws a transformation (permutation, space group, time reversal spinless/spinful, particle-hole, spin '
        'flip/parity, user rule, products and powers of these) and random strings/operators; the returned operator is '
        'compared with the image computed from the documented single-orbital action in an independent algebra, and '
        'products of operators are compared with products of images. Non-trivial = the image differs from the input.')
ASSUMPTIONS = ['operators have real coefficients (documented)', 'permutations are bijections of 0..n-1 and strings use those labels']


def action(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n, sp = T.draw(rng, typ, nmax=6)
    nontrivial = False
    for _ in range(8):
        s = G.opstring(rng, typ, list(range(n)))
        before = G.key_of(s)
        got = sp.transform.apply(s)
        ctx.check(isinstance(got, qy.Operator) and got.op_type == typ, 'type', 'result is not an Operator of the same type')
        P, want = O.op_poly(got), sp.image_os(s)
        ctx.check(O.pdiff(P, want) < 1e-9, 'string-image', lambda: '{}: {} -> {}'.format(sp.name, s, G.desc(got)))
        ctx.check(G.key_of(s) == before, 'mutated', 'the input string changed')
        ctx.check(abs(O.pnorm(P) - 1) < 1e-9 and O.pdiff(P, O.pdag(P)) < 1e-9, 'norm', 'image is not a unit-norm Hermitian operator')
        nontrivial |= O.pdiff(P, O.os_poly(s)) > 1e-9
    A = G.operator(rng, typ, list(range(n)), None, False)
    B = G.operator(rng, typ, list(range(n)), None, False)
    TA, TB = sp.transform.apply(A), sp.transform.apply(B)
    for X, TX in ((A, TA), (B, TB)):
        ctx.check(O.pdiff(O.op_poly(TX), sp.image_op(X)) < 1e-8, 'operator-image', lambda: '{}: {} -> {}'.format(sp.name, G.desc(X), G.desc(TX)))
    # homomorphism: U (i[A,B]) U^-1 = +-i [UAU^-1, UBU^-1];  {A,B} likewise
    C = (1j * qy.commutator(A, B)).remove_zeros(1e-12)
    D = (qy.anticommutator(A, B)).remove_zeros(1e-12)
    if len(C) and max(abs(np.imag(c)) for c, _ in C) < 1e-12:
        lhs = O.op_poly(sp.transform.apply(C))
        rhs = O.pscale(O.pcomm(O.op_poly(TA), O.op_poly(TB)), -1j if sp.anti else 1j)
        ctx.check(O.pdiff(lhs, rhs) < 1e-7, 'commutator-homomorphism', lambda: '{}: A={} B={}'.format(sp.name, G.desc(A), G.desc(B)))
        ctx.count('homomorphism')
    if len(D):
        lhs = O.op_poly(sp.transform.apply(D))
        ctx.check(O.pdiff(lhs, O.panti(O.op_poly(TA), O.op_poly(TB))) < 1e-7, 'anticommutator-homomorphism', lambda: '{}: A={} B={}'.format(sp.name, G.desc(A), G.desc(B)))
    zero = sp.transform.apply(qy.Operator(op_type=typ))
    ctx.check(O.pnorm(O.op_poly(zero)) == 0, 'zero', 'the zero operator is not mapped to zero')
    if nontrivial:
        ctx.seen(typ, sp.name, G.desc(A))
    ctx.count('kind:' + sp.name.split('(')[0].split('[')[0].split(' on')[0][:12].strip() if '*' not in sp.name else 'kind:composite')
    ctx.count('antiunitary' if sp.anti else 'unitary')
    ctx.sample('{} on {}: {} -> {}'.format(sp.name, typ, G.desc(A), G.desc(TA)))


def compose(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    n, a = T.draw(rng, typ, nmax=5, compose=False)
    _, b = T.draw(rng, typ, n=n, compose=False)
    _, c = T.draw(rng, typ, n=n, compose=False)
    ta, tb, tc = a.transform, b.transform, c.transform
    ab, abc1, abc2 = ta * tb, (ta * tb) * tc, ta * (tb * tc)
    for _ in range(4):
        A = G.operator(rng, typ, list(range(n)), None, False)
        P = O.op_poly(ab.apply(A))
        Q = O.op_poly(ta.apply(tb.apply(A)))
        ctx.check(O.pdiff(P, Q) < 1e-8, 'product-order', lambda: '({}) * ({}) on {}'.format(a.name, b.name, G.desc(A)))
        s1 = b.then(a, None, '')
        ctx.check(O.pdiff(P, s1.image_op(A)) < 1e-8, 'product-image', lambda: '({}) * ({}) on {}'.format(a.name, b.name, G.desc(A)))
        R1, R2 = O.op_poly(abc1.apply(A)), O.op_poly(abc2.apply(A))
        ctx.check(O.pdiff(R1, R2) < 1e-8, 'associative', lambda: '{} {} {}'.format(a.name, b.name, c.name))
        cur = A
        for k in range(5):
            ctx.check(O.pdiff(O.op_poly((ta ** k).apply(A)), O.op_poly(cur)) < 1e-7, 'power', lambda: '({})**{} on {}'.format(a.name, k, G.desc(A)))
            cur = ta.apply(cur).remove_zeros(1e-12)
        if O.pdiff(P, O.op_poly(tb.apply(ta.apply(A)))) > 1e-6:
            ctx.count('noncommuting')
        ctx.seen(typ, a.name, b.name, G.desc(A)[:200])
    ctx.sample('({}) * ({}) * ({})'.format(a.name, b.name, c.name))


def orders(ctx, rng, idx):
    """group relations with their fermionic signs"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n, sps = T.spin_specs(rng)
    A = G.operator(rng, 'Majorana', list(range(n)), None, False)
    par = lambda s: (-1) ** sum(1 for o in s.orbital_operators if str(o) in ('A', 'B'))
    # spinful time reversal squares to fermion parity, flip and parity square to one
    want = {}
    for c, s in A:
        want = O.padd(want, O.os_poly(s), c * par(s))
    T2 = (sps[2].transform ** 2).apply(A)
    ctx.check(O.pdiff(O.op_poly(T2), want) < 1e-9, 'T-squared', lambda: '{} -> {}'.format(G.desc(A), G.desc(T2)))
    for q in (sps[0], sps[1], T.time_reversal(), T.particle_hole(rng)):
        r = (q.transform ** 2).apply(A)
        ctx.check(O.pdiff(O.op_poly(r), O.op_poly(A)) < 1e-9, 'involution', lambda: '{}^2: {} -> {}'.format(q.name, G.desc(A), G.desc(r)))
    # time reversal commutes with particle-hole
    S1, S2 = T.time_reversal().transform, T.particle_hole(rng).transform
    ctx.check(O.pdiff(O.op_poly((S1 * S2).apply(A)), O.op_poly((S2 * S1).apply(A))) < 1e-9, 'chiral', 'T C != C T')
    for bad in (-1, -3):
        ctx.raises(ValueError, 'negative-power', lambda: S1 ** bad)
    ctx.raises(TypeError, 'bad-argument', S1.apply, 3)
    f = qy.opstring('1.0 CDag 1 C 1', 'Fermion') if False else qy.OperatorString(['CDag', 'C'], [1, 1], 'Fermion')
    for q in (S1, S2, qy.label_permutation([1, 0])):
        ctx.raises(ValueError, 'unsupported-type', q.apply, f)
    m = rng.randint(2, 7)
    p = rng.permutation(m)
    k, cur = 1, p.copy()
    while not np.array_equal(cur, np.arange(m)):
        cur, k = p[cur], k + 1
    B = G.operator(rng, typ, list(range(m)), None, False)
    r = (qy.label_permutation(p) ** int(k)).apply(B)
    ctx.check(O.pdiff(O.op_poly(r), O.op_poly(B)) < 1e-9, 'permutation-order', lambda: 'perm {} order {}'.format(p, k))
    ctx.seen(G.desc(A), tuple(p))
    ctx.sample('T^2 on {}; permutation {} of order {}'.format(G.desc(A), p.tolist(), k))


def terms_close(ctx, got, want, what, f):
    """term by term, each coefficient to a relative accuracy"""
    P = O.op_poly(got)
    for k in set(P) | set(want):
        a, b = P.get(k, 0.0), want.get(k, 0.0)
        ctx.check(abs(a - b) <= 1e-9 * abs(b) + 1e-15, what, f)


def wide(ctx, rng, idx):
    """many orbitals, long strings, coefficients over many orders of magnitude"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    n = int(rng.randint(8, 70))
    kind = rng.randint(6 if typ == 'Majorana' else 4)
    if kind <= 1:
        sp = T.permutation(rng, n)
        if rng.rand() < 0.4:        # shifts and reflections of a long chain, from the lattice
            L = qy.lattice.chain(n, periodic=True)
            t = int(rng.randint(-2 * n, 2 * n))
            R = int(rng.choice([1, -1]))
            sp = T.Spec('x -> {}x + {}'.format(R, t), qy.space_group_symmetry(L, np.array([[float(R)]]), np.array([float(t)])),
                        lambda typ, o, l: [(1.0, o, (R * l + t) % n)])
    elif kind == 2:
        sp = T.time_reversal()
    elif kind == 3:
        a, b = T.permutation(rng, n), T.time_reversal()
        sp = a.then(b, b.transform * a.transform, 'T * perm')
    elif kind == 4:
        sp = T.particle_hole(rng)
    else:
        m = (n + 1) // 2
        n = 2 * m
        L = qy.lattice.chain(m, periodic=True, orbital_names=['Up', 'Dn'])
        sp = T.Spec('spinful T', qy.time_reversal(L), lambda typ, o, l: [({'A': 1, 'B': -1, 'D': 1}[o] * (-1 if l % 2 and o != 'D' else 1), o, l ^ 1)],
                    anti=True, types=('Majorana',))
    pool = list(range(n))
    what = lambda: '{} orbitals, {}'.format(n, sp.name)
    for _ in range(4):
        s = G.opstring(rng, typ, pool, int(rng.randint(1, min(n, 16) + 1)))
        got = sp.transform.apply(s)
        terms_close(ctx, got, sp.image_os(s), 'string-image', lambda: '{}: {} -> {}'.format(what(), s, G.desc(got)))
    A = G.operator(rng, typ, pool, int(rng.randint(2, 9)), False, max_k=10, wide=True)
    if rng.rand() < 0.3:
        A = A * 10.0 ** int(rng.randint(3, 10))
    TA = sp.transform.apply(A)
    terms_close(ctx, TA, sp.image_op(A), 'operator-image', lambda: '{}: {} -> {}'.format(what(), G.desc(A), G.desc(TA)))
    k = int(rng.choice([2, 3, 5, 8, 13, 30]))
    want = O.op_poly(A)
    cur = A
    for _ in range(k):
        cur = sp.transform.apply(cur)
    terms_close(ctx, (sp.transform ** k).apply(A), O.op_poly(cur), 'power', lambda: '{} ** {} on {}'.format(what(), k, G.desc(A)))
    ctx.seen(n, sp.name[:60], G.desc(A)[:100])
    ctx.count('wide')
    ctx.sample('{}: {}'.format(what()[:80], G.desc(A)[:120]))


FAMILIES = [
    Family('wide', wide, 60, 1500, require=40),
    Family('action', action, 500, 8000, require=150),
    Family('compose', compose, 120, 2000, require=40),
    Family('orders', orders, 80, 800, require=30),
]
REQUIRED_COUNTERS = ['wide', 'homomorphism', 'antiunitary', 'unitary', 'noncommuting', 'kind:composite', 'kind:spinful T', 'kind:space group', 'kind:spin parity', 'kind:T', 'kind:C']
