"""C03  conversions between Pauli, Majorana and Fermion form denote the same operator."""
import warnings
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import monitors as M

PROP = 'C03'
RULE = ('A case converts strings/operators between the three representations (labels contiguous, gapped, up to 130; '
        'Fermion strings of all three documented kinds incl. shared labels and either order of annihilators) and '
        'compares with the Jordan-Wigner reference polynomial; non-trivial = non-identity input.')
ASSUMPTIONS = ['Jordan-Wigner convention and a,b,d <-> c relations as documented',
               'Fermion strings are in normal order (creators first, labels of creators ascending)']
TYPES = ('Pauli', 'Majorana', 'Fermion')


def canon_fermion(s):
    ops = [str(o) for o in s.orbital_operators]
    labs = [int(l) for l in s.orbital_labels]
    m = ops.count('CDag')
    if ops != ['CDag'] * m + ['C'] * (len(ops) - m):
        return False
    cd, c = labs[:m], labs[m:]
    if cd != sorted(set(cd)) or len(set(c)) != len(c):
        return False
    return c == sorted(c) or c == sorted(c)[::-1]


def compare(ctx, src, to, inc, res, P):
    what = 'convert-{}'.format(to)
    ctx.check(isinstance(res, qy.Operator) and res.op_type == to, what + '-type', lambda: 'type {}'.format(getattr(res, 'op_type', None)))
    Q = O.op_poly(res)
    tol = 1e-9 * max(1.0, O.pmax(P))
    if inc:
        ctx.check(O.pdiff(P, Q) < tol, what + '-with-identity',
                  lambda: 'convert({}, {}, include_identity) = {}: differs'.format(G.desc(src), to, G.desc(res)))
    else:
        ctx.check(O.pdiff(O.pdrop_identity(P), O.pdrop_identity(Q)) < tol, what + '-value',
                  lambda: 'convert({}, {}) = {}: differs'.format(G.desc(src), to, G.desc(res)))
    seen = set()
    for c, s in res:
        k = G.key_of(s)
        ctx.check(k not in seen, what + '-duplicate', lambda: 'repeated string {}'.format(s))
        seen.add(k)
        ctx.check(s.op_type == to, what + '-string-type', lambda: 'string {} has type {}'.format(s, s.op_type))
        if to == 'Fermion':
            ctx.check(canon_fermion(s), what + '-canonical', lambda: 'not normal ordered: {}'.format(s))
        else:
            l = [int(x) for x in s.orbital_labels]
            ctx.check(l == sorted(set(l)), what + '-labels', lambda: 'labels {}'.format(l))
    return Q


def pick_pool(rng, typ, to):
    n = rng.randint(1, 6)
    if typ == 'Pauli':       # Pauli -> Fermion is documented to be exponential in the largest label
        return sorted(int(x) for x in rng.choice(8, n, replace=False))
    return G.label_pool(rng, n)


def rand_string(rng, typ, pool, min_k=0):
    if typ == 'Fermion':
        s = G.fermion_string(rng, pool, max_k=3)
        if rng.rand() < 0.4:          # annihilators in ascending order, as cluster_basis makes them
            ops = [str(o) for o in s.orbital_operators]
            labs = [int(l) for l in s.orbital_labels]
            m = ops.count('CDag')
            if labs[:m] != labs[m:][::-1] and sorted(labs[m:]) != labs[:m]:
                s = G.make(ops, labs[:m] + sorted(labs[m:]), 'Fermion', s.prefactor)
        return s
    return G.opstring(rng, typ, pool, min_k=min_k)


def strings(ctx, rng, idx):
    typ = TYPES[idx % 3]
    pool = pick_pool(rng, typ, None)
    for _ in range(8):
        s = rand_string(rng, typ, pool, min_k=1)
        P = O.os_poly(s)
        for to in TYPES:
            for inc in (False, True):
                r = qy.convert(s, to, inc) if rng.rand() < 0.5 else qy.convert(s, to, include_identity=inc)
                Q = compare(ctx, s, to, inc, r, P)
                if not inc and to != typ and not (typ == 'Fermion' and (0, 0) not in P):
                    if 'Fermion' in (typ, to) and not (to == 'Pauli' and typ == 'Majorana'):
                        ids = [1 for c, x in r if len(x.orbital_labels) == 0 and abs(c) > 1e-12]
                        ctx.check(not ids, 'identity-by-default', lambda: 'identity term in convert({}, {})'.format(s, to))
                if inc and to != typ:
                    back = qy.convert(r, typ, include_identity=True)
                    ctx.check(O.pdiff(O.op_poly(back), P) < 1e-8, 'round-trip', lambda: '{} -> {} -> {}'.format(s, G.desc(r), G.desc(back)))
                    left = [(c, x) for c, x in back if abs(c) > 1e-10]
                    ctx.check(len(left) == 1 or typ == 'Fermion', 'round-trip-form', 'round trip is not the string')
        if typ == 'Fermion':
            ctx.count('fermion-kind:' + ('n' if str(s.prefactor) == '1.0' and abs(P.get((0, 0), 0)) > 0 else 'offdiag'))
        ctx.seen(G.key_of(s))
    ctx.sample('{} -> {}'.format(s, G.desc(r)))


def operators(ctx, rng, idx):
    typ = TYPES[idx % 3]
    pool = pick_pool(rng, typ, None)[:4]
    cplx = rng.rand() < 0.3
    strs, keys = [], set()
    for _ in range(rng.randint(1, 6)):
        s = rand_string(rng, typ, pool)
        # two spellings of one Fermion operator are one key
        k = (G.key_of(s)[:2], tuple(sorted(G.key_of(s)[2])))
        if k in keys:
            continue
        keys.add(k)
        strs.append(s)
    op = qy.Operator([G.coeff(rng, cplx) for _ in strs], strs, op_type=typ)
    P = O.op_poly(op)
    before = [(complex(c), str(s)) for c, s in op]
    for to in TYPES:
        for inc in (False, True):
            r = qy.convert(op, to, include_identity=inc)
            compare(ctx, op, to, inc, r, P)
            if not cplx:
                ctx.check(all(abs(np.imag(c)) < 1e-9 for c, _ in r), 'hermitian-coefficients', 'complex coefficients for a Hermitian operator')
    ctx.check(before == [(complex(c), str(s)) for c, s in op], 'input-mutated', 'convert changed its argument')
    ctx.seen(G.desc(op))
    ctx.sample('{} -> {}'.format(G.desc(op), G.desc(r)[:200]))


def identities(ctx, rng, idx):
    for a in TYPES:
        I = qy.opstring('I', a)
        X = {'Pauli': 'Z 3', 'Majorana': 'D 3', 'Fermion': 'CDag 3 C 3'}[a]
        mix = qy.Operator([2.0, 0.5], [I, qy.opstring(X)])
        for b in TYPES:
            r = qy.convert(I, b, include_identity=True)
            ctx.check(O.pdiff(O.op_poly(r), O.ONE) < 1e-12, 'identity', lambda: 'identity {} -> {}'.format(a, b))
            r = qy.convert(I, b)
            ctx.check(O.pmax(O.pdrop_identity(O.op_poly(r))) < 1e-12 and r.op_type == b, 'identity-default', '{} -> {}'.format(a, b))
            for inc in (True, False):
                compare(ctx, mix, b, inc, qy.convert(mix, b, include_identity=inc), O.op_poly(mix))
            z = qy.convert(qy.Operator([], [], a), b)
            ctx.check(z.op_type == b and O.pmax(O.op_poly(z)) == 0.0, 'zero-operator', 'zero operator converted to something else')
    ctx.seen('identities')


def matrices(ctx, rng, idx):
    n = rng.randint(1, 4)
    a, b = [(x, y) for x in TYPES for y in TYPES if x != y][idx % 6]
    labels = list(range(n)) if 'Pauli' in (a, b) else G.label_pool(rng, n)
    A = qy.cluster_basis(n, list(labels), a)
    B = qy.cluster_basis(n, list(labels), b)
    if rng.rand() < 0.5:
        perm = rng.permutation(len(A))
        A = qy.Basis([A[int(i)] for i in perm])
    full = True
    if rng.rand() < 0.4 and len(A) > 2:
        A = qy.Basis([A[i] for i in range(len(A) // 2)])
        full = False
    Mx = qy.conversion_matrix(A, B)
    D = np.asarray(Mx.toarray())
    ctx.check(D.shape == (len(B), len(A)), 'matrix-shape', lambda: str(D.shape))
    BP = [O.os_poly(s) for s in B]
    for j, s in enumerate(A):
        got = O.pdrop_identity(O.lincomb(D[:, j], BP))
        ctx.check(O.pdiff(got, O.pdrop_identity(O.os_poly(s))) < 1e-9, 'matrix-column', lambda: 'column of {}'.format(s))
    if full:
        Inv = np.asarray(qy.conversion_matrix(B, A).toarray())
        ctx.check(np.allclose(D @ Inv, np.eye(len(B)), atol=1e-8), 'matrix-inverse', 'reverse matrix is not the inverse')
        # coefficient vectors transform with the matrix
        v = rng.randn(len(A))
        opA = qy.Operator(v, list(A.op_strings) if hasattr(A, 'op_strings') else list(A))
        w = D @ v
        ctx.check(O.pdiff(O.pdrop_identity(O.lincomb(w, BP)), O.pdrop_identity(O.op_poly(opA))) < 1e-8, 'matrix-vector', 'g\' != B g')
    # an empty basis spans nothing: a matrix without columns
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        E = qy.conversion_matrix(qy.Basis(), B)
        ctx.check(E.shape == (len(B), 0), 'matrix-empty', lambda: str(E.shape))
        E = qy.conversion_matrix(qy.Basis(), qy.Basis())
        ctx.check(E.shape == (0, 0), 'matrix-empty', lambda: str(E.shape))
        # bases of different sizes: the extra strings get empty rows
        if len(B) > 1:
            keep = sorted(rng.choice(len(A), int(rng.randint(1, len(A) + 1)), replace=False))
            E = np.asarray(qy.conversion_matrix(qy.Basis([A[int(i)] for i in keep]), B).toarray())
            ctx.check(E.shape == (len(B), len(keep)) and np.allclose(E, D[:, keep], atol=1e-12), 'matrix-columns', lambda: 'columns {} differ'.format(keep))
            ctx.count('rectangular', int(len(keep) < len(A)))
            # a target that cannot hold the result is refused
            use = [i for i in range(len(B)) if np.abs(E[i]).max() > 1e-12]
            if use:
                gone = int(rng.choice(use))
                rest = [i for i in range(len(B)) if i != gone and (i in use or rng.rand() < 0.5)]
                small = qy.Basis([B[int(i)] for i in rng.permutation(rest)]) if rest else qy.Basis()
                ctx.raises(Exception, 'matrix-missing-string', qy.conversion_matrix, qy.Basis([A[int(i)] for i in keep]), small)
                ctx.count('missing-refused')
    ctx.seen(a, b, [str(s) for s in A][:6], labels)
    ctx.sample('conversion matrix {} -> {} on {}'.format(a, b, labels))


def wide(ctx, rng, idx):
    """Many orbital operators in one string; very large labels."""
    k = rng.randint(5, 9)
    pool = sorted(int(x) for x in rng.choice(200, k, replace=False))
    s = G.opstring(rng, 'Majorana', pool, k)
    compare(ctx, s, 'Pauli', True, qy.convert(s, 'Pauli'), O.os_poly(s))
    r = qy.convert(s, 'Fermion', include_identity=True)
    compare(ctx, s, 'Fermion', True, r, O.os_poly(s))
    p = G.opstring(rng, 'Pauli', pool, k)
    compare(ctx, p, 'Majorana', True, qy.convert(p, 'Majorana'), O.os_poly(p))
    p = G.opstring(rng, 'Pauli', list(range(rng.randint(1, 9))), None)
    if len(p.orbital_labels):
        compare(ctx, p, 'Fermion', True, qy.convert(p, 'Fermion', include_identity=True), O.os_poly(p))
    f = G.fermion_string(rng, pool, max_k=4)
    if idx % 2:
        # all labels different: the conversion spreads over 2^(2m) strings with small coefficients
        lab = [int(x) for x in rng.choice(200, 8, replace=False)]
        f = G.make(['CDag'] * 4 + ['C'] * 4, sorted(lab[:4]) + sorted(lab[4:])[::-1], 'Fermion', [1.0, 1j][rng.randint(2)])
        ctx.count('spread-strings')
    compare(ctx, f, 'Majorana', True, qy.convert(f, 'Majorana', True), O.os_poly(f))
    # the same strings through a conversion matrix between bases that are just large enough
    for src, typ in ((s, 'Fermion'), (f, 'Majorana'), (s, 'Pauli'), (f, 'Pauli')):
        if typ == 'Pauli' and max(src.orbital_labels) > 40:
            continue
        B = qy.Basis([t for _, t in qy.convert(src, typ) if len(t.orbital_labels)])
        if not len(B):
            continue
        B = qy.Basis([B[int(i)] for i in rng.permutation(len(B))])
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            D = np.asarray(qy.conversion_matrix(qy.Basis([src]), B).toarray())
        ctx.check(D.shape == (len(B), 1), 'wide-matrix-shape', str(D.shape))
        ctx.check(O.pdiff(O.pdrop_identity(O.lincomb(D[:, 0], [O.os_poly(t) for t in B])), O.pdrop_identity(O.os_poly(src))) < 1e-9,
                  'wide-matrix', lambda: '{} -> {}'.format(src, typ))
        ctx.count('wide-matrices')
    ctx.seen(G.key_of(s), G.key_of(f))


def magnitudes(ctx, rng, idx):
    """Coefficients of very different sizes: a conversion is linear, so it keeps them all."""
    typ = TYPES[idx % 3]
    pool = pick_pool(rng, typ, None)[:4]
    scale = 10.0 ** -rng.randint(1, 9)
    strs, keys = [], set()
    for _ in range(rng.randint(1, 4)):
        s = rand_string(rng, typ, pool, min_k=1)
        k = (G.key_of(s)[:2], tuple(sorted(G.key_of(s)[2])))
        if k not in keys:
            keys.add(k)
            strs.append(s)
    big = qy.Operator([G.coeff(rng) for _ in strs], strs, op_type=typ)
    small = qy.Operator([float(c) * scale for c in big.coeffs], strs, op_type=typ)
    for to in TYPES:
        P = O.op_poly(qy.convert(small, to, include_identity=True))
        want = O.op_poly(small)
        ctx.check(O.pdiff(P, want) < 1e-6 * O.pmax(want), 'small-coefficients',
                  lambda: 'convert({}, {}) loses terms'.format(G.desc(small), to))
    # one small and one large term side by side
    if len(strs) > 1:
        cs = [1.0] + [scale] * (len(strs) - 1)
        mix = qy.Operator(cs, strs, op_type=typ)
        for to in TYPES:
            R = O.op_poly(qy.convert(mix, to, include_identity=True))
            D = O.pdiff(R, O.op_poly(mix))
            ctx.check(D < 1e-4 * scale + 1e-13, 'mixed-magnitudes', lambda: 'convert({}, {}): off by {}'.format(G.desc(mix), to, D))
    # the phase of a coefficient is kept, however close to a real or imaginary number it is
    cs = [complex(c) * (1 + 1j * 10.0 ** -rng.randint(4, 13)) * [1, 1j][rng.randint(2)] * 10.0 ** rng.randint(-2, 5) for c in big.coeffs]
    for c, s in zip(cs, strs):
        for to in TYPES:
            if c == 0 or s.op_type == to:
                continue
            unit = O.op_poly(qy.convert(qy.Operator([1.0], [s], op_type=typ), to, include_identity=True))
            R = O.op_poly(qy.convert(qy.Operator([c], [s], op_type=typ), to, include_identity=True))
            for key in set(unit) | set(R):
                z = c * unit.get(key, 0)
                ctx.check(abs(R.get(key, 0) - z) < 1e-14 * abs(c), 'phase', lambda: 'convert({} [{}], {}): {} expected {}'.format(c, s, to, R.get(key, 0), z))
            ctx.count('phases')
    ctx.count('scale:1e-{}'.format(int(round(-np.log10(scale)))))
    ctx.seen(G.desc(small))


FAMILIES = [
    Family('strings', strings, 240, 4000, require=60),
    Family('operators', operators, 240, 4000, require=60),
    Family('magnitudes', magnitudes, 90, 1500, require=30),
    Family('identities', identities, 1, 1),
    Family('matrices', matrices, 48, 400, require=12),
    Family('wide', wide, 48, 400, require=12),
]
REQUIRED_COUNTERS = ['phases', 'missing-refused', 'rectangular', 'wide-matrices', 'spread-strings', 'fermion-kind:n', 'fermion-kind:offdiag']
