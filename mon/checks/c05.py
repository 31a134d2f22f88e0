"""C05  Basis / Operator containers behave like an ordered set / a vector space under any history."""
import numpy as np
import scipy.sparse as ss
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G

PROP = 'C05'
RULE = ('A case is a random history of 25-60 constructor / arithmetic / in-place / query calls on a heap of Bases and '
        'Operators that share strings, lists and Bases; after every call every live object is compared with a plain '
        'dictionary model. Non-trivial = histories with at least one in-place growth and one cross-check of a bystander object.')
ASSUMPTIONS = ['strings passed to a constructor are distinct; coefficients have magnitude between 1e-2 and 1e3']


class M:
    """model of an Operator"""
    def __init__(self, obj, d, typ):
        self.obj, self.d, self.typ = obj, d, typ


def view(op):
    return [(complex(c), G.key_of(s)) for c, s in op]


def check_op(ctx, m, what):
    v = view(m.obj)
    ks = [k for _, k in v]
    ctx.check(len(m.obj) == len(v) == len(m.obj.coeffs), what + '-op-length', lambda: 'len {} vs {} terms vs {} coeffs'.format(len(m.obj), len(v), len(m.obj.coeffs)))
    ctx.check(len(set(ks)) == len(ks), what + '-op-duplicates', lambda: G.desc(m.obj))
    ctx.check(set(ks) == set(m.d), what + '-op-strings', lambda: 'has {} expected {}'.format(sorted(map(str, ks)), sorted(map(str, m.d))))
    for c, k in v:
        ctx.check(abs(c - m.d[k]) <= 1e-10 * max(1.0, abs(m.d[k])), what + '-op-coeff', lambda: '{} has coefficient {} expected {}'.format(k, c, m.d[k]))
    ctx.check(m.obj.op_type == m.typ, what + '-op-type', lambda: str(m.obj.op_type))


def check_basis(ctx, b, keys, strs, what):
    ctx.check([G.key_of(s) for s in b] == keys, what + '-basis-content', lambda: '{} expected {}'.format([str(s) for s in b], keys))
    ctx.check(len(b) == len(keys), what + '-basis-len', 'len')
    for i, k in enumerate(keys):
        s = strs[k]
        ctx.check(b.index(s) == i and G.key_of(b[i]) == k and (s in b), what + '-basis-index', lambda: 'index of {} is {} expected {}'.format(s, b.index(s), i))
    if keys:
        ctx.check(G.key_of(b[-1]) == keys[-1], what + '-basis-negative-index', 'b[-1]')


def universe(rng, typ):
    if typ == 'Fermion':
        pool = G.label_pool(rng, rng.randint(2, 5))
        out = {}
        for _ in range(14):
            s = G.fermion_string(rng, pool, 3)
            out[G.key_of(s)] = s
        return out
    pool = G.label_pool(rng, rng.randint(2, 5))
    return {G.key_of(s): s for s in G.distinct_strings(rng, typ, pool, 14)}


def history(ctx, rng, idx):
    typ = ('Pauli', 'Majorana', 'Fermion')[idx % 3]
    other = ('Majorana', 'Fermion', 'Pauli')[idx % 3]
    strs = universe(rng, typ)
    keys = list(strs)
    bases = []      # [obj, keys]
    ops = []        # M
    held = []
    lists = []      # [list object, keys]: lists handed to constructors must not change
    log = []
    grew = 0

    def fresh(s):
        """an equal but distinct object"""
        return qy.OperatorString(list(s.orbital_operators), list(s.orbital_labels), s.op_type, s.prefactor)

    def pick(n=None):
        n = rng.randint(0, min(8, len(keys)) + 1) if n is None else n
        return [keys[i] for i in rng.choice(len(keys), min(n, len(keys)), replace=False)]

    def new_basis():
        if lists and rng.rand() < 0.4:
            L, ks = lists[rng.randint(len(lists))]
        else:
            ks = pick()
            L = [strs[k] for k in ks]
            lists.append((L, list(ks)))
        b = qy.Basis(L) if (ks or rng.rand() < 0.5) else qy.Basis()
        bases.append([b, list(ks)])
        return 'Basis({})'.format(len(ks))

    def new_op():
        style = rng.randint(4)
        cx = rng.rand() < 0.4
        if style == 0 and bases:
            # The Basis is documented to be shared, so from here on the caller leaves it alone
            # (it works on a copy), and the library must leave it alone too.
            if held and rng.rand() < 0.6:
                b, ks = held[rng.randint(len(held))]
            else:
                j = rng.randint(len(bases))
                b, ks = bases[j]
                bases[j] = [qy.Basis(list(b)), list(ks)]
                held.append([b, list(ks)])
            cs = [G.coeff(rng, cx) for _ in ks]
            o = qy.Operator(np.array(cs, dtype=complex), b, op_type=typ)
        elif style == 1 and lists:
            L, ks = lists[rng.randint(len(lists))]
            cs = [G.coeff(rng, cx) for _ in ks]
            o = qy.Operator(cs, L, op_type=typ)
        elif style == 2:
            ks, cs = [], []
            o = qy.Operator(op_type=typ) if rng.rand() < 0.5 else qy.Operator([], [], op_type=typ)
        else:
            ks = pick(rng.randint(1, 6))
            cs = [G.coeff(rng, cx) for _ in ks]
            arr = np.array(cs)
            o = qy.Operator(arr, [strs[k] for k in ks])
            arr *= 7.0          # the coefficients given are not shared
        ops.append(M(o, dict(zip(ks, cs)), typ))
        return 'Operator({})'.format(len(ks))

    def arith():
        a, b = ops[rng.randint(len(ops))], ops[rng.randint(len(ops))]
        kind = rng.randint(2)
        sign = 1 if kind == 0 else -1
        r = a.obj + b.obj if kind == 0 else a.obj - b.obj
        d = dict(a.d)
        for k, c in b.d.items():
            d[k] = d.get(k, 0.0) + sign * c
        ops.append(M(r, d, typ))
        return '+' if kind == 0 else '-'

    def inplace():
        nonlocal grew
        i = rng.randint(len(ops))
        a, b = ops[i], ops[rng.randint(len(ops))]
        kind = rng.randint(2)
        sign = 1 if kind == 0 else -1
        o = a.obj
        if len(set(b.d) - set(a.d)):
            grew += 1
        if kind == 0:
            o += b.obj
        else:
            o -= b.obj
        d = dict(a.d)
        for k, c in dict(b.d).items():
            d[k] = d.get(k, 0.0) + sign * c
        a.obj, a.d = o, d
        return '+=' if kind == 0 else '-='

    def scale():
        a = ops[rng.randint(len(ops))]
        if rng.rand() < 0.2:
            ops.append(M(-a.obj, {k: -c for k, c in a.d.items()}, typ))
            return 'neg'
        c = [2.0, -0.5, 3, 1j, np.float64(0.25), np.complex128(1 - 1j), 0.0, 1.0, 1, -1.0, 0, np.int64(1), -1][rng.randint(13)]
        r = a.obj * c if rng.rand() < 0.5 else c * a.obj
        ctx.check(isinstance(r, qy.Operator), 'scalar-type', lambda: '{!r} times an Operator is a {}'.format(c, type(r)))
        ops.append(M(r, {k: v * c for k, v in a.d.items()}, typ))
        return 'scale'

    def clean():
        a = ops[rng.randint(len(ops))]
        tol = [None, 1e-12, 0.5][rng.randint(3)]
        if any(abs(abs(c) - (tol or 1e-16)) < 1e-11 or (tol is None and 0 < abs(c) < 1e-9) or (tol == 1e-12 and 0 < abs(c) < 1e-9)
               for c in a.d.values()):
            return 'skip'
        r = a.obj.remove_zeros() if tol is None else a.obj.remove_zeros(tol)
        ops.append(M(r, {k: c for k, c in a.d.items() if abs(c) > (tol or 1e-16)}, typ))
        return 'remove_zeros'

    def norm():
        a = ops[rng.randint(len(ops))]
        v = np.array(list(a.d.values()), dtype=complex)
        if not len(v):
            return 'skip'
        n2, ni = np.linalg.norm(v), np.abs(v).max()
        ctx.check(abs(a.obj.norm() - n2) < 1e-9 * max(1, n2), 'norm', lambda: '{} expected {}'.format(a.obj.norm(), n2))
        ctx.check(abs(a.obj.norm(order=np.inf) - ni) < 1e-9 * max(1, ni), 'norm-inf', lambda: '{}'.format(a.obj.norm(order=np.inf)))
        if n2 > 1e-6 and rng.rand() < 0.5:
            order = [None, np.inf][rng.randint(2)]
            a.obj.normalize(order=order) if order is not None else a.obj.normalize()
            s = n2 if order is None else ni
            a.d = {k: c / s for k, c in a.d.items()}
            ctx.check(abs(a.obj.norm(order=order) - 1) < 1e-9, 'normalize', 'norm after normalize')
        return 'norm'

    def vector():
        a = ops[rng.randint(len(ops))]
        extra = [k for k in pick() if k not in a.d]
        ks = list(a.d) + extra
        perm = [ks[i] for i in rng.permutation(len(ks))]
        B = qy.Basis([fresh(strs[k]) for k in perm])
        ref = np.array([a.d.get(k, 0.0) for k in perm], dtype=complex)
        v = a.obj.to_vector(B)
        ctx.check(v.shape == (len(perm),) and np.allclose(v, ref, atol=1e-9), 'to_vector', lambda: '{} expected {}'.format(v, ref))
        if len(perm):
            w = a.obj.to_vector(B, fmt='csc')
            ctx.check(ss.issparse(w) and w.shape == (len(perm), 1) and np.allclose(w.toarray().ravel(), ref, atol=1e-9), 'to_vector-sparse', 'sparse')
        t = qy.Operator(a.obj.coeffs * 10.0 ** rng.uniform(-14, 6, size=len(a.obj)), list(a.obj._basis.op_strings), op_type=a.obj.op_type)
        want = np.zeros(len(perm), dtype=complex)
        for c, s in zip(t.coeffs, t._basis.op_strings):
            want[B.index(s)] = c
        ctx.check(np.array_equal(t.to_vector(B), want) and (not len(perm) or np.array_equal(t.to_vector(B, fmt='csc').toarray().ravel(), want)), 'to_vector-exact',
                  lambda: 'coefficients {}'.format(list(t.coeffs)))
        miss = [k for k in a.d]
        if miss:
            B2 = qy.Basis([strs[k] for k in perm if k != miss[0]])
            ctx.raises(KeyError, 'to_vector-missing', a.obj.to_vector, B2)
            ctx.raises(KeyError, 'to_vector-missing-sparse', a.obj.to_vector, B2, fmt='csc')
        return 'to_vector'

    def equality():
        i, j = rng.randint(len(ops)), rng.randint(len(ops))
        a, b = ops[i], ops[j]
        same = view(a.obj) == view(b.obj)
        ctx.check(bool(a.obj == b.obj) == same, 'op-eq', lambda: '({} == {}) is {}'.format(G.desc(a.obj), G.desc(b.obj), not same))
        v = view(a.obj)
        c = qy.Operator([x for x, _ in v], [fresh(strs[k]) for _, k in v], op_type=typ)
        ctx.check(bool(a.obj == c), 'op-eq-copy', lambda: G.desc(c))
        if v:
            c.coeffs[rng.randint(len(v))] += 0.5
            ctx.check(not (a.obj == c), 'op-eq-coeff', 'different coefficients compare equal')
        if bases:
            (x, kx), (y, ky) = bases[rng.randint(len(bases))], bases[rng.randint(len(bases))]
            ctx.check(bool(x == y) == (kx == ky), 'basis-eq', lambda: '{} vs {}'.format(kx, ky))
        return 'eq'

    def basis_ops():
        nonlocal grew
        i = rng.randint(len(bases))
        b, kb = bases[i]
        kind = rng.randint(5)
        if kind == 0:
            k = keys[rng.randint(len(keys))]
            bases.append([b + fresh(strs[k]), kb + ([k] if k not in kb else [])])
        elif kind == 1:
            c, kc = bases[rng.randint(len(bases))]
            bases.append([b + c, kb + [k for k in kc if k not in kb]])
        elif kind == 2:
            k = keys[rng.randint(len(keys))]
            grew += k not in kb
            b += fresh(strs[k])
            bases[i] = [b, kb + ([k] if k not in kb else [])]
        elif kind == 3:
            c, kc = bases[rng.randint(len(bases))]
            new = kb + [k for k in kc if k not in kb]
            grew += len(new) > len(kb)
            b += c
            bases[i] = [b, new]
        else:
            missing = [k for k in keys if k not in kb]
            if missing:
                ctx.check(strs[missing[0]] not in b, 'basis-contains', 'contains a string that was not added')
                ctx.raises(KeyError, 'basis-index-missing', b.index, strs[missing[0]])
            if kb:
                ctx.raises(ValueError, 'basis-duplicate', qy.Basis, list(b) + [fresh(b[0])])
            ctx.raises(TypeError, 'basis-bad-add', lambda: b + 3)
        return 'basis{}'.format(kind)

    new_basis(); new_op(); new_op()
    steps = rng.randint(25, 60)
    for t in range(steps):
        f = [new_basis, new_op, arith, inplace, inplace, scale, clean, norm, vector, equality, basis_ops, basis_ops][rng.randint(12)]
        name = f()
        log.append(name)
        for m in ops:
            check_op(ctx, m, name)
        for b, kb in bases:
            check_basis(ctx, b, kb, strs, name)
        for b, kb in held:
            check_basis(ctx, b, kb, strs, name + '(shared)')
        for L, ks in lists:
            ctx.check([G.key_of(s) for s in L] == ks, name + '-list-mutated', 'the list given to a constructor changed')
        if len(ops) > 9:
            ops.pop(rng.randint(len(ops)))
        if len(bases) > 6:
            bases.pop(rng.randint(len(bases)))
        ctx.count('steps')
        ctx.count('step:' + name)
    bad = qy.Operator(op_type=other)
    for f in (lambda: ops[0].obj + bad, lambda: ops[0].obj - bad):
        ctx.raises(ValueError, 'mixed-types', f)
    if grew:
        ctx.seen(typ, tuple(log), tuple(map(str, keys)))
        ctx.count('grew', grew)
    ctx.count('shared-bases', len(held))
    ctx.sample('{} history: {}'.format(typ, ' '.join(log)))


FAMILIES = [Family('history', history, 240, 4000, require=60)]
REQUIRED_COUNTERS = ['grew', 'shared-bases', 'step:+=', 'step:-=', 'step:remove_zeros', 'step:to_vector', 'step:eq', 'step:norm', 'step:basis3']
