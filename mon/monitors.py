"""Contracts attached to the public API at run time.

`monitored(ctx, names)` replaces the named public functions by observing wrappers in every
qosy module that holds a reference to them, so that calls made *inside* qosy (conversions
calling products, Lie algebras calling commutators, ...) are observed too.  A wrapper never
changes arguments or results; it only evaluates the oracle on what went in and came out.
"""
import contextlib
import sys
import numpy as np
import qosy as qy
from . import oracle as O
from . import gen as G


def _algebra(ref):
    def post(ctx, name, args, kw, res):
        a, b = args[:2]
        if isinstance(a, qy.OperatorString):
            PA, PB = O.os_poly(a), O.os_poly(b)
            c, s = res
            P = {} if s is None else O.pscale(O.os_poly(s), c)
        else:
            if len(a) * len(b) > 4000:
                ctx.count('monitor-skipped:' + name)
                return
            PA, PB = O.op_poly(a), O.op_poly(b)
            P = O.op_poly(res)
        scale = max(1.0, O.pmax(PA) * O.pmax(PB))
        ctx.check(O.pdiff(P, ref(PA, PB)) < 1e-9 * scale, name + '-value(observed)',
                  lambda: '{}({}, {}) = {}'.format(name, G.desc(a), G.desc(b), res))
        ctx.seen('obs', name, G.desc(a)[:300], G.desc(b)[:300])
    return post


def _convert(ctx, name, args, kw, res):
    op, to = args[0], args[1]
    inc = kw.get('include_identity', args[2] if len(args) > 2 else False)
    P = O.os_poly(op) if isinstance(op, qy.OperatorString) else O.op_poly(op)
    Q = O.op_poly(res)
    if not inc:
        P, Q = O.pdrop_identity(P), O.pdrop_identity(Q)
    ctx.check(O.pdiff(P, Q) < 1e-9 * max(1.0, O.pmax(P)), 'convert-value(observed)',
              lambda: 'convert({}, {}) = {}'.format(G.desc(op), to, G.desc(res)))
    ctx.seen('obs', name, G.desc(op)[:300], to)


POSTS = {
    'product': _algebra(O.pmul),
    'commutator': _algebra(O.pcomm),
    'anticommutator': _algebra(O.panti),
    'convert': _convert,
}


def qosy_modules():
    return [m for n, m in list(sys.modules.items()) if (n == 'qosy' or n.startswith('qosy.')) and m is not None]


@contextlib.contextmanager
def monitored(ctx, names, posts=None):
    posts = posts or POSTS
    undo = []
    state = {'depth': 0}
    import functools
    for name in names:
        orig = getattr(qy, name)
        post = posts[name]

        def make(orig, post, name):
            @functools.wraps(orig)
            def wrapper(*a, **kw):
                res = orig(*a, **kw)
                ctx.count('monitor:' + name)
                post(ctx, name, a, kw, res)
                return res
            return wrapper
        w = make(orig, post, name)
        for m in qosy_modules():
            for attr, val in list(vars(m).items()):
                if val is orig:
                    setattr(m, attr, w)
                    undo.append((m, attr, orig))
    try:
        yield
    finally:
        for m, attr, orig in undo:
            setattr(m, attr, orig)


def highlevel_workload(rng, idx):
    """Realistic use of the upper layers, so that inner calls get observed."""
    kind = idx % 6
    typ = ('Pauli', 'Majorana')[(idx // 6) % 2]
    if kind == 0:
        pool = G.label_pool(rng, rng.randint(2, 4))
        qy.generate_lie_algebra(qy.Basis(G.distinct_strings(rng, typ, pool, 3, min_k=1)))
    elif kind == 1:
        pool = G.label_pool(rng, 3)
        ops = [G.operator(rng, typ, pool, 2, False, min_k=1, max_k=2) for _ in range(2)]
        qy.generate_lie_algebra(ops)
    elif kind == 2:
        pool = sorted(int(x) for x in rng.choice(9, rng.randint(2, 5), replace=False))
        for _ in range(6):
            s = G.opstring(rng, typ, pool, min_k=1)
            qy.convert(s, 'Majorana' if typ == 'Pauli' else 'Pauli')
    elif kind == 3:
        pool = sorted(int(x) for x in rng.choice(8, rng.randint(2, 5), replace=False))
        for _ in range(4):
            qy.convert(G.fermion_string(rng, pool), 'Pauli')
    elif kind == 4:
        pool = sorted(int(x) for x in rng.choice(6, rng.randint(2, 4), replace=False))
        for _ in range(4):
            qy.convert(G.operator(rng, typ, pool, 3, False), 'Fermion')
    else:
        pool = G.label_pool(rng, 3)
        A = G.operator(rng, typ, pool, 4)
        B = G.operator(rng, typ, pool, 4)
        C = qy.commutator(A, B)
        for _ in range(2):
            C = qy.commutator(A, C) + qy.anticommutator(B, C)
            C = C.remove_zeros(1e-12)
            qy.product(A, C)
