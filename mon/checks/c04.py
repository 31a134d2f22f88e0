"""C04  operator strings: Hermitian by construction, faithful names, equality <=> identity <=> hash."""
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G

PROP = 'C04'
RULE = ('A case builds many operator strings through every documented spelling (constructor with lists/tuples/arrays, '
        'int/float/complex prefactors, parser with and without prefactor, extra white space) and checks names, '
        'equality, hashing, iteration and the denoted operator; non-trivial = non-identity string.')
ASSUMPTIONS = ['labels are given in the documented order']


def variants(rng, s, ops, labels, typ, pf):
    """Documented ways to spell the same string."""
    body = ' '.join('{} {}'.format(o, l) for o, l in zip(ops, labels))
    sp = '   '.join('{}  {}'.format(o, l) for o, l in zip(ops, labels))
    out = [qy.OperatorString(np.array(ops, dtype=str) if ops else [], np.array(labels, dtype=int), typ, pf),
           qy.OperatorString(list(ops), [np.int64(l) for l in labels], typ, prefactor=pf),
           qy.OperatorString(list(ops), list(labels), typ, complex(pf)),
           qy.opstring(str(s), typ)]
    if ops:
        out.append(qy.opstring(str(s)))
    if typ != 'Fermion' and ops:
        out += [qy.opstring(body), qy.opstring('  ' + sp + ' '), qy.opstring(body, typ), qy.OperatorString(list(ops), list(labels), typ)]
    if typ == 'Fermion' and ops:
        if pf == 1j:
            out += [qy.opstring('1j ' + body), qy.opstring('1j ' + sp, 'Fermion')]
        else:
            out += [qy.opstring(body), qy.opstring('1.0 ' + body), qy.opstring('1 ' + body), qy.OperatorString(list(ops), list(labels), typ, 1)]
    if typ == 'Pauli' and ops:
        out += [qy.opstring('1.0 ' + body), qy.opstring('1 ' + body), qy.OperatorString(list(ops), list(labels), typ, 1)]
    if typ == 'Majorana' and ops:
        out.append(qy.opstring(('1j ' if O.maj_prefactor(ops) == 1j else '1.0 ') + body))
    if not ops:
        out += [qy.opstring('I', typ), qy.opstring('1.0', typ), qy.opstring('1', typ), qy.opstring('', typ)]
    return out


def spellings(ctx, rng, idx):
    for _ in range(6):
        typ = ('Pauli', 'Majorana', 'Fermion')[rng.randint(3)]
        pool = G.label_pool(rng, rng.randint(1, 8))
        if rng.rand() < 0.15:               # many orbitals, large labels
            pool = sorted(int(x) for x in rng.choice(2000, int(rng.randint(8, 40)), replace=False))
            ctx.count('long-or-large')
        elif rng.rand() < 0.15:             # labels beyond 16 bits
            big = [int(rng.choice([200, 256, 32768, 65536, 100000])) + int(rng.randint(-3, 4)) for _ in range(rng.randint(1, 6))]
            pool = sorted(set(big + [int(x) for x in rng.randint(0, 12, size=2)]))
            ctx.count('large-labels')
        if typ == 'Fermion':
            src = G.fermion_string(rng, pool, 4) if rng.rand() > 0.05 else G.make([], [], 'Fermion')
            want_pf = 1j if complex(src.prefactor) == 1j else 1.0
            ops, labs = [str(o) for o in src.orbital_operators], [int(l) for l in src.orbital_labels]
        else:
            k = rng.randint(0, len(pool) + 1)
            labs = sorted(int(x) for x in rng.choice(pool, k, replace=False)) if k else []
            names = O.PAULI if typ == 'Pauli' else O.MAJ
            ops = [names[rng.randint(3)] for _ in labs]
            want_pf = O.maj_prefactor(ops) if typ == 'Majorana' else 1.0
        s = qy.OperatorString(list(ops), list(labs), typ, want_pf)
        ctx.check([str(o) for o in s.orbital_operators] == ops and [int(l) for l in s.orbital_labels] == labs and s.op_type == typ,
                  'content', lambda: 'constructed {}'.format(s))
        ctx.check(complex(s.prefactor) == complex(want_pf), 'prefactor', lambda: '{} has prefactor {}, expected {}'.format(s, s.prefactor, want_pf))
        ctx.check([(str(o), int(l)) for o, l in s] == list(zip(ops, labs)), 'iteration', lambda: str(list(s)))
        P = O.os_poly(s)
        raw = O.pscale(O.raw_string(ops, labs), s.prefactor)
        if typ != 'Fermion':
            ctx.check(O.pdiff(raw, O.pdag(raw)) < 1e-12, 'hermitian', lambda: '{} is not Hermitian'.format(s))
            ctx.check(abs(O.pnorm(raw) - 1) < 1e-12, 'orthonormal', lambda: 'norm {}'.format(O.pnorm(raw)))
            if ops:
                ctx.check((0, 0) not in raw, 'traceless', lambda: '{} has a trace'.format(s))
        else:
            ctx.check(O.pdiff(P, O.pdag(P)) < 1e-12, 'hermitian', lambda: '{} is not Hermitian'.format(s))
        for v in variants(rng, s, ops, labs, typ, want_pf):
            ctx.check(bool(v == s) and bool(s == v), 'equal', lambda: '{!r} != {!r}'.format(str(v), str(s)))
            ctx.check(hash(v) == hash(s), 'hash', lambda: 'equal strings hash differently: {!r} {!r}'.format(str(v), str(s)))
            ctx.check(str(v) == str(s), 'name', lambda: '{!r} vs {!r}'.format(str(v), str(s)))
            ctx.check(v in {s: 1} and s in {v} and len({s, v}) == 1, 'dict', lambda: 'dict lookup of {!r}'.format(str(v)))
            ctx.check(v in qy.Basis([s]) and qy.Basis([s]).index(v) == 0, 'basis', lambda: 'Basis lookup of {!r}'.format(str(v)))
            ctx.check(O.pdiff(O.os_poly(v), P) < 1e-12, 'denotation', 'different operator')
        if typ == 'Majorana':      # the prefactor is computed automatically, whatever was given
            for g in (1.0, 1j, 1):
                v = qy.OperatorString(list(ops), list(labs), typ, g)
                ctx.check(complex(v.prefactor) == complex(want_pf) and v == s and hash(v) == hash(s), 'auto-prefactor',
                          lambda: 'given {} kept {} for {}'.format(g, v.prefactor, s))
        if ops:
            ctx.seen(G.key_of(s))
        ctx.count('strings-' + typ)
    ctx.sample(repr(str(s)))


def pairwise(ctx, rng, idx):
    """Equality and hashing on a pool of close relatives decide exactly identity of content."""
    items = []
    pool = G.label_pool(rng, rng.randint(2, 4))
    items += [G.make([], [], t) for t in ('Pauli', 'Majorana', 'Fermion')]
    for typ, names in (('Pauli', O.PAULI), ('Majorana', O.MAJ)):
        for _ in range(12):
            items.append(G.opstring(rng, typ, pool))
    for _ in range(10):
        f = G.fermion_string(rng, pool, 2)
        items.append(f)
        ops, labs = [str(o) for o in f.orbital_operators], [int(l) for l in f.orbital_labels]
        if labs != labs[::-1] or len(labs) % 2:
            items.append(G.make(ops, labs, 'Fermion', 1j if complex(f.prefactor) == 1 else 1.0))
    # textual traps: same characters, different tokens
    items += [qy.opstring('X 1 X 12'), qy.opstring('X 11 X 12'), qy.opstring('X 1 X 2'), qy.opstring('X 112'), qy.opstring('X 11 X 2'.replace('11 X 2', '2 X 11'))]
    keys = [G.key_of(s) for s in items]
    for a, ka in zip(items, keys):
        for b, kb in zip(items, keys):
            same = ka == kb
            ctx.check(bool(a == b) == same, 'equality', lambda: '({!r} == {!r}) is {}'.format(str(a), str(b), not same))
            if same:
                ctx.check(hash(a) == hash(b), 'hash', 'equal, different hash')
            ctx.seen(ka, kb)
    ctx.check(len(set(items)) == len(set(keys)), 'set-size', 'a set of strings has the wrong size')
    by_type = {}
    for s, k in zip(items, keys):
        by_type.setdefault(s.op_type, {})[k] = s
    for typ, d in by_type.items():
        B = qy.Basis(list(d.values()))
        for i, (k, s) in enumerate(d.items()):
            ctx.check(B.index(s) == i, 'basis-index', 'wrong index')
        for k2, s2 in zip(keys, items):
            ctx.check((s2 in B) == (k2 in d), 'basis-membership', lambda: 'membership of {!r} in {}'.format(str(s2), typ))
        ctx.raises(ValueError, 'basis-duplicates', qy.Basis, list(d.values()) + [list(d.values())[0]])


def huge(ctx, rng, idx):
    """Labels up to 62 bits: contents, names, equality and hashing are those of the given numbers."""
    edge = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2 ** 24, 2 ** 24 + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 53, 2 ** 53 + 1, 2 ** 62]
    for _ in range(12):
        pool = sorted(set(int(x) for x in rng.choice(edge, int(rng.randint(1, 7)))) | ({int(10 ** rng.uniform(1, 18))} if rng.rand() < 0.5 else set()))
        typ = ('Pauli', 'Majorana', 'Fermion')[rng.randint(3)]
        if typ == 'Fermion':
            src = G.fermion_string(rng, pool, 3)
            pf = 1j if complex(src.prefactor) == 1j else 1.0
        else:
            src = G.opstring(rng, typ, pool, min_k=1)
            pf = O.maj_prefactor([str(o) for o in src.orbital_operators]) if typ == 'Majorana' else 1.0
        ops, labs = [str(o) for o in src.orbital_operators], [int(l) for l in src.orbital_labels]
        ctx.check(set(labs) <= set(pool), 'huge-labels', lambda: 'labels {} from {}'.format(labs, pool))
        ctx.check([(str(o), int(l)) for o, l in src] == list(zip(ops, labs)), 'iteration', lambda: str(src))
        text = '' if complex(pf) == 1 and typ != 'Majorana' else ('1j ' if complex(pf) == 1j else '1.0 ')
        body = ' '.join('{} {}'.format(o, l) for o, l in zip(ops, labs))
        ctx.check(body in str(src), 'huge-name', lambda: '{!r} is named {!r}'.format(body, str(src)))
        for v in [qy.opstring(text + body), qy.opstring(str(src)), qy.opstring(str(src), typ), qy.OperatorString(np.array(ops, dtype=str), np.array(labs, dtype=np.int64), typ, pf)]:
            ctx.check([int(l) for l in v.orbital_labels] == labs and [str(o) for o in v.orbital_operators] == ops and complex(v.prefactor) == complex(pf), 'huge-content',
                      lambda: '{!r} became {!r}'.format(text + body, str(v)))
            ctx.check(v == src and hash(v) == hash(src) and str(v) == str(src) and v in {src: 0}, 'huge-equal', lambda: '{!r} {!r}'.format(str(v), str(src)))
        # one label changed: another string
        i = int(rng.randint(len(labs)))
        other = list(labs)
        other[i] = labs[i] + int(rng.choice([1, 256, 2 ** 16, 2 ** 32]))
        if typ != 'Fermion' and other == sorted(set(other)):
            v = G.make(ops, other, typ)
            ctx.check(not v == src and v not in {src: 0} and v not in qy.Basis([src]), 'huge-different', lambda: '{!r} equals {!r}'.format(str(v), str(src)))
            ctx.check(len(qy.Basis([src, v])) == 2, 'huge-basis', lambda: '{!r} {!r}'.format(str(v), str(src)))
        ctx.seen(G.key_of(src))
    ctx.sample(str(src))


def invalid(ctx, rng, idx):
    bad = [lambda: qy.OperatorString(['X', 'Y'], [1], 'Pauli'), lambda: qy.OperatorString(['X'], [1, 2], 'Pauli'),
           lambda: qy.OperatorString([], [1], 'Majorana'), lambda: qy.OperatorString(['CDag'], [1, 2], 'Fermion'),
           lambda: qy.OperatorString(['X'], [1], 'Pauli', 1j), lambda: qy.OperatorString(['X'], [1], 'Pauli', -1.0),
           lambda: qy.OperatorString(['X'], [1], 'Pauli', 2.0), lambda: qy.OperatorString(['CDag', 'C'], [1, 2], 'Fermion', -1),
           lambda: qy.OperatorString(['CDag', 'C'], [1, 2], 'Fermion', 0.5), lambda: qy.OperatorString(['CDag', 'C'], [1, 2], 'Fermion', -1j),
           lambda: qy.OperatorString(['D'], [1], 'Majorana', 2.0), lambda: qy.OperatorString(['A'], [1], 'Majorana', -1),
           lambda: qy.opstring('Q 1'), lambda: qy.opstring('2.0 X 1'), lambda: qy.opstring('1j X 1'), lambda: qy.opstring(''),
           lambda: qy.opstring('I'), lambda: qy.opstring('1.0'), lambda: qy.opstring('X 1', 'Majorana'), lambda: qy.opstring('A 1', 'Pauli'),
           lambda: qy.opstring('CDag 1', 'Majorana'), lambda: qy.opstring('X one'), lambda: qy.opstring('X 1 Y')]
    for f in bad:
        ctx.raises(Exception, 'invalid-accepted', f)
        ctx.count('rejections')
    names = {'Pauli': ('X', 'Y', 'Z'), 'Majorana': ('A', 'B', 'D'), 'Fermion': ('CDag', 'C')}
    for typ in names:
        for nm in ('X', 'Y', 'Z', 'A', 'B', 'D', 'CDag', 'C', 'I', 'F', 'x', 'xy', '', '1', 'Cdag'):
            for ops in ([nm], [nm, names[typ][0]], [names[typ][-1], nm], [names[typ][0], names[typ][-1], nm, names[typ][0]]):
                if typ == 'Fermion' and len(ops) not in (2, 4) or nm in names[typ] + (('I', 'F') if typ == 'Fermion' else ()):
                    continue
                ctx.raises(Exception, 'unknown-name-accepted', lambda: qy.OperatorString(ops, list(range(len(ops))), typ))
                if nm:
                    ctx.raises(Exception, 'unknown-name-accepted', lambda: qy.opstring(' '.join('{} {}'.format(o, l) for l, o in enumerate(ops)), typ))
                ctx.count('rejections', 2)
        for unknown in ('pauli', 'Spin', '', 'Boson', None, 'Paulis'):
            ctx.raises(Exception, 'unknown-type-accepted', lambda: qy.OperatorString(list(names[typ][:2]), [0, 1], unknown))
            ctx.count('rejections')
    for first, second in (('Pauli', 'Majorana'), ('Majorana', 'Pauli'), ('Pauli', 'Fermion'), ('Majorana', 'Fermion')):
        for o in names[first]:
            for q in names[second]:
                ctx.raises(Exception, 'mixed-names-accepted', lambda: qy.opstring('{} 1 {} 0'.format(o, q)))
                ctx.raises(Exception, 'mixed-names-accepted', lambda: qy.opstring('{} 0 {} 1'.format(q, o)))
                ctx.count('rejections', 2)
    ctx.seen('invalid')


FAMILIES = [
    Family('spellings', spellings, 300, 5000, require=80),
    Family('huge', huge, 60, 1000, require=40),
    Family('pairwise', pairwise, 60, 600, require=20),
    Family('invalid', invalid, 1, 1),
]
REQUIRED_COUNTERS = ['long-or-large', 'large-labels', 'strings-Pauli', 'strings-Majorana', 'strings-Fermion', 'rejections']
