"""C22  printed, relabelled and plotted operators show exactly the operator."""
import contextlib
import io
import re
import warnings
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib import colors as mcolors
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import lat

PROP = 'C22'
RULE = ('A case draws operators, vectors or lattices, captures what is printed or inspects what is drawn on a headless canvas, '
        'reads it back and compares it with the terms, coefficients, coordinates and geometry it must show. Non-trivial = at '
        'least two terms or sites.')
ASSUMPTIONS = ['all labels are orbitals of the lattice when one is given', 'headless matplotlib canvas']


def captured(f, *a, **kw):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        f(*a, **kw)
    return buf.getvalue()


def coordinate(sp, i):
    """documented coordinate label of orbital i"""
    per = sum(len(n) for n in sp.names)
    cell, j = divmod(i, per)
    _, nm, cc = sp.sites[i]
    for a, ns in enumerate(sp.names):
        if j < len(ns):
            break
        j -= len(ns)
    s = '{}; '.format(cc) if int(np.prod(sp.num)) != 1 else ''
    return '{' + s + str(a) + ('; {}'.format(nm) if nm != '' else '') + '}'


def pf_text(s):
    return complex(s.prefactor)


TERM = re.compile(r'^(\S+) \((\S+)(.*)\)$')


def parse(line, lattice):
    m = TERM.match(line)
    if not m:
        return None
    c, pf, rest = complex(m.group(1)), complex(m.group(2)), m.group(3)
    if lattice:
        toks = re.findall(r' (\w+?)_(\{[^}]*\})', rest)
        clean = re.sub(r' (\w+?)_(\{[^}]*\})', '', rest).strip()
    else:
        toks = re.findall(r' ([A-Za-z]+) (\d+)', rest)
        clean = re.sub(r' ([A-Za-z]+) (\d+)', '', rest).strip()
    return None if clean else (c, pf, tuple(toks))


def expected(op, sp, tol, order):
    terms = [(c, s) for c, s in op if abs(c) > tol]
    if not terms:
        return []
    cs = np.array([c for c, _ in terms])
    cs = cs / np.linalg.norm(cs, ord=order)
    out = []
    for c, (_, s) in zip(cs, terms):
        out.append((c, complex(s.prefactor), tuple((str(o), coordinate(sp, int(l)) if sp else str(int(l)))
                                                   for o, l in zip(s.orbital_operators, s.orbital_labels))))
    return out


def same(a, b):
    return abs(a[0] - b[0]) < 1e-9 and a[1] == b[1] and a[2] == b[2]


def check_output(ctx, text, what, ops, sp, tol, order, keywords, converted):
    blocks = re.split(r'(?m)^{} (\d+) = \n'.format(what), text)
    ctx.check(blocks[0] == '' and [int(x) for x in blocks[1::2]] == list(range(1, len(ops) + 1)), 'headers', repr(text)[:500])
    for op, body in zip(ops, blocks[2::2]):
        lines = [x for x in body.split('\n') if x]
        want = expected(op, sp, tol, order)
        if keywords is None:
            got = [parse(x, sp is not None) for x in lines]
            ctx.check(all(g is not None for g in got), 'unreadable', lambda: repr(lines))
        else:
            got = [parse(x, sp is not None) for x in lines]
            ctx.check(all(any(k in x for k in keywords) for x in lines), 'keywords', lambda: '{} {}'.format(keywords, lines))
            shown = []
            for w in want:        # lines that hold a keyword in the operators part
                t = ''.join(' {}{}{}'.format(o, '_' if sp else ' ', l) for o, l in w[2]) + ' '
                shown.append((w, any(k in t for k in keywords)))
            want = [w for w, sh in shown if sh]
        if len(set(want)) == len(want) and converted:
            want = sorted(want, key=lambda w: (w[2], w[0].real))
            got = sorted(got, key=lambda w: (w[2], w[0].real))
        ctx.check(len(got) == len(want) and all(a is not None and same(a, b) for a, b in zip(got, want)), 'terms',
                  lambda: 'printed {} expected {}'.format(got, want)[:1500])
        if len(want) > 1:
            ctx.seen(body[:400])


def draw_ops(rng, pool, typ, k):
    ops = []
    for _ in range(k):
        if typ == 'Fermion':
            strs = []
            for _ in range(rng.randint(1, 4)):
                s = G.fermion_string(rng, pool)
                if s not in strs:
                    strs.append(s)
            op = qy.Operator(np.array([G.coeff(rng) for _ in strs]), strs)
        else:
            op = G.operator(rng, typ, pool, n=int(rng.randint(1, 7)))
        if rng.rand() < 0.4:          # terms below and above the tolerance
            cs = np.array(op.coeffs)
            for i in range(len(cs)):
                if rng.rand() < 0.4:
                    cs[i] = [0.0, 1e-12, 1e-6, 1e-3][rng.randint(4)]
            op = qy.Operator(cs, [s for _, s in op])
        ops.append(op)
    return ops


KEYWORDS = [['X '], ['Y '], ['A '], ['Z 1'], [' 2'], ['Up'], ['B '], ['CDag'], ['X ', 'D '], ['Y_', 'A_'], ['no such keyword']]


def options(rng, sp):
    kw = {}
    if rng.rand() < 0.5:
        kw['norm_order'] = [np.inf, 1, 2, None][rng.randint(4)]
    if rng.rand() < 0.4:
        kw['tol'] = [1e-16, 1e-4, 1e-2][rng.randint(3)]
    if rng.rand() < 0.4:
        kw['keywords'] = KEYWORDS[rng.randint(len(KEYWORDS))]
        if rng.rand() < 0.4:        # several, which the same line can hold
            kw['keywords'] = [KEYWORDS[i][0] for i in rng.randint(0, len(KEYWORDS), size=rng.randint(0, 5))]
    return kw


def sites(rng):
    if rng.rand() < 0.5:
        return None, None, G.label_pool(rng)
    sp = lat.spec(rng, max_orb=24)
    n = len(sp.sites)
    pool = sorted(int(x) for x in rng.choice(n, min(n, rng.randint(1, 7)), replace=False))
    return sp, sp.make(), pool


def operators(ctx, rng, idx):
    sp, L, pool = sites(rng)
    typ = ['Pauli', 'Majorana', 'Fermion'][rng.randint(3)]
    ops = draw_ops(rng, pool, typ, int(rng.randint(0, 4)))
    kw = options(rng, sp)
    shown = ops
    if rng.rand() < 0.3 and max(pool) < 6 and all(len(o) and np.max(np.abs(o.coeffs)) > 1e-3 for o in ops):
        kw['convert_to'] = [t for t in ('Pauli', 'Majorana', 'Fermion') if t != typ][rng.randint(2)]
        shown = [qy.convert(o, kw['convert_to']) for o in ops]
    before = [[(complex(c), G.key_of(s)) for c, s in o] for o in ops]
    text = captured(qy.print_operators, ops, lattice=L, **kw)
    ctx.check([[(complex(c), G.key_of(s)) for c, s in o] for o in ops] == before, 'mutated', 'printing changed the operators')
    check_output(ctx, text, 'operator', shown, sp, kw.get('tol', 1e-10), kw.get('norm_order'), kw.get('keywords'), 'convert_to' in kw)
    ctx.count('lattice' if sp else 'plain')
    ctx.sample(repr(text[:300]))


def vectors(ctx, rng, idx):
    sp, L, pool = sites(rng)
    typ = ['Pauli', 'Majorana'][rng.randint(2)]
    strs = G.distinct_strings(rng, typ, pool, int(rng.randint(1, 9)))
    basis = qy.Basis(strs)
    k = int(rng.randint(1, 4))
    V = rng.normal(size=(len(strs), k)) + (1j * rng.normal(size=(len(strs), k)) if rng.rand() < 0.4 else 0)
    V[rng.rand(*V.shape) < 0.3] = 0.0
    V[rng.rand(*V.shape) < 0.1] = 1e-6
    kw = options(rng, sp)
    shown = [qy.Operator(V[:, j], strs) for j in range(k)]
    if rng.rand() < 0.3 and max(pool) < 6 and all(np.max(np.abs(V[:, j])) > 1e-3 for j in range(k)):
        kw['convert_to'] = 'Majorana' if typ == 'Pauli' else 'Pauli'
        shown = [qy.convert(o, kw['convert_to']) for o in shown]
    V0 = V.copy()
    text = captured(qy.print_vectors, basis, V, lattice=L, **kw)
    ctx.check(np.array_equal(V, V0) and [G.key_of(s) for s in basis] == [G.key_of(s) for s in strs], 'mutated', 'printing changed its arguments')
    check_output(ctx, text, 'vector', shown, sp, kw.get('tol', 1e-10), kw.get('norm_order'), kw.get('keywords'), 'convert_to' in kw)
    ctx.raises(ValueError, 'size', captured, qy.print_vectors, basis, np.ones((len(strs) + 1, 1)))


def relabel(ctx, rng, idx):
    sp = lat.spec(rng, max_orb=160 if idx % 3 == 0 else 30, **(dict(kinds=['kagome', 'custom', 'honeycomb']) if idx % 6 == 0 else {}))
    L = sp.make()
    n = len(sp.sites)
    text, want = '', ''
    for i in rng.permutation(n):
        o = ['X', 'CDag', 'Y', 'D', ''][rng.randint(5)]
        e = ['\n', ' ', ' )', '\n\n'][rng.randint(4)]
        text += o + ' {}'.format(i) + e
        want += o + '_' + coordinate(sp, int(i)) + e
    got = qy.relabel_orbitals(text, L)
    ctx.check(got == want, 'relabel', lambda: '{}: {!r} -> {!r} expected {!r}'.format(sp.desc(), text[:200], got[:300], want[:300]))
    if n > 1:
        ctx.seen(sp.desc())
    if n > 10:
        ctx.count('two-digit')
    if n > 100:
        ctx.count('three-digit')
    if len(sp.atoms) > 1:
        ctx.count('multi-atom')
    # the text form of the lattice lists every orbital in order
    lines = str(L).strip('\n').split('\n')
    ctx.check(len(lines) == n and all(x.endswith('{} {}'.format(c, nm)) for x, (_, nm, c) in zip(lines, sp.sites)), 'lattice-text', lambda: str(L)[:500])


def text(ctx, rng, idx):
    """str() of operators, bases and strings"""
    pool = G.label_pool(rng)
    typ = ['Pauli', 'Majorana', 'Fermion'][rng.randint(3)]
    op = draw_ops(rng, pool, typ, 1)[0]
    lines = [x for x in str(op).split('\n') if x]
    got = [parse(x, False) for x in lines]
    want = [(complex(c), complex(s.prefactor), tuple((str(o), str(int(l))) for o, l in zip(s.orbital_operators, s.orbital_labels))) for c, s in op]
    ctx.check(len(got) == len(want) and all(g is not None and same(g, w) for g, w in zip(got, want)), 'str-operator', lambda: '{} {}'.format(lines, want))
    strs = [s for _, s in op]
    b = [x for x in str(qy.Basis(strs)).split('\n') if x]
    ctx.check(b == [str(s) for s in strs], 'str-basis', str(b))
    for s in strs:
        back = qy.opstring(str(s), op_type=typ) if len(s.orbital_labels) else s
        ctx.check(back == s and G.key_of(back) == G.key_of(s), 'str-parse', str(s))
    if len(want) > 1:
        ctx.seen(str(op))


def close_all(f):
    def g(ctx, rng, idx):
        plt.close('all')
        try:
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                return f(ctx, rng, idx)
        finally:
            plt.close('all')
    g.__name__ = f.__name__
    return g


def wigner_seitz(ctx, sp, segments):
    """the drawn segments close up and bound the points closest to the origin"""
    a, b = sp.vectors
    area = abs(a[0] * b[1] - a[1] * b[0])
    R = np.array([i * a + j * b for i in range(-12, 13) for j in range(-12, 13) if (i, j) != (0, 0)])
    what = lambda: '{} {}'.format(sp.desc(), np.round(segments, 4).tolist())
    total = 0.0
    for p, q in segments:
        total += p[0] * q[1] - p[1] * q[0]
        for t in (0.0, 0.3, 0.5, 0.8, 1.0):
            x = (1 - t) * p + t * q
            d = np.linalg.norm(R - x, axis=1).min()
            ctx.check(abs(d - np.linalg.norm(x)) < 1e-6, 'wigner-seitz', lambda: what() + ': {} is not equally far from the origin and its closest other lattice point'.format(x))
    ctx.check(abs(abs(total) / 2 - area) < 1e-6, 'wigner-seitz-area', lambda: what() + ': area {} instead of {}'.format(abs(total) / 2, area))
    ctx.count('wigner-seitz')
    if np.linalg.norm(R, axis=1).min() < min(np.linalg.norm(a), np.linalg.norm(b)) - 1e-9:
        ctx.count('wigner-seitz-skewed')


@close_all
def plot_lattice(ctx, rng, idx):
    kinds = ['chain', 'square', 'kagome', 'triangular', 'honeycomb', 'custom', 'cubic', 'custom3']
    sp = lat.spec(rng, max_orb=30, kinds=[kinds, ['custom'], ['custom3'], kinds][idx % 4])
    L = sp.make()
    labels = bool(rng.randint(2))
    kw = dict(with_labels=labels)
    for k in ('with_lattice_vectors', 'with_unit_cell', 'with_wigner_seitz'):
        if rng.rand() < 0.3:
            kw[k] = bool(rng.randint(2))
    before = str(L)
    qy.plot(L, **kw)
    ctx.check(str(L) == before, 'mutated', 'plotting changed the lattice')
    ax = plt.gca()
    P = np.array([p for p, _, _ in sp.sites])
    if sp.dim < 3:
        if sp.dim == 1:
            P = np.hstack([P, np.zeros((len(P), 1))])
        cells = [l for l in ax.get_lines() if l.get_marker() == 's']
        A = np.array([np.append(a, 0.0)[:2] for a in sp.atoms])
        if kw.get('with_unit_cell'):
            ctx.check(len(cells) >= 1 and np.allclose(np.vstack([l.get_xydata() for l in cells]), A, atol=1e-9), 'unit-cell', lambda: sp.desc())
            ctx.count('unit-cell')
        else:
            ctx.check(not cells, 'unit-cell-unasked', lambda: sp.desc())
        segments = [np.array(l.get_xydata()) for l in ax.get_lines() if l.get_marker() in ('None', None, '') and len(l.get_xdata()) == 2]
        if sp.dim == 2 and kw.get('with_wigner_seitz', True):
            wigner_seitz(ctx, sp, segments)
        else:
            ctx.check(not segments, 'wigner-seitz-unasked', lambda: sp.desc())
        dots = [l for l in ax.get_lines() if l.get_marker() == 'o']
        D = np.vstack([np.array(l.get_xydata()) for l in dots])
        ctx.check(len(D) == len(P) and np.allclose(D, P, atol=1e-9), 'sites', lambda: '{} {}'.format(D, P))
        if labels:
            ts = [t for t in ax.texts]
            ctx.check([t.get_text() for t in ts] == [str(i) for i in range(len(P))], 'labels', '')
            ctx.check(np.allclose([t.xy for t in ts], P, atol=1e-9), 'label-positions', '')
            ctx.count('labels')
        else:
            ctx.check(len(ax.texts) == 0, 'labels-unasked', '')
        if kw.get('with_lattice_vectors', True):
            ctx.count('vectors')
            V = np.array([v if sp.dim == 2 else [v[0], 0.0] for v in sp.vectors])
            ends = np.array([l.get_xydata()[-1] for l in ax.get_lines() if l.get_marker() == '.'])
            ctx.check(ends.shape == V.shape and np.allclose(ends, V), 'lattice-vectors', lambda: '{} {}'.format(ends, V))
            starts = np.array([l.get_xydata()[0] for l in ax.get_lines() if l.get_marker() == '.'])
            ctx.check(np.allclose(starts, 0.0), 'lattice-vectors', lambda: str(starts))
            arrows = [p.get_xy() for p in ax.patches]
            ctx.check(len(arrows) == len(V) and all(np.linalg.norm(np.asarray(p) - v, axis=1).min() < 1e-6 and np.linalg.norm(np.asarray(p), axis=1).min() < 0.3 * np.linalg.norm(v)
                                                    for p, v in zip(arrows, V)), 'arrows', lambda: sp.desc())
        else:
            ctx.check(not ax.patches and not [l for l in ax.get_lines() if l.get_marker() == '.'], 'vectors-unasked', lambda: sp.desc())
        ctx.check(ax.get_xlim()[0] < ax.get_xlim()[1] and ax.get_ylim()[0] < ax.get_ylim()[1], 'mirrored', 'an axis points backwards')
        xl, yl = ax.get_xlim(), ax.get_ylim()
        ctx.check(P[:, 0].min() >= min(xl) - 1e-9 and P[:, 0].max() <= max(xl) + 1e-9 and P[:, 1].min() >= min(yl) - 1e-9 and P[:, 1].max() <= max(yl) + 1e-9,
                  'outside', lambda: '{} {} {}'.format(xl, yl, P))
    elif sp.dim == 3:
        uc = bool(kw.get('with_unit_cell'))
        ctx.check(len(ax.collections) == 1 + uc, 'collections-3d', str(len(ax.collections)))
        D = np.array(ax.collections[-1]._offsets3d).T
        ctx.check(len(D) == len(P) and np.allclose(D, P), 'sites-3d', '')
        if uc:
            D = np.array(ax.collections[0]._offsets3d).T
            ctx.check(np.allclose(D, np.array(sp.atoms)), 'unit-cell-3d', lambda: sp.desc())
            ctx.count('unit-cell-3d')
        shown = sorted((int(x), t.get_position_3d()) for t in ax.texts for x in re.findall(r'\d+', t.get_text()))
        if labels:
            ctx.check([i for i, _ in shown] == list(range(len(P))), 'labels-3d', lambda: '{} {}'.format(sp.desc(), [t.get_text() for t in ax.texts]))
            ctx.check(all(np.allclose(p, P[i]) for i, p in shown), 'label-positions-3d', lambda: '{} {}'.format(sp.desc(), [t.get_text() for t in ax.texts]))
            ctx.count('labels-3d')
        else:
            ctx.check(not ax.texts, 'labels-unasked', '')
        ctx.count('3d')
    if len(P) > 1:
        ctx.seen(sp.desc(), str(kw))


def rgb(c):
    return mcolors.to_rgb(c)


def outline(ctx, sp, xy, ps, op):
    """a polygon through points in convex position is their convex hull"""
    if np.allclose(xy[0], xy[-1]):
        xy = xy[:-1]
    n = len(xy)
    if n != len(ps):
        return
    q = ps[:, :2]
    order = np.argsort(np.arctan2(*(q - q.mean(axis=0)).T[::-1]))
    h = q[order]
    turn = [np.cross(h[(i + 1) % n] - h[i], h[(i + 2) % n] - h[(i + 1) % n]) for i in range(n)]
    if min(turn) < 1e-6:
        return
    area = lambda z: 0.5 * abs(sum(np.cross(z[i], z[(i + 1) % n]) for i in range(n)))
    ctx.check(abs(area(xy) - area(h)) < 1e-6, 'polygon-order', lambda: '{} drawn through {}'.format(G.desc(op), xy.tolist()))
    ctx.count('polygon-orders', int(n > 3))


@close_all
def plot_op(ctx, rng, idx):
    dim3 = idx % 5 == 0
    sp = lat.spec(rng, max_orb=16, kinds=['cubic', 'custom3'] if dim3 else ['chain', 'square', 'kagome', 'custom', 'honeycomb'])
    while dim3 and (sp.dim < 3 or len(sp.sites) < 2):
        sp = lat.spec(rng, max_orb=16, kinds=['cubic', 'custom3'])
    L = sp.make()
    n = len(sp.sites)
    typ = ['Pauli', 'Majorana', 'Fermion'][rng.choice(3, p=[0.4, 0.4, 0.2])]
    if typ == 'Fermion':
        strs, keys = [], set()
        for _ in range(int(rng.randint(1, 5))):
            s = G.fermion_string(rng, list(range(n)), max_k=2 if sp.dim < 3 else 1)
            if len(s.orbital_labels) <= (2 if sp.dim == 3 else 4) and G.key_of(s) not in keys:
                keys.add(G.key_of(s))
                strs.append(s)
        if not strs:
            raise Skip('no strings')
    else:
        strs = G.distinct_strings(rng, typ, list(range(n)), int(rng.randint(1, 6)), max_k=2 if sp.dim == 3 else 5)
    cs = [G.coeff(rng) for _ in strs]
    if rng.rand() < 0.25:                    # complex coefficients: the real part is drawn, in units of the largest modulus
        cs = [complex(c) * np.exp(1j * rng.uniform(0, 6.3)) * (1 + 3 * rng.rand()) for c in cs]
        ctx.count('complex-coefficients')
    op = qy.Operator(np.array(cs), strs)
    cutoff = [None, float(rng.uniform(0.3, 3.0))][rng.randint(2)]
    kw = {} if cutoff is None and rng.rand() < 0.5 else dict(distance_cutoff=cutoff)
    size = 20
    if rng.rand() < 0.3:
        size = kw['marker_size'] = int(rng.randint(3, 30))
    before = [(complex(c), G.key_of(s)) for c, s in op]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        qy.plot_operator(op, L, **kw)
    ctx.check([(complex(c), G.key_of(s)) for c, s in op] == before, 'mutated', 'plotting changed the operator')
    top = max(abs(c) for c in op.coeffs)
    pos = [np.concatenate([p, [0.0]]) if sp.dim == 1 else p for p, _, _ in sp.sites]
    COL = {'X': 'r', 'Y': 'g', 'Z': 'b', 'A': 'r', 'B': 'g', 'D': 'b', 'CDag': 'r', 'C': 'b'}
    one, two, many, marked, names = [], [], [], [], []
    for c, s in op:
        w = (c / top).real
        ps = [pos[int(l)] for l in s.orbital_labels]
        far = cutoff is not None and len(ps) > 1 and max(np.linalg.norm(a - b) for a in ps for b in ps) > cutoff + 1e-6
        edge = cutoff is not None and len(ps) > 1 and abs(max(np.linalg.norm(a - b) for a in ps for b in ps) - cutoff) <= 1e-6
        if edge:
            raise Skip('distance at the cutoff')
        if far:
            ctx.count('cut')
            continue
        if len(ps) == 1:
            one.append(ps[0])
        elif len(ps) == 2:
            two.append((ps, 'b' if w > 0 else 'r', abs(w)))
        elif len(ps) > 2:
            many.append((ps, 'b' if w > 0 else 'r', abs(w)))
        if 1 <= len(ps) <= 2:
            for o, l, p in zip(s.orbital_operators, s.orbital_labels, ps):
                marked.append((p, COL[str(o)], abs(w)))
                if sp.sites[int(l)][1] != '':
                    names.append((p, str(sp.sites[int(l)][1])))
    ax = plt.gca()
    if sp.dim == 3 and ax.name != '3d':
        ctx.check(not (one or two or many) and not ax.lines and not ax.collections, 'nothing', 'terms are missing in 3D')
        raise Skip('nothing to draw')
    shown = [(np.array(t.get_position_3d() if sp.dim == 3 else t.xy), t.get_text()) for t in ax.texts]
    ctx.check(len(shown) == len(names) and all(a[1] == b[1] and np.allclose(a[0], b[0]) for a, b in zip(shown, names)), 'orbital-names',
              lambda: '{}: {} names {}'.format(G.desc(op), shown, names))
    ctx.count('orbital-names', len(names))
    if cutoff is not None:
        ctx.count('within-cutoff', len(two) + len(many))
    if sp.dim < 3:
        lines = ax.get_lines()
        marks = [l for l in lines if len(l.get_xdata()) == 1 and l.get_marker() == 'o']
        bonds = [l for l in lines if len(l.get_xdata()) == 2]
        ctx.check(len(marks) == len(marked) and all(np.allclose(m.get_xydata()[0], p) and rgb(m.get_color()) == rgb(c) and rgb(m.get_markeredgecolor()) == rgb(c)
                                                    and abs(m.get_alpha() - 0.5 * w) < 1e-9 and m.get_markersize() == size
                                                    for m, (p, c, w) in zip(marks, marked)), 'markers', lambda: G.desc(op))
        ctx.check(len(bonds) == len(two) and all(np.allclose(b.get_xydata(), np.array(ps)) and rgb(b.get_color()) == rgb(c) and abs(b.get_linewidth() - 3 * w) < 1e-9 and abs(b.get_alpha() - 0.5 * w) < 1e-9
                                                 for b, (ps, c, w) in zip(bonds, two)), 'bonds', lambda: G.desc(op))
        ctx.check(len(ax.patches) == len(many), 'polygons', lambda: '{} {}'.format(len(ax.patches), G.desc(op)))
        for patch, (ps, c, w) in zip(ax.patches, many):
            xy = patch.get_xy()
            ok = all(min(np.linalg.norm(x - p) for p in ps) < 1e-9 for x in xy) and all(min(np.linalg.norm(x - p) for x in xy) < 1e-9 for p in ps)
            ctx.check(ok and rgb(patch.get_facecolor()[:3]) == rgb(c) and abs(patch.get_facecolor()[3] - 0.5 * w) < 1e-9, 'polygon', lambda: G.desc(op))
            outline(ctx, sp, np.array(xy), np.array(ps), op)
    else:
        cols = ax.collections
        ctx.check(len([l for l in ax.get_lines()]) == len(two), 'bonds-3d', lambda: G.desc(op))
        for l, (ps, c, w) in zip(ax.get_lines(), two):
            X = np.array(l.get_data_3d()).T
            ctx.check(np.allclose(X, np.array(ps)) and rgb(l.get_color()) == rgb(c) and abs(l.get_linewidth() - 3 * w) < 1e-9 and abs(l.get_alpha() - 0.5 * w) < 1e-9,
                      'bond-3d', lambda: G.desc(op))
        ctx.check(len(cols) == len(marked), 'markers-3d', lambda: '{} {}'.format(len(cols), G.desc(op)))
        for m, (p, c, w) in zip(cols, marked):
            ctx.check(np.allclose(np.array(m._offsets3d).T, [p]) and m.get_sizes()[0] == size and abs(m.get_alpha() - 0.5 * w) < 1e-9 and rgb(m.get_facecolor()[0][:3]) == rgb(c),
                      'marker-3d', lambda: G.desc(op))
        ctx.count('3d-op')
    for k, v in (('one', one), ('two', two), ('many', many)):
        ctx.count(k, len(v))
    if len(op) > 1:
        ctx.seen(sp.desc(), G.desc(op))


FAMILIES = [
    Family('operators', operators, 400, 6000, require=300),
    Family('vectors', vectors, 300, 4000, require=200),
    Family('relabel', relabel, 200, 2500, require=150),
    Family('text', text, 300, 4000, require=200),
    Family('plot_lattice', plot_lattice, 160, 1200, require=80),
    Family('plot_op', plot_op, 320, 2400, require=80),
]
REQUIRED_COUNTERS = ['complex-coefficients', 'wigner-seitz', 'wigner-seitz-skewed', 'unit-cell', 'unit-cell-3d', 'labels-3d', 'orbital-names', 'within-cutoff', 'polygon-orders', 'lattice', 'plain', 'two-digit', 'three-digit', 'multi-atom', 'labels', 'vectors', '3d', 'one', 'two', 'many', '3d-op', 'cut']
