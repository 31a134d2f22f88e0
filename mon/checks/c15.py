"""C15  lattice geometry, orbital indexing and space-group permutations are consistent."""
import itertools as it
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import lat

PROP = 'C15'
RULE = ('A case draws a lattice (all constructors and random oblique cells, several atoms and orbitals, any boundary '
        'conditions), then checks enumeration, index look-ups under random translations by whole periods, minimum-image '
        'distances, and space-group maps r -> Rr+d against an independent geometry model; non-trivial = at least 2 orbitals.')
ASSUMPTIONS = ['lattice vectors are linearly independent and atoms of one cell are distinct modulo lattice vectors',
               'positions are well inside the 1e-8 matching precision of the lattice']


def near_miss(ctx, rng, sp, L, p, nm, prec, scale):
    """a position close to an orbital, but further away than the precision"""
    for _ in range(2):
        size = 10.0 ** rng.uniform(1 - prec, np.log10(0.3 * scale))
        off = rng.uniform(-1, 1, size=sp.dim) * (rng.rand(sp.dim) < 0.7)
        off[rng.randint(sp.dim)] = float(rng.choice([-1, 1]))
        shift = np.array([int(rng.randint(-3, 4)) if per else 0 for per in sp.periodic])
        q = p + shift @ sp.periods + size * off
        if sp.separation(q, nm) < 5 * 10.0 ** -prec:
            continue
        got = L.index(q, nm)
        ctx.check(got == -1, 'near-miss', lambda: '{}: index({}, {!r}) = {} but the nearest orbital is {} away'.format(sp.desc(), q, nm, got, sp.separation(q, nm)))
        ctx.count('near-misses', int(size < 1e-3 * scale))


def index(ctx, rng, idx):
    sp = lat.spec(rng, max_orb=60, odd_names=True)
    L = sp.make()
    n = len(sp.sites)
    ctx.check(len(L) == n, 'size', lambda: '{} orbitals, expected {}'.format(len(L), n))
    orbs = list(L)
    ctx.check(len(orbs) == n, 'iteration', str(len(orbs)))
    used = set()
    for i, (p, nm, cell) in enumerate(orbs):
        m = [j for j, (q, nm2, c2) in enumerate(sp.sites) if nm2 == nm and np.allclose(p, q, atol=1e-7) and tuple(cell) == c2]
        ctx.check(len(m) == 1 and m[0] not in used, 'content', lambda: 'orbital {} at {} named {} in cell {}: {}'.format(i, p, nm, cell, sp.desc()))
        used.add(m[0])
        ctx.check(np.allclose(L.position(i), p), 'position', 'position() differs from iteration')
    order = rng.permutation(n)[:12]
    for i in order:
        p, nm, _ = orbs[i]
        ctx.check(L.index(np.array(p), nm) == i, 'index', lambda: 'index({}, {!r}) = {} expected {}'.format(p, nm, L.index(p, nm), i))
        for _ in range(4):
            shift = np.array([int(rng.randint(-4, 5)) if per else 0 for per in sp.periodic])
            q = p + shift @ sp.periods
            noise = rng.uniform(-1e-11, 1e-11, size=q.shape) if rng.rand() < 0.5 else 0.0
            ctx.check(L.index(q + noise, nm) == i, 'index-wrapped', lambda: '{}: index({}, {!r}) = {} expected {}'.format(sp.desc(), q, nm, L.index(q, nm), i))
            ctx.count('wrapped', int(np.any(shift != 0)))
        ctx.check(L.index(p, 'no such name') == -1, 'index-name', 'unknown name found')
        near_miss(ctx, rng, sp, L, p, nm, 8, 1.0)
        # any other position: found exactly when an equivalent orbital exists
        for _ in range(3):
            shift = rng.randint(-3, 4, size=sp.dim)
            q = p + sum(s * v for s, v in zip(shift, sp.vectors))
            if rng.rand() < 0.4:
                q = q + rng.uniform(-1, 1, size=sp.dim)
            want = sp.find(q, nm)
            got = L.index(q, nm)
            if want < 0:
                ctx.check(got == -1, 'index-outside', lambda: '{}: index({}, {!r}) = {} but no orbital is there'.format(sp.desc(), q, nm, got))
                ctx.count('outside')
            else:
                ctx.check(got >= 0 and sp.equiv(np.array(orbs[got][0]), q) and orbs[got][1] == nm, 'index-translated', lambda: '{}: index({}) = {}'.format(sp.desc(), q, got))
    if n > 1:
        ctx.seen(sp.desc())
    ctx.sample(sp.desc())


def distance(ctx, rng, idx):
    sp = lat.spec(rng, max_orb=40)
    L = sp.make()
    n = len(sp.sites)
    pos = [np.array(p) for p, _, _ in L]
    for _ in range(40):
        i, j = int(rng.randint(n)), int(rng.randint(n))
        want = sp.distance(pos[i], pos[j])
        for a, b in ((i, j), (j, i), (pos[i], j), (i, pos[j]), (pos[i], pos[j]), (np.int64(i), np.int64(j))):
            got = L.distance(a, b)
            ctx.check(abs(got - want) < 1e-9 * max(1, want), 'distance', lambda: '{}: distance({!r},{!r}) = {} expected {}'.format(sp.desc(), a, b, got, want))
        k = int(rng.randint(n))
        ctx.check(L.distance(i, k) <= L.distance(i, j) + L.distance(j, k) + 1e-9, 'triangle', 'triangle inequality')
        # one point anywhere
        q = pos[j] + rng.uniform(-1.5, 1.5, size=sp.dim)
        ctx.check(abs(L.distance(i, q) - sp.distance(pos[i], q)) < 1e-9 * max(1, want), 'distance-point', lambda: '{}: distance({}, {})'.format(sp.desc(), i, q))
        ctx.count('distances')
        if want < np.linalg.norm(pos[i] - pos[j]) - 1e-9:
            ctx.count('wrapped-distances')
    if n > 1:
        ctx.seen('d', sp.desc())
    ctx.sample(sp.desc())


def ops_for(rng, sp):
    """random affine maps, many of them symmetries"""
    d = sp.dim
    style = rng.randint(6)
    t = sum(int(rng.randint(-3, 4)) * v for v in sp.vectors)
    if style == 0:
        return np.eye(d), t
    if style == 1:
        i, j = rng.randint(len(sp.sites)), rng.randint(len(sp.sites))
        return -np.eye(d), sp.sites[i][0] + sp.sites[j][0]
    if style == 2:
        P = np.eye(d)[rng.permutation(d)]
        S = np.diag(rng.choice([-1.0, 1.0], size=d))
        return P @ S, t
    if style == 3 and d == 2:
        a = np.pi / 3 * rng.randint(1, 6)
        R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
        if rng.rand() < 0.5:
            R = R @ np.diag([1.0, -1.0])
        if rng.rand() < 0.5:        # about a point of the lattice
            c = sp.sites[rng.randint(len(sp.sites))][0]
            t = c - R @ c
        elif rng.rand() < 0.5:      # about the centre of a kagome hexagon / triangle
            c = sum(v for v in sp.vectors) / [2.0, 3.0][rng.randint(2)]
            t = c - R @ c + t
        return R, t
    if style == 4:
        return float(rng.choice([0.0, 2.0, -2.0])) * np.eye(d), t
    M = np.eye(d)
    if d > 1:
        i, j = rng.choice(d, 2, replace=False)
        M[i, j] = float(rng.choice([-1, 1]))
    return M, t


def spacegroup(ctx, rng, idx):
    sp = lat.spec(rng, max_orb=18, kinds=['chain', 'square', 'cubic', 'kagome', 'kagome', 'triangular', 'honeycomb', 'custom'])
    L = sp.make()
    orbs = [(np.array(p), nm) for p, nm, _ in L]
    n = len(orbs)
    for _ in range(8):
        R, d = ops_for(rng, sp)
        want = []
        for p, nm in orbs:
            q = R @ p + d
            m = [j for j, (pj, nj) in enumerate(orbs) if nj == nm and sp.equiv(pj, q)]
            want.append(m[0] if m else -1)
        valid = -1 not in want and len(set(want)) == n
        if not valid:
            ctx.raises(ValueError, 'invalid-accepted', lambda: '{} accepted on {}: {}'.format((R.tolist(), d.tolist()), sp.desc(), qy.space_group_symmetry(L, R, d)))
            ctx.count('rejected')
            continue
        T = qy.space_group_symmetry(L, R, d)
        for i in range(n):
            op = T.apply(qy.opstring('X {}'.format(i)))
            got = [(complex(c), [int(l) for l in s.orbital_labels]) for c, s in op if abs(c) > 1e-12]
            ctx.check(got == [(1.0, [want[i]])], 'image', lambda: '{} R={} d={}: orbital {} -> {} expected {}'.format(sp.desc(), R.tolist(), d.tolist(), i, got, want[i]))
        ctx.count('accepted')
        if want != list(range(n)):
            ctx.seen(sp.desc(), tuple(want))
            ctx.count('nontrivial-permutations')
        ctx.sample('{} R={} d={} -> {}'.format(sp.desc(), np.round(R, 3).tolist(), np.round(d, 3).tolist(), want))


def scaled(rng):
    """a lattice with its own length scale, precision, far away atoms, many cells"""
    for _ in range(200):
        d = int(rng.randint(1, 4))
        scale = 10.0 ** rng.uniform(-1.5, 2.0)
        while True:
            M = np.round(rng.uniform(-2, 2, size=(d, d)), 2)
            if abs(np.linalg.det(M)) > 0.5:
                break
        vec = list(M * scale)
        fr = rng.choice(20, (int(rng.randint(1, 5)),), replace=False) / 20.0
        atoms = [sum(((f * (3 * k + 1)) % 1.0) * v for k, v in enumerate(vec)) for f in fr]
        if rng.rand() < 0.4:
            atoms = [a + sum(int(rng.randint(-8, 9)) * v for v in vec) for a in atoms]
        ns = [[[''], ['p', 'q'], [3, (1, 2)]][rng.randint(3)] for _ in atoms]
        n = tuple(int(x) for x in rng.randint(1, {1: 60, 2: 12, 3: 6}[d], size=d))
        p = tuple(bool(x) for x in rng.rand(d) < 0.6)
        prec = [None, 5, 6, 9][rng.randint(4)]
        if prec is not None and prec > 8 and scale > 3:
            prec = 7
        aslist = rng.rand() < 0.3

        def make(vec=vec, atoms=atoms, ns=ns, n=n, p=p, prec=prec, aslist=aslist):
            v = [np.array(x) for x in vec]
            if aslist:
                c = qy.UnitCell(v, [np.array(a) for a in atoms], [list(o) for o in ns])
            else:
                c = qy.UnitCell(v)
                for a, o in zip(atoms, ns):
                    c.add_atom(np.array(a), orbitals=list(o))
            kw = {} if prec is None else {'precision': prec}
            return qy.Lattice(c, n, periodic_boundaries=p if any(p) or rng.rand() < 0.5 else None, **kw)
        s = lat.Spec(vec, atoms, ns, n, p, make)
        s.scale, s.noise, s.prec = scale, 10.0 ** -(3 + (prec or 8)), prec or 8
        if 2 <= len(s.sites) <= 150:
            return s
    raise Skip('no lattice drawn')


def wide(ctx, rng, idx):
    """many cells, other length scales, precisions and far away images"""
    if rng.rand() < 0.4:
        sp = lat.big(rng, 30, 150)
        sp.scale, sp.noise, sp.prec = 1.0, 1e-11, 8
    else:
        sp = scaled(rng)
    L = sp.make()
    n = len(sp.sites)
    ctx.check(len(L) == n, 'size', lambda: '{} orbitals, expected {}'.format(len(L), n))
    orbs = list(L)
    P = np.array([q for q, _, _ in sp.sites])
    used = set()
    for i, (p, nm, cell) in enumerate(orbs):
        m = [j for j in np.where(np.abs(P - p).max(axis=1) < 1e-6 * sp.scale)[0] if sp.sites[j][1] == nm and sp.sites[j][2] == tuple(cell)]
        ctx.check(len(m) == 1 and m[0] not in used, 'content', lambda: 'orbital {} at {} named {} in cell {}: {}'.format(i, p, nm, cell, sp.desc()))
        used.add(m[0])
    pos = [np.array(p) for p, _, _ in orbs]
    # positions are matched after rounding to the precision: keep away from ties of that rounding
    frac = np.abs((P * 10.0 ** sp.prec) % 1.0 - 0.5)
    clear = [bool(frac[j].min() > 0.05) for j in range(n)]
    clear = {i: clear[[j for j in range(n) if sp.sites[j][1] == orbs[i][1] and np.abs(P[j] - pos[i]).max() < 1e-6 * sp.scale][0]] for i in range(n)}
    for i in rng.permutation(n)[:14]:
        if not clear[i]:
            ctx.count('rounding-ties')
            continue
        p, nm, cell = orbs[i]
        ctx.check(L.index(np.array(p), nm) == i, 'index', lambda: '{}: index({}, {!r}) = {} expected {}'.format(sp.desc(), p, nm, L.index(p, nm), i))
        for _ in range(3):
            shift = np.array([int(rng.randint(-100, 101)) // int(rng.choice([1, 30])) if per else 0 for per in sp.periodic])
            q = p + shift @ sp.periods
            if np.abs(q).max() > 1e4:               # stay inside double precision of the matching
                continue
            q = q + (rng.uniform(-1, 1, size=q.shape) * sp.noise if rng.rand() < 0.5 else 0.0)
            ctx.check(L.index(q, nm) == i, 'index-wrapped', lambda: '{}: index({}, {!r}) = {} expected {}'.format(sp.desc(), q, nm, L.index(q, nm), i))
            ctx.count('far-images', int(np.any(np.abs(shift) > 4)))
        near_miss(ctx, rng, sp, L, p, nm, sp.prec, sp.scale)
        shift = rng.randint(-8, 9, size=sp.dim)
        q = p + sum(s * v for s, v in zip(shift, sp.vectors))
        want = sp.find(q, nm)
        got = L.index(q, nm)
        if want < 0:
            ctx.check(got == -1, 'index-outside', lambda: '{}: index({}, {!r}) = {} but no orbital is there'.format(sp.desc(), q, nm, got))
        elif frac[want].min() > 0.05:
            ctx.check(got >= 0 and sp.equiv(pos[got], q) and orbs[got][1] == nm, 'index-translated', lambda: '{}: index({}) = {}'.format(sp.desc(), q, got))
    for _ in range(12):
        i, j = int(rng.randint(n)), int(rng.randint(n))
        if sp.images(pos[i], pos[j]) > 3000:
            ctx.count('skipped-many-images')
            continue
        want = sp.distance(pos[i], pos[j])
        for a, b in ((i, j), (j, i), (pos[i], j)):
            got = L.distance(a, b)
            ctx.check(abs(got - want) < 1e-9 * max(sp.scale, want), 'distance', lambda: '{}: distance({!r},{!r}) = {} expected {}'.format(sp.desc(), a, b, got, want))
        q = pos[j] + rng.uniform(-3, 3, size=sp.dim) * sp.scale
        if sp.images(q, pos[i]) > 3000:
            continue
        ctx.check(abs(L.distance(q, i) - sp.distance(q, pos[i])) < 1e-9 * max(sp.scale, want), 'distance-point', lambda: '{}: distance({}, {})'.format(sp.desc(), q, i))
    ctx.count('cells', int(np.prod(sp.num)))
    # a translation by lattice vectors is a symmetry exactly when every direction it moves along is periodic
    if n <= 90 and all(clear.values()):
        t = [int(rng.randint(-30, 31)) if per else 0 for per in sp.periodic]
        d = sum(k * v for k, v in zip(t, sp.vectors))
        T = qy.space_group_symmetry(L, np.eye(sp.dim), d)
        cellidx = {(tuple(c), str(nm), a): i for i, (c, nm, a) in enumerate(labelled(sp, orbs))}
        back = {i: k for k, i in cellidx.items()}
        ctx.check(len(cellidx) == n, 'labelled', 'orbitals are not distinguished by cell, atom and name')
        for i in rng.permutation(n)[:20]:
            c, nm, a = back[i]
            c2 = tuple((x + y) % m if per else x + y for x, y, m, per in zip(c, t, sp.num, sp.periodic))
            want = cellidx[(c2, nm, a)]
            op = T.apply(qy.opstring('Y {}'.format(i)))
            got = [(complex(x), [int(l) for l in s.orbital_labels]) for x, s in op if abs(x) > 1e-12]
            ctx.check(got == [(1.0, [want])], 'translation', lambda: '{} d={}: orbital {} -> {} expected {}'.format(sp.desc(), d, i, got, want))
        ctx.count('large-translations')
    ctx.seen(sp.desc())
    ctx.sample(sp.desc())


def fine(ctx, rng, idx):
    """atoms and cells much smaller than one, far above the precision"""
    d = int(rng.randint(1, 4))
    r7 = lambda x: np.round(x, 7)                   # whole multiples of ten times the precision: no rounding ties
    scale = 10.0 ** rng.uniform(-3, 0.5)
    while True:
        M = rng.uniform(-1, 1, size=(d, d)) if rng.rand() < 0.5 else np.eye(d) * rng.uniform(0.5, 1, size=d)
        if abs(np.linalg.det(M)) > 0.3 ** d:
            break
    vec = [r7(v * scale) for v in M]
    atoms = []
    for _ in range(60):
        a = r7(np.array([float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-6, np.log10(0.2 * scale)) if rng.rand() < 0.8 else 0.0 for _ in range(d)]))
        if all(np.abs(a - b).max() > 8e-7 for b in atoms):
            atoms.append(a)
        if len(atoms) == 4:
            break
    atoms = atoms[:int(rng.randint(2, 5))]
    ns = [[[''], ['p', 'q']][rng.randint(2)] for _ in atoms]
    n = tuple(int(x) for x in rng.randint(1, {1: 9, 2: 4, 3: 3}[d], size=d))
    p = tuple(bool(x) for x in rng.rand(d) < 0.6)

    def make():
        c = qy.UnitCell([np.array(v) for v in vec])
        for a, o in zip(atoms, ns):
            c.add_atom(np.array(a), **({} if o == [''] else dict(orbitals=list(o))))
        return qy.Lattice(c, n, periodic_boundaries=p)
    sp = lat.Spec(vec, atoms, ns, n, p, make)
    L = sp.make()
    orbs = list(L)
    what = lambda: 'vectors {} atoms {} cells {} periodic {}'.format([v.tolist() for v in vec], [a.tolist() for a in atoms], n, p)
    ctx.check(len(L) == len(sp.sites) == len(orbs), 'size', lambda: '{}: {} orbitals'.format(what(), len(L)))
    P = np.array([q for q, _, _ in sp.sites])
    used = set()
    for i, (q, nm, cell) in enumerate(orbs):
        m = [j for j in np.where(np.abs(P - q).max(axis=1) < 2e-9)[0] if sp.sites[j][1] == nm and sp.sites[j][2] == tuple(cell)]
        ctx.check(len(m) == 1 and m[0] not in used, 'content', lambda: '{}: orbital {} at {} named {} in cell {}'.format(what(), i, q, nm, cell))
        used.add(m[0])
        ctx.check(np.abs(np.array(L.position(i)) - q).max() < 1e-12, 'position', what)
    for i in rng.permutation(len(orbs))[:10]:
        q, nm, _ = orbs[i]
        for _ in range(3):
            shift = np.array([int(rng.randint(-3, 4)) if per else 0 for per in p])
            got = L.index(q + shift @ sp.periods, nm)
            ctx.check(got == i, 'index', lambda: '{}: index({}, {!r}) = {} expected {}'.format(what(), q + shift @ sp.periods, nm, got, i))
        off = np.zeros(d)
        off[rng.randint(d)] = float(rng.choice([-1, 1])) * 10.0 ** rng.uniform(-6.5, -2)
        if sp.separation(q + off, nm) > 2e-7:
            got = L.index(q + off, nm)
            ctx.check(got == -1, 'near-miss', lambda: '{}: index({}, {!r}) = {}'.format(what(), q + off, nm, got))
            ctx.count('fine-misses')
        j = int(rng.randint(len(orbs)))
        want = sp.distance(np.array(q), np.array(orbs[j][0]))
        got = L.distance(int(i), j)
        ctx.check(abs(got - want) < 1e-11, 'distance', lambda: '{}: distance({}, {}) = {} expected {}'.format(what(), i, j, got, want))
    # displacing everything a little is not a symmetry
    t = np.zeros(d)
    t[rng.randint(d)] = 10.0 ** rng.uniform(-6.5, -4)
    if all(sp.separation(np.array(q) + t, nm) > 2e-7 for q, nm, _ in orbs):
        ctx.raises(ValueError, 'small-displacement', lambda: '{} displaced by {}: {}'.format(what(), t, qy.space_group_symmetry(L, np.eye(d), t)))
    ctx.count('small-coordinates', int(np.sum([(np.abs(a) > 0) & (np.abs(a) < 1e-3) for a in atoms])))
    ctx.seen(what())
    ctx.sample(what())


def siblings(ctx, rng, idx):
    """several lattices that differ in one respect only, alive at the same time: each answers for itself"""
    base = lat.spec(rng, max_orb=24)
    specs = [base]
    for _ in range(int(rng.randint(2, 5))):
        o = specs[rng.randint(len(specs))]
        vec, atoms = [v.copy() for v in o.vectors], [a.copy() for a in o.atoms]
        names, num, per = [list(x) for x in o.names], o.num, o.periodic
        k = rng.randint(7)
        if k == 0:                        # all atoms moved together
            t = np.round(sum(rng.randint(1, 20) / 20.0 * v for v in vec), 6)
            atoms = [a + t for a in atoms]
        elif k == 1 and len(atoms) > 1:   # the atoms in another order
            q = rng.permutation(len(atoms))
            atoms, names = [atoms[i] for i in q], [names[i] for i in q]
        elif k == 2:                      # other names
            names = [[('n', x) for x in ns] if rng.rand() < 0.7 else ns[::-1] for ns in names]
        elif k == 3:                      # other boundary conditions
            i = int(rng.randint(len(per)))
            per = tuple(not p if j == i else p for j, p in enumerate(per))
        elif k == 4:                      # another cell
            vec = [np.round(v * 1.25, 6) for v in vec]
        elif k == 5:                      # one atom moved by a lattice vector
            i = int(rng.randint(len(atoms)))
            atoms[i] = atoms[i] + vec[rng.randint(len(vec))] * int(rng.choice([-2, -1, 1, 2]))
        elif len(num) > 1:                # the same number of cells, arranged differently
            num = num[::-1]

        def make(vec=vec, atoms=atoms, names=names, num=num, per=per):
            c = qy.UnitCell([v.copy() for v in vec])
            for a, ns in zip(atoms, names):
                c.add_atom(a.copy(), orbitals=list(ns))
            return qy.Lattice(c, num, periodic_boundaries=per)
        specs.append(lat.Spec(vec, atoms, names, num, per, make))
    lats = [s.make() for s in specs]
    tabs = [list(L) for L in lats]
    for s, L, orbs in zip(specs, lats, tabs):
        ctx.check(len(L) == len(s.sites) == len(orbs), 'size', lambda: s.desc())
    for turn in range(60):
        a, b = int(rng.randint(len(specs))), int(rng.randint(len(specs)))
        sp, L = specs[a], lats[a]
        p, nm, _ = tabs[b][rng.randint(len(tabs[b]))]
        p = np.array(p)
        if rng.rand() < 0.4:
            p = p + sum(int(rng.randint(-2, 3)) * v for v in specs[b].vectors)
        sep = sp.separation(p, nm) if any(x == nm for _, x, _ in sp.sites) else np.inf
        want = sp.find(p, nm)
        if (want < 0 and sep < 1e-5) or (want >= 0 and sep > 1e-9):
            continue
        got = L.index(p, nm)
        if want < 0:
            ctx.check(got == -1, 'index-outside', lambda: '{} next to {}: index({}, {!r}) = {}'.format(sp.desc(), specs[b].desc(), p, nm, got))
            ctx.count('siblings-missing')
        else:
            ctx.check(got >= 0 and tabs[a][got][1] == nm and sp.equiv(np.array(tabs[a][got][0]), p), 'index', lambda: '{} next to {}: index({}, {!r}) = {}'.format(sp.desc(), specs[b].desc(), p, nm, got))
            ctx.count('siblings-found')
        i, j = int(rng.randint(len(tabs[a]))), int(rng.randint(len(tabs[a])))
        w, g = sp.distance(np.array(tabs[a][i][0]), np.array(tabs[a][j][0])), L.distance(i, j)
        ctx.check(abs(w - g) < 1e-9 * max(1, w), 'distance', lambda: '{} next to {}: distance({}, {}) = {} expected {}'.format(sp.desc(), specs[b].desc(), i, j, g, w))
        # a symmetry of one of them is judged for each of them
        if turn % 12 == 0:
            R, d = ops_for(rng, specs[b])
            if R.shape[0] != sp.dim:
                continue
            seps = [sp.separation(R @ np.array(p1) + d, n1) for p1, n1, _ in tabs[a]]
            if any(1e-9 < x < 1e-5 for x in seps):      # almost a symmetry
                continue
            im = [[j for j, (q, n2, _) in enumerate(tabs[a]) if n2 == n1 and sp.equiv(np.array(q), R @ np.array(p1) + d)] for p1, n1, _ in tabs[a]]
            im = [m[0] if m else -1 for m in im]
            if -1 in im or len(set(im)) < len(im):
                ctx.raises(ValueError, 'invalid-accepted', lambda: qy.space_group_symmetry(L, R, d))
                continue
            T = qy.space_group_symmetry(L, R, d)
            for i in range(len(im)):
                op = T.apply(qy.opstring('Z {}'.format(i)))
                ctx.check([(complex(c), [int(l) for l in s.orbital_labels]) for c, s in op if abs(c) > 1e-12] == [(1.0, [im[i]])], 'image', lambda: '{}: orbital {}'.format(sp.desc(), i))
            ctx.count('siblings-symmetries')
    ctx.seen([s.desc() for s in specs])


def labelled(sp, orbs):
    """(cell, name, atom) of every orbital, from its position"""
    out = []
    for p, nm, cell in orbs:
        r = p - sum(c * v for c, v in zip(cell, sp.vectors))
        a = int(np.argmin([np.linalg.norm(r - x) for x in sp.atoms]))
        out.append((cell, nm, a))
    return out


FAMILIES = [
    Family('siblings', siblings, 80, 1500, require=50),
    Family('fine', fine, 120, 2000, require=60),
    Family('wide', wide, 150, 2500, require=60),
    Family('index', index, 300, 4000, require=100),
    Family('distance', distance, 200, 3000, require=60),
    Family('spacegroup', spacegroup, 300, 4000, require=100),
]
REQUIRED_COUNTERS = ['siblings-missing', 'siblings-found', 'siblings-symmetries', 'small-coordinates', 'fine-misses', 'near-misses', 'far-images', 'large-translations', 'wrapped', 'outside', 'wrapped-distances', 'accepted', 'rejected', 'nontrivial-permutations']
