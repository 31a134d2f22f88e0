"""C24  symmetrized lattices."""
import itertools as it
import numpy as np
import qosy as qy
from ..runtime import Family, Skip

PROP = 'C24'
RULE = ('A case draws a periodic lattice whose translations are preserved by a point group (chain, square, rectangular, triangular, '
        'cubic; atoms at special or generic positions; several orbitals per atom), point group generators and a number of '
        'expansions, and checks the crystal described by the returned unit cell: translations, completeness, invariance, '
        'no duplicates, minimality, and that the input was not modified. Non-trivial = more than one atom in the result.')
ASSUMPTIONS = ['periodic boundaries in every direction', 'the point group maps the translation lattice to itself',
               'at most 120 atoms in the result (400 for cubic groups)', 'atoms of the input are distinct modulo translations']


def rot(t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


MX, MY = np.diag([-1.0, 1.0]), np.diag([1.0, -1.0])
SWAP = np.array([[0.0, 1.0], [1.0, 0.0]])
R4 = np.array([[0, -1.0, 0], [1, 0, 0], [0, 0, 1]])
DIAG = np.array([[0, 1.0, 0], [1, 0, 0], [0, 0, 1]])
CYC = np.array([[0, 0, 1.0], [1, 0, 0], [0, 1, 0]])


def draw(rng):
    k = rng.randint(6)
    s = float(rng.choice([1.0, 1.0, 2.0, 0.7]))
    if k == 0:
        vec, pool = [np.array([s])], [np.array([[-1.0]]), np.array([[1.0]])]
    elif k == 1:
        vec, pool = [np.array([s, 0]), np.array([0, s])], [rot(np.pi / 2), rot(np.pi), MX, MY, SWAP]
    elif k == 2:
        vec, pool = [np.array([s, 0]), np.array([0, 1.5 * s])], [rot(np.pi), MX, MY]
    elif k in (3, 4):
        vec = [np.array([s, 0]), np.array([s / 2, s * np.sqrt(3) / 2])]
        pool = [rot(np.pi / 3), rot(2 * np.pi / 3), rot(np.pi), MX, MY]
    else:
        vec, pool = list(s * np.eye(3)), [CYC, np.diag([-1.0, 1, 1]), np.diag([1.0, 1, -1]), -np.eye(3), R4, DIAG]
    gens = [pool[i].copy() for i in rng.choice(len(pool), rng.randint(1, min(3, len(pool)) + 1), replace=False)]
    d = len(vec)
    npos = int(rng.randint(1, 4)) if d < 3 else int(rng.randint(1, 3))
    special = [np.zeros(d), np.full(d, 0.5), np.r_[0.5, np.zeros(d - 1)], np.full(d, 1.0 / 3)]
    pos, seen = [], set()
    while len(pos) < npos:
        f = special[rng.randint(4)] if rng.rand() < 0.6 else rng.randint(0, 12, size=d) / 12.0
        key = tuple(np.round(f % 1.0, 6))
        if key in seen:
            continue
        seen.add(key)
        pos.append(sum(x * v for x, v in zip(f, vec)))
    base = [None, ['Up', 'Dn'], ['s']][rng.randint(3)]
    orbs = [base if rng.rand() < 0.7 else ['p', 'q'] for _ in pos]
    if rng.rand() < 0.2:
        # a second atom of another kind at the same place
        i = int(rng.randint(len(pos)))
        pos.append(pos[i].copy())
        orbs.append(['t', 'u'])
    n = int(rng.randint(1, 4)) if d < 3 else int(rng.randint(1, 3))
    return vec, pos, orbs, gens, n


def group_of(gens):
    d = len(gens[0])
    G = [np.eye(d)]
    for g in G:
        for h in gens:
            x = g @ h
            if not any(np.abs(x - y).max() < 1e-9 for y in G):
                G.append(x)
    return G


def draw_cubic(rng):
    """groups of up to 48 operations acting on atoms at generic positions"""
    s = float(rng.choice([1.0, 2.0, 0.7]))
    gens = [[CYC, R4], [CYC, R4, -np.eye(3)], [CYC, DIAG, np.diag([-1.0, 1, 1])], [CYC, np.diag([1.0, -1, -1])], [R4, DIAG, -np.eye(3)]][rng.randint(5)]
    gens = [gens[i].copy() for i in rng.permutation(len(gens))]
    f = [rng.choice(np.arange(1, 6), 3, replace=False) / 12.0 + rng.randint(0, 2, size=3) / 2.0,
         np.r_[rng.choice(np.arange(1, 6), 2, replace=False), 0] / 12.0, np.full(3, rng.randint(1, 6) / 12.0)][rng.choice(3, p=[0.6, 0.2, 0.2])]
    return list(s * np.eye(3)), [s * f], [[None, ['Up', 'Dn']][rng.randint(2)]], gens, 1


def cubic(ctx, rng, idx):
    symmetrize(ctx, rng, idx, draw_cubic, 400)


def symmetrize(ctx, rng, idx, draw=draw, most=120):
    vec, pos, orbs, gens, n = draw(rng)
    d = len(vec)
    grp = group_of(gens)
    if (n + 1) ** d * len(pos) * (1 if len(pos) == 1 else len(grp)) > 1200:
        raise Skip('big')
    inv = np.linalg.inv((n + 1) * np.array(vec))

    def key(p, o):
        c = p @ inv
        c = c - np.floor(c + 1e-6)
        return tuple(np.round(c, 5) + 0.0), tuple(o)
    want = set()
    for c in it.product(range(n + 1), repeat=d):
        for p, o in zip(pos, orbs):
            q = p + np.array(c) @ np.array(vec)
            for g in grp:
                want.add(key(g @ q, o or ['']))
    if len(want) > most:
        raise Skip('big')
    cell = qy.UnitCell([v.copy() for v in vec])
    for p, o in zip(pos, orbs):
        cell.add_atom(p.copy()) if o is None else cell.add_atom(p.copy(), orbitals=list(o))
    L = qy.Lattice(cell, tuple(int(x) for x in rng.randint(1, 3, size=d)), periodic_boundaries=(True,) * d)
    before = [(tuple(p), nm) for p, nm, _ in L]
    glist = [g.copy() for g in gens]
    kw = {} if n == 1 and rng.rand() < 0.5 else dict(num_expansions=n)
    new = qy.symmetrize_lattice(L, glist, **kw)
    ctx.check([(tuple(p), nm) for p, nm, _ in L] == before and np.allclose(L.unit_cell.lattice_vectors, vec)
              and len(L.unit_cell.atom_positions) == len(pos) and all(np.allclose(a, b) for a, b in zip(L.unit_cell.atom_positions, pos)),
              'input-modified', 'the given lattice was modified')
    ctx.check(len(glist) == len(gens) and all(np.array_equal(a, b) for a, b in zip(glist, gens)), 'generators-modified', 'generators modified')
    V = np.array([np.asarray(v, dtype=float) for v in new.unit_cell.lattice_vectors])
    ctx.check(V.shape == (d, d) and np.allclose(V, (n + 1) * np.array(vec)), 'vectors', lambda: '{} instead of {} times {}'.format(V, n + 1, vec))
    got = [key(np.asarray(p), o) for p, o in zip(new.unit_cell.atom_positions, new.unit_cell.atom_orbitals)]
    ctx.check(len(set(got)) == len(got), 'duplicates', 'equivalent atoms are repeated')
    what = lambda: 'vectors {} atoms {} generators {} expansions {}'.format(vec, pos, gens, n)
    ctx.check(want <= set(got), 'missing', lambda: what() + ': {} atoms missing'.format(len(want - set(got))))
    ctx.check(set(got) <= want, 'extra', lambda: what() + ': {} atoms too many'.format(len(set(got) - want)))
    ctx.check(len(new) == sum(len(o) for _, o in want), 'orbitals', lambda: '{} orbitals'.format(len(new)))
    # the group acts on the orbitals of the returned lattice
    for g in gens:
        t = qy.space_group_symmetry(new, g, np.zeros(d))
        ctx.check(isinstance(t, qy.Transformation), 'space-group', '')
    if len(got) > 1:
        ctx.seen(np.round(vec, 3).tolist(), np.round(pos, 3).tolist(), orbs, np.round(gens, 3).tolist(), n)
    if any(np.abs(g @ p - p).max() > 1e-9 for g in gens for p in pos):
        ctx.count('moved-atoms')
    if len(set(got)) > (n + 1) ** d * len(pos):
        ctx.count('atoms-added-by-symmetry')
    if len(set(k[0] for k in want)) < len(want):
        ctx.count('shared-places')
    if len(grp) > 24:
        ctx.count('large-groups')
    ctx.count('dim{}'.format(d))
    ctx.sample('{} -> {} atoms'.format(what(), len(got)))


FAMILIES = [Family('cubic', cubic, 24, 300, require=16), Family('symmetrize', symmetrize, 150, 1500, require=40)]
REQUIRED_COUNTERS = ['large-groups', 'dim1', 'dim2', 'dim3', 'moved-atoms', 'atoms-added-by-symmetry']
