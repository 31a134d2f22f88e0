"""Independent lattice geometry and lattice generators."""
import itertools as it
import numpy as np
import qosy as qy


class Spec:
    """What a lattice is documented to contain: its own copy of the geometry."""
    def __init__(self, vectors, atoms, names, num, periodic, make):
        self.vectors = [np.array(v, dtype=float) for v in vectors]
        self.atoms = [np.array(a, dtype=float) for a in atoms]
        self.names, self.num, self.periodic = names, tuple(num), tuple(bool(p) for p in periodic)
        self.make = make
        self.dim = len(self.vectors)
        self.periods = np.array([n * v for n, v in zip(self.num, self.vectors)])
        self.sites = []
        for cell in it.product(*[range(n) for n in self.num]):
            for a, ns in zip(self.atoms, self.names):
                for nm in ns:
                    self.sites.append((sum(c * v for c, v in zip(cell, self.vectors)) + a, nm, cell))

    def equiv(self, p, q, tol=1e-6):
        """p = q modulo periodic translations"""
        c = np.linalg.solve(self.periods.T, p - q)
        for x, per in zip(c, self.periodic):
            if per:
                x = x - round(x)
            if abs(x) > tol:
                return False
        return True

    def find(self, p, name):
        for i, (q, nm, _) in enumerate(self.sites):
            if nm == name and self.equiv(p, q):
                return i
        return -1

    def separation(self, p, name):
        """largest coordinate difference between p and the nearest image of an orbital of that name"""
        best = np.inf
        inv = np.linalg.inv(self.periods)
        for q, nm, _ in self.sites:
            if nm == name:
                c = (p - q) @ inv
                c = np.where(self.periodic, c - np.round(c), c)
                best = min(best, np.abs(c @ self.periods).max())
        return best

    def images(self, p, q):
        """how many images distance() enumerates, roughly"""
        g = np.linalg.norm(np.linalg.inv(self.periods), axis=0)
        d0 = np.linalg.norm(p - q)
        return np.prod([2 * d0 * x + 2 if per else 1 for x, per in zip(g, self.periodic)])

    def distance(self, p, q):
        """closest image, by wide enumeration (all images within the distance found so far)"""
        d0 = np.linalg.norm(p - q)
        inv = np.linalg.inv(self.periods)
        c = (p - q) @ inv
        g = np.linalg.norm(inv, axis=0)
        rng = [range(int(np.floor(-x - d0 * gg)) - 1, int(np.ceil(-x + d0 * gg)) + 2) if per else [0]
               for x, gg, per in zip(c, g, self.periodic)]
        n = np.array(list(it.product(*rng)), dtype=float)
        return float(np.linalg.norm((p - q) + n @ self.periods, axis=1).min())

    def distances(self):
        n = len(self.sites)
        D = np.zeros((n, n))
        for i in range(n):
            for j in range(i):
                D[i, j] = D[j, i] = self.distance(self.sites[i][0], self.sites[j][0])
        return D

    def desc(self):
        return '{}-dim {} cells, periodic {}, atoms {} names {}'.format(
            self.dim, self.num, self.periodic, [np.round(a, 3).tolist() for a in self.atoms], self.names)


S3 = np.sqrt(3.0)


def options(rng, p, names):
    """keyword arguments of a constructor, often leaving out what has its default value"""
    kw = {}
    if any(np.atleast_1d(p)) or rng.rand() < 0.4:
        kw['periodic_boundaries'] = p
    if names is not None or rng.rand() < 0.4:
        kw['orbital_names'] = names
    return kw


def chain_options(rng, p, names):
    kw = options(rng, p, names)
    if 'periodic_boundaries' in kw:
        kw['periodic'] = kw.pop('periodic_boundaries')
    return kw


def spec(rng, max_orb=24, kinds=None, odd_names=False):
    kinds = kinds or ['chain', 'square', 'cubic', 'kagome', 'custom', 'triangular', 'honeycomb']
    for _ in range(200):
        kind = kinds[rng.randint(len(kinds))]
        names = [None, ['Up', 'Dn'], ['A', 'B', 'C'], ['z', 'y', 'w', 'x', 'v'][:4 + rng.randint(2)]][rng.choice(4, p=[0.6, 0.22, 0.12, 0.06])]
        nm = names or ['']
        if kind == 'chain':
            n = rng.randint(1, 13)
            p = bool(rng.randint(2))
            s = Spec([[1.0]], [[0.0]], [nm], (n,), (p,), lambda n=n, kw=chain_options(rng, p, names): qy.lattice.chain(n, **kw))
        elif kind == 'square':
            n = (rng.randint(1, 6), rng.randint(1, 6))
            p = (bool(rng.randint(2)), bool(rng.randint(2)))
            s = Spec(np.eye(2), [[0.0, 0.0]], [nm], n, p, lambda n=n, kw=options(rng, p, names): qy.lattice.square(n[0], n[1], **kw))
        elif kind == 'cubic':
            d = rng.randint(1, 4)
            n = tuple(int(x) for x in rng.randint(1, 4, size=d))
            p = tuple(bool(x) for x in rng.randint(0, 2, size=d))
            s = Spec(np.eye(d), [np.zeros(d)], [nm], n, p, lambda d=d, n=n, kw=options(rng, p, names): qy.lattice.cubic(d, n, **kw))
        elif kind == 'kagome':
            n = [(rng.randint(1, 4), rng.randint(1, 4)), (1, rng.randint(4, 9)), (rng.randint(5, 7), rng.randint(6, 9))][rng.randint(2 if max_orb < 110 else 3)]
            p = (bool(rng.randint(2)), bool(rng.randint(2)))
            a1, a2 = np.array([1.0, 0.0]), np.array([0.5, S3 / 2])
            s = Spec([a1, a2], [np.zeros(2), a1 / 2, a2 / 2], [nm] * 3, n, p,
                     lambda n=n, kw=options(rng, p, names): qy.lattice.kagome(n[0], n[1], **kw))
        else:
            if kind == 'triangular':
                vec, atoms = [np.array([1.0, 0.0]), np.array([0.5, S3 / 2])], [np.zeros(2)]
            elif kind == 'honeycomb':
                vec = [np.array([S3, 0.0]), np.array([S3 / 2, 1.5])]
                atoms = [np.zeros(2), np.array([S3 / 2, 0.5])]
            else:
                d = 3 if kind == 'custom3' else rng.randint(1, 3)
                while True:
                    M = np.round(rng.uniform(-2, 2, size=(d, d)), 2)
                    if abs(np.linalg.det(M)) > 0.5:
                        break
                vec = list(M)
                fr = rng.choice(20, rng.randint(1, 4), replace=False) / 20.0
                atoms = [sum(f * v for f, v in zip(np.roll([f0] + [(f0 * 3) % 1.0] * (d - 1), 0), vec)) for f0 in fr]
            if rng.rand() < 0.3:        # atoms that are not between the lattice vectors
                atoms = [a + sum(int(rng.randint(-3, 4)) * v for v in vec) for a in atoms]
            ns = [[nm, ['p', 'q'], [3, (1, 2)]][rng.randint(3)] if kind[:6] == 'custom' else nm for _ in atoms]
            if odd_names and rng.rand() < 0.5:      # names that are almost the same
                odd = [['d ', 'd', ' d'], ['a', 'A'], ['1', 1], ['', 'p'], [(1, 2), '(1, 2)', (2, 1)], ['up', 'upper', 'Up'], ['x\u0301', '\u00e9', 'e']][rng.randint(7)]
                ns = [list(odd) if rng.rand() < 0.7 else odd[:1] for _ in atoms]
            d = len(vec)
            n = tuple(int(x) for x in rng.randint(1, {1: 6, 2: 5, 3: 4}[d], size=d))
            p = tuple(bool(x) for x in rng.randint(0, 2, size=d))

            def make(vec=vec, atoms=atoms, ns=ns, n=n, p=p, omit=rng.rand() < 0.6):
                c = qy.UnitCell([np.array(v) for v in vec])
                for a, o in zip(atoms, ns):
                    if o == ['']:
                        c.add_atom(np.array(a))
                    else:
                        c.add_atom(np.array(a), orbitals=list(o))
                return qy.Lattice(c, n) if omit and not any(p) else qy.Lattice(c, n, periodic_boundaries=p)
            s = Spec(vec, atoms, ns, n, p, make)
        if 1 <= len(s.sites) <= max_orb:
            return s
    raise RuntimeError('no lattice drawn')


def big(rng, lo=20, hi=72):
    """Larger lattices of the named kinds, for what only shows with more cells or orbitals."""
    a1, a2 = np.array([1.0, 0.0]), np.array([0.5, S3 / 2])
    for _ in range(500):
        nm = [[''], ['Up', 'Dn']][rng.choice(2, p=[0.75, 0.25])]
        names = None if nm == [''] else nm
        kind = rng.randint(4)
        if kind == 0:
            n = int(rng.randint(lo // 2, hi))
            p = bool(rng.rand() < 0.7)
            s = Spec([[1.0]], [[0.0]], [nm], (n,), (p,), lambda n=n, kw=chain_options(rng, p, names): qy.lattice.chain(n, **kw))
        elif kind == 1:
            n = tuple(int(x) for x in rng.randint(2, 14, size=2))
            p = tuple(bool(x) for x in rng.rand(2) < 0.6)
            s = Spec(np.eye(2), [[0.0, 0.0]], [nm], n, p, lambda n=n, kw=options(rng, p, names): qy.lattice.square(n[0], n[1], **kw))
        elif kind == 2:
            n = tuple(int(x) for x in rng.randint(2, 5, size=3))
            p = tuple(bool(x) for x in rng.rand(3) < 0.6)
            s = Spec(np.eye(3), [np.zeros(3)], [nm], n, p, lambda n=n, kw=options(rng, p, names): qy.lattice.cubic(3, n, **kw))
        else:
            n = tuple(int(x) for x in rng.randint(2, 7, size=2))
            p = tuple(bool(x) for x in rng.rand(2) < 0.6)
            s = Spec([a1, a2], [np.zeros(2), a1 / 2, a2 / 2], [nm] * 3, n, p,
                     lambda n=n, kw=options(rng, p, names): qy.lattice.kagome(n[0], n[1], **kw))
        if lo <= len(s.sites) <= hi:
            return s
    raise RuntimeError('no lattice drawn')
