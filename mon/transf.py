"""Transformations together with an independent description of what they do.

A Spec holds the qosy Transformation and `image(ops, labels, typ)`: the polynomial of the
transformed operator, obtained from the documented action on single orbital operators.
"""
import numpy as np
import qosy as qy
from . import oracle as O
from . import gen as G


class Spec:
    def __init__(self, name, transform, single, anti=False, types=('Pauli', 'Majorana')):
        self.name, self.transform, self.single, self.anti, self.types = name, transform, single, anti, types

    def image(self, ops, labels, typ):
        """polynomial of U h U^-1 for the string h"""
        out = dict(O.ONE)
        for o, l in zip(ops, labels):
            P = {}
            for c, o2, l2 in self.single(typ, str(o), int(l)):
                P = O.padd(P, O.single(o2, l2), c)
            out = O.pmul(out, P)
        pf = O.maj_prefactor(ops) if typ == 'Majorana' else 1.0
        return O.pscale(out, np.conj(pf) if self.anti else pf)

    def image_os(self, s):
        return self.image([str(o) for o in s.orbital_operators], [int(l) for l in s.orbital_labels], s.op_type)

    def image_op(self, op):
        out = {}
        for c, s in op:
            out = O.padd(out, self.image_os(s), c)
        return O.pclean(out, 1e-14)

    def then(self, other, transform, name):
        """Spec of `other` applied after self."""
        def single(typ, o, l):
            out = []
            for c, o2, l2 in self.single(typ, o, l):
                for c2, o3, l3 in other.single(typ, o2, l2):
                    out.append((c * c2, o3, l3))
            return out
        return Spec(name, transform, single, self.anti != other.anti, tuple(t for t in self.types if t in other.types))


def time_reversal():
    sg = {'X': -1, 'Y': -1, 'Z': -1, 'A': 1, 'B': -1, 'D': 1}
    return Spec('T', qy.time_reversal(), lambda typ, o, l: [(sg[o], o, l)], anti=True)


def particle_hole(rng):
    f = [qy.particle_hole, qy.charge_conjugation][rng.randint(2)]
    sg = {'A': 1, 'B': -1, 'D': -1}
    return Spec('C', f(), lambda typ, o, l: [(sg[o], o, l)], types=('Majorana',))


def permutation(rng, n, perm=None):
    perm = [int(x) for x in (rng.permutation(n) if perm is None else perm)]
    arg = [list(perm), np.array(perm)][rng.randint(2)]
    return Spec('perm{}'.format(perm), qy.label_permutation(arg), lambda typ, o, l: [(1.0, o, perm[l])])


def rotation(rng, axis=None, theta=None):
    """user-written rule: rotation of all spins about one axis (each string becomes many)"""
    axis = axis or 'XYZ'[rng.randint(3)]
    a, b = {'X': ('Y', 'Z'), 'Y': ('Z', 'X'), 'Z': ('X', 'Y')}[axis]
    if theta is None:
        theta = [np.pi / 2, np.pi, 2 * np.pi / 3, 0.4321, np.pi / 4, -1.1][rng.randint(6)]
    c, s = np.cos(theta), np.sin(theta)
    rule1 = {axis: [(1.0, axis)], a: [(c, a), (s, b)], b: [(c, b), (-s, a)]}

    def rule(op_string, info):
        terms = [(1.0, [])]
        for o, l in op_string:
            terms = [(k * k2, ops + [o2]) for k, ops in terms for k2, o2 in rule1[str(o)]]
        labs = [int(l) for _, l in op_string]
        return qy.Operator([k for k, _ in terms], [qy.OperatorString(list(ops), labs, 'Pauli') for _, ops in terms])
    return Spec('rot{}({:.3f})'.format(axis, theta), qy.Transformation(rule, theta),
                lambda typ, o, l: [(k, o2, l) for k, o2 in rule1[o]], types=('Pauli',))


def spinful_lattice(rng, max_orb=8):
    up, dn = [('Up', 'Dn'), ('up', 'down'), ('s+', 's-'), ('(Up)', '(Dn)')][rng.randint(4)]
    # any name that contains the name of the spin: 'Up', 'p Up', 'pUp', 'Up1', '3_Up_x'
    around = [[('', '')], [('p ', ''), ('q ', '')], [('p', ''), ('q', '')], [('', '1'), ('', '2')], [('3_', '_x')]][rng.randint(5)]
    names, other, updn = [], {}, {}
    for a, b in around:
        pair = [a + up + b, a + dn + b]
        other.update({pair[0]: pair[1], pair[1]: pair[0]})
        updn.update({pair[0]: +1, pair[1]: -1})
        if rng.rand() < 0.3:
            pair = pair[::-1]
        names += pair
    if rng.rand() < 0.3:
        names = [names[i] for i in rng.permutation(len(names))]
    n = rng.randint(1, max(2, max_orb // len(names) + 1))
    L = qy.lattice.chain(n, periodic=bool(rng.randint(2)), orbital_names=list(names))
    spin, partner = {}, {}
    orbs = [(float(p[0]), nm) for p, nm, _ in L]
    for i, (p, nm) in enumerate(orbs):
        spin[i] = updn[nm]
        partner[i] = orbs.index((p, other[nm]))
    return L, up, dn, spin, partner


def spin_specs(rng):
    """(number of orbitals, [specs]) for spinful transformations"""
    L, up, dn, spin, partner = spinful_lattice(rng)
    default = (up, dn) == ('Up', 'Dn')
    kw = {} if default else dict(up_name=up, dn_name=dn)
    flip = Spec('spin flip', qy.spin_flip_symmetry(L, **kw), lambda typ, o, l: [(1.0, o, partner[l])])
    par = Spec('spin parity', qy.spin_parity_symmetry(L, **kw),
               lambda typ, o, l: [(-1.0 if spin[l] < 0 and o in ('A', 'B') else 1.0, o, l)], types=('Majorana',))
    info = L if default and rng.rand() < 0.5 else (L, up, dn)

    def tr(typ, o, l):
        s = {'A': 1, 'B': -1, 'D': 1}[o]
        if spin[l] < 0 and o in ('A', 'B'):
            s = -s
        return [(s, o, partner[l])]
    T = Spec('spinful T', qy.time_reversal(info), tr, anti=True, types=('Majorana',))
    return len(L), [flip, par, T]


def space_group(rng):
    from . import lat
    for _ in range(50):
        sp = lat.spec(rng, max_orb=9, kinds=['chain', 'square', 'kagome', 'triangular', 'custom', 'honeycomb'])
        if len(sp.sites) < 2:
            continue
        L = sp.make()
        orbs = [(np.array(p), nm) for p, nm, _ in L]
        d = sp.dim
        for _ in range(10):
            k = rng.randint(3)
            if k == 0:
                R, t = np.eye(d), sum(int(rng.randint(-3, 4)) * v for v in sp.vectors)
            elif k == 1:
                R, t = -np.eye(d), orbs[rng.randint(len(orbs))][0] + orbs[rng.randint(len(orbs))][0]
            elif d == 2:
                a = [np.pi / 2, np.pi / 3, 2 * np.pi / 3][rng.randint(3)]
                R = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
                c = orbs[rng.randint(len(orbs))][0]
                t = c - R @ c
            else:
                continue
            perm = []
            for p, nm in orbs:
                m = [j for j, (q, n2) in enumerate(orbs) if n2 == nm and sp.equiv(q, R @ p + t)]
                perm.append(m[0] if m else -1)
            if -1 in perm or len(set(perm)) < len(perm) or (perm == list(range(len(perm))) and rng.rand() < 0.8):
                continue
            out = Spec('space group {} on {}'.format(perm, sp.desc()), qy.space_group_symmetry(L, R, t),
                       lambda typ, o, l, perm=perm: [(1.0, o, perm[l])])
            out.perm = perm
            return len(orbs), out
    out = permutation(rng, 3, [1, 2, 0])
    out.perm = [1, 2, 0]
    return 3, out


def draw(rng, typ, n=None, nmax=5, compose=True):
    """A random transformation for strings of the given type: (n_orbitals, Spec)."""
    for _ in range(100):
        style = rng.randint(7)
        if style <= 1:
            m = n or rng.randint(2, nmax + 1)
            sp = permutation(rng, m)
        elif style == 2:
            m, sp = n or rng.randint(1, nmax + 1), time_reversal()
        elif style == 3:
            m, sp = n or rng.randint(1, nmax + 1), particle_hole(rng)
        elif style == 4 and typ == 'Pauli' and (n is None or n <= 3):      # (images grow as 2^n)
            m, sp = n or rng.randint(1, 4), rotation(rng)
        elif style == 5:
            m, sps = spin_specs(rng)
            sp = sps[rng.randint(3)]
        elif style == 6:
            m, sp = space_group(rng)
        else:
            continue
        if typ not in sp.types or (n is not None and m != n) or m > nmax + 3:
            continue
        if compose and rng.rand() < 0.3:
            m2, sp2 = draw(rng, typ, n=m, nmax=nmax, compose=False)
            return m, sp2.then(sp, sp.transform * sp2.transform, '({}) * ({})'.format(sp.name, sp2.name))
        if compose and rng.rand() < 0.2:
            k = rng.randint(0, 4)
            r, nm = None, sp.name
            cur = Spec('1', None, lambda typ, o, l: [(1.0, o, l)])
            for _ in range(k):
                cur = cur.then(sp, None, '')
            cur.transform, cur.name, cur.types = sp.transform ** k, '({})**{}'.format(sp.name, k), sp.types
            return m, cur
        return m, sp
    return (n or 3), permutation(rng, n or 3)
