"""C18  states: transformations, reduced density matrices, entropies."""
import itertools as it
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import transf as T
from .. import lat

PROP = 'C18'
RULE = ('A case draws states of up to 11 spins (random, product, entangled, basis states), permutations or subsystems in any '
        'order, and compares transformed states with transformed operators, reduced density matrices with all expectation values '
        'of the subsystem, and entropies with the spectrum of independently computed density matrices. Non-trivial = the '
        'permutation is not the identity, or the state is entangled across the cut.')
ASSUMPTIONS = ['at most 11 orbitals', 'Renyi index is an integer of at least two']


def state(rng, n):
    D = 2 ** n
    k = rng.randint(4)
    if k == 0:
        v = np.zeros(D, dtype=complex)
        v[rng.randint(D)] = 1.0
    elif k == 1:
        v = np.ones(1, dtype=complex)
        for _ in range(n):
            w = rng.normal(size=2) + 1j * rng.normal(size=2)
            v = np.kron(v, w / np.linalg.norm(w))
    elif k == 2:
        v = np.zeros(D)
        for i in rng.randint(0, D, size=3):
            v[i] += 1.0
    else:
        v = rng.normal(size=D) + 1j * rng.normal(size=D)
    v = v / np.linalg.norm(v)
    if rng.rand() < 0.1:
        v = v.real / max(np.linalg.norm(v.real), 1e-9)
    elif rng.rand() < 0.15:              # nearly real, or with a few small components
        v = v.real + 10 ** rng.uniform(-8, -2) * (1j * rng.normal(size=D) if rng.rand() < 0.5 else (rng.rand(D) < 0.3))
        v = v / np.linalg.norm(v)
    return v


def bits(conf, n):
    return [(conf >> (n - 1 - j)) & 1 for j in range(n)]


def conf_of(bs):
    c = 0
    for b in bs:
        c = 2 * c + b
    return c


def permute(ctx, rng, idx):
    if idx % 3 == 0:
        sp = None
        for _ in range(60):
            L0 = lat.spec(rng, max_orb=6)
            L = L0.make()
            n = len(L0.sites)
            try:
                R, d = -np.eye(L0.dim), L0.sites[0][0] + L0.sites[rng.randint(n)][0]
                if rng.rand() < 0.5:
                    R, d = np.eye(L0.dim), L0.vectors[0]
                t = qy.space_group_symmetry(L, R, d)
                perm = [L0.find(R @ p + d, nm) for p, nm, _ in L]
                break
            except ValueError:
                continue
        else:
            raise Skip('no symmetry drawn')
        if -1 in perm:
            raise Skip('rounding')
        order = [L0.find(np.array(p), nm) for p, nm, _ in L]
        if order != list(range(n)):
            raise Skip('order of the orbitals differs')
        ctx.count('space-group')
    else:
        n = int(rng.randint(1, 7))
        perm = [int(x) for x in rng.permutation(n)]
        t = qy.label_permutation([perm, np.array(perm), tuple(perm)][rng.randint(3)])
    v = state(rng, n)
    v0 = v.copy()
    u = qy.apply_transformation(t, v, n)
    ctx.check(np.array_equal(v, v0), 'mutated', 'the state was modified')
    D = 2 ** n
    want = np.zeros(D, dtype=complex)
    for c in range(D):
        b = bits(c, n)
        nb = [0] * n
        for j in range(n):
            nb[perm[j]] = b[j]
        want[conf_of(nb)] = v[c]
    what = lambda: 'permutation {} on {} orbitals'.format(perm, n)
    ctx.check(np.shape(u) == (D,) and np.abs(u - want).max() < 1e-12, 'image', what)
    # consistent with the action on operators: U O v = (U O U^-1) U v
    for _ in range(3):
        s = G.opstring(rng, 'Pauli', list(range(n)))
        M = O.poly_dense(O.os_poly(s), n)
        Mt = O.poly_dense(O.op_poly(t.apply(s)), n)
        ctx.check(np.abs(qy.apply_transformation(t, M @ v, n) - Mt @ u).max() < 1e-9, 'covariance', lambda: what() + ' ' + str(s))
    perm2 = [int(x) for x in rng.permutation(n)]
    t2 = qy.label_permutation(perm2)
    both = qy.label_permutation([perm2[perm[j]] for j in range(n)])
    ctx.check(np.abs(qy.apply_transformation(t2, u, n) - qy.apply_transformation(both, v, n)).max() < 1e-12, 'composition', what)
    if perm != list(range(n)):
        ctx.seen(perm, np.round(v, 3).tolist())
    # things that are not permutations of the orbitals are rejected
    bad = [lambda: qy.apply_transformation(qy.time_reversal(), v, n), lambda: qy.apply_transformation(qy.particle_hole(), v, n),
           lambda: qy.apply_transformation(qy.label_permutation(list(range(n + 1))), v, n)][rng.randint(3)]
    ctx.raises(Exception, 'invalid-accepted', bad)
    if n > 1:
        wrong = list(perm)
        i, j = (int(x) for x in rng.choice(n, 2, replace=False))
        wrong[i] = [wrong[j], n, -1 - perm[i], 2 * n + 1][rng.randint(4)]
        tw = qy.label_permutation(np.array(wrong))
        ctx.raises(ValueError, 'not-a-permutation', lambda: qy.apply_transformation(tw, v, n))
        ctx.raises(ValueError, 'not-a-permutation', lambda: apply_conf(tw, int(rng.randint(D)), n))
        # a permutation of another number of orbitals
        ctx.raises(ValueError, 'wrong-size', lambda: qy.apply_transformation(t, state(rng, n + 1), n + 1))
        ctx.raises(ValueError, 'wrong-size', lambda: apply_conf(t, 0, n - 1))
        ctx.count('rejected-permutations')
    if rng.rand() < 0.3:
        L = qy.Lattice(_one_site(), (1,))
        w = state(rng, 2)
        ctx.raises(Exception, 'invalid-accepted', lambda: qy.apply_transformation(qy.spin_parity_symmetry(L), w, 2))
    ctx.sample(what())


def _one_site():
    c = qy.UnitCell([np.array([1.0])])
    c.add_atom(np.array([0.0]), orbitals=['Up', 'Dn'])
    return c


def rdm(v1, v2, A, n):
    """independent: tr over the complement of |v1><v2|, by reshaping tensors"""
    B = [j for j in range(n) if j not in A]
    t1 = v1.reshape([2] * n).transpose(list(A) + B).reshape(2 ** len(A), -1)
    t2 = v2.reshape([2] * n).transpose(list(A) + B).reshape(2 ** len(A), -1)
    return t1 @ t2.conj().T


def density(ctx, rng, idx):
    n = int(rng.randint(1, 7))
    v = state(rng, n)
    k = int(rng.randint(0, n + 1))
    A = [int(x) for x in rng.choice(n, k, replace=False)]
    arg = [A, tuple(A), np.array(A, dtype=int)][rng.randint(3)]
    v0 = v.copy()
    rho = qy.reduced_density_matrix(v, arg, n)
    ctx.check(np.array_equal(v, v0), 'mutated', 'the state was modified')
    want = rdm(v, v, A, n)
    what = lambda: 'subsystem {} of {} orbitals'.format(A, n)
    ctx.check(np.shape(rho) == (2 ** k, 2 ** k) and np.abs(rho - want).max() < 1e-11, 'matrix', what)
    ctx.check(abs(np.trace(rho) - 1) < 1e-10 and np.abs(rho - rho.conj().T).max() < 1e-11 and np.linalg.eigvalsh(rho).min() > -1e-10, 'state', what)
    for _ in range(3):
        m = int(rng.randint(0, k + 1))
        pos = sorted(int(x) for x in rng.choice(k, m, replace=False)) if m else []
        names = ['XYZ'[rng.randint(3)] for _ in pos]
        lab = [A[p] for p in pos]
        o = np.argsort(lab)
        s = qy.OperatorString([names[i] for i in o], [lab[i] for i in o], 'Pauli')
        small = qy.OperatorString(names, pos, 'Pauli')
        full = (v.conj() @ (qy.to_matrix(s, n) @ v)).real
        got = np.trace(rho @ qy.to_matrix(small, k).toarray()).real if k else np.trace(rho).real
        ctx.check(abs(full - got) < 1e-9, 'expectation', lambda: what() + ' ' + str(s))
    w = state(rng, n)
    x = qy.reduced_density_matrix((v, w), arg, n)
    ctx.check(np.abs(x - rdm(v, w, A, n)).max() < 1e-11, 'two-states', what)
    near = v + 10.0 ** rng.uniform(-10, -4) * w         # a state that differs little, and the same state with a phase
    for u in (near, v * np.exp(1j * 10.0 ** rng.uniform(-9, 0))):
        x = qy.reduced_density_matrix((v, u), arg, n)
        ctx.check(np.abs(x - rdm(v, u, A, n)).max() < 1e-13, 'near-states', what)
    ctx.raises(Exception, 'invalid-input', qy.reduced_density_matrix, 'nonsense', arg, n)
    # entropies
    B = [j for j in range(n) if j not in A]
    rhoB = qy.reduced_density_matrix(v, B, n)
    p = np.linalg.eigvalsh(want)
    p = p[p > 1e-14]
    last = None
    for q in (2, 3, 4, 5, 6, 8, 11):
        r0 = rho.copy()
        S = qy.renyi_entropy(rho, n=q) if q != 2 or rng.rand() < 0.5 else qy.renyi_entropy(rho)
        ctx.check(np.array_equal(rho, r0), 'mutated', 'the density matrix was modified')
        ctx.check(abs(S - np.log((p ** q).sum()) / (1 - q)) < 1e-8, 'entropy', lambda: what() + ' S_{} = {}'.format(q, S))
        ctx.check(abs(S - qy.renyi_entropy(rhoB, n=q)) < 1e-8, 'entropy-complement', what)
        ctx.check(-1e-9 <= S <= min(k, n - k) * np.log(2) + 1e-9, 'entropy-range', what)
        ctx.check(last is None or S <= last + 1e-9, 'entropy-monotone', what)
        last = S
    if len(p) > 1:
        ctx.seen(n, A, np.round(v, 4).tolist())
        ctx.count('entangled')
    ctx.sample(what())


def entropies(ctx, rng, idx):
    """density matrices with a known spectrum, turned into another basis; small and large orders"""
    d = int(rng.choice([1, 2, 3, 4, 8, 16, 32]))
    style = rng.randint(4)
    if style == 0:
        p = np.full(d, 1.0 / d)
    elif style == 1:
        p = rng.rand(d) + 0.05
    elif style == 2:
        p = np.exp(-rng.uniform(0.1, 8) * np.arange(d))     # thermal
    else:
        p = np.zeros(d)
        p[:rng.randint(1, d + 1)] = 1.0
    p = p / p.sum()
    U = np.linalg.qr(rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d)))[0]
    if rng.rand() < 0.3:
        U = np.eye(d)[rng.permutation(d)]
    rho = (U * p) @ U.conj().T
    if rng.rand() < 0.2 and np.abs(rho.imag).max() == 0:
        rho = rho.real
    q = int(rng.choice([2, 3, 4, 5, 7, 10, 16, 25, 40]))
    S = qy.renyi_entropy(rho.copy(), n=q)
    lp = np.log(p[p > 0])
    want = (q * lp.max() + np.log(np.exp(q * (lp - lp.max())).sum())) / (1 - q)
    ctx.check(np.ndim(S) == 0 and abs(S - want) < 1e-9 * max(1, q), 'entropy-known', lambda: 'S_{} of the spectrum {}: {} expected {}'.format(q, p, S, want))
    ctx.count('entropy-order-{}'.format('small' if q < 10 else 'large'))
    ctx.seen(idx, d, q)


def wide(ctx, rng, idx):
    """more spins; states that are not normalized; real and integer states"""
    n = int(rng.randint(6, 12))
    D = 2 ** n
    v = state(rng, n)
    if rng.rand() < 0.4:
        v = v * 10.0 ** rng.uniform(-4, 4)
    if rng.rand() < 0.15:
        v = rng.randint(-3, 4, size=D)
        v[rng.randint(D)] = 1
    perm = [int(x) for x in rng.permutation(n)]
    if rng.rand() < 0.3:
        perm = list(np.roll(np.arange(n), int(rng.randint(1, n))))
    big = max(1e-300, np.abs(v).max())
    what = lambda: 'permutation {} on {} orbitals'.format(perm, n)
    if n <= 9:                  # (2^n n steps of python)
        t = qy.label_permutation(np.array(perm))
        u = qy.apply_transformation(t, v, n)
        # tensor axis j of v becomes axis perm[j] of u
        want = np.moveaxis(np.asarray(v).reshape([2] * n), list(range(n)), perm).reshape(D)
        ctx.check(np.shape(u) == (D,) and np.abs(u - want).max() < 1e-12 * big, 'image', what)
        for c in rng.randint(0, D, size=6):
            got = apply_conf(t, int(c), n)
            bs = bits(int(c), n)
            nb = [0] * n
            for j in range(n):
                nb[perm[j]] = bs[j]
            ctx.check(got == conf_of(nb), 'configuration', lambda: what() + ': {} -> {} expected {}'.format(c, got, conf_of(nb)))
        ctx.count('wide-permutations')
    k = int(rng.randint(0, n + 1))
    A = [int(x) for x in rng.choice(n, k, replace=False)]
    rho = qy.reduced_density_matrix(v, A, n)
    vv = np.asarray(v, dtype=complex)
    what = lambda: 'subsystem {} of {} orbitals'.format(A, n)
    want = rdm(vv, vv, A, n)
    ctx.check(np.shape(rho) == (2 ** k, 2 ** k) and np.abs(rho - want).max() < 1e-11 * np.linalg.norm(vv) ** 2, 'matrix', what)
    w = state(rng, n)
    x = qy.reduced_density_matrix((v, w), A, n)
    ctx.check(np.abs(x - rdm(vv, w, A, n)).max() < 1e-11 * np.linalg.norm(vv), 'two-states', what)
    p = np.linalg.eigvalsh(rho) / np.linalg.norm(vv) ** 2
    p = p[p > 1e-14]
    rn = rho / np.linalg.norm(vv) ** 2
    for q in (2, 3, 7):
        S = qy.renyi_entropy(rn, n=q)
        ctx.check(abs(S - np.log((p ** q).sum()) / (1 - q)) < 1e-8, 'entropy', lambda: what() + ' S_{} = {}'.format(q, S))
        # of a matrix that is not normalized: the same formula
        S = qy.renyi_entropy(2.5 * rn, n=q)
        ctx.check(abs(S - np.log((2.5 ** q * p ** q).sum()) / (1 - q)) < 1e-8, 'entropy-unnormalized', lambda: what() + ' S_{} = {}'.format(q, S))
    ctx.count('orbitals {}'.format(n))
    ctx.seen('wide', n, perm, A)
    ctx.sample(what())


def apply_conf(t, conf, n):
    from qosy.diagonalization import apply_transformation_conf
    return apply_transformation_conf(t, conf, n)


def configurations(ctx, rng, idx):
    """single configurations of many orbitals"""
    n = int(rng.randint(10, 130))
    perm = [int(x) for x in rng.permutation(n)]
    if idx % 2:
        L = qy.lattice.chain(n, periodic=True)
        R, d = int(rng.choice([1, -1])), int(rng.randint(0, n))
        perm = [(R * l + d) % n for l in range(n)]
        t = qy.space_group_symmetry(L, np.array([[float(R)]]), np.array([float(d)]))
    else:
        t = qy.label_permutation([perm, tuple(perm), np.array(perm)][rng.randint(3)])
    for _ in range(8):
        bs = [int(b) for b in (rng.rand(n) < rng.choice([0.05, 0.5, 0.95]))]
        bs[0] |= int(rng.randint(2))
        nb = [0] * n
        for j in range(n):
            nb[perm[j]] = bs[j]
        c = conf_of(bs)
        got = apply_conf(t, c, n)
        ctx.check(got == conf_of(nb), 'long-configuration', lambda: '{} orbitals, permutation {}: {} -> {} expected {}'.format(n, perm, c, got, conf_of(nb)))
        back = got
        if idx % 3 == 0:
            inv = [0] * n
            for j in range(n):
                inv[perm[j]] = j
            back = apply_conf(qy.label_permutation(inv), got, n)
            ctx.check(back == c, 'inverse', lambda: '{} orbitals'.format(n))
    ctx.count('beyond-64', int(n > 64))
    ctx.seen('c', n, perm)


FAMILIES = [
    Family('configurations', configurations, 60, 1000, require=50),
    Family('entropies', entropies, 150, 3000, require=60),
    Family('wide', wide, 40, 700, require=20),
    Family('permute', permute, 250, 4000, require=100),
    Family('density', density, 250, 4000, require=100),
]
REQUIRED_COUNTERS = ['beyond-64', 'rejected-permutations', 'wide-permutations', 'entangled', 'space-group']
