"""Seeded generators of qosy objects (ordinary and hostile shapes)."""
import numpy as np
import qosy as qy
from .oracle import PAULI, MAJ


def label_pool(rng, n=None, hostile=True):
    """A sorted list of distinct orbital labels."""
    if n is None:
        n = rng.randint(1, 7)
    style = rng.randint(5 if hostile else 1)
    if style == 0:
        return list(range(n))
    if style == 1:
        s = rng.randint(1, 5)
        return list(range(s, s + n))
    if style == 2:
        return sorted(int(x) for x in rng.choice(4 * n + 4, n, replace=False))
    if style == 3:
        return sorted(int(x) for x in rng.choice(130, n, replace=False))
    # labels around 9/10 and 99/100 (textual order differs from numeric order)
    pool = [0, 1, 2, 8, 9, 10, 11, 12, 19, 20, 21, 98, 99, 100, 101, 110]
    return sorted(int(x) for x in rng.choice(pool, min(n, len(pool)), replace=False))


def opstring(rng, typ, pool, k=None, min_k=0):
    """Random Pauli or Majorana string on labels of pool."""
    if k is None:
        k = rng.randint(min_k, len(pool) + 1)
    labels = sorted(int(x) for x in rng.choice(pool, k, replace=False)) if k else []
    names = PAULI if typ == 'Pauli' else MAJ
    ops = [names[rng.randint(3)] for _ in labels]
    return make(ops, labels, typ)


def make(ops, labels, typ, prefactor=None):
    if prefactor is None:
        return qy.OperatorString(ops, labels, typ)
    return qy.OperatorString(ops, labels, typ, prefactor)


def fermion_string(rng, pool, max_k=3, reversed_c=None):
    """Fermion string in the documented convention."""
    m = rng.randint(1, min(max_k, len(pool)) + 1)
    I = sorted(int(x) for x in rng.choice(pool, m, replace=False))
    if rng.rand() < 0.3:
        return make(['CDag'] * m + ['C'] * m, I + I[::-1], 'Fermion')
    for _ in range(50):
        l = rng.randint(0, m + 1)
        J = sorted(int(x) for x in rng.choice(pool, l, replace=False)) if l else []
        if (len(I), I) > (len(J), J):
            break
    else:
        return make(['CDag'] * m + ['C'] * m, I + I[::-1], 'Fermion')
    pf = [1.0, 1j][rng.randint(2)]
    # documented: c^dag_{i1}..c^dag_{im} c_{jl}..c_{j1}
    return make(['CDag'] * m + ['C'] * l, I + J[::-1], 'Fermion', pf)


def coeff(rng, complex_=False):
    style = rng.randint(4)
    if style == 0:
        c = float(rng.randint(1, 5) * rng.choice([-1, 1]))
    elif style == 1:
        c = float(rng.choice([0.5, -0.5, 0.25, 1.0, -1.0]))
    else:
        c = float(rng.uniform(0.2, 2.0) * rng.choice([-1, 1]))
    if complex_:
        c = c + 1j * float(rng.uniform(-2, 2))
    return c


def distinct_strings(rng, typ, pool, n, min_k=0, max_k=None):
    out, seen = [], set()
    tries = 0
    while len(out) < n and tries < 20 * n + 20:
        tries += 1
        k = rng.randint(min_k, (max_k if max_k is not None else len(pool)) + 1)
        k = min(k, len(pool))
        s = opstring(rng, typ, pool, k)
        key = tuple(zip([str(o) for o in s.orbital_operators], [int(l) for l in s.orbital_labels]))
        if key in seen:
            continue
        seen.add(key)
        out.append(s)
    return out


def operator(rng, typ, pool, n=None, complex_=None, min_k=0, max_k=None, wide=False):
    if n is None:
        n = rng.randint(1, 6)
    if complex_ is None:
        complex_ = rng.rand() < 0.3
    strs = distinct_strings(rng, typ, pool, n, min_k, max_k)
    cs = [coeff(rng, complex_) for _ in strs]
    if wide:                    # coefficients over many orders of magnitude
        cs = [c * 10.0 ** rng.uniform(-7, 4) if rng.rand() < 0.6 else c for c in cs]
    if rng.rand() < 0.5:
        cs = np.array(cs)
    return qy.Operator(cs, strs, op_type=typ)


def desc(op):
    if isinstance(op, qy.Operator):
        return ' + '.join('({:.4g}{:+.3g}j)[{}]'.format(complex(c).real, complex(c).imag, str(s).strip()) for c, s in op)
    return str(op)


def key_of(s):
    return (s.op_type, str(complex(s.prefactor)),
            tuple(zip([str(o) for o in s.orbital_operators], [int(l) for l in s.orbital_labels])))
