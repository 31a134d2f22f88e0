"""C13  Lie algebra generated by operators."""
import numpy as np
import qosy as qy
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G

PROP = 'C13'
RULE = ('A case draws generators (operator strings or operators: random, structured, subsets of a known algebra, linearly '
        'dependent) and compares the returned algebra with the closure under commutators computed independently (span, '
        'dimension, linear independence, Hermiticity). Some generators are tilted slightly out of an algebra. Non-trivial = the closure is larger than the generators.')
ASSUMPTIONS = ['real coefficients between 0.001 and 4, generators of norm 6e-5 or more', 'closure residuals show a clear gap and the commutators stay away from linear dependence (else inconclusive)', 'dimension of the algebra at most 130']


class Span:
    floor = 1e-3
    """growing vector space of Pauli polynomials"""
    def __init__(self):
        self.keys, self.Q = {}, np.zeros((0, 0), dtype=complex)

    def vec(self, P):
        for r in P:
            self.keys.setdefault(r, len(self.keys))
        v = np.zeros(len(self.keys), dtype=complex)
        for r, a in P.items():
            v[self.keys[r]] += a
        return v

    def residual(self, P):
        v = self.vec(P)
        if self.Q.shape[0] < len(v):
            self.Q = np.vstack([self.Q, np.zeros((len(v) - self.Q.shape[0], self.Q.shape[1]))])
        for _ in range(2):
            v = v - self.Q @ (self.Q.conj().T @ v)
        return v

    def add(self, P):
        """P normalized; True if it enlarged the space"""
        v = self.residual(P)
        r = np.linalg.norm(v)
        if r < 1e-10:
            return False
        if r < self.floor:
            raise Skip('gap')
        self.Q = np.hstack([self.Q, (v / r)[:, None]])
        return True


def unit(P):
    n = O.pnorm(P)
    return O.pscale(P, 1.0 / n)


def closure(polys, limit=130, small=1e-3, floor=1e-3):
    S = Span()
    S.floor = floor
    elems = []
    for P in polys:
        if S.add(unit(P)):
            elems.append(unit(P))
    i = 0
    while i < len(elems):
        for j in range(i):
            C = O.pclean(O.pcomm(elems[i], elems[j]), 1e-12)
            n = O.pnorm(C)
            if n < 1e-9 * small / 1e-3:
                continue
            if n < small:
                raise Skip('gap')
            C = unit(C)
            if S.add(C):
                # continue with the orthonormal element: the closure is the same and stays well conditioned
                q = S.Q[:, -1]
                elems.append({k: q[v] for k, v in S.keys.items() if v < len(q) and abs(q[v]) > 1e-13})
                if len(elems) > limit:
                    raise Skip('algebra too large')
        i += 1
    return S, elems


def well_conditioned(polys, floor=1e-3):
    """whether the closure built from the commutators themselves (not orthogonalised) stays far from linear dependence"""
    S = Span()
    elems = []
    for P in polys:
        if S.add(unit(P)):
            elems.append(unit(P))
    i = 0
    while i < len(elems):
        for j in range(len(elems)):
            if i == j or (j < i):
                continue
            C = O.pclean(O.pcomm(elems[i], elems[j]), 1e-12)
            n = O.pnorm(C)
            if n < 1e-9:
                continue
            if n < 2e-3:
                return False
            if S.add(unit(C)):
                elems.append(unit(C))
                if len(elems) > 260:
                    return False
        i += 1
    return np.linalg.svd(O.polys_to_matrix(elems)[0], compute_uv=False)[-1] > floor


def strings(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    lab = G.label_pool(rng, rng.randint(1, 5))
    k = int(rng.randint(1, 6))
    gens = G.distinct_strings(rng, typ, lab, k, max_k=int(rng.randint(1, 4)))
    if rng.rand() < 0.3:
        # a few long strings on many orbitals, on the same first orbitals
        lab = G.label_pool(rng, rng.randint(4, 10))
        head = int(rng.randint(0, 3))
        gens = {}
        for _ in range(rng.randint(2, 9)):
            tail = sorted(int(i) for i in rng.choice(len(lab) - head, rng.randint(1, len(lab) - head + 1), replace=False))
            ls = lab[:head] + [lab[head + i] for i in tail]
            names = O.PAULI if typ == 'Pauli' else O.MAJ
            s = qy.OperatorString([names[rng.randint(3)] for _ in ls], ls, typ)
            gens[str(s)] = s
        gens = list(gens.values())
        ctx.count('strings-wide')
    if rng.rand() < 0.2 and len(lab) >= 2:
        nm = 'XZ' if typ == 'Pauli' else 'AB'
        gens = [qy.OperatorString([nm[0], nm[0 if typ == 'Pauli' else 1]], [lab[i], lab[i + 1]], typ) for i in range(len(lab) - 1)]
        gens += [qy.OperatorString([('Z' if typ == 'Pauli' else 'D')], [l], typ) for l in lab]
    B = qy.Basis(list(gens))
    # closure of strings: products of anticommuting monomials
    mon = []
    for s in gens:
        (r, _), = O.os_poly(s).items()
        mon.append(r)
    want, order = set(mon), list(dict.fromkeys(mon))
    i = 0
    while i < len(order):
        for j in range(i):
            p, q = order[i], order[j]
            if (O._pop(p[1] & q[0]) + O._pop(p[0] & q[1])) % 2:
                r = (p[0] ^ q[0], p[1] ^ q[1])
                if r not in want:
                    want.add(r)
                    order.append(r)
                    if len(order) > 300:
                        raise Skip('algebra too large')
        i += 1
    if len(want) > (90 if rng.rand() < 0.9 else 260):
        raise Skip('algebra too large')
    n0 = len(B)
    A = qy.generate_lie_algebra(B)
    ctx.check(isinstance(A, qy.Basis), 'strings-type', str(type(A)))
    got = []
    for s in A:
        ctx.check(s.op_type == typ, 'strings-optype', s.op_type)
        P = O.os_poly(s)
        ctx.check(len(P) == 1, 'strings-single', str(s))
        (r, c), = P.items()
        got.append(r)
    ctx.check(len(set(got)) == len(got), 'strings-duplicates', 'duplicate elements')
    ctx.check(set(got) == want, 'strings-closure', lambda: 'generators {}: missing {} extra {}'.format([str(s) for s in gens], len(want - set(got)), len(set(got) - want)))
    ctx.check(len(B) == n0 and [str(s) for s in B] == [str(s) for s in gens], 'strings-input-modified', 'the given Basis was modified')
    if len(want) > len(gens):
        ctx.seen('s', [str(s) for s in gens])
        ctx.count('strings-nontrivial')
    ctx.sample('{} -> {} strings'.format([str(s).strip() for s in gens], len(want)))


def generators(rng, typ, lab):
    style = rng.randint(5)
    kind = 'random'
    n = len(lab)
    if style == 0:
        # collective spin / uniform quadratic operators
        nm = 'XYZ' if typ == 'Pauli' else 'ABD'
        ops = []
        for a in rng.choice(3, rng.randint(1, 4), replace=False):
            ops.append(qy.Operator([G.coeff(rng)] * n, [qy.OperatorString([nm[a]], [l], typ) for l in lab]))
        if n > 1 and rng.rand() < 0.5:
            w = nm[rng.randint(3)]
            ops.append(qy.Operator(np.ones(n - 1), [qy.OperatorString([w, w], [lab[i], lab[i + 1]], typ) for i in range(n - 1)]))
        kind = 'collective'
    elif style == 1:
        # quadratic fermion operators / transverse-field Ising pieces
        ops = []
        for _ in range(rng.randint(1, 4)):
            k = rng.randint(1, 4)
            if typ == 'Majorana':
                strs = []
                for _ in range(k):
                    i, j = sorted(rng.randint(0, n, size=2))
                    strs.append(qy.OperatorString(['D'], [lab[i]], typ) if i == j else
                                qy.OperatorString([('A', 'B')[rng.randint(2)], ('A', 'B')[rng.randint(2)]], [lab[i], lab[j]], typ))
            else:
                strs = []
                for _ in range(k):
                    i = rng.randint(n)
                    strs.append(qy.OperatorString(['Z'], [lab[i]], typ) if i == n - 1 else qy.OperatorString(['X', 'X'], [lab[i], lab[i + 1]], typ))
            op = qy.Operator(op_type=typ)
            for s in strs:
                op += qy.Operator([G.coeff(rng)], [s])
            ops.append(op)
        kind = 'quadratic'
    else:
        m = rng.randint(1, 4)
        ops = [G.operator(rng, typ, lab, rng.randint(1, 4), False) for _ in range(m)]
    ops = [o for o in (o.remove_zeros(1e-10) for o in ops) if len(o)]
    if rng.rand() < 0.25 and len(ops) >= 1:
        ops.append(G.coeff(rng) * ops[0] + (G.coeff(rng) * ops[-1] if len(ops) > 1 else qy.Operator(op_type=typ)))
        kind = 'dependent'
        ops = [o for o in (o.remove_zeros(1e-10) for o in ops) if len(o)]
    if rng.rand() < 0.15 and ops:
        # almost, but not, linearly dependent
        ops.append(G.coeff(rng) * ops[0] + 10.0 ** -rng.uniform(1.5, 2.8) * G.operator(rng, typ, lab, 1, False))
        kind = 'nearly-dependent'
    elif rng.rand() < 0.15 and ops:
        # a commutator that is almost in the span of the generators
        ops[0] = ops[0] + 10.0 ** -rng.uniform(1.5, 2.8) * G.operator(rng, typ, lab, 1, False)
        kind = 'perturbed'
    ops = [o for o in (o.remove_zeros(1e-10) for o in ops) if len(o)]
    return [ops[i] for i in rng.permutation(len(ops))], kind


def operators(ctx, rng, idx):
    typ = ('Pauli', 'Majorana')[idx % 2]
    lab = G.label_pool(rng, rng.randint(1, 4))
    ops, kind = generators(rng, typ, lab)
    polys = [O.op_poly(o) for o in ops]
    if not ops or any(O.pnorm(p) < 0.1 for p in polys):
        raise Skip('zero operator')
    scale = rng.rand() < 0.25
    if scale:
        # the algebra does not depend on the length of the generators
        if not well_conditioned(polys, 0.05):
            raise Skip('gap')
        ops = [10.0 ** -float(rng.uniform(0.5, 4.2)) / O.pnorm(p) * o for o, p in zip(ops, polys)]
        polys = [O.op_poly(o) for o in ops]
    S, elems = closure(polys, 40 if 'near' in kind or kind == 'perturbed' else 130)
    if not scale and not well_conditioned(polys):
        raise Skip('gap')
    copies = [dict(p) for p in polys]
    A = qy.generate_lie_algebra(list(ops))
    ctx.check(isinstance(A, list) and all(isinstance(a, qy.Operator) for a in A), 'type', str(type(A)))
    W = Span()
    got = 0
    for a in A:
        P = O.op_poly(a)
        nrm = O.pnorm(P)
        ctx.check(np.isfinite(nrm) and nrm > 1e-8, 'finite', lambda: G.desc(a))
        ctx.check(all(abs(np.imag(c)) < 1e-8 * max(1, nrm) for c, _ in a), 'hermitian', lambda: G.desc(a))
        P = unit(P)
        r = np.linalg.norm(S.residual(P))
        ctx.check(r < 1e-5, 'inside', lambda: 'generators {}: element {} is not generated'.format([G.desc(o) for o in ops], G.desc(a)))
    M, _ = O.polys_to_matrix([unit(O.op_poly(a)) for a in A])
    sv = np.linalg.svd(M, compute_uv=False)
    if np.any((sv > 1e-9) & (sv < 1e-6)):
        raise Skip('gap')
    rk = int(np.sum(sv > 1e-7))
    dim = len(elems)
    ctx.check(rk == dim, 'dimension', lambda: 'generators {}: {} independent of {}, the algebra has dimension {}'.format([G.desc(o) for o in ops], rk, len(A), dim))
    if O.rank(O.polys_to_matrix([unit(p) for p in polys])[0]) == len(ops):
        ctx.check(len(A) == dim, 'independent', lambda: 'generators {}: {} elements for dimension {}'.format([G.desc(o) for o in ops], len(A), dim))
    ctx.check(all(O.pdiff(O.op_poly(o), c) < 1e-13 for o, c in zip(ops, copies)), 'input-modified', 'a generator was modified')
    ctx.count('kind-' + kind)
    ctx.count('small-generators', int(scale and dim > len(ops)))
    if dim > len(ops):
        ctx.seen('o', [G.desc(o) for o in ops])
        ctx.count('nontrivial')
    ctx.sample('{} -> dimension {}'.format([G.desc(o) for o in ops], dim))


def almost_commuting(ctx, rng, idx):
    """large commuting parts and small parts that do not commute: the closure depends on commutators of tiny norm"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    lab = G.label_pool(rng, int(rng.randint(4, 7)))
    cut = int(rng.randint(2, len(lab) - 1))
    heads, tails = lab[:cut], lab[cut:]
    big = 'Z' if typ == 'Pauli' else 'D'
    ops, eps = [], []
    for l in heads[:int(rng.randint(2, 4))]:
        eps.append(10.0 ** -float(rng.uniform(1.0, 2.8)))
        k = int(rng.randint(1, len(tails) + 1))
        ls = [tails[i] for i in sorted(rng.choice(len(tails), k, replace=False))]
        names = O.PAULI if typ == 'Pauli' else O.MAJ
        nm = [names[rng.randint(3)] for _ in ls]
        if typ == 'Majorana' and sum(x in 'AB' for x in nm) % 2:
            # even strings commute with the large parts
            i = [j for j, x in enumerate(nm) if x in 'AB'][0]
            nm[i] = 'D'
        ops.append(qy.Operator([float(rng.choice([-1, 1]) * rng.uniform(0.5, 2)), eps[-1] * float(rng.choice([-1, 1]))],
                               [qy.OperatorString([big], [l], typ), qy.OperatorString(nm, ls, typ)]))
    polys = [O.op_poly(o) for o in ops]
    S, elems = closure([unit(p) for p in polys], 40, 1e-8)
    if len(elems) == len(ops):
        raise Skip('commuting')
    A = qy.generate_lie_algebra(list(ops))
    desc = lambda: 'generators {}'.format([G.desc(o) for o in ops])
    for a in A:
        ctx.check(np.linalg.norm(S.residual(unit(O.op_poly(a)))) < 1e-5, 'inside', lambda: desc() + ': element {} is not generated'.format(G.desc(a)))
    rk = O.rank(O.polys_to_matrix([unit(O.op_poly(a)) for a in A])[0])
    ctx.check(rk == len(elems) == len(A), 'dimension', lambda: desc() + ': {} elements ({} independent), the algebra has dimension {}'.format(len(A), rk, len(elems)))
    ctx.seen('a', [G.desc(o) for o in ops])
    ctx.count('almost-commuting')
    ctx.sample('{} -> dimension {}'.format([G.desc(o) for o in ops], len(elems)))


def almost_closed(ctx, rng, idx):
    """generators that are slightly tilted out of an algebra: the closure has elements that are almost in the span of others"""
    typ = ('Pauli', 'Majorana')[idx % 2]
    lab = G.label_pool(rng, int(rng.randint(3, 6)))
    cut = int(rng.randint(1, 3))
    heads, tails = lab[:cut], lab[cut:]
    big = 'Z' if typ == 'Pauli' else 'D'
    names = O.PAULI if typ == 'Pauli' else O.MAJ
    strs, seen = [], set()
    for _ in range(int(rng.randint(2, 4))):
        ls = [heads[i] for i in sorted(rng.choice(len(heads), int(rng.randint(1, len(heads) + 1)), replace=False))]
        nm = [names[rng.randint(3)] for _ in ls]
        if (tuple(nm), tuple(ls)) not in seen:
            seen.add((tuple(nm), tuple(ls)))
            strs.append(qy.OperatorString(nm, ls, typ))
    ops, eps = [], []
    for s in strs:
        c, st = [float(rng.choice([-1, 1]) * rng.uniform(0.5, 2))], [s]
        if not eps or rng.rand() < 0.4:
            ls = [tails[i] for i in sorted(rng.choice(len(tails), int(rng.randint(1, len(tails) + 1)), replace=False))]
            eps.append(10.0 ** -float(rng.uniform(1.0, 4.0)))
            c.append(eps[-1] * float(rng.choice([-1, 1])))
            st.append(qy.OperatorString([big] * len(ls), ls, typ))
        ops.append(qy.Operator(c, st))
    ops = [ops[i] for i in rng.permutation(len(ops))]
    polys = [O.op_poly(o) for o in ops]
    S, elems = closure([unit(p) for p in polys], 40, 1e-8, 1e-5)
    if len(elems) == len(ops):
        raise Skip('closed')
    A = qy.generate_lie_algebra(list(ops))
    desc = lambda: 'generators {}'.format([G.desc(o) for o in ops])
    for a in A:
        ctx.check(np.linalg.norm(S.residual(unit(O.op_poly(a)))) < 1e-6, 'inside', lambda: desc() + ': element {} is not generated'.format(G.desc(a)))
    sv = np.linalg.svd(O.polys_to_matrix([unit(O.op_poly(a)) for a in A])[0], compute_uv=False)
    rk = int(np.sum(sv > 1e-7))
    ctx.check(rk == len(elems) == len(A), 'dimension', lambda: desc() + ': {} elements ({} independent), the algebra has dimension {}'.format(len(A), rk, len(elems)))
    ctx.seen('t', [G.desc(o) for o in ops])
    ctx.count('almost-closed')
    ctx.sample('{} -> dimension {}'.format([G.desc(o) for o in ops], len(elems)))


FAMILIES = [Family('almost_closed', almost_closed, 80, 1000, require=15), Family('almost_commuting', almost_commuting, 60, 800, require=15), Family('strings', strings, 250, 3000, require=80), Family('operators', operators, 250, 3000, require=80)]
REQUIRED_COUNTERS = ['almost-commuting', 'almost-closed', 'small-generators', 'strings-nontrivial', 'nontrivial', 'kind-dependent', 'kind-nearly-dependent', 'kind-perturbed', 'kind-collective', 'kind-quadratic', 'kind-random']
