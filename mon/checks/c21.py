"""C21  selected-CI searches for operators that commute with a Hamiltonian."""
import contextlib
import copy
import io
import warnings
import numpy as np
import scipy.sparse.linalg as ssla
import qosy as qy
from qosy import algorithms as al
from ..runtime import Family, Skip
from .. import oracle as O
from .. import gen as G
from .. import transf as T

PROP = 'C21'
RULE = ('A case draws a Hamiltonian, an initial operator and search options (size limits, extra operators, operators to stay '
        'orthogonal to, transformations, shared exploration data, filters) and runs the search; every recorded operator is '
        'compared with an independent solution of its own search space (commutators by polynomial algebra, dense eigenproblem on '
        'the constrained space). Non-trivial = the operator found has several terms.')
ASSUMPTIONS = ['real coefficients (Hermitian operators) on at most 5 orbitals',
               'commutator norms are compared to 1e-5 of the scale of the problem, 1e-3 with orthogonality or symmetry penalties',
               'searches that stop before recording anything are not decided']


def silent(f, *a, **kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        try:
            return f(*a, **kw)
        except ssla.ArpackError:
            raise Skip('the sparse eigensolver reported that it failed')
        except RuntimeError as e:
            if 'exactly singular' in str(e):
                raise Skip('the sparse eigensolver reported an exactly singular shift')
            raise


def snap(op):
    return [(complex(c), G.key_of(s)) for c, s in op]


def problem(rng, typ=None, nmax=5, big=False):
    typ = typ or ['Pauli', 'Pauli', 'Majorana'][rng.randint(3)]
    n = int(rng.randint(2, nmax))
    pool = list(range(n))
    k = rng.randint(4)
    if k == 0 and typ == 'Pauli':         # spin chain with fields
        h = rng.uniform(-2, 2, size=n)
        cs, ss = [], []
        for i in range(n):
            cs.append(h[i])
            ss.append(qy.opstring('Z {}'.format(i)))
            if i + 1 < n:
                for o in 'XYZ':
                    cs.append(1.0)
                    ss.append(qy.opstring('{} {} {} {}'.format(o, i, o, i + 1)))
        H = qy.Operator(np.array(cs), ss)
    else:
        ss = G.distinct_strings(rng, typ, pool, int(rng.randint(2, 8)), min_k=1, max_k=3)
        H = qy.Operator(np.array([G.coeff(rng) for _ in ss]), ss)
    if rng.rand() < 0.15:                 # a weak term
        cs = np.array(H.coeffs)
        cs[rng.randint(len(cs))] *= 10.0 ** -rng.uniform(6, 8)
        H = qy.Operator(cs, [s for _, s in H])
    m = int(rng.randint(1, 4))
    ss = G.distinct_strings(rng, typ, pool, m, min_k=1)
    init = qy.Operator(np.array([G.coeff(rng) for _ in ss]), ss)
    if rng.rand() < 0.1:
        init = H                          # already commutes
    init = init * (1.0 / np.linalg.norm(init.coeffs)) if rng.rand() < 0.7 else init
    return typ, n, H, init


def gram(strs, op):
    """real part of C^dagger C in the span of the given strings"""
    P = O.op_poly(op)
    M, _ = O.polys_to_matrix([O.pcomm(P, O.os_poly(s)) for s in strs])
    if M.shape[0] == 0:
        return np.zeros((len(strs), len(strs)))
    return (M.conj().T @ M).real


def constrained(strs, orth=(), specs=()):
    """orthonormal basis (columns) of the vectors orthogonal to orth and symmetric under specs"""
    n = len(strs)
    keys = {G.key_of(s): i for i, s in enumerate(strs)}
    rows = []
    for op in orth:
        v = np.zeros(n, dtype=complex)
        for c, s in op:
            if G.key_of(s) in keys:
                v[keys[G.key_of(s)]] += c
        rows.append(v.conj()[None, :])
    for sp in specs:
        A, _ = O.polys_to_matrix([O.psub(sp.image_os(s), O.os_poly(s)) for s in strs])
        if A.shape[0]:
            rows.append(A)
    if not rows:
        return np.eye(n)
    A = np.vstack(rows)
    A = np.vstack([A.real, A.imag])
    W = O.nullspace(A)
    sv = np.linalg.svd(A, compute_uv=False)
    if W is None or np.any((sv > 1e-9) & (sv < 2e-2)):          # weak constraints: the finite penalty decides
        raise Skip('constraints of unclear rank')
    return W.real


def verify(ctx, what, H, ops, norms, com_ops=None, orth=(), specs=(), num_vecs=1, tol=None, start=0):
    com_ops = com_ops or [H]
    for step, (op, c) in enumerate(zip(ops, norms)):
        strs = [s for _, s in op]
        v = np.array(op.coeffs)
        scale = max(1.0, float(np.sum(np.abs(H.coeffs))) ** 2)
        t = tol or ((1e-3 if (orth or specs) else 1e-5) * scale)
        where = lambda: '{} step {} H={} op={} norm={}'.format(what, step, G.desc(H), G.desc(op), c)
        ctx.check(abs(np.linalg.norm(v) - 1) < 1e-7, 'not-normalized', where)
        GH = gram(strs, H)
        true = (v.conj() @ GH @ v).real
        W = constrained(strs, orth, specs)
        if W.shape[1] < (num_vecs if orth or specs else 1):      # fewer feasible operators than requested
            ctx.count('infeasible')
            continue
        ctx.check(abs(true - c) < t, 'wrong-norm', lambda: 'true {} {}'.format(true, where()))
        ctx.check(np.linalg.norm(v - W @ (W.conj().T @ v)) < 1e-3, 'constraint-violated', where)
        tot = sum(gram(strs, o) for o in com_ops)
        ev = np.linalg.eigvalsh(W.T @ tot @ W)
        val = (v.conj() @ tot @ v).real
        k = min(num_vecs, len(ev)) - 1
        ctx.check(val < ev[k] + t * len(com_ops), 'not-minimal',
                  lambda: 'value {} but {} is possible: {}'.format(val, ev[k], where()))
        ctx.count('operators')
        ctx.count('commuting' if true < 1e-6 else 'non-commuting')
        if np.sum(np.abs(v) > 1e-6) > 1:
            ctx.seen(what, G.desc(op)[:400])


def outcome(ctx, what, init, res):
    best, bn, ops, ns = res[:4]
    ctx.check(len(ops) == len(ns), 'lengths', what)
    if len(ops):
        scale = max(1.0, max(abs(c) for c in ns))
        ctx.check(abs(bn) <= min(abs(c) for c in ns) + 1e-5 * scale, 'best-not-best', lambda: '{} {} {}'.format(what, bn, ns))
        ctx.check(any(bn == c and snap(best) == snap(o) for o, c in zip(ops, ns)), 'best-not-recorded', lambda: '{} {} {}'.format(what, bn, ns))
    else:
        ctx.check(snap(best) == snap(init), 'best-initial', what)
        raise Skip('nothing recorded')


def skey(s):
    """the Pauli monomial of a Pauli or Majorana string"""
    p = O.os_poly(s)
    return next(iter(p))


def terms_of(op):
    return [(complex(c) * O.os_poly(s)[skey(s)], skey(s)) for c, s in op]


def kept(op, threshold, size):
    """keys surely kept and keys possibly kept by a truncation"""
    c = np.abs(np.array(op.coeffs))
    keys = [skey(s) for _, s in op]
    order = np.sort(c)[::-1]
    low = order[size - 1] if size <= len(c) else 0.0        # smallest one that fits
    nxt = order[size] if size < len(c) else -1.0            # largest one that does not
    sure = {k for k, x in zip(keys, c) if x > threshold * (1 + 1e-6) + 1e-12 and x > nxt + 1e-7}
    may = {k for k, x in zip(keys, c) if x > threshold * (1 - 1e-6) - 1e-12 and x > low - 1e-7}
    return sure, may


def ext(P, keys):
    """the monomials in commutators of the given ones with single terms of H"""
    return {q for k in keys for h in P for q, v in O.pcomm({h: 1.0}, {k: 1.0}).items() if abs(v) > 1e-12}


def evolution(ctx, what, H, init, ops, threshold=1e-6, size=100, full=True):
    """selected_ci / selected_ci_simple: the search space of each step"""
    P = O.op_poly(H)
    sure = may = {skey(s) for _, s in init}
    for step, op in enumerate(ops):
        got = {skey(s) for _, s in op}
        need, allowed = set(sure), set(may)
        if full:
            need |= ext(P, ext(P, sure)) | (set() if full == 'sci' else ext(P, sure))
            allowed |= ext(P, ext(P, may)) | (set() if full == 'sci' else ext(P, may))
        else:
            allowed |= ext(P, ext(P, may))
        ctx.check(need <= got, 'space-too-small', lambda: '{} step {} H={}: {} lacks {}'.format(what, step, G.desc(H), G.desc(op), need - got))
        ctx.check(got <= allowed, 'space-too-large', lambda: '{} step {} H={}: {} holds {}'.format(what, step, G.desc(H), G.desc(op), got - allowed))
        ctx.count('spaces')
        sure, may = kept(op, threshold, size)


def ranked(vals, keys, n):
    """the n largest, or None when a tie leaves them open"""
    idx = np.argsort(-np.abs(vals), kind='stable')
    if n < len(idx) and abs(abs(vals[idx[n - 1]]) - abs(vals[idx[n]])) < 1e-6:
        return None
    return [keys[i] for i in idx[:n]]


def squares(cur, want, nO):
    """the space with the products of commuting pairs of the largest terms, and their products with the operator"""
    size = [abs(c) for c, _ in cur]
    order = sorted(range(len(cur)), key=lambda i: -size[i])
    if any(size[a] - size[b] < 1e-7 for a, b in zip(order, order[1:])):
        return None
    keys = [cur[i][1] for i in order]
    n = min(len(keys), nO)
    out, rest = list(want), []

    def add(a, b, limit, left):
        for q, v in O.panti({a: 1.0}, {b: 1.0}).items():
            if abs(v) > 1e-12 and q not in out and left < limit:
                out.append(q)
                return q
    for others, first in ((keys, True), (None, False)):
        added = 0
        for a in keys:
            for b in (others if first else rest):
                if first and a == b:
                    continue
                q = add(a, b, n, added)
                if q is not None:
                    added += 1
                    if first:
                        rest.append(q)
                if added >= n:
                    break
            if added >= n:
                break
    return out


def greedy_space(ctx, what, H, init, ops, norms, com_ops, nH, mbs, threshold, nO=0):
    """selected_ci_greedy: the terms kept and added at each step"""
    P = O.op_poly(H)
    thr, best = threshold, np.inf
    cur = terms_of(init)
    ambiguous = False
    for step, op in enumerate(ops):
        keys = [k for _, k in cur]
        got = {skey(s) for _, s in op}
        if not ambiguous:
            ctx.check(set(keys) <= got, 'space-too-small', lambda: '{} step {}: terms were lost'.format(what, step))
            allowed = set(keys)
            for o in com_ops:
                allowed |= ext(O.op_poly(o), ext(P, keys))
            if not nO:
                ctx.check(got <= allowed, 'space-too-large', lambda: '{} step {}: {} not reachable'.format(what, step, got - allowed))
            # exact selection
            A = {}
            for c, k in cur:
                A = O.padd(A, O.pcomm(P, {k: 1.0}), c)
            reach = sorted(ext(P, keys))
            va = [A.get(k, 0.0) for k in reach]
            # terms that cancel are candidates of size zero: their choice is open
            top = ranked(va, reach, min(nH[step], len(reach))) if reach else []
            if top is not None and all(abs(A.get(k, 0.0)) > 1e-7 for k in top):
                want = list(keys)
                for o in com_ops:
                    Q = O.op_poly(o)
                    B = {}
                    for k in top:
                        B = O.padd(B, O.pcomm(Q, {k: 1.0}), A[k])
                    rb = [k for k in sorted(ext(Q, top)) if k not in want]
                    vb = [B.get(k, 0.0) for k in rb]
                    m = min(nH[step], len(ext(Q, top)))
                    add = ranked(vb, rb, min(m, len(rb))) if rb else []
                    if add is None:
                        want = None
                        break
                    want += add
                if want is not None and nO:
                    want = squares(cur, want, nO)
                    ctx.count('greedy-squares', int(want is not None))
                if want is not None:
                    ctx.check(set(want) == got, 'not-the-largest-terms',
                              lambda: '{} step {} H={} terms={}: missing {} extra {}'.format(what, step, G.desc(H), nH[step], set(want) - got, got - set(want)))
                    ctx.count('greedy-selections')
        c = norms[step]
        new = thr / 2.0 if c - best > 1e-16 else thr
        s1, m1 = kept(op, new, mbs[step])
        if abs(c - best) < 1e-9:
            # rounding decides whether the threshold was halved
            other = kept(op, thr if new < thr else thr / 2.0, mbs[step])
            s1, m1 = s1 & other[0], m1 | other[1]
        ambiguous = s1 != m1              # ties: the next step cannot be predicted
        thr = new
        best = min(best, abs(c))
        cur = [(x, k) for x, k in terms_of(op) if k in s1]


ALGS = ['simple', 'sci', 'sweep', 'gsimple', 'greedy']


STEPS = {'simple': 4, 'sci': 5, 'sweep': 4, 'gsimple': 6, 'greedy': 6}


def run(name, init, H, rng, explored=None, steps=None, **kw):
    steps = steps or int(rng.randint(1, STEPS[name]))
    if name == 'simple':
        return silent(al.selected_ci_simple, init, H, steps, **kw)
    if name == 'sci':
        return silent(al.selected_ci, init, H, steps, explored_data=explored, **kw)
    if name == 'sweep':
        return silent(al.selected_ci_sweep, init, H, steps, explored_data=explored, **kw)
    if name == 'gsimple':
        return silent(al.selected_ci_greedy_simple, init, H, steps, explored_data=explored, **kw)
    return silent(al.selected_ci_greedy, init, H, steps, explored_data=explored, verbose=bool(rng.randint(2)), **kw)


def progress(ctx, name, H, init, ops, steps, threshold=1e-6, size=100):
    """a search ends before the requested number of steps only where there is nothing new to search"""
    P = O.op_poly(H)
    spaces = [{skey(s) for _, s in init}] + [{skey(s) for _, s in op} for op in ops]
    ctx.check(len(ops) <= steps, 'too-many-steps', name)
    if len(ops) == steps or name == 'greedy':
        return
    ctx.check(name != 'simple', 'too-few-steps', lambda: '{}: {} of {} steps'.format(name, len(ops), steps))
    sure = spaces[-1]
    if name == 'sci' and ops:
        sure = kept(ops[-1], threshold, size)[0]
    if name in ('sci', 'gsimple'):
        new = sure | ext(P, ext(P, sure))
        ctx.check(any(new <= old for old in spaces[-2:]), 'stopped-early', lambda: '{} H={} init={}: stopped after {} of {} steps, but {} were not searched'.format(
            name, G.desc(H), G.desc(init), len(ops), steps, new - spaces[-1]))
        ctx.count('early-stops')


def labels_of(op):
    return {skey(s): {int(l) for l in s.orbital_labels} for _, s in op}


def sweeping(ctx, what, H, init, ops, sweeps, threshold=1e-6, size=100):
    """selected_ci_sweep: the space searched at each pair of sites, as far as truncations leave no ties"""
    terms = [(skey(s), {int(l) for l in s.orbital_labels}) for _, s in H]
    top = max(l for _, ls in terms for l in ls)

    def part(sites):
        return {k: 1.0 for k, ls in terms if ls & sites}
    sites_of = labels_of(init)
    cur = prev = set(sites_of)
    step = 0
    for sweep in range(sweeps):
        on = [l for k in cur for l in sites_of[k]]
        if not on:
            return
        for site in range(min(on), max(on) + 1)[::(1, -1)[sweep % 2]]:
            one = part({site, min(site + 1, top)})
            two = part({max(0, site - 1), site, min(site + 1, top), min(site + 2, top)})
            new = cur | ext(two, ext(one, cur))
            if new == prev:
                cur = new
                continue
            ctx.check(step < len(ops), 'not-searched', lambda: '{} H={} init={}: nothing recorded at site {} of sweep {}, step {}'.format(what, G.desc(H), G.desc(init), site, sweep, step))
            op = ops[step]
            got = {skey(s) for _, s in op}
            ctx.check(new == got, 'sweep-space', lambda: '{} H={} init={}: site {} of sweep {}: missing {} extra {}'.format(what, G.desc(H), G.desc(init), site, sweep, new - got, got - new))
            ctx.count('sweep-spaces')
            sites_of.update(labels_of(op))
            prev = new
            sure, may = kept(op, threshold, size)
            step += 1
            if sure != may:
                return
            cur = sure
    ctx.check(step == len(ops), 'too-many-steps', lambda: '{}: {} operators, expected {}'.format(what, len(ops), step))


def plain(ctx, rng, idx):
    typ, n, H, init = problem(rng)
    name = ALGS[idx % len(ALGS)]
    s0 = snap(H), snap(init)
    kw = {}
    if name != 'gsimple' and rng.rand() < 0.5:
        kw['max_basis_size'] = int(rng.randint(1, 12))
    if rng.rand() < 0.3:
        kw['threshold'] = [1e-12, 1e-3, 0.2, 0.35, 0.5][rng.randint(5)]
    if name == 'greedy':
        if rng.rand() < 0.7:
            kw['num_H_terms'] = int(rng.randint(1, 6))
        if rng.rand() < 0.3 and typ == 'Pauli':
            kw['num_O_terms'] = int(rng.randint(1, 4))
    if name in ('sci', 'sweep') and rng.rand() < 0.5:
        kw['max_num_evecs'] = int(rng.randint(2, 5))
        kw['eval_threshold'] = [None, 0.5][rng.randint(2)]
    steps = int(rng.randint(1, STEPS[name]))
    try:
        res = run(name, init, H, rng, steps=steps, **kw)
    except (IndexError, ValueError):
        if kw.get('threshold', 0) >= 0.2:
            raise Skip('no coefficient above the threshold')    # nothing is left to continue with
        raise
    ctx.check((snap(H), snap(init)) == s0, 'mutated', 'the arguments were modified')
    verify(ctx, name, H, res[2], res[3])
    size, thr = kw.get('max_basis_size', 100), kw.get('threshold', 1e-6)
    if name == 'sweep':
        sweeping(ctx, name, H, init, res[2], steps, thr, size)
    else:
        progress(ctx, name, H, init, res[2], steps, thr, size)
    if name in ('sci', 'simple'):
        evolution(ctx, name, H, init, res[2], thr, size, name)
    elif name == 'gsimple':
        evolution(ctx, name, H, init, res[2], -1.0, 10 ** 6, False)
        for i, op in enumerate(res[2]):
            ctx.check(len(op) == len(init) + i + 1, 'one-term-per-step', lambda: '{} step {}'.format(name, i))
    elif name == 'greedy':
        m = len(res[2])
        greedy_space(ctx, name, H, init, res[2], res[3], [H], [kw.get('num_H_terms', 10)] * m, [size] * m, thr, kw.get('num_O_terms', 0))
    outcome(ctx, name, init, res)
    ctx.count('alg:' + name)
    ctx.sample('{} {} H={} -> {}'.format(name, kw, G.desc(H)[:150], res[1]))


def stalled(norms, i, mrc, maybe):
    """the improvement at step i over the best norm before is too small (surely, or possibly)"""
    best = min([abs(c) for c in norms[:i]])
    e = 1e-9 if maybe else -1e-9
    if best < 1e-9:
        return maybe
    return norms[i] - best > -e or abs(norms[i] - best) / best < mrc + e


def greedy(ctx, rng, idx):
    typ, n, H, init = problem(rng)
    steps = int(rng.randint(1, 6))
    kw, com_ops, orth, specs, nv = {}, [H], [], [], 1
    mbs = [int(x) for x in rng.randint(1, 15, size=steps)]
    nH = [int(x) for x in rng.randint(1, 8, size=steps)]
    kw['max_basis_size'] = [mbs, np.array(mbs)][rng.randint(2)]
    kw['num_H_terms'] = [nH, np.array(nH)][rng.randint(2)]
    if rng.rand() < 0.2:
        mbs, kw['max_basis_size'] = [mbs[0]] * steps, mbs[0]
        nH, kw['num_H_terms'] = [nH[0]] * steps, nH[0]
    nO = 0
    if typ == 'Pauli' and rng.rand() < 0.3:
        nO = kw['num_O_terms'] = int(rng.randint(1, 4))
    if rng.rand() < 0.4:
        for _ in range(rng.randint(1, 3)):
            ss = G.distinct_strings(rng, typ, list(range(n)), int(rng.randint(1, 4)), min_k=1)
            com_ops.append(qy.Operator(np.array([G.coeff(rng) for _ in ss]), ss))
    if rng.rand() < 0.5:
        for j in range(rng.randint(1, 4)):
            if j == 0 and rng.rand() < 0.6:
                o = H
            else:
                ss = G.distinct_strings(rng, typ, list(range(n)), int(rng.randint(1, 5)), min_k=0)
                o = qy.Operator(np.array([G.coeff(rng) for _ in ss]), ss)
            orth.append(o * (1.0 / np.linalg.norm(o.coeffs)))
        kw['orth_ops'] = orth
    if rng.rand() < 0.35:
        for _ in range(50):
            m, sp = T.draw(rng, typ, n=n)
            if sp.name.startswith('rot') or 'rot' in sp.name:
                continue
            specs.append(sp)
            if rng.rand() < 0.6:
                break
        kw['transformations'] = [sp.transform for sp in specs]
    if rng.rand() < 0.3:
        nv = kw['num_vecs'] = int(rng.randint(1, 5))
    if rng.rand() < 0.2:
        kw['target_com_norm'] = tc = [1e-6, 0.5][rng.randint(2)]
    mrc = None
    if rng.rand() < 0.3:
        mrc = kw['min_relative_change'] = [0.01, 0.3, 0.8][rng.randint(3)]
    kw['return_final_params'] = bool(rng.randint(2))
    arg = H if len(com_ops) == 1 and rng.rand() < 0.7 else com_ops
    s0 = snap(H), snap(init), [snap(o) for o in orth]
    res = silent(al.selected_ci_greedy, init, arg, steps, verbose=False, **kw)
    ctx.check((snap(H), snap(init), [snap(o) for o in orth]) == s0, 'mutated', 'the arguments were modified')
    what = 'greedy {}'.format({k: v for k, v in kw.items() if k not in ('orth_ops', 'transformations')})
    if len(res[2]) < steps:
        small = 'target_com_norm' in kw and res[1] < kw['target_com_norm']
        ctx.check(small or (mrc is not None and len(res[3]) > 1 and stalled(res[3], len(res[3]) - 1, mrc, True)), 'stopped',
                  lambda: '{} after {} of {} steps, norms {}'.format(what, len(res[2]), steps, res[3]))
    if mrc is not None:
        ctx.check(not any(stalled(res[3], i, mrc, False) for i in range(1, len(res[3]) - 1)), 'not-stopped-early', lambda: '{}: norms {}'.format(what, res[3]))
        ctx.count('stalled', int(len(res[2]) < steps))
    if kw['return_final_params']:
        ctx.check(len(res) == 5 and isinstance(res[4], dict), 'parameters', what)
        for k, v in res[4].items():
            if k in kw:
                ctx.check(np.array_equal(v, kw[k]), 'parameters', lambda: '{}: reported {} = {}'.format(what, k, v))
    if 'target_com_norm' in kw:
        ctx.check(all(c >= kw['target_com_norm'] for c in res[3][:-1]), 'not-stopped', what)
    verify(ctx, what, H, res[2], res[3], com_ops, orth, specs, nv)
    if not specs:
        greedy_space(ctx, what, H, init, res[2], res[3], com_ops, nH, mbs, 1e-6, nO)
        for i, op in enumerate(res[2]):
            lim = (len(init) if i == 0 else mbs[i - 1]) + nH[i] * len(com_ops) + 2 * nO
            ctx.check(len(op) <= lim, 'too-large', lambda: '{} step {}: {} strings'.format(what, i, len(op)))
    outcome(ctx, what, init, res)
    for k in ('orth_ops', 'transformations', 'num_vecs'):
        if k in kw:
            ctx.count('with:' + k)
    if len(com_ops) > 1:
        ctx.count('with:com_ops')


def reuse(ctx, rng, idx):
    """exploration data shared between searches, also for other Hamiltonians"""
    typ, n, H, init = problem(rng)
    data = (qy.Basis(), qy.Basis(), dict())
    for r in range(rng.randint(2, 5)):
        if rng.rand() < 0.7:
            _, _, H2, init2 = problem(rng, typ)
            if rng.rand() < 0.3:
                H2 = qy.Operator(np.array([G.coeff(rng) for _ in H]), [s for _, s in H])
        else:
            H2, init2 = H, init
        name = ALGS[1 + rng.randint(len(ALGS) - 1)]
        res = run(name, init2, H2, rng, explored=data)
        if len(res[2]):
            verify(ctx, name + ' (reused data)', H2, res[2], res[3])
            if name == 'sci':
                evolution(ctx, name + ' (reused data)', H2, init2, res[2], full=name)
            elif name == 'greedy':
                m = len(res[2])
                greedy_space(ctx, name + ' (reused data)', H2, init2, res[2], res[3], [H2], [10] * m, [100] * m, 1e-6)
            ctx.count('reused')
    # the shared record itself is correct
    xb, xe, sc = data
    for s, (rows, cols, vals) in list(sc.items())[:6]:
        P = {}
        for r, c, v in zip(rows, cols, vals):
            P[int(c)] = O.padd(P.get(int(c), {}), O.os_poly(xe[int(r)]), v)
        for c in range(min(len(xb), 30)):
            ctx.check(O.pdiff(P.get(c, {}), O.pcomm(O.os_poly(xb[c]), O.os_poly(s))) < 1e-9, 'explored-data',
                      lambda: '[{}, {}] recorded as {}'.format(s, xb[c], P.get(c)))


def sweep(ctx, rng, idx):
    typ, n, H, init = problem(rng, 'Pauli')
    kw, orth = {}, []
    k = idx % 4
    calls = []
    if k == 0:
        for j in range(rng.randint(1, 3)):
            ss = G.distinct_strings(rng, typ, list(range(n)), int(rng.randint(1, 5)), min_k=0)
            o = qy.Operator(np.array([G.coeff(rng) for _ in ss]), ss)
            orth.append(o * (1.0 / np.linalg.norm(o.coeffs)))
        kw['orth_ops'] = orth
    elif k == 1:
        f = lambda s: 1.0 + 0.7 * len(s.orbital_operators) ** 2
        kw['norm_fun'] = f
    elif k == 2:
        size = int(rng.randint(1, 4))

        def pre(basis):
            return qy.Basis([s for s in basis if len(s.orbital_operators) <= size])
        kw['pre_filter_fun'] = pre
        init = qy.Operator([1.0], G.distinct_strings(rng, typ, list(range(n)), 1, min_k=1, max_k=1))
    else:
        def post(evals, evecs, basis):
            j = evecs.shape[1] - 1
            calls.append(j)
            return evecs[:, j], evals[j]
        kw['post_filter_fun'] = post
        kw['max_num_evecs'] = int(rng.randint(2, 4))
    if rng.rand() < 0.5:
        kw['max_basis_size'] = int(rng.randint(1, 12))
    if rng.rand() < 0.3:
        kw['expand_unitary'] = int(rng.randint(2, 6))
    steps = int(rng.randint(1, 3))
    res = silent(al.selected_ci_sweep, init, H, steps, **kw)
    if k != 2 and k != 3 and 'expand_unitary' not in kw:
        sweeping(ctx, 'sweep {}'.format(sorted(kw)), H, init, res[2], steps, 1e-6, kw.get('max_basis_size', 100))
    scale = max(1.0, float(np.sum(np.abs(H.coeffs))) ** 2)
    if k == 1:
        for op, c in zip(res[2], res[3]):
            strs, v = [s for _, s in op], np.array(op.coeffs)
            ctx.check(abs(np.linalg.norm(v) - 1) < 1e-7, 'not-normalized', 'norm_fun')
            C = gram(strs, H)
            ctx.check(abs((v.conj() @ C @ v).real - c) < 1e-5 * scale, 'wrong-norm', 'norm_fun')
            d = np.array([f(s) for s in strs])
            ev = np.linalg.eigvalsh(C / np.sqrt(np.outer(d, d)))
            q = (v.conj() @ C @ v).real / (v.conj() @ (d * v)).real
            ctx.check(q < ev[0] + 1e-5 * scale, 'not-minimal', lambda: 'norm_fun quotient {} vs {}'.format(q, ev[0]))
            ctx.count('operators')
            ctx.seen('norm_fun', G.desc(op)[:300])
    else:
        if k == 2:
            for op in res[2]:
                ctx.check(all(len(s.orbital_operators) <= size for _, s in op), 'filter-ignored', 'pre_filter_fun')
        nv = 1 + max(calls, default=0)
        verify(ctx, 'sweep {}'.format(sorted(kw)), H, res[2], res[3], orth=orth, num_vecs=nv,
               tol=(5e-3 * scale if orth else None))
        if k == 3:
            ctx.check(len(calls) == len(res[2]), 'filter-calls', 'post_filter_fun')
    outcome(ctx, 'sweep', init, res)
    ctx.count('sweep:{}'.format(k))


def filters(ctx, rng, idx):
    """selected_ci with user functions choosing the operator and the truncation"""
    typ, n, H, init = problem(rng)
    calls, tr = [], []

    def choose(evals, evecs, basis):
        j = int(rng.randint(evecs.shape[1]))
        calls.append(j)
        return evecs[:, j], evals[j]

    def trunc(vector, basis):
        w = np.array([abs(c) if len(s.orbital_operators) <= 2 else 0.0 for c, s in zip(vector, basis)])
        tr.append(len(w))
        return w if np.max(w) > 1e-3 else np.abs(vector)
    nv = int(rng.randint(2, 5))
    mbs = int(rng.randint(2, 10))
    steps = int(rng.randint(1, 5))
    res = silent(al.selected_ci, init, H, steps, filter_fun=choose, filter_trunc_fun=trunc, max_num_evecs=nv, max_basis_size=mbs)
    verify(ctx, 'filtered', H, res[2], res[3], num_vecs=nv)
    ctx.check(len(calls) == len(res[2]) == len(tr), 'filter-calls', '')
    if not res[2]:
        progress(ctx, 'sci', H, init, res[2], steps)
    outcome(ctx, 'filtered', init, res)


def many_space(P, inits, keys, nH):
    """strings added for the largest terms of [H,[H,O]] of every operator; None when ties leave them open"""
    new = []
    for o in inits:
        A = {}
        for c, k in terms_of(o):
            A = O.padd(A, O.pcomm(P, {k: 1.0}), c)
        reach = sorted(ext(P, keys))
        top = ranked([A.get(k, 0.0) for k in reach], reach, min(nH, len(reach))) if reach else []
        if top is None or not all(abs(A.get(k, 0.0)) > 1e-7 for k in top):
            return None
        B = {}
        for k in top:
            B = O.padd(B, O.pcomm(P, {k: 1.0}), A[k])
        all_b = sorted(ext(P, top))
        rb = [k for k in all_b if k not in keys and k not in new]
        add = ranked([B.get(k, 0.0) for k in rb], rb, min(nH, len(all_b), len(rb))) if rb else []
        if add is None:
            return None
        new += add
    return set(keys) | set(new)


def many(ctx, rng, idx):
    typ, n, H, init = problem(rng, nmax=4)
    m = int(rng.randint(1, 4))
    ss = G.distinct_strings(rng, typ, list(range(n)), 2 * m, min_k=1)
    if len(ss) < m + 1:
        raise Skip('too few strings')
    inits = [qy.Operator([1.0], [ss[j]]) if rng.rand() < 0.6 or j + m >= len(ss) else qy.Operator([0.6, 0.8], [ss[j], ss[j + m]]) for j in range(m)]
    steps = int(rng.randint(1, 4))
    nH = int(rng.randint(1, 6))
    mbs = int(rng.randint(2, 15))
    s0 = [snap(o) for o in inits]
    if idx % 2:
        res = silent(al.selected_ci_greedy_many_ops, copy.deepcopy(inits), H, steps, num_H_terms=nH, max_basis_size=mbs, verbose=False)
        ctx.check(len(res[0]) == len(res[1]) == steps, 'lengths', '')
        cur = list(inits)
        for ops, ns in zip(*res):
            for j in range(m):
                verify(ctx, 'many', H, [ops[j]], [ns[j]], orth=[cur[i] for i in range(m) if i != j])
                start = cur[j]
                if cur[j] is not inits[j]:
                    sure, may = kept(start, 1e-6, mbs)
                    start = None if sure != may else qy.Operator([c for c, s in start if skey(s) in sure], [s for _, s in start if skey(s) in sure])
                    ctx.check(len(ops[j]) <= mbs + nH, 'too-large', lambda: 'many: {} strings'.format(len(ops[j])))
                if start is not None:
                    greedy_space(ctx, 'many', H, start, [ops[j]], [ns[j]], [H], [nH], [mbs], 1e-6)
                    ctx.count('many-restarts', int(start is not inits[j]))
                cur[j] = ops[j]
        ctx.count('many:1')
    else:
        orth = []
        if rng.rand() < 0.4:
            o = qy.Operator([1.0], [ss[-1]])
            orth = [o]
        if len(set(G.key_of(s) for o in inits for _, s in o)) < m:
            raise Skip('fewer strings than operators')
        st = np.random.get_state()
        np.random.seed(int(rng.randint(1 << 30)))
        try:
            res = silent(al.selected_ci_greedy_many_ops2, inits, H, steps, num_H_terms=nH, max_basis_size=max(mbs, m),
                         verbose=False, orth_ops=orth or None)
        finally:
            np.random.set_state(st)
        ctx.check([snap(o) for o in inits] == s0, 'mutated', 'the arguments were modified')
        P = O.op_poly(H)
        cur = {skey(s) for o in inits for _, s in o}
        for step, (ops, ns) in enumerate(zip(*res)):
            ctx.check(len(ops) == len(ns) == m, 'lengths', '')
            strs = [s for _, s in ops[0]]
            got = {skey(s) for s in strs}
            ctx.check(got <= cur | ext(P, ext(P, cur)), 'space-too-large', lambda: 'many2 step {}: {}'.format(step, got))
            ctx.check(len(got) <= (max(mbs, m) if step else len(cur)) + m * nH, 'space-too-large', lambda: 'many2 step {}: {} strings'.format(step, len(got)))
            if step == 0:
                want = many_space(P, inits, sorted(cur), nH)
                ctx.check(cur <= got, 'space-too-small', 'many2: initial terms were lost')
                if want is not None:
                    ctx.check(want == got, 'not-the-largest-terms', lambda: 'many2 H={} terms {}: missing {} extra {}'.format(G.desc(H), nH, want - got, got - want))
                    ctx.count('many-spaces', int(len(want) > len(cur)))
            cur = got
            W = constrained(strs, orth)
            if W.shape[1] < m:
                ctx.count('infeasible')
                continue
            scale = max(1.0, float(np.sum(np.abs(H.coeffs))) ** 2)
            t = (1e-3 if orth else 1e-5) * scale
            C = gram(strs, H)
            V = np.array([o.coeffs for o in ops]).T
            ctx.check(all([G.key_of(s) for _, s in o] == [G.key_of(s) for s in strs] for o in ops), 'bases-differ', '')
            ctx.check(np.max(np.abs(V.conj().T @ V - np.eye(m))) < 1e-5, 'not-orthonormal', lambda: '{}'.format(V.conj().T @ V))
            ctx.check(np.max(np.abs(V - W @ (W.conj().T @ V))) < 1e-3, 'constraint-violated', 'many2')
            got = np.array([(V[:, j].conj() @ C @ V[:, j]).real for j in range(m)])
            ctx.check(np.max(np.abs(got - ns)) < t, 'wrong-norm', lambda: 'many2 {} {}'.format(got, ns))
            ev = np.linalg.eigvalsh(W.T @ C @ W)[:m]
            ctx.check(np.max(np.abs(np.sort(got) - ev)) < t, 'not-minimal', lambda: 'many2 {} {}'.format(got, ev))
            ctx.count('operators', m)
            ctx.seen('many2', G.desc(ops[0])[:300])
        ctx.count('many:2')


def fidelity(ctx, rng, idx):
    typ, n, H, init = problem(rng)
    ss = G.distinct_strings(rng, typ, list(range(n)), int(rng.randint(2, 9)))
    m = len(ss)
    k = int(rng.randint(1, m + 1))
    Q = np.linalg.qr(rng.normal(size=(m, m)) + (1j * rng.normal(size=(m, m)) if rng.rand() < 0.5 else 0))[0][:, :k]
    ev = np.sort(rng.uniform(0, 3, size=k))
    t = qy.Operator(np.array([G.coeff(rng, rng.rand() < 0.3) for _ in ss]), [ss[j] for j in rng.permutation(m)])
    t = t * (1.0 / np.linalg.norm(t.coeffs))
    extra = G.distinct_strings(rng, typ, [7, 8], 1, min_k=1)
    if rng.rand() < 0.5:
        t = qy.Operator(np.concatenate([np.array(t.coeffs) * 0.8, [0.6]]), [s for _, s in t] + extra)
    basis = qy.Basis(ss)
    x = np.zeros(m, dtype=complex)
    for c, s in t:
        for i, b in enumerate(ss):
            if G.key_of(b) == G.key_of(s):
                x[i] += c
    o = Q.conj().T @ x
    f = float(np.sum(np.abs(o) ** 2))
    if f < 1e-3:
        raise Skip('no overlap')
    v, c, fid = silent(al.highest_fidelity_operator, t, Q, ev, basis)
    ctx.check(abs(fid - f) < 1e-9, 'fidelity', '{} {}'.format(fid, f))
    ctx.check(np.max(np.abs(v - Q @ o / np.sqrt(f))) < 1e-9, 'fidelity-vector', '')
    ctx.check(abs(c - np.sum(np.abs(o) ** 2 * ev) / f) < 1e-9, 'fidelity-norm', '')
    ctx.seen('fid', G.desc(t)[:200], k)


def target(ctx, rng, idx):
    """searches following a target operator"""
    typ, n, H, init = problem(rng)
    tgt = qy.Operator(np.array([G.coeff(rng) for _ in init]), [s for _, s in init])
    tgt = tgt * (1.0 / np.linalg.norm(tgt.coeffs))
    nv = int(rng.randint(1, 5))
    kw = dict(num_vecs=nv, target_operator=tgt, num_H_terms=int(rng.randint(1, 6)), max_basis_size=int(rng.randint(2, 15)))
    if rng.rand() < 0.5:
        kw['target_fidelity'] = [0.1, 0.5, 0.9][rng.randint(3)]
    steps = int(rng.randint(1, 5))
    res = silent(al.selected_ci_greedy, init, H, steps, verbose=bool(rng.randint(2)), **kw)
    scale = max(1.0, float(np.sum(np.abs(H.coeffs))) ** 2)
    best, best_norm, vecs = tgt, np.inf, nv
    for step, (op, c) in enumerate(zip(res[2], res[3])):
        v = np.array(op.coeffs)
        if not np.all(np.isfinite(v)):
            raise Skip('no overlap with the target')
        # the part of the target (later: of the best operator so far) inside a number of lowest eigenvectors
        strs = [s for _, s in op]
        x = np.array([sum(complex(a) for a, s in best if G.key_of(s) == G.key_of(t)) for t in strs])
        w, U = np.linalg.eigh(gram(strs, H))
        fits = []
        for k in range(vecs, len(strs) + 1):
            if k < len(strs) and w[k] - w[k - 1] < 1e-4 * scale:
                fits.append((k, None))                    # the space of the lowest k is not defined
            else:
                p = U[:, :k] @ (U[:, :k].T @ x)
                f = float(np.linalg.norm(p) ** 2)
                if f <= 1e-6:                                 # rounding decides the direction
                    fits.append((k, None))
                elif abs(np.vdot(p, v)) > (1 - 1e-5) * np.sqrt(f):
                    fits.append((k, f))
        if vecs > len(strs):
            p = x
            fits.append((vecs, float(np.linalg.norm(p) ** 2)))
        sure = [f for f in fits if f[1] is not None]
        if 'target_fidelity' not in kw:                   # then the number of vectors is the given one
            fits, sure = [f for f in fits if f[0] == max(vecs, 1)], [f for f in sure if f[0] == vecs]
        ctx.check(fits, 'not-the-closest', lambda: 'target {} step {}: {} is not the part of {} in the {} or more lowest eigenvectors'.format(kw, step, G.desc(op), G.desc(best), vecs))
        ctx.count('closest', int(len(sure) == len(fits)))
        if 'target_fidelity' in kw and len(sure) == len(fits) and step + 1 < len(res[2]):
            ctx.check(any(f >= kw['target_fidelity'] - 1e-6 for _, f in sure), 'fidelity-too-low', lambda: 'target {} step {}: {}'.format(kw, step, fits))
            ctx.count('faithful')
        if len(sure) == len(fits) and fits:
            vecs = min(k for k, _ in fits) if 'target_fidelity' in kw else vecs
        if abs(c) < best_norm:
            if abs(abs(c) - best_norm) < 1e-9:            # rounding decides which one is followed
                break
            best, best_norm = op, abs(c)
        elif abs(abs(c) - best_norm) < 1e-9:
            break
    for op, c in zip(res[2], res[3]):
        v = np.array(op.coeffs)
        ctx.check(abs(np.linalg.norm(v) - 1) < 1e-7, 'not-normalized', 'target')
        true = (v.conj() @ gram([s for _, s in op], H) @ v).real
        ctx.check(abs(true - c) < 1e-5 * scale, 'wrong-norm', lambda: 'target {} {}'.format(true, c))
        ctx.seen('target', G.desc(op)[:200])
    outcome(ctx, 'target', init, res)


FAMILIES = [
    Family('plain', plain, 200, 2500, require=100),
    Family('greedy', greedy, 250, 3000, require=120),
    Family('reuse', reuse, 80, 1000, require=40),
    Family('sweep', sweep, 80, 1000, require=30),
    Family('filters', filters, 60, 600, require=20),
    Family('many', many, 80, 1000, require=40),
    Family('fidelity', fidelity, 150, 2000, require=100),
    Family('target', target, 60, 800, require=20),
]
REQUIRED_COUNTERS = ['sweep-spaces', 'early-stops', 'greedy-squares', 'many-restarts', 'closest', 'faithful', 'stalled', 'many-spaces', 'operators', 'spaces', 'greedy-selections', 'commuting', 'non-commuting', 'with:orth_ops', 'with:transformations', 'with:num_vecs',
                     'with:com_ops', 'reused', 'many:1', 'many:2', 'sweep:0', 'sweep:1', 'sweep:2', 'sweep:3',
                     'alg:simple', 'alg:sci', 'alg:sweep', 'alg:gsimple', 'alg:greedy']
