"""Soundness and completeness of a computed space of operators."""
import warnings
import numpy as np
from .runtime import Skip
from . import oracle as O


def check_space(ctx, vecs, R, polys, what, complete=True, k=0):
    """vecs: columns; R: residual map (columns = residual of each search element); they must span null(R)."""
    vecs = np.asarray(vecs)
    N = len(polys)
    ctx.check(vecs.ndim == 2 and vecs.shape[0] == N, what + '-shape', str(vecs.shape))
    C, _ = O.polys_to_matrix(polys)
    scale = max(1.0, np.abs(R).max(initial=0), np.abs(C).max(initial=0))
    if vecs.shape[1]:
        res = np.abs(R @ vecs).max(initial=0)
        ctx.check(res < 2e-4 * scale, what + '-sound', lambda: 'a returned operator violates the symmetry by {}'.format(res))
    # number of independent operators (combinations that vanish identically do not count)
    if O.rank(C, gap=3e-4) is None:
        raise Skip('gap')
    cs = np.linalg.norm(C, 2) if C.size else 0.0
    rv = O.rank(C @ vecs, scale=cs) if vecs.shape[1] else 0
    null = O.nullspace(R, gap=3e-4)
    if rv is None or null is None:
        raise Skip('gap')
    dim = O.rank(C @ null, scale=cs) if null.shape[1] else 0
    if dim is None:
        raise Skip('gap')
    if complete:
        ctx.check(rv == dim, what + '-complete', lambda: 'found {} independent operators, {} exist'.format(rv, dim))
        full = O.rank(C) == N
        if full:
            ctx.check(vecs.shape[1] == dim, what + '-count', lambda: '{} vectors for a space of dimension {}'.format(vecs.shape[1], dim))
    else:
        # a sparse eigensolver (asked for more vectors than the dimension) may miss a few of many degenerate vectors
        # (observed: at most one in ten), never half of them
        if k > null.shape[1]:
            ctx.check(2 * rv >= dim, what + '-missing', lambda: 'found only {} independent operators of {}'.format(rv, dim))
        ctx.check(rv <= dim, what + '-too-many', 'more independent operators than exist')
    return dim


def truncated(ctx, rng, search, R, N, dim, what):
    """Fewer vectors are asked for than there are solutions: all are solutions, and a warning says that some may be
    missing. No warning when the answer is complete."""
    k = int(rng.randint(1, min(dim, N - 2) + 1))
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            V = np.asarray(search(k))
        except (RuntimeError, np.linalg.LinAlgError):
            ctx.count('sparse-solver-failed')
            return
    told = any('num_vecs' in str(x.message) for x in w)
    sc = max(1.0, np.abs(R).max(initial=0))
    ctx.check(V.shape[0] == N and V.shape[1] <= k, what + '-truncated-count', lambda: '{} vectors, asked for {}'.format(V.shape[1], k))
    ctx.check(np.abs(R @ V).max(initial=0) < 2e-4 * sc, what + '-truncated-sound', lambda: 'a returned operator violates the symmetry by {}'.format(np.abs(R @ V).max()))
    ctx.check(told == (V.shape[1] == k), what + '-warning', lambda: '{} solutions, {} requested, {} found, {} about missing ones'.format(
        dim, k, V.shape[1], 'a warning' if told else 'no warning'))
    ctx.count('truncated', int(V.shape[1] == k))
    ctx.count('truncated-short', int(V.shape[1] < k))


def silent(ctx, search, what):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        search()
    ctx.check(not [x for x in w if 'num_vecs' in str(x.message)], what + '-false-warning', lambda: str(w[0].message))
