"""C02: the symmetric and Laplacian parametrisations are exact, lossless and complete for every size."""
import itertools

import numpy as np

from mc.gen import cplx
from src.models import matrix_operations as mo

LEVEL = "exploration"
RULE = ("every matrix size up to the bound, and for each size every basis element of the space of symmetric (Laplacian) "
        "matrices plus one generic complex matrix; non-trivial means a distinct matrix")
ASSUMPTIONS = ["all maps are linear, so agreeing with the definition on every basis element decides every matrix of that size"]


def pairs(n):
    """Lower triangle, column by column."""
    return [(i, j) for j in range(n) for i in range(j, n)]


def off(n):
    return [(i, j) for j in range(n) for i in range(j + 1, n)]


def vec(m):
    return np.array([m[i, j] for j in range(m.shape[1]) for i in range(m.shape[0])])


def sym_case(n, ctx):
    d, e = np.asarray(mo.duplication_matrix(n)), np.asarray(mo.elimination_sym_matrix(n))
    k = n * (n + 1) // 2
    ctx.check(d.shape == (n * n, k), "duplication_matrix(%d): shape %s" % (n, d.shape))
    ctx.check(e.shape == (k, n * n), "elimination_sym_matrix(%d): shape %s" % (n, e.shape))
    want_d, want_e = np.zeros((n * n, k)), np.zeros((k, n * n))
    for u, (i, j) in enumerate(pairs(n)):
        want_d[j * n + i, u] = want_d[i * n + j, u] = 1
        want_e[u, j * n + i] += .5
        want_e[u, i * n + j] += .5
        ctx.seen(n, i, j)
    ctx.close(d, want_d, "duplication_matrix(%d)" % n)
    ctx.close(e, want_e, "elimination_sym_matrix(%d)" % n)
    ctx.close(e @ d, np.eye(k), "E D")
    m = cplx((n, n), n)
    s = m + m.T
    vech = np.array([s[p] for p in pairs(n)])
    ctx.close(d @ vech, vec(s), "D vech(S) = vec(S)")
    ctx.close(e @ vec(s), vech, "E vec(S) = vech(S)")
    ctx.close(d @ e @ vec(m), vec((m + m.T) / 2), "D E vec(M) = vec of the symmetric part")
    ctx.close(mo.unvectorize_matrix(d @ e @ mo.vectorize_matrix(s), (n, n)), s, "round trip through the library")


def lap_case(n, ctx):
    d, e = np.asarray(mo.duplication_matrix(n)), np.asarray(mo.elimination_sym_matrix(n))
    t, el = np.asarray(mo.transformation_matrix(n)), np.asarray(mo.elimination_lap_matrix(n))
    k, q = n * (n + 1) // 2, n * (n - 1) // 2
    ctx.check(t.shape == (k, q), "transformation_matrix(%d): shape %s" % (n, t.shape))
    ctx.check(el.shape == (q, k), "elimination_lap_matrix(%d): shape %s" % (n, el.shape))
    want = np.zeros((k, q))
    row = {p: r for r, p in enumerate(pairs(n))}
    for u, (i, j) in enumerate(off(n)):
        want[row[(i, j)], u] = -1
        want[row[(i, i)], u] += 1
        want[row[(j, j)], u] += 1
        ctx.seen(n, i, j)
    ctx.close(t, want, "transformation_matrix(%d)" % n)
    ctx.close(el @ t, np.eye(q), "E_lap T")
    # a Laplacian survives, and everything produced by the parametrisation is a symmetric Laplacian
    w = cplx((q,), n)
    y = np.zeros((n, n), dtype=complex)
    for (i, j), v in zip(off(n), w):
        y[i, j] -= v
        y[j, i] -= v
        y[i, i] += v
        y[j, j] += v
    ctx.close(d @ t @ w, vec(y), "D T w is the Laplacian with branch admittances w")
    ctx.close(el @ e @ vec(y), w, "E_lap E vec(Y) are the branch admittances")
    m = cplx((n, n), n + 50)
    got = (d @ t @ el @ e @ vec(m)).reshape((n, n), order="F")
    ctx.close(got, got.T, "symmetry of the reconstructed matrix")
    ctx.close(got @ np.ones(n), np.zeros(n), "row sums of the reconstructed matrix", atol=1e-9)
    o = ~np.eye(n, dtype=bool)
    ctx.close(got[o], ((m + m.T) / 2)[o], "off-diagonal elements of the reconstructed matrix")


def all_lap_case(case, ctx):
    """Every Laplacian with branch values in a small alphabet."""
    n, vals = case
    vals = np.array([complex(*v) for v in vals])
    d, e = mo.duplication_matrix(n), mo.elimination_sym_matrix(n)
    t, el = mo.transformation_matrix(n), mo.elimination_lap_matrix(n)
    y = np.zeros((n, n), dtype=complex)
    for (i, j), v in zip(off(n), vals):
        y[i, j] -= v
        y[j, i] -= v
        y[i, i] += v
        y[j, j] += v
    ctx.close(d @ t @ vals, vec(y), "Laplacian from branches")
    ctx.close(el @ e @ vec(y), vals, "branches from Laplacian")
    ctx.seen(y)


def groups(tier):
    from mc.core import Group
    thorough = tier != "quick"
    sizes = list(range(1, 13)) + [20, 33] if not thorough else list(range(1, 31)) + [40, 56]
    alph = [(0, 0), (1, 0), (0, -1)] if not thorough else [(0, 0), (1, 0), (0, -1), (2, -3)]
    return [Group("symmetric", sizes, sym_case), Group("laplacian", sizes, lap_case),
            Group("all small laplacians", [[n, list(v)] for n in (2, 3, 4)
                                           for v in itertools.product(alph, repeat=n * (n - 1) // 2)], all_lap_case)]
