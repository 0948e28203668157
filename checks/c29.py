"""C29: the Fisher information is a valid information matrix, and the reported covariance is its inverse."""
import itertools

import numpy as np
import scipy.sparse as sps

from checks import c25
from checks import iterlib as il
from checks import netlib
from mc.gen import cplx, real, unit
from src.identification import run
from src.models.error_in_variable import TotalLeastSquares
from src.models.noise_transformation import average_true_noise_covariance

LEVEL = "exploration"
RULE = ("samples 2-5 (7) x nodes 1-3 x noise of voltages and currents (none, equal, all different, correlated) x parameters x phases of the data x sparse formats; "
        "laws over every split of the samples, every order of the nodes and scale factors; non-trivial means distinct information matrices")
ASSUMPTIONS = ["as many samples as nodes at least, currents with noise", "covariances have diagonal 2x2 blocks, as the code documents"]


def noise(kind, m, salt):
    """Diagonals of a covariance matrix: real, correlation, imaginary."""
    one = np.ones(m)
    if kind == "none":
        return 0 * one, 0 * one, 0 * one
    if kind == "equal":
        return .3 * one, 0 * one, .3 * one
    if kind == "halves":
        return .2 * one, 0 * one, .7 * one
    r, i = .1 + unit((m,), salt), .1 + unit((m,), salt + 1)
    c = (.2 if kind == "different" else .95) * (2 * unit((m,), salt + 2) - 1) * np.sqrt(r * i)
    return r, c, i


def matrix(d, fmt="csr"):
    r, c, i = d
    return sps.bmat([[sps.diags(r), sps.diags(c)], [sps.diags(c), sps.diags(i)]], format=fmt)


def params(kind, n, salt):
    y = cplx((n, n), salt) * 2
    if kind == "symmetric":
        return y + y.T
    return {"full": y, "real": y.real + 0j, "imaginary": 1j * y.imag, "zero": 0 * y}[kind]


def data(kind, s, n, salt):
    x = cplx((s, n), salt)
    if kind == "scaled":  # nodes with voltages of different sizes
        x = x * 1e-5 ** (np.arange(n) % 2)
    elif kind == "small":
        x = x * 1e-6
    else:
        x = {"complex": x, "real": x.real + 0j, "imaginary": 1j * x.imag}[kind]
    return il.stored(x, s + n + salt)


def reference(x, dx, dz, y):
    """Sum over samples and outputs: Jacobian' (input noise seen through the parameters + output noise)^-1 Jacobian."""
    s, n = x.shape
    pos = lambda j, i: j * n + i  # column-major position of y[i, j]
    F = np.zeros((2 * n * n, 2 * n * n))
    for k in range(s):
        at = [j * s + k for j in range(n)]
        sr, sc, si = (d[at] for d in dx)
        seen = float(np.sum(y.real ** 2 * sr[:, None] + y.imag ** 2 * si[:, None] + 2 * y.real * y.imag * sc[:, None]))
        for j in range(n):
            zr, zc, zi = (d[j * s + k] for d in dz)
            w = np.linalg.inv(np.array([[seen + zr, zc], [zc, seen + zi]]))
            J = np.zeros((2, 2 * n * n))
            for i in range(n):
                J[0, pos(j, i)], J[0, n * n + pos(j, i)] = x[k, i].real, -x[k, i].imag
                J[1, pos(j, i)], J[1, n * n + pos(j, i)] = x[k, i].imag, x[k, i].real
            F += J.T @ w @ J
    return F


def info(x, dx, dz, y, fmt="csr"):
    z = x @ y
    F, C = TotalLeastSquares().fisher_info(x, z, matrix(dx, fmt), matrix(dz, fmt), y)
    return np.asarray(F), np.asarray(C)


def valid(ctx, F, C, what):
    size = np.max(np.abs(F))
    ctx.close(F, F.T, what + ": symmetry", rtol=1e-9)
    low = np.linalg.eigvalsh((F + F.T) / 2)[0]
    ctx.check(low > -1e-9 * size, "%s: smallest eigenvalue %g of %g" % (what, low, size))
    d = np.sqrt(np.diag(F))
    if np.any(d <= 0):
        return
    # parameters in units of their own deviations: badly scaled measurements are no reason for a wrong inverse
    G, D = F / np.outer(d, d), C * np.outer(d, d)
    if np.linalg.cond(G) < 1e8:
        ctx.close(D, np.linalg.inv(G), what + ": covariance and inverse of the information", rtol=1e-6)
        ctx.note("inverted")


def value(case, ctx):
    s, n, nx, nz, py, px, fmt = case
    m = s * n
    dx, dz = noise(nx, m, 3), noise(nz, m, 5)
    x, y = data(px, s, n, s + n), params(py, n, n)
    keep = x.copy(), y.copy()
    F, C = info(x, dx, dz, y, fmt)
    what = str(case)
    valid(ctx, F, C, what)
    ctx.close(F, reference(x, dx, dz, y), what + ": information", rtol=1e-8)
    ctx.equal(x, keep[0], "voltages after the call")
    ctx.equal(y, keep[1], "parameters after the call")
    ctx.seen(F)


def pick(d, s, n, rows):
    idx = [j * s + k for j in range(n) for k in rows]
    return tuple(v[idx] for v in d)


def laws(case, ctx):
    s, n, nx, nz, py = case
    m = s * n
    dx, dz = noise(nx, m, 3), noise(nz, m, 5)
    x, y = data("complex", s, n, 2 * s + n), params(py, n, n)
    F, C = info(x, dx, dz, y)
    for k in range(n, s - n + 1):
        for rows in itertools.combinations(range(s), k):
            rest = [r for r in range(s) if r not in rows]
            rows = list(rows)
            a, _ = info(x[rows], pick(dx, s, n, rows), pick(dz, s, n, rows), y)
            b, _ = info(x[rest], pick(dx, s, n, rest), pick(dz, s, n, rest), y)
            ctx.close(a + b, F, "%s: information of samples %s and of the others" % (case, rows), rtol=1e-8)
    for p in itertools.permutations(range(s)):
        if s > 4 and p[0] > p[-1]:
            continue
        p = list(p)
        f, _ = info(x[p], pick(dx, s, n, p), pick(dz, s, n, p), y)
        ctx.close(f, F, "%s: samples in order %s" % (case, p), rtol=1e-8)
    for p in itertools.permutations(range(n)):
        p = list(p)
        cols = [j * s + k for j in p for k in range(s)]
        f, _ = info(x[:, p], tuple(v[cols] for v in dx), tuple(v[cols] for v in dz), y[np.ix_(p, p)])
        q = [p[j] * n + p[i] for j in range(n) for i in range(n)]
        q = q + [n * n + k for k in q]
        ctx.close(f, F[np.ix_(q, q)], "%s: nodes in order %s" % (case, p), rtol=1e-8)
    for c in (.25, 4., 1e-3, 1e4):
        f, cov = info(x, tuple(c * v for v in dx), tuple(c * v for v in dz), y)
        ctx.close(f, F / c, "%s: noise scaled by %g" % (case, c), rtol=1e-8)
        ctx.close(cov, C * c, "%s: covariance with noise scaled by %g" % (case, c), rtol=1e-5)
        f, _ = info(c * x, dx, dz, y)
        ctx.close(f, F * c * c, "%s: voltages scaled by %g" % (case, c), rtol=1e-8)
    more = tuple(v + (k != 1) * .5 for k, v in enumerate(dz))
    f, _ = info(x, dx, more, y)
    low = np.linalg.eigvalsh(F - f)[0]
    ctx.check(low > -1e-9 * np.max(np.abs(F)), "%s: more noise gives more information (%g)" % (case, low))
    ctx.seen(F, C)


def stage(case, ctx):
    n, t, lap, salt = case
    v, i, y = c25.measurements(n, t, lap, salt, .01)
    v, i = np.asarray(v), np.asarray(i)
    y = np.asarray(y) if not lap else np.asarray(y) + .3 * np.eye(n)
    rat = .5 + unit((n,), salt)
    sdv, sdi = 2e-3 + 1e-3j, 3e-3 + 2e-3j
    keep = v.copy(), i.copy(), y.copy()
    with netlib.setconf("identification", **c25.CONF):
        F, C, e = run.eiv_fim("c29", v, i, sdv, sdi, rat, y, None, lap, False)
        again = run.eiv_fim("c29", None, None, sdv, sdi, rat, y, None, lap, False)
        np.random.seed(77)
        third = run.eiv_fim("c29", v, i, sdv, sdi, rat, y, 10000, lap, False)
    what = str(case)
    for a, b, name in zip((v, i, y), keep, ("voltages", "currents", "parameters")):
        ctx.equal(a, b, name + " after the stage")
    # Covariances of the measurements (C06 decides them), information about the centred voltages
    d = []
    for mat, a, b in ((v, sdv.real, sdv.imag), (i, sdi.real * rat, sdi.imag)):
        c = average_true_noise_covariance(mat, a, b, False).toarray()
        h = len(c) // 2
        d.append((np.diag(c[:h, :h]), np.diag(c[:h, h:]), np.diag(c[h:, h:])))
    x = v - v.mean() if lap else v - v.mean(axis=0)
    F, C = np.asarray(F), np.asarray(C)
    ctx.close(F, reference(x, d[0], d[1], y), what + ": information", rtol=1e-7)
    valid(ctx, F, C, what)
    ctx.close(C, np.linalg.inv(F), what + ": covariance", rtol=1e-6)
    # Deviation of the norm of the error, from samples drawn here
    L = np.linalg.cholesky((C + C.T) / 2)
    norms = np.linalg.norm(np.random.RandomState(1).normal(size=(40000, len(C))) @ L.T, axis=1)
    want = np.std(norms) / np.linalg.norm(y)
    ctx.check(abs(e / want - 1) < .1, "%s: deviation of the error %g, expected about %g" % (what, e, want))
    ctx.close(float(third[2]), float(e), what + ": repeated", rtol=1e-10)
    for k, name in enumerate(("information", "covariance", "deviation")):
        ctx.equal(again[k], (F, C, e)[k], what + ": %s loaded back" % name)
    f = c25.read("fim_results_c29")
    for k, a in (("y", y), ("v", v), ("i", i), ("f", F), ("c", C), ("e", e)):
        ctx.equal(f[k], a, what + ": saved " + k)
    ctx.seen(F)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    smax = 7 if big else 5
    shapes = [(s, n) for n in (1, 2, 3) for s in range(max(2, n), smax + 1)]
    vals = [[s, n, nx, nz, py, px, fmt] for s, n in shapes for nx in ("none", "equal", "halves", "different", "strong")
            for nz in ("equal", "halves", "different", "strong") for py in ("symmetric", "full", "real", "imaginary", "zero")
            for px in ("complex", "real", "imaginary", "scaled", "small") for fmt in (("csr", "csc", "coo") if big else ("csr",))]
    vals += [[4, 2, nx, nz, "full", "complex", fmt] for nx in ("different", "none") for nz in ("different", "equal") for fmt in ("csc", "coo")]
    lw = [[s, n, nx, nz, py] for n in (1, 2, 3) for s in range(2 * n, (7 if big else 5 if n < 3 else 6) + 1)
          for nx in ("none", "halves", "strong") for nz in ("equal", "strong") for py in ("symmetric", "full") if s < 6 or big or (nx, nz, py) == ("strong", "strong", "full")]
    st = [[n, t, lap, k] for n in (2, 3) for t in (5, 9) for lap in (False, True) for k in range(4 if big else 2) if t > n + 1]
    return [Group("laws", lw, laws), Group("values", vals, value), Group("stage", st, stage)]
