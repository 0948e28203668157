"""C22: ordinary and total least squares return the optimum of their criterion."""
import itertools

import numpy as np

from checks import iterlib as il
from mc.gen import cplx, real
from src.models.error_in_variable import TotalLeastSquares
from src.models.regression import ComplexRegression

LEVEL = "exploration"
RULE = ("samples x nodes x outputs x kind of data (exact, noisy, rank deficient, fewer samples than nodes, one sample repeated, nodes of very "
        "different scale, condition numbers up to 1e8) x number type x memory layout, every real data set over a small alphabet for tiny sizes, parameters of which one is up to 1e8 times the others, and every sequence of 2 (3) fits of one estimator on 10 data sets of the same or other size; non-trivial means "
        "distinct estimates")
ASSUMPTIONS = ["total least squares only where its solution is unique: full column rank, separated singular values, invertible output block"]


def lay(a, layout):
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    return np.ascontiguousarray(a)


def make(t, n, m, kind, typ, salt):
    gen = (lambda s, k: cplx(s, k)) if typ == "complex" else (lambda s, k: real(s, k))
    x, y = gen((t, n), salt), gen((n, m), salt + 1) * 3
    if kind == "deficient" and n > 1:
        x[:, -1] = x[:, 0] * 2
    if kind == "repeated":
        x[:] = x[0]
    if kind.startswith("ill"):   # exact data of a given condition number
        k = min(t, n)
        u, sv, vh = np.linalg.svd(x, full_matrices=False)
        x = (u * np.logspace(0, -float(kind[3:]), k) if k > 1 else u * sv) @ vh
    if kind.startswith("unit"):   # everything in other units
        x, y = x * 10. ** float(kind[4:]), y + .1 * gen((n, m), salt + 5)
    if kind == "scaled":
        x = x * 10. ** (-2 * np.arange(n))
        y = y * 10. ** (np.arange(n)[:, None])
    z = x @ y
    if kind in ("noisy", "deficient", "repeated") or kind.startswith("unit"):
        z = z + .1 * np.abs(x).max() * gen((t, m), salt + 2)
    return x, z, y


def ols_check(ctx, x, z, what, cond=1.):
    x0, z0 = x.copy(), z.copy()
    est = ComplexRegression()
    est.fit(x, z)
    b = np.asarray(est.fitted_admittance_matrix)
    ctx.equal(x, x0, "voltages after the fit")
    ctx.equal(z, z0, "currents after the fit")
    ctx.check(b.shape == (x.shape[1],) + z.shape[1:], "%s: OLS shape %s" % (what, b.shape))
    s = max(np.abs(x).max(), 1e-300)
    r = z - x @ b
    g = x.conj().T @ r
    ctx.check(np.abs(g).max() <= max(1e-8, 1e-13 * cond) * s * max(np.abs(z).max(), s * np.abs(b).max()),
              lambda: "%s: OLS residual not orthogonal to the voltages: %s" % (what, g))
    u, sv, vh = np.linalg.svd(x, full_matrices=True)
    rank = int((sv > 1e-9 * sv[0]).sum()) if sv[0] > 0 else 0
    null = vh[rank:]
    if len(null):
        ctx.note("rank deficient")
        ctx.check(np.abs(null @ b).max() <= 1e-7 * max(1, np.abs(b).max()),
                  lambda: "%s: OLS estimate is not the smallest: %s" % (what, null @ b))
    est.fit(x, z)
    ctx.equal(est.fitted_admittance_matrix, b, "%s: second OLS fit" % what)
    ctx.seen(b)
    return b


def tls_check(ctx, x, z, what, exact=None):
    zm = z.reshape(len(z), -1)
    n, m = x.shape[1], zm.shape[1]
    c = np.hstack((x, zm))
    w, v = np.linalg.eigh(c.conj().T @ c)
    if n + m > 1 and w[m] - w[m - 1] < 1e-3 * w[-1] * (1e-7 if exact is not None else 1):
        return ctx.note("TLS not unique")
    lo = v[:, :m]
    if np.linalg.svd(lo[n:])[1].min() < 1e-2 * (1e-2 if exact is not None else 1):
        return ctx.note("TLS does not exist")
    want = -lo[:n] @ np.linalg.inv(lo[n:])
    x0, z0 = x.copy(), z.copy()
    est = TotalLeastSquares()
    est.fit(x, z)
    b = np.asarray(est.fitted_admittance_matrix)
    ctx.equal(x, x0, "voltages after the fit")
    ctx.equal(z, z0, "currents after the fit")
    ctx.check(b.shape == ((n,) if m == 1 else (n, m)), "%s: TLS shape %s" % (what, b.shape))
    b = b.reshape(n, m)
    ctx.close(b, exact if exact is not None else want, "%s: TLS estimate" % what, rtol=1e-5)
    # smallest correction of [x z] consistent with the estimate
    nul = np.vstack((b, -np.eye(m)))
    q, _ = np.linalg.qr(nul)
    ctx.check(abs(np.linalg.norm(c @ q) ** 2 - w[:m].sum()) <= 1e-8 * w[-1],
              lambda: "%s: correction %g, smallest possible %g" % (what, np.linalg.norm(c @ q) ** 2, w[:m].sum()))
    est.fit(x, z)
    ctx.equal(np.asarray(est.fitted_admittance_matrix).reshape(n, m), b, "%s: second TLS fit" % what)
    ctx.note("TLS decided")
    ctx.seen(b)


def generic(case, ctx):
    t, n, m, kind, typ, layout = case
    x, z, y = make(t, n, max(m, 1), kind, typ, t + 10 * n + 100 * m)
    if m == 0:  # a vector of outputs
        z, y = z[:, 0], y[:, :1]
    x, z = lay(x, layout), lay(z, layout)
    b = ols_check(ctx, x, z, str(case), 10 ** float(kind[3:]) if kind.startswith("ill") else 1.)
    if kind.startswith("ill") and t >= n:
        ctx.note("ill-conditioned")
        ctx.close(b.reshape(n, -1), y, "OLS on exact data", rtol=1e-12 * 10 ** float(kind[3:]))
    if kind == "exact" and t >= n:
        ctx.close(b.reshape(n, -1), y, "OLS on exact data", rtol=1e-7)
    if t >= n + max(m, 1) or (kind in ("exact", "scaled") and t >= n):
        tls_check(ctx, x, z, str(case), y if kind == "exact" else None)


def steep(case, ctx):
    """exact data of parameters of very different size: what is exact is recovered, to the precision of the largest"""
    t, n, m, size, place, typ = case
    x, _, y = make(t, n, m, "exact", typ, t + 10 * n + 100 * m)
    y[place // m, place % m] *= 10. ** size
    for name, cls in (("OLS", ComplexRegression), ("TLS", TotalLeastSquares)):
        est = cls()
        est.fit(x.copy(), x @ y)
        ctx.close(np.asarray(est.fitted_admittance_matrix).reshape(n, m), y, "%s: %s on exact data" % (case, name), rtol=1e-5)
    ctx.note("steep parameters")
    ctx.seen(y)


def tiny(case, ctx):
    t, n, vals = case
    m = np.array(vals, dtype=float).reshape(t, n + 1)
    x, z = m[:, :n].copy(), m[:, n:].copy()
    if not np.any(x):
        return
    ols_check(ctx, x, z, "tiny")
    if t > n:
        tls_check(ctx, x, z, "tiny")


CHANGES = [lambda x, z: (x, z), lambda x, z: (x[::-1].copy(), z), lambda x, z: (x[:, ::-1].copy(), z), lambda x, z: (-x, z),
           lambda x, z: (x, z[::-1].copy()), lambda x, z: (x, z[:, ::-1].copy()), lambda x, z: (x[:-1], z[:-1]), lambda x, z: (x.conj(), z),
           lambda x, z: (x[:, :-1] if x.shape[1] > 1 else x * 2, z), lambda x, z: (x.real.copy(), z.real.copy())]


def histories(case, ctx):
    t, n, m, kind, total, depth = case
    x, z, _ = make(t, n, m, kind, "complex", t + 10 * n + 100 * m)

    def fit(est, x, z):
        est.fit(x, z)
        return est.fitted_admittance_matrix

    def compare(ctx, got, want, what):
        ctx.close(got, want, what)
    il.refits(ctx, TotalLeastSquares if total else ComplexRegression, fit, CHANGES, (x, z), depth, "%s" % (case,), compare)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    ts, ns, ms = (range(1, 13), range(1, 7), range(0, 7)) if big else (range(1, 9), range(1, 5), range(0, 5))
    kinds = ["exact", "noisy", "deficient", "repeated", "scaled"]
    cases = [[t, n, m, k, ty, l] for t in ts for n in ns for m in ms for k in kinds for ty in ("complex", "real")
             for l in ("C", "F", "strided")]
    cases += [[t, n, m, "ill%d" % d, ty, "C"] for t in ts for n in ns if t >= n > 1 for m in ms for d in (3, 6, 8) for ty in ("complex", "real")]
    al = [0, 1, -2] if not big else [0, 1, -2, 3]
    tn = [[2, 1, list(v)] for v in itertools.product(al, repeat=4)] + [[3, 1, list(v)] for v in itertools.product(al, repeat=6)] + \
         [[2, 2, list(v)] for v in itertools.product(al, repeat=6)]
    cases += [[t, n, m, "unit%d" % d, ty, "C"] for t in ts[1:] for n in ns for m in ms for d in (-12, -6, -3, 4, 9) for ty in ("complex", "real")]
    large = [[60, 8, 8, "noisy", "complex", "C"], [60, 12, 12, "noisy", "complex", "F"], [200, 20, 20, "exact", "complex", "C"]]
    again = [[t, n, m, "noisy", total, 2 if not big else 3] for t, n, m in ((7, 1, 1), (8, 2, 2), (9, 3, 2), (12, 4, 4)) for total in (False, True)]
    again += [[t, 3, 2, "noisy", False, 2] for t in (2, 3)]
    far = [[n + k, n, m, d, p, ty] for n in ns for m in ms if m for k in (0, 1, m, 6) for d in (2, 4, 6, 8) for p in range(n * m) for ty in ("complex", "real")]
    return [Group("steep parameters", far, steep), Group("histories of fits", again, histories), Group("generic data", cases + large, generic), Group("small alphabet", tn, tiny)]
