"""C06: noise covariances are the exact second moments of polar noise, for every measurement and noise level."""
import itertools

import numpy as np

from checks import iterlib as il
from mc.gen import cplx, unit
from src.models import noise_transformation as nt

LEVEL = "exploration"
RULE = ("every measurement matrix shape up to the bound, times phase quadrant patterns, times scalar or per-column magnitude "
        "deviations over a grid of levels (down to those of instruments, on measurements of 1e-6 to 1e4), times phase deviations, times the three models, times direct or inverted; "
        "non-trivial means a distinct covariance matrix")
ASSUMPTIONS = ["independent Gaussian noise on magnitude and phase, as the models state",
               "the closed forms used as oracle are themselves compared with Gauss-Hermite quadrature in the group 'moments'"]


def moments(model, z, sm, sp):
    """(variance of real part, covariance, variance of imaginary part) of one measurement."""
    m, f = abs(z), np.angle(z)
    if model == "naive":
        c, s = np.cos(f), np.sin(f)
        return (c * c * sm ** 2 + m * m * s * s * sp ** 2, s * c * (sm ** 2 - m * m * sp ** 2),
                s * s * sm ** 2 + m * m * c * c * sp ** 2)
    q, e = sm ** 2, np.exp(-sp ** 2)
    rot = np.exp(2j * f)
    if model == "exact":
        cov = -m * m * np.expm1(-sp ** 2) + q
        pse = rot * e * (m * m * np.expm1(-sp ** 2) + q * e)
    else:
        cov = -(m * m + q) * np.expm1(-sp ** 2) + q
        pse = rot * e ** 3 * (m * m * np.expm1(-sp ** 2) + q * (2 * e - 1))
    return (cov + pse.real) / 2, pse.imag / 2, (cov - pse.real) / 2


FN = {"exact": nt.exact_noise_covariance, "naive": nt.naive_noise_covariance, "average": nt.average_true_noise_covariance}


def want_cov(model, meas, sds, sp):
    t, n = meas.shape
    k = t * n
    out = np.zeros((2 * k, 2 * k))
    for j in range(n):
        for i in range(t):
            a = j * t + i
            rr, ri, ii = moments(model, meas[i, j], sds[j], sp)
            out[a, a], out[a, a + k], out[a + k, a], out[a + k, a + k] = rr, ri, ri, ii
    return out


def measurements(t, n, pattern):
    if pattern == "generic":
        return cplx((t, n), t * 10 + n)
    if pattern == "real":
        return 1 + unit((t, n), 3)
    if pattern == "constant":
        return np.full((t, n), 1.2 - .7j)
    if pattern == "steady":  # the same at every instant
        return np.tile(cplx((1, n), n), (t, 1))
    if pattern == "grid":  # phases just like voltages close to nominal, and opposite currents
        return (1 + .05 * unit((t, n), 4)) * np.exp(1j * (.1 * unit((t, n), 5) + np.pi * (np.arange(n) % 2)))
    k = np.arange(t * n).reshape((t, n))
    return (1 + k) * np.exp(1j * np.pi / 4 * k)  # every octant, axes included


def cov_case(case, ctx):
    t, n, pattern, model, sm, sp = case
    meas = il.stored(measurements(t, n, pattern), t + n + len(pattern) + len(model) // 2)
    if isinstance(sm, dict):  # deviations of the columns as they are, so that some agree
        sds = np.array([sm["per column"][j % len(sm["per column"])] for j in range(n)])
    else:
        sds = np.full(n, sm) if np.isscalar(sm) else np.array([sm[j % len(sm)] * (1 + j) for j in range(n)])
    arg = (sm if np.isscalar(sm) else sds)
    keep, keep_s = meas.copy(), np.array(arg)
    got = FN[model](meas, arg, sp)
    want = want_cov(model, meas, sds, sp)
    g = got.toarray()
    ctx.close(g, want, "%s covariance" % model, rtol=1e-10, atol=0)
    # relative to each element's own block, so that small measurements next to large ones count too
    k = t * n
    for a in range(k):
        ix = np.ix_([a, a + k], [a, a + k])
        if 1e-13 < np.trace(want[ix]) and np.trace(want[ix]) > 1e-5 * max(1, abs(vecel(meas, a)) ** 2):
            ctx.close(g[ix], want[ix], "%s covariance of element %d" % (model, a), rtol=1e-7)
    ctx.check(np.array_equal(np.asarray(keep), np.asarray(meas)) and np.array_equal(keep_s, np.array(arg)),
              "the arguments were changed")
    ctx.close(FN[model](meas, arg, sp, False).toarray(), g, "explicitly not inverted", rtol=1e-14)
    ctx.seen(want)
    # inverse, wherever every block is comfortably regular
    dets = [np.linalg.det(want[np.ix_([a, a + k], [a, a + k])]) for a in range(k)]
    tr = [want[a, a] * want[a + k, a + k] for a in range(k)]
    if all(d > 1e-6 * x and x > 0 for d, x in zip(dets, tr)):
        inv = FN[model](meas, arg, sp, True).toarray()
        winv = np.zeros_like(want)
        for a in range(k):
            ix = np.ix_([a, a + k], [a, a + k])
            winv[ix] = np.linalg.inv(want[ix])
            scale = np.max(np.abs(winv[ix]))
            ctx.close(inv[ix] / scale, winv[ix] / scale, "%s inverse of element %d" % (model, a), rtol=1e-5)
        mask = winv == 0
        ctx.check(not np.any(inv[mask & (want == 0)]), "inverse correlates different measurements")
        ctx.note("inverted")


def small(case, ctx):
    """Noise of the size of real instruments on measurements of any size: the blocks stay right to the accuracy that the
    sizes of noise and measurement leave."""
    model, size, rel, sp, form = case
    t, n = 2, 3
    meas = size * measurements(t, n, "generic" if form != "grid" else "grid")
    sds = rel * size * (np.ones(n) if form == "scalar" else np.array([1., 3., 1.5]))
    arg = sds[0] if form == "scalar" else sds
    got = FN[model](meas, arg, sp).toarray()
    want = want_cov(model, meas, sds, sp)
    k = t * n
    ctx.check(not np.any(got[want == 0]), "different measurements are correlated")
    inv = FN[model](meas, arg, sp, True).toarray()
    for a in range(k):
        ix = np.ix_([a, a + k], [a, a + k])
        w, m = want[ix], abs(vecel(meas, a))
        tol = 1e-9 * np.trace(w) + 4e-15 * m * m
        ctx.check(np.max(np.abs(got[ix] - w)) <= tol, lambda: "%s covariance of element %d is %s, expected %s" % (model, a, got[ix], w))
        err = tol / np.linalg.eigvalsh(w)[0]
        if err < .05:   # well away from singular at this accuracy
            wi = np.linalg.inv(w)
            ctx.check(np.max(np.abs(inv[ix] - wi)) <= 10 * err * np.trace(wi), lambda: "%s inverse of element %d is %s, expected %s" % (model, a, inv[ix], wi))
            ctx.note("small noise inverted")
    ctx.seen(want / np.max(want))


def vecel(meas, a):
    return meas[a % meas.shape[0], a // meas.shape[0]]


def moment_case(case, ctx):
    """The closed forms against Gauss-Hermite quadrature, and the library against quadrature."""
    m, f, sm, sp = case
    x, w = np.polynomial.hermite_e.hermegauss(60)
    w = w / np.sqrt(2 * np.pi)
    ww = np.outer(w, w)
    z = m * np.exp(1j * f)

    def second(mm, ff):
        """Second moments of the noise around its mean, given true magnitude mm and phase ff."""
        v = np.add.outer(mm + sm * x, 0 * x) * np.exp(1j * np.add.outer(0 * x, ff + sp * x))
        mu = np.sum(ww * v)
        d = v - mu
        return np.array([np.sum(ww * d.real ** 2), np.sum(ww * d.real * d.imag), np.sum(ww * d.imag ** 2)])

    exact = second(m, f)
    ctx.close(np.array(moments("exact", z, sm, sp)), exact, "closed form of the exact model", rtol=1e-7, atol=1e-13)
    s = FN["exact"](np.array([[z]]), sm, sp).toarray()
    ctx.close(np.array([s[0, 0], s[0, 1], s[1, 1]]), exact, "exact covariance", rtol=1e-7, atol=1e-13)
    ctx.seen(exact)
    # averaged over the distribution of true values given the measurement
    xs, ws = np.polynomial.hermite_e.hermegauss(16)
    ws = ws / np.sqrt(2 * np.pi)
    avg = sum(wa * wb * second(m + sm * xa, f + sp * xb) for xa, wa in zip(xs, ws) for xb, wb in zip(xs, ws))
    ctx.close(np.array(moments("average", z, sm, sp)), avg, "closed form of the averaged model", rtol=1e-6, atol=1e-12)
    s = FN["average"](np.array([[z]]), sm, sp).toarray()
    ctx.close(np.array([s[0, 0], s[0, 1], s[1, 1]]), avg, "averaged covariance", rtol=1e-6, atol=1e-12)


def groups(tier):
    from mc.core import Group
    hi = 3 if tier == "quick" else 5
    shapes = [(t, n) for t in range(1, hi + 1) for n in range(1, hi + 1)] + [(7, 2), (2, 9)]
    some = [{"per column": p} for p in ([.1], [.2, .2, .05], [.05, .2, .2], [.3, .1, .3])]
    sms = [.01, .3, [.02, .1, .05], 1] + some if tier == "quick" else [.01, .3, [.02, .1, .05], 1, [.5], 1e-3] + some
    sps = [.01, .2, 1.1] if tier == "quick" else [.01, .2, 1.1, 0.05, 2.0]
    cases = [[t, n, p, m, s, f] for t, n in shapes for p in ("generic", "real", "grid", "octants", "constant", "steady")
             for m in FN for s in sms for f in sps]
    mom = [[m, f, sm, sp] for m in (.2, 1., 3.) for f in np.arange(-4, 4) * np.pi / 5 for sm in (.05, .4) for sp in (.05, .5)]
    levels = (1e-6, 1e-5, 1e-4, 1e-3) if tier == "quick" else (1e-7, 1e-6, 1e-5, 1e-4, 3e-4, 1e-3, 5e-3)
    tiny = [[m, size, rel, sp, f] for m in FN for size in (1e-6, 1e-3, 1., 1e4) for rel in levels for sp in levels for f in ("scalar", "columns", "grid")]
    return [Group("small noise", tiny, small), Group("covariance", cases, cov_case), Group("moments", mom, moment_case)]
