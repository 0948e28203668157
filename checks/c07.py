"""C07: injected measurement noise has the requested kind, size and independence for every answer of the generator."""
import contextlib
import itertools

import numpy as np

from checks import iterlib as il
from mc.gen import cplx, replaced, unit
from src.simulation import noise as ns

LEVEL = "exploration"
RULE = ("every measurement shape up to the bound, times forms of the deviations (Python, numpy scalar, per-column array: different, nearly equal, of very different "
        "size; zero, from 1e-11 to 1) x memory layout x units, "
        "times every constant answer of the owned random generator out of a menu, plus metamorphic pairs on the real seeded "
        "generator (doubling a deviation doubles that noise); non-trivial means distinct noisy measurements")
ASSUMPTIONS = ["polar noise is relative: magnitude m(1+n), phase f(1+n'), as the code and its callers define it"]


@contextlib.contextmanager
def generator(answer):
    """Normal draws return loc + scale * answer(shape), whatever the order in which the code asks."""
    def normal(loc=0.0, scale=1.0, size=None):
        shape = np.broadcast(np.asarray(loc), np.asarray(scale)).shape if size is None else size
        if np.any(np.asarray(scale) < 0):
            raise ValueError("scale < 0")
        return loc + np.asarray(scale) * answer(shape)

    with replaced(normal=normal, standard_normal=lambda size=None: answer(() if size is None else size), randn=lambda *s: answer(s)):
        yield


def const(z):
    return lambda shape: np.full(shape, float(z))


def as_kind(sd, kind, n):
    if kind == "python":
        return sd
    if kind == "numpy":
        return np.float64(sd)
    if kind == "zerod":
        return np.array(sd)
    if kind == "array1":
        return np.array([sd])
    return column(sd, kind, n)


def column(sd, kind, n):
    if kind == "nearly":   # almost the same in every column
        return np.array([sd * (1 + 3e-6 * j) for j in range(n)])
    if kind == "scales":   # very different in every column
        return np.array([sd * 10. ** (-3 * (j % 3)) for j in range(n)])
    return np.array([sd * (1 + j) for j in range(n)]) if kind == "columns" else np.full(n, sd)


def polar_case(case, ctx):
    t, n, kind, sm, sp, z = case[:6]
    x = cplx((t, n), t + 7 * n) * (case[6] if len(case) > 6 else 1)
    x = il.stored(x, t + n + len(kind))
    x0 = x.copy()
    am, ap = as_kind(sm, kind, n), as_kind(sp, kind, n)
    with generator(const(z)):
        got = ns.add_polar_noise_to_measurement(x, am, ap)
    cm, cp = column(sm, kind, n), column(sp, kind, n)
    want = np.abs(x) * (1 + z * cm) * np.exp(1j * np.angle(x) * (1 + z * cp))
    ctx.close(got, want, "polar noise", rtol=1e-9, atol=0)
    # the noise itself, however small
    own = np.max(np.abs(x), axis=0)
    ctx.check(np.all(np.abs(got - want) <= 1e-14 * (1 + 3 * abs(z)) * own), lambda: "polar noise %s, expected %s" % (got - x, want - x))
    ctx.equal(x, x0, "measurement after the call")
    ctx.seen(want)
    if kind in ("python", "numpy"):
        with generator(const(z)):
            v, c = ns.add_noise_in_polar_coordinates(2 * x, x, am, ap)
        ctx.close(v, want, "wrapper: voltages come first")
        ctx.close(c, 2 * want, "wrapper: currents come second")


def series_case(case, ctx):
    """One series at a time (a vector), as the resampling stage does."""
    t, sm, sp, z = case
    x = cplx((t,), t)
    with generator(const(z)):
        got = ns.add_polar_noise_to_measurement(x, np.float64(sm), np.float64(sp))
    ctx.close(got, np.abs(x) * (1 + z * sm) * np.exp(1j * np.angle(x) * (1 + z * sp)), "polar noise on a series")
    ctx.seen(got)


def cartesian_case(case, ctx):
    t, n, ra, ia, z = case[:5]
    x = cplx((t, n), t + 7 * n) * (case[5] if len(case) > 5 else 1)
    x = il.stored(x, t + n)
    x0 = x.copy()
    with generator(const(z)):
        got, rs, is_ = ns.add_cartesian_noise_to_measurement(x, ra, ia)
    wr, wi = np.mean(np.abs(x.real), axis=0) * ra / 3, np.mean(np.abs(x.imag), axis=0) * ia / 3
    ctx.close(rs, wr, "deviation of the real part", atol=0)
    ctx.close(is_, wi, "deviation of the imaginary part", atol=0)
    ctx.close(got, x + z * wr + 1j * z * wi, "cartesian noise", rtol=1e-13, atol=0)
    ctx.equal(x, x0, "measurement after the call")
    with generator(const(z)):
        v, c = ns.add_noise_in_cartesian_coordinates(3 * x, x, ra, ia)
    ctx.close(v, x * 1 + z * np.mean(np.abs(x.real), axis=0) * ia / 3 + 1j * z * np.mean(np.abs(x.imag), axis=0) * ia / 3,
              "wrapper: noisy voltages")
    ctx.close(c, 3 * x + z * np.mean(np.abs(3 * x.real), axis=0) * ra / 3
              + 1j * z * np.mean(np.abs(3 * x.imag), axis=0) * ra / 3, "wrapper: noisy currents")
    ctx.seen(got)


def recovered(x, y):
    """Relative noise on magnitude and phase."""
    return np.abs(y) / np.abs(x) - 1, np.angle(y) / np.angle(x) - 1


def independence_case(case, ctx):
    """Real generator: every element has noise of its own, scaling is exact, same seed same noise."""
    t, n, kind, seed = case
    x = (1 + unit((t, n), 5)) * np.exp(1j * (.3 + unit((t, n), 6)))
    sm, sp = 1e-3, 2e-3

    def run(a, b):
        np.random.seed(seed)
        return ns.add_polar_noise_to_measurement(x, as_kind(a, kind, n), as_kind(b, kind, n))

    y = run(sm, sp)
    m, p = recovered(x, y)
    m, p = m / column(sm, kind, n), p / column(sp, kind, n)
    vals = np.concatenate((m.ravel(), p.ravel()))
    ctx.check(np.min(np.diff(np.sort(vals))) > 1e-9 if vals.size > 1 else True, "two elements share the same noise")
    ctx.check(np.max(np.abs(vals)) < 7, "noise beyond 7 standard deviations")
    ctx.close(run(sm, sp), y, "same seed", rtol=1e-14)
    m2, p2 = recovered(x, run(2 * sm, sp))
    ctx.close(m2 / column(2 * sm, kind, n), m, "doubled magnitude deviation", rtol=1e-8)
    ctx.close(p2 / column(sp, kind, n), p, "phase noise with doubled magnitude deviation", rtol=1e-8)
    m3, p3 = recovered(x, run(sm, 2 * sp))
    ctx.close(m3 / column(sm, kind, n), m, "magnitude noise with doubled phase deviation", rtol=1e-8)
    ctx.close(p3 / column(2 * sp, kind, n), p, "doubled phase deviation", rtol=1e-8)
    ctx.close(run(0, 0), x, "zero deviations")
    np.random.seed(seed)
    a = ns.add_polar_noise_to_measurement(x, as_kind(sm, kind, n), as_kind(sp, kind, n))
    b = ns.add_polar_noise_to_measurement(x, as_kind(sm, kind, n), as_kind(sp, kind, n))
    ctx.check(np.min(np.abs(a - b)) > 0, "consecutive calls without reseeding repeat their noise")
    if vals.size >= 400:
        # a fixed seed: the empirical moments of a correct Gaussian generator are known to lie well inside these bounds
        for v, name in ((m.ravel(), "magnitude"), (p.ravel(), "phase")):
            ctx.check(abs(np.mean(v)) < 5 / np.sqrt(v.size), "%s noise is biased" % name)
            ctx.check(abs(np.std(v) - 1) < 5 / np.sqrt(2 * v.size), "%s noise has deviation %g" % (name, np.std(v)))
        ctx.check(abs(np.mean(m * p)) < 5 / np.sqrt(m.size), "magnitude and phase noise are correlated")
    ctx.seen(y)


def groups(tier):
    from mc.core import Group
    hi = 3 if tier == "quick" else 6
    shapes = [(t, n) for t in range(1, hi + 1) for n in range(1, hi + 1)] + [(8, 1), (1, 8)]
    kinds = ["python", "numpy", "zerod", "array1", "columns"]
    zs = [-2, -.5, 0, 1, 3]
    polar = [[t, n, k, sm, sp, z] for t, n in shapes for k in kinds for sm in (0, .01, .2, 1) for sp in (0, .05, .3)
             for z in zs]
    small = [[t, n, k, sm, sp, z, size] for t, n in shapes if n > 1 or t > 2 for k in kinds + ["nearly", "scales"]
             for sm, sp in ((1e-6, 1e-6), (1e-9, 2e-9), (1e-11, 0), (0, 1e-11), (.2, 1e-9), (1e-9, .2), (.2, .3)) for z in (-2, 1, 3) for size in (1, 1e-9, 1e9)]
    tiny = [[t, n, a, b, z, size] for t, n in shapes for a, b in ((.3, .6), (1e-6, 1e-9), (0, 1)) for z in (-2, 1) for size in (1e-12, 1e-6, 1e6, 1e12)]
    return [
        Group("small deviations", small, polar_case), Group("cartesian, other units", tiny, cartesian_case),
        Group("polar", polar, polar_case),
        Group("series", [[t, a, b, z] for t in range(1, 9) for a in (0, .1) for b in (0, .2) for z in zs], series_case),
        Group("cartesian", [[t, n, a, b, z] for t, n in shapes for a in (0, .3, 1) for b in (0, .6) for z in zs],
              cartesian_case),
        Group("independence", [[t, n, k, s] for t, n in shapes + [(40, 12), (300, 2)] for k in kinds
                               for s in range(3 if tier == "quick" else 12)], independence_case),
    ]
