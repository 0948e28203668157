"""C08: filtering returns exactly the block means of the linearly interpolated (and then noisy) measurements."""
import numpy as np

from checks import iterlib as il
from mc.gen import cplx
from src.simulation import noise as ns

LEVEL = "exploration"
RULE = ("every number of original instants, uniform or not, times every number of new instants, times every block length, times "
        "number of series, times noise hook form (none, scalar, per-series deviations), also instants far from zero, close together or far apart, other units and memory layouts; non-trivial means a distinct result")
ASSUMPTIONS = ["blocks that the new instants do not fill completely are dropped, as the documented number of steps implies"]


def case_fn(case, ctx):
    told, spacing, tnew, fparam, n, hook, dtype = case[:7]
    start, ticks, size = case[7:] if len(case) > 7 else (0., 1., 1.)
    x = cplx((told, n), told + n)
    x = {"complex": x, "real": x.real.copy(), "int": np.round(5 * x.real).astype(int), "single": x.astype(np.complex64)}[dtype]
    old = np.arange(told) * 60.0 if spacing == "uniform" else np.cumsum(1 + np.arange(told) ** 2).astype(float)
    if spacing == "int":
        old = (np.arange(told) * 60)
    if dtype in ("complex", "real"):
        x = x * size
    if spacing != "int":
        old = start + old * ticks
    new = np.linspace(old[0], old[-1], tnew)
    if len(case) > 7 and tnew > 2:   # not uniform either
        new[1:-1] += .3 * (new[1] - new[0]) * np.cos(np.arange(1, tnew - 1))
    x = il.stored(x, told + fparam + n)
    x0, o0, n0 = x.copy(), old.copy(), new.copy()
    sm, sp, fn = None, None, None
    calls = []

    def noise(v, m, p):
        calls.append((len(v), float(m), float(p)))
        v = np.asarray(v)
        return v * (1 + float(m) * (1 + np.arange(len(v)))) + 1j * float(p)

    cm, cp = np.zeros(n), np.zeros(n)
    if hook == "scalar":
        sm, sp, fn = .1, .2, noise
        cm, cp = np.full(n, .1), np.full(n, .2)
    elif hook == "array":
        sm, sp, fn = .1 * (1 + np.arange(n)), .3 + .01 * np.arange(n), noise
        cm, cp = sm, sp
    elif hook == "mixed":
        sm, sp, fn = .1 * (1 + np.arange(n)), .05, noise
        cm, cp = sm, np.full(n, .05)
    elif hook == "missing":  # without deviations there is no noise
        fn = noise
    got = ns.filter_and_resample_measurement(x, oldtimes=old, newtimes=new, fparam=fparam, std_m=sm, std_p=sp, noise_fcn=fn)
    steps = tnew // fparam
    want = np.zeros((steps, n), dtype=complex)
    for i in range(n):
        r = np.interp(new, old, x[:, i].real) + 1j * np.interp(new, old, x[:, i].imag)
        r = r * (1 + cm[i] * (1 + np.arange(tnew))) + 1j * cp[i]
        for t in range(steps):
            want[t, i] = sum(r[t * fparam:(t + 1) * fparam]) / fparam
    ctx.close(got, want, "filtered measurements", rtol=1e-9 if dtype != "single" and not start else 1e-5, atol=0 if hook == "none" or size >= 1 else 1e-12)
    ctx.equal(x, x0, "measurements after the call")
    ctx.equal(old, o0, "old instants after the call")
    ctx.equal(new, n0, "new instants after the call")
    ctx.seen(want)
    if hook in ("scalar", "array", "mixed"):
        ctx.check(sum(c[0] for c in calls) == n * tnew, "noise was drawn for %s instants, expected %d series of %d" % (
            [c[0] for c in calls], n, tnew))


def identity_case(case, ctx):
    """Without resampling and with blocks of one the filter returns the measurements themselves."""
    t, n = case
    x = cplx((t, n), t)
    old = np.arange(t) * 60.0
    ctx.close(ns.filter_and_resample_measurement(x, oldtimes=old, newtimes=old), x, "identity")
    if t > 1:
        ctx.close(ns.filter_and_resample_measurement(x, newtimes=np.arange(t)), x, "identity on default instants")
    # instants that are not given are those of the measurements: their numbers, or the old ones
    ctx.close(ns.filter_and_resample_measurement(x), x, "identity without instants")
    ctx.close(ns.filter_and_resample_measurement(x, oldtimes=old), x, "identity without new instants")
    if t > 1:
        fine = np.linspace(0, t - 1, 2 * t + 1)
        ctx.close(ns.filter_and_resample_measurement(x, newtimes=fine),
                  np.array([np.interp(fine, np.arange(t), x[:, k].real) + 1j * np.interp(fine, np.arange(t), x[:, k].imag) for k in range(n)]).T, "default old instants")
        for f in range(1, t + 1):
            want = np.array([x[k * f:(k + 1) * f].mean(axis=0) for k in range(t // f)])
            ctx.close(ns.filter_and_resample_measurement(x, fparam=f), want, "blocks of %d without instants" % f)
            ctx.close(ns.filter_and_resample_measurement(x, oldtimes=old, fparam=f), want, "blocks of %d without new instants" % f)
    c = np.ones((t, n)) * (2 - 1j)
    for f in range(1, t + 1):
        got = ns.filter_and_resample_measurement(c, oldtimes=old, newtimes=np.linspace(0, old[-1], 3 * t), fparam=f)
        ctx.close(got, np.full((3 * t // f, n), 2 - 1j), "constant measurements, blocks of %d" % f)
    ctx.seen(x)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    cases = [[o, s, k, f, n, h, d] for o in (2, 3, 4, 5) for s in ("uniform", "int", "irregular")
             for k in (list(range(1, 13)) + [25] if not big else list(range(1, 31)))
             for f in range(1, 6 if not big else 12) if f <= k
             for n in (1, 2, 3) for h in ("none", "scalar", "array", "mixed", "missing")
             for d in (("complex", "real") if n > 1 and not big else ("complex", "real", "int", "single"))]
    other = [[o, s, k, f, n, h, "complex", start, ticks, size] for o in (2, 4, 5) for s in ("uniform", "irregular") for k in (2, 3, 4, 5, 8, 12) for f in (1, 2, 3) if f <= k
             for n in (1, 3) for h in ("none", "array") for start, ticks in ((1.6e9, 1.), (1e6, 1.), (-1e5, 1.), (0, 1e-10), (0, 1e10), (-.5, 1e-4)) for size in (1, 1e-9, 1e9)]
    return [Group("other instants and units", other, case_fn), Group("block means", cases, case_fn),
            Group("identity", [[t, n] for t in range(2, 7 if not big else 15) for n in (1, 2, 3)], identity_case)]
