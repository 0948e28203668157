"""C15: the noise stage gives aligned noisy and exact measurements with noise of the size the sensors' ratings imply."""
import numpy as np

from checks import netlib
from checks import iterlib as il
from checks.c07 import const, generator
from mc.gen import cplx, unit
from src.simulation import run, run3ph

LEVEL = "exploration"
RULE = ("network (order of identifiers, supply, passive nodes, 1 or 3 phases) x number of steps before and after x sampling frequency x "
        "deviations x exact or equivalent noise x answer of the owned generator, plus seeded runs; non-trivial means distinct noisy measurements")
ASSUMPTIONS = ["ratings are safety factor times the squared apparent power, as the code and its configuration define them",
               "reading back uses the configured safety factor"]

NETS = {"a": ([1, 2, 3], [(0, 1), (1, 2)], 0, ()), "b": ([2, 10, 1], [(0, 1), (0, 2)], 2, ()),
        "c": ([12, 3, 20, 1], [(0, 1), (1, 2), (1, 3)], 1, (3,)), "d": ([5, 4, 3, 2, 1], [(0, 1), (1, 2), (2, 3), (3, 4)], 4, (1,)),
        # several supplies
        "e": ([3, 8, 1], [(0, 1), (1, 2)], [0, 2], ()), "f": ([9, 2, 30, 4], [(0, 1), (1, 2), (2, 3)], [3, 1], (2,))}
SYMMETRIC = {"a": (), "b": (0,), "c": (), "d": (0, 2), "e": (), "f": (0,)}


def nominal(key, phases):
    ids, _, pcc, passive = NETS[key]
    n = len(ids)
    if phases == 1:
        loads = netlib.loads1(n, n, passive)
        s = np.array([p * p + q * q for p, q in loads]).reshape(n, 1)
    else:
        # a symmetric load counts as a whole in every phase
        loads = netlib.mixed3(netlib.loads3(n, n, passive + ((0, 2), (2, 0))), SYMMETRIC[key])
        s = np.array([np.ones(3) * np.square(p) + np.square(q) for p, q in loads])
    s[pcc] = 0
    return loads, s


def make(key, phases, name):
    ids, edges, pcc, _ = NETS[key]
    loads, _ = nominal(key, phases)
    return (netlib.net1 if phases == 1 else netlib.net3)(ids, edges, loads, pcc, name)


def ratings(key, phases, factor):
    """In the order of the measurements: bus after bus, its phases together."""
    s = nominal(key, phases)[1] * factor
    s[NETS[key][2]] = s.sum(axis=0)  # each supply can carry all loads
    return s.reshape(-1)


def resample(x, old, new, block):
    y = np.array([np.interp(new, old, x[:, k].real) + 1j * np.interp(new, old, x[:, k].imag) for k in range(x.shape[1])]).T
    m = len(new) // block
    return y, m


def measured(key, phases, t):
    n = len(NETS[key][0]) * phases
    v = (1 + .05 * cplx((t, n), 1)) * np.exp(1j * np.tile([0, -2.09, 2.09][:phases], n // phases))
    return il.stored(v, t + n), il.stored(.3 * cplx((t, n), 2), t + n // 2)


def stage_case(case, ctx):
    phases, key, t, fmeas, steps, sds, equivalent, factor, z = case
    net = netlib.cached(make, key, phases, "noise_%s%d" % (key, phases))
    mod = run if phases == 1 else run3ph
    v, i = measured(key, phases, t)
    v0, i0 = v.copy(), i.copy()
    times = np.arange(t) * 60
    before = netlib.table_state(net)
    f = factor if phases == 1 else factor * np.array([1., 1.5, .7])
    params = tuple(sds) + (equivalent, f)
    with generator(const(z)):
        nv, ni, w, j, r, fp = mod.add_noise_and_filter(net, v, i, times, fmeas, steps, params, verbose=False)
    total = round((t - 1) * 60 * fmeas)
    block = total // steps
    want_r = ratings(key, phases, f)
    ctx.close(r, want_r, "ratings")
    ctx.check(fp == block, "filtering factor %s, expected %s" % (fp, block))
    if equivalent:
        ts, scale, b = np.linspace(0, (t - 1) * 60, round((t - 1) * 60 * fmeas / block)), 1 / np.sqrt(block), 1
    else:
        ts, scale, b = np.linspace(0, (t - 1) * 60, total), 1., block
    n = v.shape[1]
    for what, x, noisy, exact, sm, sp in (("voltage", v, nv, w, sds[0] * np.ones(n), sds[2]), ("current", i, ni, j, sds[1] * want_r, sds[3])):
        y, m = resample(x, times, ts, b)
        mean = lambda a: np.array([a[k * b:(k + 1) * b].mean(axis=0) for k in range(m)])
        ctx.close(exact, mean(y), "exact " + what)
        p = np.abs(y) * (1 + z * sm * scale) * np.exp(1j * np.angle(y) * (1 + z * sp * scale))
        ctx.close(noisy, mean(p), "noisy " + what)
        ctx.seen(np.asarray(noisy))
    ctx.equal(v, v0, "voltages after the call")
    ctx.equal(i, i0, "currents after the call")
    ctx.check(netlib.table_state(net) == before, "the network was changed")
    with netlib.setconf("simulation", safety_factor=2 * factor + 1):
        again = mod.add_noise_and_filter(net, v, i, times, fmeas, steps, None, verbose=False)
    for a, b_, what in zip(again[:4], (nv, ni, w, j), ("noisy voltage", "noisy current", "exact voltage", "exact current")):
        ctx.equal(a, b_, "saved " + what)
    ctx.check(again[5] == block, "filtering factor read back %s" % again[5])
    ctx.close(again[4], ratings(key, phases, 2 * factor + 1), "ratings read back")


def seed_case(case, ctx):
    """Real generator: reproducible, different for each node, quantity and seed, of the size of the deviations."""
    phases, key, equivalent, seed = case
    net = netlib.cached(make, key, phases, "noise_%s%d" % (key, phases))
    other = netlib.cached(make, "a", phases, "noise_other%d" % phases)
    mod = run if phases == 1 else run3ph
    t = 3
    v, i = measured(key, phases, t)
    v, i = np.tile(v[0], (t, 1)), np.tile(i[0], (t, 1))  # constant in time, so that averaging a block changes only the noise
    times = np.arange(t) * 60
    f = 4. if phases == 1 else 4. * np.ones(3)
    sds = (1e-3, 2e-1, 5e-3, 3e-3)
    go = lambda nt=net, a=v, b=i, s=sds, st=30: mod.add_noise_and_filter(nt, a, b, times, 5, st, s + (equivalent, f), verbose=False)
    with netlib.setconf("conf", seed=seed):
        np.random.seed(3)
        a = go()
        np.random.rand(10)
        b = go()
        for x, y in zip(a[:4], b[:4]):
            ctx.equal(y, x, "same seed")
        va, ia = measured("a", phases, t)
        c = go(other, va, ia)
        back = mod.add_noise_and_filter(net, v, i, times, 5, 30, None, verbose=False)
        for x, y in zip(a[:4], back[:4]):
            ctx.equal(y, x, "saved measurements after another network was processed")
        zero = go(s=(0., 0., 0., 0.))
        ctx.close(zero[0], zero[2], "voltages without noise")
        ctx.close(zero[1], zero[3], "currents without noise")
    with netlib.setconf("conf", seed=seed + 1):
        d = go()
    ctx.check(not np.allclose(np.asarray(d[0]), np.asarray(a[0]), rtol=1e-12, atol=0), "another seed gives the same noise")
    block = a[5]
    r = ratings(key, phases, 4.)
    for what, noisy, exact, sm, sp in (("voltage", a[0], a[2], 1e-3 * np.ones(v.shape[1]), 5e-3), ("current", a[1], a[3], 2e-1 * r, 3e-3)):
        em = np.abs(noisy) / np.abs(exact) - 1
        ep = np.angle(noisy / exact) / np.angle(exact)
        for e, sd, kind in ((em, sm, "magnitude"), (ep, sp * np.ones(v.shape[1]), "phase")):
            live = sd > 0
            x = e[:, live] / (sd[live] / np.sqrt(block))
            vals = np.sort(x.ravel())
            ctx.check(np.min(np.diff(vals)) > 1e-13, "%s: two measurements share their %s noise" % (what, kind))
            s = np.sqrt(np.mean(vals ** 2))
            ctx.check(abs(s - 1) < 6 / np.sqrt(2 * vals.size) + .02, "%s %s noise %g times the expected" % (what, kind, s))
    ctx.seen(np.asarray(a[0]))


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    k, cases = 0, []
    for ph in (1, 3):
        for key in NETS:
            for t in (2, 3, 6):
                for fmeas in (.1, .5, 1, 2.5):
                    total = round((t - 1) * 60 * fmeas)
                    for steps in (1, 2, 5, total // 3, total - 1, total, round(total / 1.6), round(total / 2.7)):
                        if steps < 1 or steps > total:
                            continue
                        for sds in ((1e-3, 2e-3, 4e-3, 8e-3), (.1, .2, .02, .01), (0, .1, 0, .1), (1e-4, 0, 1e-4, 0)):
                            for eq in (False, True):
                                for factor in (4., 1., 2.5):
                                    for z in (1., -2., 0.):
                                        k += 1
                                        if k % (67 if not big else 2) == 0:
                                            cases.append([ph, key, t, fmeas, steps, list(sds), eq, factor, z])
    return [Group("noise and filter", cases, stage_case),
            Group("seeded", [[ph, key, e, s] for ph in (1, 3) for key in NETS for e in (False, True) for s in (131, 7)], seed_case)]
