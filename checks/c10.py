"""C10: the load stage follows the selected weeks, the constant share and the seed, and what is saved is read back."""
import numpy as np

from checks import netlib
from checks.c07 import const, generator
from checks.c09 import draws, per_home
from mc.gen import unit
from src.simulation import run, run3ph

LEVEL = "exploration"
RULE = ("networks (order of identifiers, loads, 1 or 3 phases) x selected weeks x days x constant nodes x constant share x "
        "household drawn by the owned generator, or Gaussian answer; non-trivial means distinct load matrices")
ASSUMPTIONS = ["household counts avoid exact halves", "profiles of three households over two weeks, one value per minute"]
DAY = 24 * 60


def profile(salt):
    """A power per household and minute, in W: every value different, every household with its own level."""
    t = 2 * 7 * DAY + 500
    return (60000 + 40000 * unit((t, 3), salt)) * np.array([1., 1.3, .8]) * (1 if salt == 1 else .4)


_files = {}


def files():
    if not _files:
        _files["p"], _files["q"] = profile(1), profile(2)
    import os
    if not os.path.exists("big_p.npy"):
        np.save("big_p.npy", _files["p"])
        np.save("big_q.npy", _files["q"])
    return _files["p"], _files["q"]


_windows = {}


def windows(which, weeks, days):
    """The selected rows of a profile, and the mean 90th percentile of its households."""
    key = (which, tuple(weeks), days)
    if key not in _windows:
        a = _files[which]
        n = days * DAY // len(weeks)
        w = np.vstack([a[w * 7 * DAY:w * 7 * DAY + n] for w in weeks])
        _windows[key] = (w, per_home(w))
    return _windows[key]


def count(ref, unit_power):
    x = ref / unit_power
    assert abs(x - np.floor(x) - .5) > 1e-5, "harness: household count too close to a half: %g" % x
    return int(np.floor(x + .5))


NETS = {"a": ([1, 2, 3], [(0, 1), (1, 2)], 0, ()), "b": ([2, 10, 1], [(0, 1), (0, 2)], 2, ()),
        "c": ([12, 3, 20, 1], [(0, 1), (1, 2), (1, 3)], 1, (3,)), "d": ([5, 4, 3, 2, 1], [(0, 1), (1, 2), (2, 3), (3, 4)], 4, (1,))}
# Buses whose three-phase load is given as one symmetric load
SYMMETRIC = {"a": (), "b": (0,), "c": (0, 3), "d": (0, 1, 2, 3)}


def make1(key, name):
    ids, edges, pcc, passive = NETS[key]
    loads = [(5 * p, 5 * q) for p, q in netlib.loads1(len(ids), len(key), passive)]
    return netlib.net1(ids, edges, loads, pcc, name)


def loads3(key):
    ids, _, _, passive = NETS[key]
    loads = [(tuple(5 * v for v in p), tuple(5 * v for v in q)) for p, q in netlib.loads3(len(ids), 0, passive + ((0, 1),))]
    return netlib.mixed3(loads, SYMMETRIC[key])


def make3(key, name):
    ids, edges, pcc, _ = NETS[key]
    loads = loads3(key)
    loads[pcc] = (0., 0.)
    return netlib.net3(ids, edges, loads, pcc, name)


def nominal1(key):
    ids, _, pcc, passive = NETS[key]
    loads = [(5 * p, 5 * q) for p, q in netlib.loads1(len(ids), len(key), passive)]
    loads[pcc] = (0., 0.)
    return np.array(loads)


def nominal3(key):
    """(buses with asymmetric loads) x 6: active then reactive powers of the three phases; other buses x 2: active and reactive powers."""
    ids, _, pcc, passive = NETS[key]
    loads = loads3(key)
    loads[pcc] = (0., 0.)
    one = [k for k in range(len(ids)) if k == pcc or k in SYMMETRIC[key]]
    own = [k for k in range(len(ids)) if k not in one]
    return ([ids[k] for k in own], np.array([loads[k][0] + loads[k][1] for k in own]).reshape(len(own), 6),
            [ids[k] for k in one], np.array([loads[k] for k in one]))


def blend(x, nom, ids, constant, a):
    x = x.copy()
    for k, i in enumerate(ids):
        if constant is not None and i in constant:
            x[:, k] = (1 - a) * x[:, k] + a * nom[k]
    return x


def household_load(prof, refs, h):
    rows, each = prof
    return np.outer(rows[:, h] / 1e6, [count(r, each) for r in refs])


def saved_again(ctx, fn, net, got):
    again = fn(net, None, verbose=False)
    ctx.check(len(again) == len(got), "loading gives %d results" % len(again))
    for g, a in zip(got, again):
        ctx.equal(np.array(a), np.array(g), "loads read back")


def profile_case(case, ctx):
    phases, key, weeks, days, constant, a, h = case
    files()
    net = netlib.cached(make1 if phases == 1 else make3, key, "loads_%s" % key)
    ids = NETS[key][0]
    before = netlib.table_state(net)
    # constant: positions of constant nodes, or None
    nodes = None if constant is None else [ids[k] for k in constant if k < len(ids)]
    keep = None if nodes is None else list(nodes)
    params = ("big_p.npy", "big_q.npy", np.array(weeks), days, nodes)
    pw, qw = windows("p", weeks, days), windows("q", weeks, days)
    rows = len(pw[0])
    conf = netlib.setconf("simulation", load_constantness=a) if a is not None else netlib.setconf("simulation")
    from conf import simulation
    share = simulation.load_constantness if a is None else a
    with conf, draws([h], []):
        got = (run if phases == 1 else run3ph).generate_loads(net, params, verbose=False)
    ctx.equal(got[-1], np.arange(rows) * 60, "times")
    if phases == 1:
        nom = nominal1(key)
        for k, (g, prof) in enumerate(zip(got[:2], (pw, qw))):
            ctx.close(g, blend(household_load(prof, nom[:, k], h), nom[:, k], ids, nodes, share), "load %d" % k)
    else:
        own, nom, sids, snom = nominal3(key)
        for k, (g, prof) in enumerate(zip(got[:2], (pw, qw))):
            ctx.close(g, blend(household_load(prof, snom[:, k], h), snom[:, k], sids, nodes, share), "symmetric load %d" % k)
        ctx.check(len(got[2]) == 6, "%d asymmetric load matrices" % len(got[2]))
        for k in range(6):
            prof = pw if k < 3 else qw
            ctx.close(got[2][k], blend(household_load(prof, nom[:, k], h), nom[:, k], own, nodes, share), "asymmetric load %d" % k)
    ctx.check(netlib.table_state(net) == before, "the network was changed")
    ctx.equal(nodes if nodes is not None else [], keep if keep is not None else [], "constant nodes after the call")
    saved_again(ctx, (run if phases == 1 else run3ph).generate_loads, net, got)
    ctx.seen(*[np.array(g) for g in got])


def gaussian_case(case, ctx):
    phases, key, days, constant, sd, z = case
    from conf import simulation
    net = netlib.cached(make1 if phases == 1 else make3, key, "loads_%s" % key)
    ids = NETS[key][0]
    nodes = None if constant is None else [ids[k] for k in constant if k < len(ids)]
    with generator(const(z)):
        got = (run if phases == 1 else run3ph).generate_loads(net, (None, None, sd, days, nodes), verbose=False)
    t = days * DAY
    ctx.equal(got[-1], np.arange(t) * 60, "times")
    if phases == 1:
        nom = nominal1(key)
        for k in range(2):
            want = np.tile(nom[:, k] * (1 + sd * z), (t, 1))
            ctx.close(got[k], blend(want, nom[:, k], ids, nodes, simulation.load_constantness), "load %d" % k)
    else:
        own, nom, sids, snom = nominal3(key)
        for k in range(2):
            want = np.tile(snom[:, k] * (1 + sd * z), (t, 1))
            ctx.close(got[k], blend(want, snom[:, k], sids, nodes, simulation.load_constantness), "symmetric load %d" % k)
        for k in range(6):
            want = np.tile(nom[:, k] * (1 + sd * z), (t, 1))
            ctx.close(got[2][k], blend(want, nom[:, k], own, nodes, simulation.load_constantness), "asymmetric load %d" % k)
    saved_again(ctx, (run if phases == 1 else run3ph).generate_loads, net, got)
    ctx.seen(*[np.array(g) for g in got])


def seed_case(case, ctx):
    """Same seed: same loads, whatever was drawn before. Another seed: other loads. Networks keep their own files."""
    phases, kind, s1, s2 = case
    files()
    mod = run if phases == 1 else run3ph
    mk = make1 if phases == 1 else make3
    n1, n2 = netlib.cached(mk, "c", "seed_one"), netlib.cached(mk, "b", "seed_two")
    par = ("big_p.npy", "big_q.npy", np.array([0]), 1, None) if kind == "profile" else (None, None, .3, 1, None)
    flat = lambda r: np.concatenate([np.array(x).ravel() for x in r])
    with netlib.setconf("conf", seed=s1):
        np.random.seed(5)
        a = mod.generate_loads(n1, par, verbose=False)
        np.random.rand(17)
        b = mod.generate_loads(n1, par, verbose=False)
        ctx.equal(flat(b), flat(a), "loads with the same seed")
        c = mod.generate_loads(n2, par, verbose=False)
        ctx.equal(flat(mod.generate_loads(n1, None, verbose=False)), flat(a), "saved loads of the first network")
        ctx.equal(flat(mod.generate_loads(n2, None, verbose=False)), flat(c), "saved loads of the second network")
    with netlib.setconf("conf", seed=s2):
        d = mod.generate_loads(n1, par, verbose=False)
    ctx.check(np.array_equal(flat(d), flat(a)) == (s1 == s2), "seeds %d and %d" % (s1, s2))
    ctx.seen(flat(a))


def format_case(case, ctx):
    """Profiles given as csv files, for both or one of the powers, give the loads of the same profiles given as npy files."""
    phases, key, weeks, days, fmt = case
    files()
    names = []
    for which, f in zip("pq", fmt):
        if f == "csv":
            with open("big_%s.csv" % which, "w") as h:
                h.writelines(";".join(repr(float(v)) for v in row) + "\n" for row in _files[which])
        names.append("big_%s.%s" % (which, f))
    net = netlib.cached(make1 if phases == 1 else make3, key, "loads_%s" % key)
    flat = lambda r: np.concatenate([np.array(x).ravel() for x in r])
    mod = run if phases == 1 else run3ph
    want = flat(mod.generate_loads(net, ("big_p.npy", "big_q.npy", np.array(weeks), days, None), verbose=False))
    got = flat(mod.generate_loads(net, tuple(names) + (np.array(weeks), days, None), verbose=False))
    ctx.close(got, want, "loads of %s profiles" % "/".join(fmt))
    ctx.seen(got)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    weeks = [([0], 1), ([1], 1), ([0, 1], 2), ([1, 0], 2), ([0, 1], 3), ([0], 2), ([0, 1, 0, 1, 0, 1, 0], 1), ([1, 0, 1, 0, 1], 3)] + ([([0], 7), ([1, 0], 14), ([1, 1], 1)] if big else [])
    cons = [None, [], [0], [1, 3], [0, 1, 2, 3, 4]]
    keys = list(NETS)
    pc = [[ph, k, list(w), d, c, a, h] for ph in (1, 3) for k in keys for (w, d) in weeks for c in cons
          for a in (None, 0., .5, 1.) for h in range(3)
          if big or (keys.index(k) + weeks.index((w, d)) + cons.index(c) + h + ph + (0 if a is None else int(2 * a) + 1)) % 6 == 0]
    return [
        Group("profiles", pc, profile_case),
        Group("gaussian", [[ph, k, d, c, sd, z] for ph in (1, 3) for k in keys for d in (1, 2) for c in cons
                           for sd in (.1, 1.) for z in (-1, 0, 2) if big or z or sd == .1], gaussian_case),
        Group("profile files", [[ph, k, w, 1, f] for ph in (1, 3) for k in ("b", "c") for w in ([0], [1, 0])
                                for f in (["csv", "csv"], ["csv", "npy"], ["npy", "csv"])], format_case),
        Group("seeds and files", [[ph, kind, s1, s2] for ph in (1, 3) for kind in ("profile", "gaussian")
                                  for s1 in (131, 1) for s2 in (131, 1, 7)], seed_case),
    ]
