"""C19: recomputing only some stages of a simulation gives what a complete run with the stages' latest parameters gives."""
import itertools
import os

import numpy as np

from checks import netlib
from checks import simflow as sf

LEVEL = "model_checking"
RULE = ("explicit states = parameters of the latest loads, power flow and noise stages of a network; transitions = every command with any subset of "
        "the stage flags and any parameters of the menu, on that network or on another one, and histories of runs of different sizes; the reference is a complete run in an empty folder")
ASSUMPTIONS = ["power flow replaced by an exact linear solution (C13 covers the real one); the rest of the command is real",
               "partial runs are made when the files they read exist"]

G = {"g1": .3, "g2": .1}
# variants of the command: network type and output options
VARIANTS = {"plain": [], "laplacian": ["-l"], "equivalent": ["-e"], "three": ["-t"], "threeseq": ["-t", "-q"], "threeequiv": ["-t", "-e"]}


# safety factor of the ratings, which are computed again when the measurements are read back
FACTORS = {"plain": 4, "laplacian": 2.5, "equivalent": 1, "three": 3, "threeseq": 4, "threeequiv": .5}


def args(net, variant, g, stages):
    return ["-n", net, "-g", G[g]] + ["-" + s for s in stages] + VARIANTS[variant]


def command(net, variant, hidden, g, lev, stages, **sizes):
    return sf.simulate(args(net, variant, g, stages), level=lev, hidden=hidden, factor=FACTORS[variant], **sizes)


class Model(object):
    """What the latest stages of one network were computed from."""

    def __init__(self, L=None, S=None, N=None):
        self.L, self.S, self.N = L, S, N

    def step(self, stages, g, lev):
        todo = stages or "psd"
        L = g if "p" in todo else self.L
        S = L if "s" in todo else self.S
        N = (S, lev) if "d" in todo else self.N
        return Model(L, S, N)

    def key(self):
        return (self.L, self.S, self.N)


def path_to(state):
    """Commands that reach a state: complete run, then power flow, then loads."""
    L, S, (ng, lev) = state
    path = [("", ng, lev)]
    if S != ng:
        path.append(("ps", S, lev))
    if L != S:
        path.append(("p", L, lev))
    return path


_full = {}


def full(net, variant, hidden, g, lev, **sizes):
    """Output of a complete run from an empty folder."""
    key = (net, variant, tuple(hidden), g, lev, repr(sorted(sizes.items())))
    if key not in _full:
        snap = sf.snapshot()
        sf.restore({})
        command(net, variant, hidden, g, lev, "", **sizes)
        _full[key] = sf.read(net)
        sf.restore(snap)
    return _full[key]


def same(ctx, got, want, what):
    ctx.check(sorted(got) == sorted(want), "%s: contains %s" % (what, sorted(got)))
    for k in want:
        ctx.close(got[k], want[k], "%s: %s" % (what, k), rtol=1e-10)


def transition_case(case, ctx):
    net, variant, hidden, state, chunk = case
    other = "tinyb" if net != "tinyb" else "tinya"
    sf.restore({})
    m = Model()
    for stages, g, lev in path_to(state):
        command(net, variant, hidden, g, lev, stages)
        m = m.step(stages, g, lev)
    ctx.check(m.key() == (state[0], state[1], tuple(state[2])), "harness: reached %s" % (m.key(),))
    start = sf.snapshot()
    same(ctx, sf.read(net), full(net, variant, hidden, *m.N), "state %s" % (m.key(),))
    moves = [(st, g, lev) for st in ("", "p", "s", "d", "ps", "pd", "sd", "psd") for g in G for lev in ("lo", "hi")
             if ("p" in (st or "psd") or g == "g1") and ("d" in (st or "psd") or lev == "lo")]
    for k, (st, g, lev) in enumerate(moves):
        if k % chunk[1] != chunk[0]:
            continue
        sf.restore(start)
        n = m.step(st, g, lev)
        code = command(net, variant, hidden, g, lev, st)
        ctx.check(code is None, "command ended with %s" % code)
        same(ctx, sf.read(net), full(net, variant, hidden, *n.N), "state %s, flags %r with %s %s" % (m.key(), st, g, lev))
        ctx.transitions += 1
        ctx.new_state(net, variant, n.key())
        if k % 5 == 0:
            # continue from here: noise again, so that earlier stages are read back
            p = n.step("d", "g1", "lo")
            command(net, variant, hidden, "g1", "lo", "d")
            same(ctx, sf.read(net), full(net, variant, hidden, *p.N), "then noise again from %s" % (n.key(),))
            ctx.transitions += 1
    if chunk[0] == 0:
        sf.restore(start)
        command(other, variant, [], "g2", "hi", "")
        same(ctx, sf.read(other), full(other, variant, [], "g2", "hi"), "other network")
        same(ctx, sf.read(net), full(net, variant, hidden, *m.N), "unaffected by another network")
        n = m.step("sd", "g1", "hi")
        command(net, variant, hidden, "g1", "hi", "sd")
        same(ctx, sf.read(net), full(net, variant, hidden, *n.N), "after another network was simulated")
        ctx.transitions += 2
    ctx.new_state(net, variant, m.key())


def output_case(case, ctx):
    """What a complete run stores: aligned measurements of exactly the kept nodes, their matrix, ratings and phases."""
    net, variant, hidden, constant = case
    ids, edges, pcc, passive = sf.SHAPES[net]
    n = len(ids)
    sf.restore({})
    sf.simulate(args(net, variant, "g1", ""), level="lo", hidden=[ids[k] for k in hidden], constant=constant, factor=FACTORS[variant])
    d = sf.read(net)
    three = variant.startswith("three")
    ph = 3 if three else 1
    gone = set(hidden) | set(passive) | (set() if variant == "laplacian" else {pcc})
    keep = [k for k in range(n) if k not in gone]
    m = ph * len(keep)
    t = len(d["v"])
    for k in "vwij":
        ctx.check(d[k].shape == (t, m), "%s has shape %s, expected %d columns" % (k, d[k].shape, m))
    ctx.check(d["y"].shape == (m, m) and d["p"].shape == (m,) and d["h"].shape == (m,), "shapes %s" % {k: d[k].shape for k in d})
    first = 0 if variant == "threeseq" else 1
    ctx.equal(d["h"], np.tile(np.arange(ph) + first, len(keep)), "phases")
    if not hidden:
        res = (d["w"] - d["w"].mean(axis=0)) @ d["y"] - (d["j"] - d["j"].mean(axis=0))
        ctx.check(np.max(np.abs(res)) < 1e-9, "exact measurements do not satisfy the stored matrix: %g" % np.max(np.abs(res)))
    if variant == "threeseq":
        return
    # noise of the size given by the ratings, on the right columns
    loads = getattr(__import__("src.simulation.net_templates" + ("_3ph" if three else ""), fromlist=["x"]), net + "_bus")
    s2 = np.array([[0.] * ph if b.type == 3 else [p * p + q * q for p, q in zip(np.atleast_1d(b.Pd), np.atleast_1d(b.Qd))] for b in loads]) * FACTORS[variant]
    s2[pcc] = s2.sum(axis=0)
    ctx.close(d["p"], s2[keep].reshape(-1), "ratings")
    ev = np.abs(d["v"]) / np.abs(d["w"]) - 1
    ctx.check(np.all(np.abs(ev) < 6e-4) and np.std(ev) > 1e-6, "voltage noise %s" % np.std(ev))
    ctx.check(np.all(np.sign(d["w"].real) == np.sign(d["v"].real)), "noisy and exact voltages differ in sign")
    # exact voltages are those of the unnoised simulation at the kept nodes
    res = np.load(os.path.join(sf.OUT, "sim_results_%s.npz" % net))
    v = np.asarray(res["v"])
    res.close()
    cols = [ph * k + x for k in keep for x in range(ph)]
    ctx.check(np.all(np.abs(d["w"].mean(axis=0) - v[:, cols].mean(axis=0)) < 2e-2 * (1e-3 + np.abs(v[:, cols] - 1).max() + (0 if ph == 1 else 1))),
              "mean voltages of the kept nodes")
    ctx.new_state(net, variant, tuple(hidden))
    ctx.transitions += 1


def repeated_case(case, ctx):
    """Commands in one process do not influence each other: every order of three different commands."""
    order, = case
    cmds = [("tinya", "plain", [7]), ("tinya", "laplacian", [7]), ("tinyb", "plain", []), ("tinya", "three", [7]), ("tinyc", "plain", [2, 11][:1])]
    sf.restore({})
    hidden = [list(c[2]) for c in cmds]
    for k in order:
        net, var, _ = cmds[k]
        command(net, var, hidden[k], "g1", "lo", "")
        same(ctx, sf.read(net), full(net, var, cmds[k][2], "g1", "lo"), "command %s in order %s" % (cmds[k], order))
        ctx.transitions += 1
    ctx.new_state(order)


SIZES = {"long": dict(days=2, steps=180), "short": dict(days=1, steps=40), "fine": dict(days=1, steps=360, fmeas=1 / 30.)}
# What is done after a complete run of another size: flags of one command after the other
HISTORIES = [[""], ["psd"], ["p", "s", "d"], ["ps", "d"], ["", "d"], ["", "sd"], ["", "s"], ["p", "sd", "p"]]


def sizes_case(case, ctx):
    """Longer and shorter results follow each other in the same files."""
    net, variant, a, b, history = case
    sf.restore({})
    command(net, variant, [], "g1", "lo", "", **SIZES[a])
    same(ctx, sf.read(net), full(net, variant, [], "g1", "lo", **SIZES[a]), "run of size %s" % a)
    for k, st in enumerate(history):
        code = command(net, variant, [], "g1", "lo", st, **SIZES[b])
        ctx.check(code is None, "command ended with %s" % code)
        ctx.transitions += 1
    same(ctx, sf.read(net), full(net, variant, [], "g1", "lo", **SIZES[b]), "size %s after %s with flags %s" % (b, a, history))
    ctx.new_state(net, variant, a, b, tuple(history))


def profile_case(case, ctx):
    """Profiles given as files, missing files, and all stages read back."""
    net, variant = case
    from checks import c10
    c10.files()
    sf.restore({})
    base = ["-n", net] + VARIANTS[variant]
    sf.simulate(base + ["-a", "missing.npy", "-r", "big_q.npy"])
    ctx.check(not os.path.exists(os.path.join(sf.OUT, net + ".npz")), "a run without profiles gives a result")
    sf.simulate(base + ["-a", "big_p.npy", "-r", "big_q.npy"])
    a = sf.read(net)
    sf.simulate(base + ["-a", "big_p.npy", "-r", "big_q.npy", "-p"])
    same(ctx, sf.read(net), a, "loads recomputed")
    sf.simulate(base + ["-s", "-d", "-v"])
    same(ctx, sf.read(net), a, "power flow and noise recomputed")
    sf.simulate(base + ["-d"], level="hi")
    b = sf.read(net)
    ctx.check(not np.allclose(a["v"], b["v"], rtol=1e-9), "another noise level gives the same measurements")
    ctx.close(b["w"], a["w"], "exact voltages")
    sf.simulate(base + ["-a", "missing.npy", "-r", "missing.npy", "-p"])
    same(ctx, sf.read(net), b, "result after a refused command")
    ctx.transitions += 5
    ctx.new_state(net, variant)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    states = [[L, S, [g, lev]] for g in G for lev in ("lo", "hi") for S in G for L in G]
    # Renaming the two loads or the two noise levels maps states to states: quick visits one of each class.
    reps = states if big else [s for s in states if s[2] == ["g1", "lo"]]
    tc = [["tinya", "plain", [7], s, [c, 2]] for s in reps for c in range(2)]
    k = 0
    for net, var, hid in (("tinyc", "plain", []), ("tinya", "laplacian", [7]), ("tinya", "equivalent", []), ("tinya", "three", []), ("tinya", "threeseq", [7]),
                          ("tinyb", "threeequiv", [])):
        for s in states:
            k += 1
            if big:
                tc += [[net, var, hid, s, [c, 2]] for c in range(2)]
            elif k % 16 == 3 or k % 16 == 12:
                tc.append([net, var, hid, s, [0, 4]])
    out = [[net, var, h, c] for net in sf.SHAPES for var in VARIANTS for h in ([], [3] if net == "tinya" else [1] if net == "tinyb" else [1, 3])
           for c in (True, False) if big or c or h]
    orders = [[list(o)] for o in itertools.permutations(range(5), 3 if big else 2)]
    return [Group("stages", tc, transition_case), Group("stored results", out, output_case), Group("one process", orders, repeated_case),
            Group("sizes", [[net, var, a, b, h] for net, var in (("tinya", "plain"), ("tinyb", "three")) + ((("tinyc", "equivalent"),) if big else ())
                            for a, b in itertools.permutations(SIZES, 2) for h in HISTORIES][::1 if big else 3], sizes_case),
            Group("profiles", [["tinya", v] for v in ("plain", "three")], profile_case)]
