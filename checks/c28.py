"""C28: whatever an interrupted command leaves behind, running it again gives the files of an uninterrupted run."""
import numpy as np

from checks import idflow as idf
from checks import simflow as sf
from checks.crashlib import recording

LEVEL = "model_checking"
RULE = ("states of the data folder between, and in the middle of, the writes of every file of a command (quick: just opened, in the middle, before the last write, "
        "complete; thorough: each write of every member of an archive), "
        "from an empty folder or after earlier commands; from each state the command is repeated, and other commands that read back the stages are run")
ASSUMPTIONS = ["writes reach the disk in order", "commands that continue from their own result are not repeatable by nature and are excluded",
               "power flow replaced by an exact linear solution"]

SIM = lambda *a, **kw: ("sim", list(a), kw)
ID = lambda *a: ("id", list(a), {})
# network, commands run before, command that is interrupted, commands that read back what it leaves (each with complete commands it may agree with)
SCENARIOS = {
    "sim first": ("tinya", [], SIM("-n", "tinya", "-g", .2), []),
    "sim again": ("tinya", [SIM("-n", "tinya", "-g", .1)], SIM("-n", "tinya", "-g", .2, "-e"), [SIM("-n", "tinya", "-d", "-e")]),
    "sim loads": ("tinya", [SIM("-n", "tinya", "-g", .1)], SIM("-n", "tinya", "-g", .2, "-p"), [SIM("-n", "tinya", "-s", "-d")]),
    "sim flow": ("tinya", [SIM("-n", "tinya", "-g", .1), SIM("-n", "tinya", "-g", .2, "-p")], SIM("-n", "tinya", "-s"), [SIM("-n", "tinya", "-d")]),
    "sim noise": ("tinya", [SIM("-n", "tinya", "-g", .2)], SIM("-n", "tinya", "-d", level="hi"), []),
    "sim three": ("tinya", [SIM("-n", "tinya", "-g", .1, "-t")], SIM("-n", "tinya", "-g", .2, "-t", "-q"), [SIM("-n", "tinya", "-d", "-t", "-q")]),
    "sim one to three": ("tinya", [SIM("-n", "tinya", "-g", .1)], SIM("-n", "tinya", "-g", .2, "-t"), []),
    "id first": ("one", [], ID("-n", "one", "-i", 2), [ID("-n", "one", "-i", 2, "-b")]),
    "id again": ("one", [ID("-n", "one", "-i", 2, "-l")], ID("-n", "one", "-i", 2, "-w"), [ID("-n", "one", "-i", 2, "-b", "-w")]),
    "id standard": ("one", [ID("-n", "one", "-i", 2)], ID("-n", "one", "-i", 2, "-s", "-l"), []),
    "id Bayesian": ("one", [ID("-n", "one", "-i", 3)], ID("-n", "one", "-i", 2, "-b", "-w"), []),
    "id uncertainty": ("one", [ID("-n", "one", "-i", 2)], ID("-n", "one", "-i", 1, "-u"), []),
    "id sequences": ("seq", [ID("-n", "seq", "-i", 2, "-q", "-p", 1)], ID("-n", "seq", "-i", 2, "-q", "-p", "012"), [ID("-n", "seq", "-i", 2, "-q", "-p", "012", "-b")]),
}


def perform(command):
    kind, args, kw = command
    if kind == "sim":
        return sf.simulate(args, **kw)
    err = idf.identify(args)
    if err is not None:
        raise err


def contents(net=None):
    return {p: c for p, c in idf.load().items() if net is None or net + ".npz" in p}


_runs = {}


def scenario(name):
    """States of the folder before, during and after the command."""
    if name not in _runs:
        net, before, command, readers = SCENARIOS[name]
        sf.restore({})
        idf.write_simulations(["one", "seq", "two"])
        perform(SIM("-n", "tinyb", "-g", .3))
        perform(ID("-n", "two", "-i", 1))
        for b in before:
            perform(b)
        start = sf.snapshot()
        with recording() as rec:
            perform(command)
        end = contents()
        agree = {}
        for k, r in enumerate(readers):
            agree[k] = []
            for snap in (start, sf.snapshot()):
                sf.restore(snap)
                try:
                    perform(r)
                except Exception:
                    continue  # the stages to read do not exist before the command
                agree[k].append(contents(net))
        _runs[name] = (start, rec.states, end, agree)
    return _runs[name]


def close(a, b):
    return np.shape(a) == np.shape(b) and (np.array_equal(a, b) or np.asarray(a).dtype.kind in "fc" and np.allclose(a, b, rtol=1e-9, atol=1e-13))


def agrees(got, want):
    return set(got) == set(want) and all(set(got[p]) == set(want[p]) and all(
        k == "i" and "bayes" in p or close(got[p][k], want[p][k]) for k in want[p]) for p in want)


def thinned(states):
    """For every file written: before, just opened, in the middle, all but the last write, and complete."""
    keep = {0, len(states) - 1}
    run = []
    for s in range(1, len(states) + 1):
        p = None if s == len(states) else [q for q in states[s] if states[s][q] != states[s - 1].get(q)][:1]
        if run and p != run[0]:
            k = run[1]
            keep |= {k[0], k[len(k) // 2], k[-1], k[max(0, len(k) - 3)]}
            run = []
        if p is not None:
            run = run or [p, []]
            run[1].append(s)
    return sorted(keep)


def interruption(case, ctx):
    name, part, parts, every = case
    net, _, command, readers = SCENARIOS[name]
    start, states, end, agree = scenario(name)
    ctx.check(len(states) > 10, "harness: only %d states recorded" % len(states))
    ctx.check(states[0] == start, "harness: first state")
    for s in (list(range(len(states))) if every else thinned(states))[part::parts]:
        what = "%s, interrupted at point %d of %d" % (name, s, len(states))
        for p, b in start.items():
            if net + ".npz" not in p:
                ctx.check(states[s].get(p) == b, "%s: %s is a file of another network and changed" % (what, p))
        sf.restore(states[s])
        perform(command)
        ctx.transitions += 1
        idf.compare(ctx, contents(), end, what + ", and repeated")
        for k, r in enumerate(readers):
            sf.restore(states[s])
            ctx.transitions += 1
            try:
                perform(r)
            except Exception as e:
                ctx.note("incomplete stage refused")
                continue
            got = contents(net)
            final = {p: c for p, c in got.items() if p.endswith(("output/%s.npz" % net, "bayesian_results_%s.npz" % net))}
            ok = any(agrees(final, {p: c for p, c in w.items() if p in final}) for w in agree[k])
            ctx.check(ok, lambda: "%s: %s then gives a result of neither the stages before nor after: %s" % (
                what, r[1], {p: {q: np.shape(v) for q, v in c.items()} for p, c in final.items()}))
            ctx.note("stages read back")
        ctx.new_state(name, s)


def groups(tier):
    from mc.core import Group
    if tier == "quick":
        return [Group("interruptions", [[n, k, 3, False] for k in range(3) for n in SCENARIOS], interruption)]
    return [Group("interruptions", [[n, k, 16, True] for k in range(16) for n in SCENARIOS], interruption)]
