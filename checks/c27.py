"""C27: after any history of identify commands the result files are those that the latest commands imply."""
import numpy as np

from checks import idflow as idf
from checks import simflow as sf
from mc.core import h8
from mc.gen import cplx

LEVEL = "model_checking"
RULE = ("explicit-state search: states are the result files, transitions are identify commands (stage flags, continuation, options, phases, networks); "
        "every transition compares all files with the model's prediction; commands that lack their inputs must leave every file as it was")
ASSUMPTIONS = ["the stages called by the model are decided by C25 and C26", "known lines of small networks stand in for those of the real one"]

MENU = {
    "one": [[], ["-s"], ["-b"], ["-c"], ["-b", "-c"], ["-s", "-b"], ["-s", "-c"], ["-i", 0], ["-b", "-i", 1], ["-l"], ["-b", "-l"], ["-w"], ["-b", "-w"],
            ["-w", "-r"], ["-r"], ["-e"], ["-e", "-l"], ["-u"], ["-s", "-u"], ["-u", "-w", "-b"], ["-u", "-r"], ["-b", "-c", "-w", "-i", 2], ["-p", 2], ["-v"]],
    "three": [[], ["-p", 1], ["-p", 2], ["-p", 3], ["-p", 2, "-w"], ["-p", 3, "-b"], ["-p", 3, "-s"], ["-p", 2, "-c", "-b"], ["-p", 1, "-l"], ["-p", 3, "-u"]],
    "seq": [["-q", "-p", "012"], ["-q", "-p", 0], ["-q", "-p", 2], ["-q", "-p", "012", "-s"], ["-q", "-p", "012", "-b"], ["-q", "-p", "012", "-b", "-c"],
            ["-q", "-p", "012", "-w"], ["-q", "-p", "012", "-i", 0], ["-q", "-p", "012", "-l"], ["-q", "-p", "012", "-e"], ["-q", "-p", "012", "-u"],
            ["-q", "-p", "012", "-w", "-r"], ["-q", "-p", 3], ["-p", 1]],
    "gap": [["-p", 1], ["-p", 3], ["-p", 2], ["-p", 0]],
    "two": [["-n", "two"]],
}


def commands(net, short):
    out = [["-n", net] + (["-i", 3] if "-i" not in c else []) + c for c in MENU[net]]
    if not short:
        out += [["-n", "two", "-i", 3], ["-n", "two", "-i", 2, "-b", "-w"]]
    return out


def step(ctx, args):
    before = idf.load()
    try:
        want = idf.predict(before, args)
    except idf.Rejected:
        want = None
    err = idf.identify(args)
    got = {p: c for p, c in idf.load().items() if "ref/" not in p}
    ctx.transitions += 1
    what = " ".join(map(str, args))
    if want is None:
        ctx.note("rejected")
        ctx.check(err is not None, "%s: accepted without its inputs" % what)
        return False
    ctx.check(err is None, lambda: "%s: %s: %s" % (what, type(err).__name__, err))
    idf.compare(ctx, got, want, what)
    return True


def clear():
    sf.restore({})
    for d, _, files in __import__("os").walk("ref"):
        for f in files:
            __import__("os").remove(d + "/" + f)


def rejected(case, ctx):
    """Commands for data that do not exist change nothing."""
    net, args = case
    clear()
    idf.write_simulations(["one", "two", "seq", "three", "gap"])
    before = sf.snapshot()
    err = idf.identify(["-n", net] + args)
    ctx.check(err is not None, "%s %s: accepted" % (net, args))
    ctx.check(sf.snapshot() == before, "%s %s: files changed by a rejected command" % (net, args))
    ctx.seen(net, args, type(err).__name__)


def search(case, ctx):
    net, first, depth = case
    clear()
    idf.write_simulations([net] + ([] if net == "two" else ["two"]))
    if not step(ctx, first):
        return
    todo = [(sf.snapshot(), 1)]
    while todo:
        snap, d = todo.pop()
        if d >= depth:
            continue
        for c in commands(net, False):
            sf.restore(snap)
            if not step(ctx, c):
                continue
            new = sf.snapshot()
            if ctx.new_state(*[h8(*sorted((k, repr(v)) for k, v in f.items() if k != "i" or "bayes" not in p), len(f.get("i", [])))
                               for p, f in sorted(idf.load().items()) if isinstance(f, dict)]):
                todo.append((new, d + 1))


def resimulated(case, ctx):
    """After the simulation was repeated with other data, the complete command gives what the new data imply."""
    net, first, second = case
    clear()
    idf.write_simulations([net])
    step(ctx, ["-n", net, "-i", 3] + first)
    idf.write_simulations([net], salt=3)
    step(ctx, ["-n", net, "-i", 3] + second)
    ctx.seen(net, first, second)


def mixed(case, ctx):
    """Saved results that all differ from each other: each command starts from those it should."""
    net, args = case
    clear()
    idf.write_simulations([net])
    step(ctx, ["-n", net, "-i", 3] + (["-p", "012", "-q"] if net == "seq" else []))
    for k, (p, f) in enumerate(sorted(idf.load().items())):
        if "_results_" in p:
            f = dict(f)
            for j, (key, x) in enumerate(sorted(f.items())):
                if key == "i" and "bayesian" in p:
                    for it in x:
                        it.fitted_parameters = it.fitted_parameters * (1 + .02j * (it.iteration + 1))
                elif np.asarray(x).dtype.kind == "c":
                    f[key] = x * (1 + .01 * (k + 3 * j)) * (1 + .05 * cplx(np.shape(x), 5 * k + j))
            np.savez(p, **f)
    step(ctx, ["-n", net] + args)
    ctx.seen(net, args)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    cases = [[n, c, 2 if not big else 3] for n in ("one", "three", "seq") for c in commands(n, True)]
    rej = [["one", ["-p", 2]], ["one", ["-p", 3]], ["gap", ["-p", 2]], ["seq", ["-q", "-p", 3]], ["three", ["-p", 0]], ["three", ["-p", "12"]],
           ["three", ["-p", "012"]], ["seq", ["-q", "-p", "123"]], ["none", []], ["one", ["-p", "23"]]]
    re = [[n, a, b] for n in ("one",) for a in ([], ["-w"]) for b in ([], ["-w"], ["-b"], ["-s"], ["-c"], ["-b", "-c"])]
    other = [[n, c[2:]] for n in ("one", "three", "seq") for c in commands(n, True) if n != "seq" or c[-1] != 1]
    return [Group("command histories", cases, search), Group("results of other origin", other, mixed), Group("rejected commands", rej, rejected), Group("new data", re, resimulated)]
