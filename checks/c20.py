"""C20: a command gives the same results in any process, after any commands, whatever the state of the random generators."""
import os
import random
import subprocess
import sys

import numpy as np

from checks import c10
from checks import idflow as idf
from checks import netlib
from checks import simflow as sf
from mc import boot
from mc.core import VERIF

LEVEL = "model_checking"
RULE = ("every command of a menu after every sequence of up to 1 (2) commands of another menu in the same process and folder (other networks, other seeds and "
        "configurations, refused commands included), commands of some stages only after the complete one and others in between, from every state of the random generators, and in new processes for every hash seed; "
        "result files are compared with those of the first run")
ASSUMPTIONS = ["power flow replaced by an exact linear solution", "known lines of small networks stand in for those of the real one"]

# kind, arguments, keyword arguments
TARGETS = {
    "sim": ("sim", ["-n", "tinya", "-g", .2], dict(hidden=[7])),
    "simlap": ("sim", ["-n", "tinyc", "-g", .2, "-l", "-e"], {}),
    "simfile": ("sim", ["-n", "tinyb", "-a", "big_p.npy", "-r", "big_q.npy"], {}),
    "sim3": ("sim", ["-n", "tinya", "-g", .2, "-t"], {}),
    "sim3seq": ("sim", ["-n", "tinya", "-g", .1, "-t", "-q", "-e"], {}),
    "sim3file": ("sim", ["-n", "tinya", "-t", "-a", "big_p.npy", "-r", "big_q.npy"], dict(hidden=[7])),
    "id": ("id", ["-n", "one", "-i", 3], {}),
    "idw": ("id", ["-n", "one", "-i", 3, "-w"], {}),
    "idlap": ("id", ["-n", "one", "-i", 2, "-l"], {}),
    "idu": ("id", ["-n", "one", "-i", 1, "-u"], {}),
    "idseq": ("id", ["-n", "seq", "-i", 2, "-q", "-p", "012"], {}),
    "idphase": ("id", ["-n", "three", "-i", 2, "-p", 3, "-r", "-w"], {}),
}
# Commands of some stages only, and the complete ones whose files they use
PARTS = {
    "noise": (("sim", ["-n", "tinya", "-d"], {}), ("sim", ["-n", "tinya", "-g", .2], {})),
    "equivalent noise": (("sim", ["-n", "tinya", "-d", "-e"], {}), ("sim", ["-n", "tinya", "-g", .2], {})),
    "noise3": (("sim", ["-n", "tinya", "-t", "-d"], {}), ("sim", ["-n", "tinya", "-g", .2, "-t"], {})),
    "equivalent noise3": (("sim", ["-n", "tinya", "-t", "-q", "-d", "-e"], {}), ("sim", ["-n", "tinya", "-g", .2, "-t", "-q"], {})),
    "flow and noise": (("sim", ["-n", "tinya", "-s", "-d", "-e"], {}), ("sim", ["-n", "tinya", "-g", .2], {})),
    "loads": (("sim", ["-n", "tinya", "-p", "-g", .3], {}), ("sim", ["-n", "tinya", "-g", .2], {})),
    "loads3": (("sim", ["-n", "tinya", "-t", "-p", "-g", .3], {}), ("sim", ["-n", "tinya", "-g", .2, "-t"], {})),
    "profiles": (("sim", ["-n", "tinya", "-p", "-a", "big_p.npy", "-r", "big_q.npy"], {}), ("sim", ["-n", "tinya", "-g", .2], {})),
    "Bayesian only": (("id", ["-n", "one", "-i", 2, "-b", "-u"], {}), ("id", ["-n", "one", "-i", 3], {})),
    "standard only": (("id", ["-n", "one", "-i", 2, "-s", "-u"], {}), ("id", ["-n", "one", "-i", 3], {})),
}
COMPLETE = list(TARGETS)
TARGETS = dict(TARGETS, **{k: v[0] for k, v in PARTS.items()})
OTHERS = dict({k: TARGETS[k] for k in COMPLETE}, **{
    "sim other seed": ("sim", ["-n", "tinya", "-g", .2], dict(seed=7)),
    "sim3 other seed": ("sim", ["-n", "tinya", "-g", .2, "-t"], dict(seed=7)),
    "sim other levels": ("sim", ["-n", "tinya", "-g", .3], dict(level="hi", hidden=[10])),
    "noise only": ("sim", ["-n", "tinya", "-d"], {}),
    "loads only": ("sim", ["-n", "tinya", "-p", "-g", .5], {}),
    "no profiles": ("sim", ["-n", "tinyb", "-a", "missing.npy", "-r", "big_q.npy"], {}),
    "id other seed": ("id", ["-n", "one", "-i", 3, "-u"], dict(seed=7)),
    "id two": ("id", ["-n", "two", "-i", 3, "-w", "-u"], {}),
    "id continued": ("id", ["-n", "one", "-i", 2, "-b", "-c"], {}),
    "id refused": ("id", ["-n", "one", "-p", 2], {}),
    "id exact": ("id", ["-n", "one", "-i", 2, "-e"], {}),
})
STATES = ["zero", "midway", "other"]


def setup():
    sf.restore({})
    c10.files()
    idf.write_simulations(["one", "two", "three", "seq"])


def command(name):
    """Runs one command; refusals are part of the menu."""
    kind, args, kw = name if isinstance(name, tuple) else TARGETS[name] if name in TARGETS else OTHERS[name]
    if kind == "sim":
        try:
            return sf.simulate(args, **kw)
        except Exception as e:
            return e
    with netlib.setconf("conf", **kw):
        return idf.identify(args)


def generators(state):
    if state == "zero":
        np.random.seed(0), random.seed(0)
    elif state == "midway":
        np.random.seed(5), random.seed(5)
        np.random.normal(size=7), np.random.rand(3), random.random()  # An odd number of normals leaves one waiting
    elif state == "other":
        np.random.seed(2 ** 32 - 1), random.seed("x")
        np.random.standard_normal(624)


def results(name):
    """The files that the command writes, by name."""
    net = TARGETS[name][1][1]
    return {p: c for p, c in idf.load().items() if net + ".npz" in p and "/ref" + "/" not in p}


def prepare(name):
    if name in PARTS:
        err = command(PARTS[name][1])
        if isinstance(err, Exception):
            raise err


_first = {}


def first(name):
    if name not in _first:
        snap = sf.snapshot()
        setup()
        prepare(name)
        generators("zero")
        err = command(name)
        if isinstance(err, Exception):
            raise err
        _first[name] = results(name)
        sf.restore(snap)
    return _first[name]


def history(case, ctx):
    name, before, state = case
    want = first(name)
    setup()
    prepare(name)
    for b in before:
        command(b)
        ctx.transitions += 1
    generators(state)
    err = command(name)
    ctx.transitions += 1
    what = "%s after %s with generators %s" % (name, before, state)
    ctx.check(not isinstance(err, Exception), lambda: "%s: %s: %s" % (what, type(err).__name__, err))
    got = results(name)
    for p in want:
        ctx.check(p in got, "%s: no file %s" % (what, p))
    idf.compare(ctx, {p: got[p] for p in want}, want, what)
    ctx.new_state(name, tuple(before), state, [str(a) for a in np.random.get_state()[1][:3]])


def child(folder, names):
    """Runs in a process of its own."""
    boot.fresh_dir(folder)
    for n in names:
        setup()
        prepare(n)
        err = command(n)
        if isinstance(err, Exception):
            raise err
        keep = sf.snapshot()
        for p, b in keep.items():
            q = os.path.join("kept", n, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "wb") as f:
                f.write(b)


def process(case, ctx):
    """A new process, whose hashes are seeded differently."""
    seed, names = case
    folder = os.path.join(os.getcwd(), "child")
    os.makedirs(folder, exist_ok=True)
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=VERIF, VERIF_SCRATCH=os.getcwd())
    r = subprocess.run([sys.executable, "-c", "import mc.boot; from checks import c20; c20.child(%r, %r)" % (folder, names)], env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ctx.check(r.returncode == 0, lambda: "process with hash seed %s: %s" % (seed, r.stdout.decode()[-2000:]))
    here = os.getcwd()
    for n in names:
        want = first(n)
        os.chdir(os.path.join(folder, "kept", n))
        try:
            got = results(n)
        finally:
            os.chdir(here)
        idf.compare(ctx, {p: got.get(p) for p in want}, want, "%s in a process with hash seed %s" % (n, seed))
        ctx.transitions += 1
        ctx.new_state(seed, n)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    cases = [[n, [], s] for n in TARGETS for s in STATES]
    # Other commands between the complete one and that of some stages
    between = [b for b in OTHERS if OTHERS[b][1][1] not in ("tinya", "one")]
    cases += [[n, [b], "left"] for n in PARTS for b in between if big or b in ("simlap", "id two", "no profiles")]
    if big:
        cases += [[n, [b, c], "left"] for n in PARTS for b in between for c in between if b != c]
    cases += [[n, [b], "left"] for n in COMPLETE for b in OTHERS if big or b not in COMPLETE or b in ("sim3", "simlap", "idw")]
    if big:
        cases += [[n, [b, c], "left"] for n in COMPLETE for b in OTHERS for c in OTHERS if b != c]
    names = sorted(TARGETS)
    procs = [[s, names[k::4]] for s in ((0, 1, 4242) if not big else range(8)) for k in range(4)] if big else \
            [[s, names[k::2]] for s in (1, 4242) for k in range(2)]
    return [Group("new processes", procs, process), Group("histories", cases, history)]
