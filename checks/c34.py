"""C34: the sweep script runs each announced scenario with its own configuration and leaves the user's configuration as it was."""
import os
import re
import shutil
import signal
import subprocess
import sys
import types

import numpy as np

from mc import boot
from mc.core import h8

LEVEL = "model_checking"
RULE = ("every choice of flags x configurations of the user x every command of the sweep failing, interrupted or terminated; the states are the configuration files "
        "and commands seen at every call; non-trivial means distinct sequences of states")
ASSUMPTIONS = ["the three python commands are replaced by a recorder of their arguments and of the configuration files", "no uncatchable kill"]
FILES = ("conf.py", "simulation.py", "identification.py")
STUB = """#!/bin/bash
k=$(ls "$CALLS" | wc -l)
mkdir "$CALLS/$k"
cp conf/conf.py conf/simulation.py conf/identification.py "$CALLS/$k"
printf '%s\\n' "$@" > "$CALLS/$k/argv"
echo "CALL $k"
if [ "$k" == "$FAIL_AT" ]; then
  case "$HOW" in
    fail) exit 3 ;;
    interrupt) kill -INT 0; sleep 1; exit 3 ;;
    terminate) kill -TERM 0; sleep 1; exit 3 ;;
  esac
fi
"""
CACHE, FRESH = {}, {}


def read(path):
    with open(path) as f:
        return f.read()


def plain(ns):
    return {k: v.tolist() if isinstance(v, np.ndarray) else v for k, v in ns.items()
            if not k.startswith("_") and isinstance(v, (int, float, bool, str, list, np.ndarray))}


def values(folder, home):
    """What the configuration files of a folder define."""
    text = tuple(read(os.path.join(folder, f)) for f in FILES)
    if text not in CACHE:
        base = {"__file__": os.path.join(home, "conf", "conf.py"), "__name__": "conf.conf"}
        exec(compile(text[0], "conf.py", "exec"), base)
        fake = types.ModuleType("conf.conf")
        fake.__dict__.update(base)
        old = sys.modules.get("conf.conf")
        sys.modules["conf.conf"] = fake
        try:
            out = plain(base)
            for t in text[1:]:
                ns = {}
                exec(compile(t, "conf", "exec"), ns)
                out.update(plain(ns))
        finally:
            sys.modules["conf.conf"] = old
        CACHE[text] = out
    return CACHE[text]


def parse(argv):
    name = os.path.splitext(os.path.basename(argv[0]))[0]
    module = __import__(name)
    command = {"simulate_network": "simulate", "identify_network": "identify", "plot_results": "plot_results"}[name]
    return command, getattr(module, command).make_context(command, list(argv[1:])).params


class Sweep(object):
    def __init__(self, user):
        self.home = os.path.join(os.getcwd(), "sweep")
        shutil.rmtree(self.home, ignore_errors=True)
        os.makedirs(self.home + "/conf")
        os.makedirs(self.home + "/bin")
        os.makedirs(self.home + "/data")
        shutil.copy(os.path.join(boot.REPO, "run_multiple_sims.sh"), self.home)
        for f in FILES:
            text = read(os.path.join(boot.REPO, "conf", f))
            for k, v in user.items():
                if k == "tight":  # written without spaces around the equality sign
                    text = re.sub(r"(?m)^(seed|noise_level|days) = ", r"\1" + "= "[:v], text)
                    continue
                text = re.sub(r"(?m)^%s = [0-9.]+" % k, "%s = %s" % (k, v), text)
            with open(os.path.join(self.home, "conf", f), "w") as out:
                out.write(text)
        for p in ("python3", "python"):
            with open(os.path.join(self.home, "bin", p), "w") as out:
                out.write(STUB)
            os.chmod(os.path.join(self.home, "bin", p), 0o755)
        self.user = self.files()

    def files(self):
        out = {}
        for where, _, names in os.walk(os.path.join(self.home, "conf")):
            for f in names:
                if not f.endswith((".pyc", ".swp")):
                    out[os.path.join(where, f)] = read(os.path.join(where, f))
        return out

    def run(self, flags, at=-1, how="none"):
        calls = os.path.join(self.home, "calls")
        shutil.rmtree(calls, ignore_errors=True)
        os.makedirs(calls)
        env = dict(os.environ, PATH=self.home + "/bin:" + os.environ["PATH"], CALLS=calls, FAIL_AT=str(at), HOW=how)

        def default():
            for s in (signal.SIGINT, signal.SIGTERM):
                signal.signal(s, signal.SIG_DFL)
        r = subprocess.run(["bash", "run_multiple_sims.sh"] + list(flags), cwd=self.home, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, start_new_session=True, preexec_fn=default)
        lines = r.stdout.decode(errors="replace").splitlines()
        log = []
        for l in lines:
            if l.startswith("CALL "):
                d = os.path.join(calls, l.split()[1])
                log.append(("call", read(d + "/argv").splitlines(), values(d, self.home)))
            else:
                for key, pattern in (("seed", r"seed\D{0,4}(\d[\d.]*)"), ("noise_level", r"noise level\D{0,4}(\d[\d.]*)"), ("days", r"(\d[\d.]*) day")):
                    m = re.search(pattern, l, re.I)
                    if m:
                        log.append((key, float(m.group(1))))
        return r.returncode, log


def scenarios(ctx, log, user, complete, what):
    """Follows the calls: which scenario each one belongs to, and whether its configuration is that of the scenario."""
    now, full, steps, runs = {}, None, [], []
    order = ["simulate", "identify", "plot_results"]

    def close():
        if "noise_level" in now or "days" in now:
            ctx.check([s[0] for s in steps] == order if complete else [s[0] for s in steps] == order[:len(steps)],
                      "%s: commands %s in scenario %s" % (what, [s[0] for s in steps], now))
            if len(steps) == 3:
                sim, ident, plot = [s[1] for s in steps]
                ctx.check(sim["network"] == ident["network"] == plot["network"], "%s: %s" % (what, [s[1]["network"] for s in steps]))
                ctx.check(sim["three_phased"] == (len(ident["phases"]) == 3) and sim["sequence"] == ident["sequence"], "%s: %s %s" % (what, sim, ident))
                ctx.check(sim["laplacian"] == ident["laplacian"], "%s: Laplacian" % what)
                runs.append(tuple(sorted(now.items())))
    for e in log:
        if e[0] == "seed":
            close()
            steps, now, full = [], {"seed": e[1]}, None
        elif e[0] in ("noise_level", "days"):
            close()
            steps, now = [], {"seed": now.get("seed"), e[0]: e[1]}
        else:
            ctx.transitions += 1
            c = e[2]
            for k, v in user.items():
                if k in now:
                    want = now[k] * (len(c["selected_weeks"]) if k == "days" else 1)
                    ctx.check(c[k] == want, "%s: %s is %s while running %s with %s" % (what, k, c[k], e[1], now))
                elif not (isinstance(v, float) and "noise_level" in now) and k != "noise_level":
                    ctx.check(c[k] == v, "%s: %s is %s instead of %s while running %s" % (what, k, c[k], v, e[1]))
                elif k.endswith("_sd"):  # the standard deviations follow the level of noise
                    ctx.close(c[k] / c["noise_level"], v / user["noise_level"], what + ": " + k)
            command, params = parse(e[1])
            steps.append((command, params))
            if command == "simulate":
                partial = params["noise"] or params["network_sim"] or params["loads"]
                if not partial:
                    full = (now["seed"], params["network"], params["three_phased"])
                else:
                    ctx.check("days" not in now, "%s: only parts of the simulation redone for another sample size" % what)
                    ctx.check(params["noise"] or "noise_level" not in now, "%s: noise not added again for %s" % (what, now))
                    ctx.check(full == (now["seed"], params["network"], params["three_phased"]), "%s: noise added to another simulation" % what)
            ctx.distinct.add(h8(repr(now), repr(e[1]), c["seed"], c["noise_level"], c["days"]))
    close()
    ctx.check(len(runs) == len(set(runs)), what + ": repeated scenario")
    return runs


def sweep(case, ctx):
    flags, user, at, how = case
    s = Sweep(user)
    mine = values(os.path.join(s.home, "conf"), s.home)
    what = "%s %s" % (flags, user)
    for k in set(user) - {"tight"}:
        ctx.check(mine[k] == user[k], "harness: %s" % k)
    code, log = s.run(flags, at, how)
    left = s.files()
    ctx.check(left == s.user, "%s, call %d %s: configuration left modified (%s)" % (
        what, at, how, [os.path.basename(f) for f in set(left) | set(s.user) if left.get(f) != s.user.get(f)]))
    letters = "".join(flags).replace("-", "")
    runs = scenarios(ctx, log, mine, how == "none", what)
    ctx.note("scenarios", len(runs))
    if letters.strip("ns"):
        ctx.check(code != 0 and not log, "%s: unknown flag accepted" % what)
    elif how == "none":
        kinds = {k for r in runs for k, _ in r} - {"seed"}
        ctx.check(kinds == {{"n": "noise_level", "s": "days"}[x] for x in letters}, "%s: scenarios over %s" % (what, sorted(kinds)))
    else:
        again = s.run(flags)
        key = repr((flags, user))
        if key not in FRESH:
            FRESH[key] = repr(Sweep(user).run(flags))
        ctx.check(repr(again) == FRESH[key], "%s: other scenarios after call %d %s" % (what, at, how))


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    users = [{}, {"seed": 7}, {"seed": 11}, {"seed": 1310, "noise_level": 10}, {"noise_level": .5}, {"days": 14}, {"days": 1, "seed": 13},
             {"days": .5}, {"days": 10.5, "noise_level": 2.5}, {"seed": 5, "days": 2, "tight": 1}]
    flags = [[], ["-n"], ["-s"], ["-ns"], ["-s", "-n"], ["-x"], ["-n", "-x"]]
    a = [[f, u, -1, "none"] for f in flags for u in users]
    b = [[["-n"], u, k, how] for u in users[:4] for k in range(4) for how in ("fail", "interrupt", "terminate")]
    b += [[["-s"], users[k % 2], k, how] for k in range(0, 132, 1 if big else 22) for how in ("fail", "interrupt", "terminate")]
    b += [[["-ns"], users[k % 3], k, how] for k in range(1, 136, 5 if big else 60) for how in ("interrupt", "terminate")]
    return [Group("sweeps", a, sweep), Group("interrupted sweeps", b, sweep)]
