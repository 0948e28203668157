"""Runs the identify command on small crafted simulations, and predicts its result files from the (separately checked) stages."""
import contextlib
import os

import numpy as np

from checks import c25, c26, netlib
from mc.gen import unit
from src.identification import run, run3ph

OUT = "data/simulations_output"
CONF = dict(c25.CONF, lambda_lasso=1e-3, lambda_eiv=1e-1, lambdaprime=3., abs_tol=1e-9, rel_tol=0.)
SIM = dict(voltage_magnitude_sd=2e-3, current_magnitude_sd=3e-3, voltage_phase_sd=1e-3, current_phase_sd=2e-3)
# name: labels of the columns, samples, filtering factor
NETS = {"one": ([1, 1, 1], 9, 4.), "two": ([1, 1], 7, 1.), "three": ([2, 1, 3, 3, 1, 2, 1], 15, 2.25), "seq": ([0, 1, 2, 1, 0, 2], 11, 4.),
        "gap": ([3, 1, 1, 3], 9, 1.)}


def simulation(name, salt=0):
    labs, t, f = NETS[name]
    lab = np.array(labs)
    m = len(lab)
    out = dict(i=np.zeros((t, m), complex), v=np.zeros((t, m), complex), j=np.zeros((t, m), complex), w=np.zeros((t, m), complex),
               y=np.zeros((m, m), complex), p=.5 + unit((m,), 7 + salt), f=f, h=lab)
    for k in sorted(set(labs)):
        s = lab == k
        n = int(s.sum())
        v, i, y = c25.measurements(n, t, False, 31 + 5 * k + len(labs) + salt, 0.)
        nv, ni, _ = c25.measurements(n, t, False, 31 + 5 * k + len(labs) + salt, .003)
        out["w"][:, s], out["j"][:, s], out["v"][:, s], out["i"][:, s] = v, i, nv, ni
        out["y"][np.ix_(s, s)] = y
    return out


def write_simulations(names, salt=0):
    for n in names:
        np.savez(os.path.join(OUT, n + ".npz"), **simulation(n, salt))


@contextlib.contextmanager
def settings():
    with netlib.setconf("identification", **CONF), netlib.setconf("simulation", **SIM), c26.small_known_lines():
        yield


def identify(args):
    """The command line; returns None or the exception."""
    import identify_network
    with settings():
        try:
            identify_network.identify.main([str(a) for a in args], standalone_mode=False)
        except Exception as e:
            return e
    return None


def load():
    """All result files, by name."""
    out = {}
    for d, _, files in os.walk("data"):
        for f in sorted(files):
            p = os.path.join(d, f)
            if f.endswith(".npz"):
                with np.load(p, allow_pickle=True) as h:
                    out[p] = {k: h[k] for k in h.files}
            else:
                with open(p, "rb") as h:
                    out[p] = h.read()
    return out


class Rejected(Exception):
    pass


def flag(args, *names):
    return any(a in names for a in args)


def option(args, default, *names):
    for k, a in enumerate(args):
        if a in names:
            return args[k + 1]
    return default


def predict(files, args):
    """Result files expected after the command; raises Rejected if the command can not be carried out."""
    name = option(args, "", "-n")
    phases = str(option(args, "1", "-p"))
    maximum = int(option(args, 50, "-i"))
    s, b, cont, seq = flag(args, "-s"), flag(args, "-b"), flag(args, "-c"), flag(args, "-q")
    lap, w, unsync, exact, unc = flag(args, "-l"), flag(args, "-w"), flag(args, "-r"), flag(args, "-e"), flag(args, "-u")
    redo_s, redo_b = s or not b, b or not s
    path = lambda kind: os.path.join(OUT, kind + name + ".npz")
    if path("") not in files or (phases not in ("012", "0", "1", "2") if seq else phases not in ("123", "1", "2", "3")):
        raise Rejected()
    if phases == "123":
        raise Rejected()
    sim = files[path("")]
    lab = sim["h"]
    three = phases == "012"
    keep = np.ones(len(lab), bool) if three else lab == int(phases)
    if not keep.any():
        raise Rejected()
    need = ([] if redo_s else [path("standard_results_")]) + ([path("bayesian_results_")] if cont or not (redo_b and maximum > 0) else [])
    if any(p not in files for p in need):
        raise Rejected()
    m = int(keep.sum())
    if redo_b and maximum > 0:
        start = [files[path("bayesian_results_")]["y"]] if cont else [] if redo_s else [files[path("standard_results_")]["t"]]
    else:
        start = [files[path("bayesian_results_")]["y"]] if unc else []
    if any(np.shape(a) != (m, m) for a in start):
        raise Rejected()  # Estimates for other phases
    out = dict(files)
    y = sim["y"][np.ix_(keep, keep)]
    v, i, vx, ix = (sim[k][:, keep] for k in "viwj")
    ratings = sim["p"][keep]
    out[path("reference_results_")] = {"y": y, "p": np.array(phases), "l": np.array(lap)}
    stages = run3ph if three else run
    sq = np.sqrt(sim["f"])
    sdv = (SIM["voltage_magnitude_sd"] + 1j * SIM["voltage_phase_sd"]) / sq
    sdi = (SIM["current_magnitude_sd"] + 1j * SIM["current_phase_sd"]) / sq
    here = os.getcwd()
    os.makedirs("ref/" + OUT, exist_ok=True)
    os.chdir("ref")
    try:
        with settings():
            if redo_s:
                ols, tls, lasso = stages.standard_methods("r", v, i, lab if three else None, lap, maximum, False)
                out[path("standard_results_")] = {"o": ols, "t": tls, "l": lasso}
            else:
                tls = files[path("standard_results_")]["t"]
            old = files.get(path("bayesian_results_"))
            y0 = old["y"] if cont else (tls + tls.T) / 2
            if redo_b and maximum > 0:
                est, its = stages.bayesian_eiv("r", v, i, lab[keep], sdv, sdi, ratings, y0, y if exact and not lap else None, lap, w, maximum,
                                               not unsync, False)
                out[path("bayesian_results_")] = {"y": est, "i": list(old["i"]) + list(its) if cont else list(its)}
            else:
                est = old["y"]
            if unc and not three and not unsync:
                f1, c1, e1 = run.eiv_fim("r", vx, ix, sdv, sdi, ratings, y, None, lap, False)
                f2, c2, e2 = run.eiv_fim("r", v, i, sdv, sdi, ratings, est, None, lap, False)
                out[path("fim_results_")] = {"y": est, "v": v, "i": i, "f": f2, "c": c2, "e": e2}
                out[path("uncertainty_results_")] = {"e": c1, "b": c2}
    finally:
        os.chdir(here)
    return out


def compare(ctx, got, want, what, rtol=1e-9):
    ctx.check(set(got) == set(want), lambda: "%s: files %s, expected %s" % (what, sorted(set(got) - set(want)), sorted(set(want) - set(got))))
    for p in want:
        g, w = got[p], want[p]
        if not isinstance(w, dict):
            ctx.check(g == w, "%s: %s changed" % (what, p))
            continue
        ctx.check(set(g) == set(w), "%s: %s holds %s, expected %s" % (what, p, sorted(g), sorted(w)))
        for k in w:
            if k == "i" and "bayesian" in p:
                a, b = list(g[k]), list(w[k])
                ctx.check(len(a) == len(b), "%s: %d iterations in %s, expected %d" % (what, len(a), p, len(b)))
                for x, z in zip(a, b):
                    ctx.check(x.iteration == z.iteration, "%s: iteration numbers in %s" % (what, p))
                    ctx.close(x.fitted_parameters, z.fitted_parameters, "%s: iterate in %s" % (what, p), rtol=rtol)
                    ctx.close(float(x.target_function), float(z.target_function), "%s: objective in %s" % (what, p), rtol=1e-8)
            elif np.asarray(w[k]).dtype.kind in "US":
                ctx.check(str(g[k]) == str(w[k]), "%s: %s of %s is %r, expected %r" % (what, k, p, g[k], w[k]))
            elif np.asarray(w[k]).dtype.kind in "bui":
                ctx.equal(g[k], w[k], "%s: %s of %s" % (what, k, p))
            else:
                ctx.close(g[k], w[k], "%s: %s of %s" % (what, k, p), rtol=rtol)
