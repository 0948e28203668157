"""C30: the reported results are the metrics of the saved estimates."""
import contextlib
import io
import itertools
import os
import re
from unittest import mock

import numpy as np

from checks import iterlib as il
from checks.c18 import adm_phase, adm_seq, phase_of, seq_of
from checks.idflow import load
from mc.gen import cplx, graphs, unit
from src.models.abstract_models import IterationStatus

LEVEL = "model_checking"
RULE = ("phases x sequence flag x saved results (standard, Bayesian with 1-3 iterations, uncertainty) x Laplacian x networks (every connected graph of 2-3 nodes, and of 4 "
        "for single phases) x drawing options, and every history of two reports in one folder; states are the result folders; "
        "non-trivial means distinct reports")
ASSUMPTIONS = ["drawing libraries are replaced, except in the group that draws (tikzplotlib always: the installed version does not work with the installed webcolors)", "Bayesian and uncertainty results exist only with standard ones, as the identify command makes them",
               "uncertainty results exist for single phases only and are diagonal, so that the square root of the eigenvalues is unambiguous"]
OUT = "data/simulations_output/"
ROWS = ("OLS", "TLS", "Lasso", "MLE")


def block(n, k, edges, salt):
    """A matrix with generic k x k blocks on the diagonal and between connected nodes."""
    y = np.zeros((n * k, n * k), complex)
    g = cplx((n * k, n * k), salt) + (2 - 3j)
    for a, b in [(a, a) for a in range(n)] + [tuple(e) for e in edges] + [(e[1], e[0]) for e in edges]:
        y[a * k:(a + 1) * k, b * k:(b + 1) * k] = g[a * k:(a + 1) * k, b * k:(b + 1) * k]
    y = y + y.T
    for j, (a, b) in enumerate(edges):  # some branches have very small admittances
        if (salt + j) % 3 == 0:
            c = (1e-2, 1e-3, 1e-6)[(salt + j) // 3 % 3]
            y[a * k:(a + 1) * k, b * k:(b + 1) * k] *= c
            y[b * k:(b + 1) * k, a * k:(a + 1) * k] *= c
        else:   # others are purely reactive or resistive
            for r, s in ((a, b), (b, a)):
                z = y[r * k:(r + 1) * k, s * k:(s + 1) * k]
                z[:] = z.real if (salt + j) % 3 == 1 and salt % 2 else 1j * z.imag if (salt + j) % 3 == 1 else z
    return y


def write(name, phases, edges, n, files, lap, iters, salt, hole=False):
    """Writes consistent results of all stages; returns nothing (the reference reads the files)."""
    three = len(phases) == 3
    k = 3 if three else 1
    ids = {"123": [1, 2, 3], "012": [0, 1, 2]}.get(phases)
    lab = np.array(ids * n) if three else np.array(([int(phases)] + [j for j in ((0, 1, 2) if phases == "0" else (1, 2, 3)) if j != int(phases)][:2]) * n)
    if hole and not three:
        lab = lab[:-1]  # last node misses a phase
    m = len(lab)
    t = 2 * m + 3
    w = cplx((t, m), salt) + 1
    np.savez(OUT + name + ".npz", i=il.stored(cplx((t, m), salt + 1), m % 2), v=w + .1, j=np.asfortranarray(cplx((t, m), salt + 2)), w=np.asfortranarray(w), y=cplx((m, m), salt), p=unit((m,), salt), f=1., h=lab)
    y = block(n, k, edges, salt + 3)
    if lap and n > 1:  # rows of blocks add up to zero
        for a in range(n):
            y[a * k:(a + 1) * k, a * k:(a + 1) * k] = 0
            y[a * k:(a + 1) * k, a * k:(a + 1) * k] = -sum(y[a * k:(a + 1) * k, b * k:(b + 1) * k] for b in range(n))
    np.savez(OUT + "reference_results_" + name + ".npz", y=y, p=phases, l=lap)
    d = n * k
    if "s" in files:
        np.savez(OUT + "standard_results_" + name + ".npz", o=y + .3 * cplx((d, d), salt + 4), t=y + .2 * cplx((d, d), salt + 5), l=y + .1 * cplx((d, d), salt + 6))
    if "b" in files:
        its = [IterationStatus(j, y + cplx((d, d), salt + 8 + j) / (j + 1), 10. - j + salt) for j in range(iters)]
        np.savez(OUT + "bayesian_results_" + name + ".npz", y=y + .05 * cplx((d, d), salt + 7), i=its)
    if "u" in files:
        np.savez(OUT + "uncertainty_results_" + name + ".npz", e=np.diag(.1 + unit((2 * d * d,), salt + 9)), b=np.diag(.1 + unit((2 * d * d,), salt + 10)))


def metrics(y, z):
    with np.errstate(all="ignore"):
        d = (np.abs(y - z) ** 2).sum() ** .5
        on = y != 0
        return dict(fro_error=d, max_error=np.abs(y - z).max(initial=0), rrms_error=100 * d / (np.abs(y) ** 2).sum() ** .5,
                    map_error=100 * (np.abs(y[on] - z[on]) ** 2).sum() ** .5 / np.float64((np.abs(y[on]) ** 2).sum() ** .5))


def expected(files, name, sequence):
    """Metrics by file (or section) and plot data by name."""
    sim, ref = files[OUT + name + ".npz"], files[OUT + "reference_results_" + name + ".npz"]
    phases = str(ref["p"])
    adm = volt = lambda x: x
    w = sim["w"]
    if len(phases) == 1:
        w = w[:, sim["h"] == int(phases)]
    elif phases == "012" and not sequence:
        adm, volt = adm_phase, phase_of
    elif phases == "123" and sequence:
        adm, volt = adm_seq, seq_of
    y, w = adm(ref["y"]), volt(w)
    c = w - w.mean(axis=0)
    m = w.shape[1]
    plots = {"correlations": np.sort(np.log10(np.sqrt(np.abs(np.linalg.eigvals(c.T @ c)))))[:, None], "y_bus": np.abs(y)}
    texts, printed = {}, []
    std, bay, unc = (files.get(OUT + k + "_results_" + name + ".npz") for k in ("standard", "bayesian", "uncertainty"))
    if std is not None:
        est = [adm(std[k]) for k in "otl"]
        for e, k in zip(est, ("ols", "tls", "lasso")):
            texts["data/%s_error_metrics.txt" % k] = [metrics(y, e)]
            printed.append(metrics(y, e))
            plots["y_" + k] = np.abs(e)
    if bay is not None:
        b = adm(bay["y"])
        texts["data/sparse_tls_error_metrics.txt"] = [metrics(y, b)]
        printed.append(metrics(y, b))
        plots["y_sparse_tls_cov"], plots["y_sparse_tls_cov_errors"] = np.abs(b), np.abs(b - y)
        plots["errors"] = np.array([[metrics(y, adm(i.fitted_parameters))["rrms_error"]] for i in bay["i"]])
        plots["targets"] = np.array([[i.target_function] for i in bay["i"]][1:]).reshape(-1, 1)
        # each pair of positions once; branches have the opposite sign
        lap = bool(ref["l"])
        pairs = [(i, j) for j in range(m) for i in range(j + lap, m)]
        on = np.array([i != j and (abs(y[i, j]) + abs(y[j, i])) > 0 for i, j in pairs])
        half = np.array([[(e[i, j] + e[j, i]) / 2 for e in est + [b, y]] for i, j in pairs]).reshape(-1, 5)
        plots["comparison"] = np.abs(half[on])
        texts["data/sparsity_metrics.txt"] = [metrics(2 * half[~on, k], 2 * half[~on, 4]) for k in range(4)]
        if on.all():  # relative errors have no meaning
            texts["data/sparsity_metrics.txt"] = [dict(fro_error=0., max_error=0.)] * 4
    if unc is not None:
        e, u = unc["e"], unc["b"]
        printed.append(metrics(e, u))
        plots["tls_errors"] = np.abs(est[1] - y)
        for k, cov in (("tls_cov", e), ("tls_cov_est", u)):
            s = np.sqrt(np.diag(cov)) / m
            plots[k] = np.abs(s[:m * m] + 1j * s[m * m:]).reshape(m, m).T
    return texts, plots, printed


def parse(text):
    return [{k: float(v) for k, v in re.findall(r"(\w+)=([^,)]+)", line)} for line in text.splitlines() if "fro_error" in line]


@contextlib.contextmanager
def no_drawing(names):
    from src.identification import utils
    fakes = {k: mock.MagicMock() for k in names if hasattr(utils, k)}
    with mock.patch.multiple(utils, **fakes):
        yield


def report(args, draw=False):
    import plot_results
    out = io.StringIO()
    with contextlib.redirect_stdout(out), no_drawing(("tikzplotlib",) if draw else ("sns", "plt", "ply", "PowerNorm", "proplot", "tikzplotlib")), \
            np.printoptions():
        plot_results.plot_results.main([str(a) for a in args], standalone_mode=False)
    return out.getvalue()


def near(ctx, got, want, what):
    ctx.check(len(got) == len(want), lambda: "%s: %d sets of metrics, expected %d" % (what, len(got), len(want)))
    for g, w in zip(got, want):
        ctx.check(set(g) >= set(w) and len(g) == 4, "%s: metrics %s" % (what, sorted(g)))
        for k in w:
            a, b = g[k], float(w[k])
            ctx.check(a == b or (np.isnan(a) and np.isnan(b)) or abs(a - b) <= 1e-7 * abs(b) + 1e-12, "%s: %s is %r, expected %r" % (what, k, a, b))


def step(ctx, name, sequence, options, what, draw=False):
    before = load()
    texts, plots, printed = expected(before, name, sequence)
    out = report(["-n", name] + (["-q"] if sequence else []) + list(options), draw)
    after = load()
    lines = parse(out)
    near(ctx, lines[:len(printed)], printed, what + ": printed metrics")
    data = {OUT + "plot_data/%s.npz" % k: v for k, v in plots.items()}
    pictures = {p for p in after if p.endswith((".png", ".pdf", ".tex"))}
    for p in after:
        if p in pictures:
            continue
        if p in texts:
            near(ctx, parse(after[p].decode()), texts[p], "%s: %s" % (what, p))
            if "sparsity" in p:
                titles = tuple(l for l in after[p].decode().splitlines() if "(" not in l)
                ctx.check(titles == ROWS, lambda: "%s: sections %s" % (what, titles))
        elif p in data:
            g = np.abs(after[p]["m"]) if "correlations" not in p else np.sort(after[p]["m"], axis=0)
            ctx.close(g, data[p], "%s: %s" % (what, p), rtol=1e-8, atol=1e-10)
        elif isinstance(after[p], dict):
            ctx.check(p in before and set(after[p]) == set(before[p]), "%s: unexpected %s" % (what, p))
            for k in before[p]:
                if k != "i" or "bayesian" not in p:
                    ctx.equal(after[p][k], before[p][k], "%s: %s in %s after the report" % (what, k, p))
        else:
            ctx.check(before.get(p) == after[p], "%s: unexpected %s" % (what, p))
    missing = (set(texts) | set(data) | set(before)) - set(after)
    ctx.check(not missing, lambda: "%s: missing %s" % (what, sorted(missing)))
    if draw:
        want = {"data/%s.%s" % (k, "pdf" if k in ("correlations", "errors", "targets", "comparison") else "png") for k in plots}
        want |= {"data/tikz/%s.tex" % k for k in ("correlations", "errors", "targets", "comparison") if k in plots}
        ctx.check(want <= pictures and all(len(after[p]) for p in want), lambda: "%s: pictures %s" % (what, sorted(want - pictures)))
    ctx.transitions += 1
    for k in sorted(texts):
        ctx.seen(k, after[k])
    ctx.seen(*[after[p]["m"] for p in sorted(data)])


def clean():
    for p in load():
        os.remove(p)


def single(case, ctx):
    phases, n, edges, files, lap, seq, iters, hole, options = case
    clean()
    write("net", phases, edges, n, files, lap, iters, n + len(edges), hole)
    step(ctx, "net", seq, options, str(case))


def history(case, ctx):
    clean()
    for k, (name, phases, n, edges, files, lap, seq, iters) in enumerate(case):
        for p in load():
            if "_results_" + name in p:
                os.remove(p)
        write(name, phases, edges, n, files, lap, iters, 3 * k + n)
        step(ctx, name, seq, [], "report %d of %s" % (k + 1, case))


def drawing(case, ctx):
    phases, n, edges, files, lap, seq, options = case
    clean()
    write("net", phases, edges, n, files, lap, 3, 1)
    step(ctx, "net", seq, options, str(case), draw=True)


def groups(tier):
    from mc.core import Group
    deep = tier != "quick"
    sets = ["", "s", "sb", "su", "sbu"]
    opts = [[], ["-v"], ["-m", "5", "-e", "2", "-c", "1.0"]]
    singles = []
    for phases in ("0", "1", "2", "3", "012", "123"):
        three = len(phases) == 3
        for n in ((1, 2, 3) if three else (2, 3, 4)) + ((4,) if deep and three else (5,) if deep else ()):
            for g, edges in enumerate(graphs(n)):
                if n >= 4 and (g % 7 and not deep or g % 29 and n > 4):
                    continue
                for f, lap, seq in itertools.product(sets, (False, True), (False, True)):
                    if three and "u" in f:
                        continue
                    for hole in ((False, True) if not three and f == "sb" else (False,)):
                        k = len(singles)
                        singles.append([phases, n, edges, f, lap, seq, 1 + k % 3, hole, opts[(k // 3) % 3]])
    confs = [[nm, p, n, e, f, lap, seq, it] for nm in ("net", "other") for p, n, e in (("1", 3, [[0, 1], [1, 2]]), ("2", 2, [[0, 1]]), ("012", 2, [[0, 1]]), ("123", 3, [[0, 1], [0, 2]]))
             for f in ("s", "sb") for lap, seq, it in ((False, False, 1), (True, True, 3))]
    pairs = [[a, b] for a in confs if a[0] == "net" for b in confs]
    line = [[0, 1], [1, 2]]
    draw = [["1", 3, line, "sbu", True, False, []], ["012", 2, [[0, 1]], "sb", False, False, ["-m", "5", "-e", "2", "-c", "1.0"]],
            ["012", 2, [[0, 1]], "sb", True, True, []], ["123", 2, [[0, 1]], "s", False, True, []], ["3", 3, line, "s", False, False, ["-v"]],
            ["2", 2, [[0, 1]], "", False, False, []]]
    return [Group("reports", singles, single), Group("histories", pairs, history), Group("drawing", draw if deep else draw[:3], drawing)]
