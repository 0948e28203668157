"""C26: identifying three sequences or phases together gives for each what identifying it alone gives."""
import contextlib
import itertools

import numpy as np

from checks import c25
from checks import iterlib as il
from checks import netlib
from mc.gen import cplx, unit
from src.identification import run, run3ph

LEVEL = "exploration"
RULE = ("every arrangement of sequence labels over the columns up to the bound (unequal numbers of nodes per sequence included) x Laplacian x weights x "
        "synchronisation x known matrix x iterations; non-trivial means distinct estimates")
ASSUMPTIONS = ["every sequence has at least one column (two with Laplacian)", "single-sequence stages are decided by C25"]


def labels(counts):
    """Every order of the labels 0, 1, 2 with the given multiplicities."""
    return sorted(set(itertools.permutations(sum(([k] * c for k, c in enumerate(counts)), []))))


def setup(lab, lap, salt):
    lab = np.array(lab)
    m, t = len(lab), 2 * len(lab) + 3
    v, i = np.zeros((t, m), complex), np.zeros((t, m), complex)
    y = np.zeros((m, m), complex)
    for k in range(3):
        sel = lab == k
        n = int(sel.sum())
        a, b, yk = c25.measurements(n, t, lap, salt + 10 * k + n)
        v[:, sel], i[:, sel] = a, b
        y[np.ix_(sel, sel)] = yk
    return lab, v, i, y


def standard(case, ctx):
    labs, lap, maximum = case
    lab, v, i, _ = setup(labs, lap, 3)
    frozen = v.copy(), i.copy(), lab.copy()
    with netlib.setconf("identification", **dict(c25.CONF, lambda_lasso=1e-3)):
        got = run3ph.standard_methods("three", v, i, lab, lap, maximum, False)
        for a, b in zip((v, i, lab), frozen):
            ctx.equal(a, b, "inputs after the stage")
        parts = [run.standard_methods("one", v[:, lab == k], i[:, lab == k], None, lap, maximum, False) for k in range(3)]
        for j, name in enumerate(("OLS", "TLS", "lasso")):
            want = np.zeros((len(lab), len(lab)), complex)
            for k in range(3):
                want[np.ix_(lab == k, lab == k)] = np.asarray(parts[k][j]).reshape((lab == k).sum(), -1)
            ctx.close(got[j], want, "%s estimate" % name, rtol=1e-10)
        f = c25.read("standard_results_three")
        for k, a in zip("otl", got):
            ctx.equal(f[k], a, "saved estimate " + k)
        again = run3ph.standard_methods("three", None, i, lab, lap, maximum, False)
        for k in range(3):
            ctx.equal(again[k], got[k], "estimate %d loaded back" % k)
    ctx.seen(*got)


def together(case, ctx):
    """Without labels all phases are one network."""
    n, lap, maximum = case
    v, i, _ = c25.measurements(n, n + n + 2, lap, n)
    with netlib.setconf("identification", **dict(c25.CONF, lambda_lasso=1e-3)):
        got = run3ph.standard_methods("three", v, i, None, lap, maximum, False)
        want = run.standard_methods("one", v, i, None, lap, maximum, False)
        f = c25.read("standard_results_three")
    for k, a, b in zip("otl", got, want):
        ctx.close(a, b, "estimate " + k, rtol=1e-10)
        ctx.equal(f[k], a, "saved estimate " + k)
    ctx.seen(*got)


@contextlib.contextmanager
def small_known_lines():
    """The known lines of the code belong to one network of 29 nodes and more: in smaller ones, the first line is known."""
    real = run.add_known_lines

    def first_line(nodes, prior, lambdaprime, y_bus, laplacian=False, prior_type="optimal"):
        c = il.ri(il.Param(c25.kinds(laplacian), nodes).reduce(y_bus))
        k = 0 if laplacian else 1
        prior.add_exact_prior([k, k + len(c) // 2], c[[k, k + len(c) // 2]], weights=lambdaprime, orders=1)
        return prior

    run.add_known_lines = first_line
    try:
        yield
    finally:
        run.add_known_lines = real


def bayesian(case, ctx):
    with small_known_lines():
        bayesian_case(case, ctx)


def bayesian_case(case, ctx):
    labs, lap, weighted, sync, exact, maximum, tol = case
    lab, v, i, y = setup(labs, lap, 5)
    m = len(lab)
    ratings = .5 + unit((m,), 5)
    pert = cplx((m, m), 3)
    same = np.equal.outer(lab, lab)
    y0 = y + .2 * (pert + pert.T) * same
    ex = y * 1.1 if exact else None
    frozen = [a.copy() for a in (v, i, ratings, y0, lab)]
    lam = 10. if weighted else 1e-2
    with netlib.setconf("identification", **dict(c25.CONF, lambda_eiv=lam, lambdaprime=3., abs_tol=tol, rel_tol=0.)):
        call = lambda mi: run3ph.bayesian_eiv("three", v, i, lab, c25.SD[0], c25.SD[1], ratings, y0, ex, lap, weighted, mi, sync, False)
        got, its = call(maximum)
        for a, b in zip((v, i, ratings, y0, lab), frozen):
            ctx.equal(a, b, "inputs after the stage")
        parts = []
        for k in range(3):
            s = lab == k
            parts.append(run.bayesian_eiv("one", v[:, s], i[:, s], None, c25.SD[0], c25.SD[1], ratings[s], y0[np.ix_(s, s)],
                                          None if ex is None else ex[np.ix_(s, s)], lap, weighted, maximum, sync, False))
        put = lambda vals: spread(lab, vals)
        ctx.close(got, put([p[0] for p in parts]), "estimate", rtol=1e-10)
        count = min(len(p[1]) for p in parts)
        ctx.check(len(its) == count, "%d iterations, expected %d" % (len(its), count))
        for k in range(count):
            ctx.check(its[k].iteration == k, "number of iteration %d" % k)
            ctx.close(its[k].fitted_parameters, put([p[1][k].fitted_parameters for p in parts]), "iterate %d" % k, rtol=1e-10)
            ctx.close(float(its[k].target_function), float(sum(p[1][k].target_function for p in parts)), "objective %d" % k, rtol=1e-10)
        f = c25.read("bayesian_results_three")
        ctx.equal(f["y"], got, "saved estimate")
        c25.iterations_equal(ctx, list(f["i"]), its, "saved iterations", 1e-15)
        back, bits = call(0)
        ctx.equal(back, got, "estimate loaded back")
        c25.iterations_equal(ctx, list(bits), its, "iterations loaded back", 1e-15)
        if exact:
            with netlib.setconf("identification", lambda_eiv=1e3):
                ctx.check(np.abs(call(1)[0] - run3ph.bayesian_eiv("three", v, i, lab, c25.SD[0], c25.SD[1], ratings, y0, None, lap, weighted, 1, sync,
                                                                  False)[0]).max() > 1e-9, "known values have no effect")
    if len({len(p[1]) for p in parts}) > 1:
        ctx.note("sequences stopped at different iterations")
    ctx.seen(got)


def spread(lab, vals):
    out = np.zeros((len(lab), len(lab)), complex)
    for k in range(3):
        out[np.ix_(lab == k, lab == k)] = np.asarray(vals[k]).reshape((lab == k).sum(), -1)
    return out


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    two = labels((2, 2, 2))
    uneven = labels((1, 2, 3)) + labels((2, 1, 2)) + labels((3, 2, 1))
    usual = [(0, 1, 2, 0, 1, 2), (0, 0, 1, 1, 2, 2), (2, 1, 0, 0, 1, 2), (1, 1, 0, 2, 2, 0, 0), (0, 1, 2, 0, 1, 2, 0, 1, 2)]
    one = labels((1, 1, 1))
    if not big:
        uneven = uneven[::4]
    st = [[list(l), False, m] for l in two + uneven for m in (0, 3)]
    st += [[list(l), True, 3] for l in two[::1 if big else 3] + usual]
    st += [[list(l), False, 3] for l in usual]
    pick = usual + (two if big else two[::10]) + uneven[::1 if big else 10]
    ba = []
    for l in pick:
        ok = min(l.count(k) for k in range(3)) >= 2
        if not ok:
            continue
        for lap, w, sync, (mi, tol) in itertools.product((False, True), (False, True), (True, False), ((2, 0.), (6, .2))):
            ba.append([list(l), lap, w, sync, sync and mi == 2, mi, tol])
    return [Group("standard methods, every arrangement", st, standard),
            Group("all phases as one network", [[n, lap, m] for n in (2, 3, 4, 6) for lap in (False, True) for m in (0, 3)], together),
            Group("Bayesian stage", ba, bayesian)]
