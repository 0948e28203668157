"""C25: the identification stages use the documented priors, centring and weights, and save what they return."""
import itertools
import os

import numpy as np

from checks import iterlib as il
from checks import netlib
from mc.gen import cplx, real, unit
from src.identification import run
from src.models.error_in_variable import BayesianEIVRegression
from src.models.noise_transformation import average_true_noise_covariance, naive_noise_covariance
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior

LEVEL = "exploration"
RULE = ("prior builders: sizes x Laplacian or not x options x evaluation points; stages: sizes x Laplacian x weights x synchronisation x known lines x "
        "prior options x maximum number of iterations; non-trivial means distinct estimates")
ASSUMPTIONS = ["preliminary estimates without exactly zero parameters", "regularisation of the diagonal only with the contrast prior of each row and without Laplacian",
               "the estimators themselves are decided by C22 to C24, covariances by C06"]


def kinds(lap):
    return "lap" if lap else "sym"


def offdiag(par):
    """Positions, in the stacked real vector, of off-diagonal parameters."""
    k = [i for i, (a, b) in enumerate(par.pairs) if a != b]
    return k + [par.size + i for i in k]


def lasso_rows(n, y, lap):
    par = il.Param(kinds(lap), n)
    v = np.abs(il.ri(par.reduce(y)))
    e = np.eye(2 * par.size)
    return [(e[k] / v[k], 0., 1) for k in range(2 * par.size)]


def complex_rows(n, lp, y, lap, tls_diag, each_row, reg_diag):
    par = il.Param(kinds(lap), n)
    c = par.reduce(y)
    v = il.ri(c)
    e = np.eye(2 * par.size)
    rows = [(e[k] / abs(v[k]), 0., 1) for k in offdiag(par)]
    sums = []  # what the off-diagonal parameters of each row should add up to
    for i in range(n):
        if tls_diag:
            sums.append(y[i, i] if lap else -y[i, i])
        else:
            sums.append(sum(c[k] for k, (a, b) in enumerate(par.pairs) if a != b and i in (a, b)))
    sums = np.array(sums)
    if each_row:
        for part, val in ((0, sums.real), (1, sums.imag)):
            for i in range(n):
                r = np.zeros(2 * par.size)
                for k, (a, b) in enumerate(par.pairs):
                    if a != b and i in (a, b):
                        r[part * par.size + k] = lp / val[i]
                rows.append((r, lp, 1))
        if reg_diag:
            for k, (a, b) in enumerate(par.pairs):
                if a == b:
                    rows.append((e[k] * lp, lp * y[a, a].real, 1))
                    rows.append((e[par.size + k] * lp, lp * y[a, a].imag, 1))
    else:
        for part, val in ((0, sums.real.sum() / 2), (1, sums.imag.sum() / 2)):
            r = np.zeros(2 * par.size)
            for k, (a, b) in enumerate(par.pairs):
                if a != b:
                    r[part * par.size + k] = lp / val
            rows.append((r, lp, 1))
    return rows


KNOWN = {"optimal": ((0, 25, 26), ((1, 0), (24, 25), (26, 25), (26, 27), (26, 28))),
         "suboptimal": ((7, 20, 21), ((7, 6), (7, 8), (19, 20), (21, 20), (21, 22)))}


def known_rows(n, lp, y, lap, which):
    par = il.Param(kinds(lap), n)
    nodes, lines = KNOWN[which.replace("wrong ", "")]
    wrong = "wrong" in which
    e = np.eye(2 * par.size)
    rows = []
    for k, (a, b) in enumerate(par.pairs):
        if a != b and (a in nodes or b in nodes):
            val = y[a, b] if (a, b) in lines or (b, a) in lines else 0
            val = (-val if lap else val) * (1.1 if wrong else 1.)
            w = lp * (.01 if wrong else 1.)
            rows.append((e[k] * w, w * np.real(val), 1))
            rows.append((e[par.size + k] * w, w * np.imag(val), 1))
    return rows


def same_density(ctx, prior, rows, alpha, what, salt=0):
    """The prior has exactly the terms of rows, whatever their order: same penalties, quadratic and linear terms at several points."""
    m = len(rows[0][0])
    for k in range(3):
        x = 5 * real((m,), salt + k) * (1 + k)
        A, b, pen = prior.log_distribution(x)
        if m > 200:
            L, mus = np.array([r[0] for r in rows]), np.array([r[1] for r in rows])
            w = np.abs(L @ x - mus) + alpha
            M, mu, p = L.T @ (L / w[:, None]), L.T @ (mus / w), w.sum()
        else:
            M, mu, p = il.density(rows, alpha, x)
        ctx.close(float(pen), p, "%s: penalty at point %d" % (what, k))
        ctx.close(A, M, "%s: quadratic term at point %d" % (what, k))
        ctx.close(np.asarray(b).reshape(-1), mu, "%s: linear term at point %d" % (what, k))
        ctx.seen(mu, p)
        if m > 200:
            break


def estimate(n, lap, sym, salt):
    y = il.truth(kinds(lap), n, salt)
    return y + (0 if sym else .4 * cplx((n, n), salt + 50))


def builders(case, ctx):
    which, n, lap, sym, lp, tls_diag, each_row, reg = case
    y = estimate(n, lap, sym, n)
    y0 = y.copy()
    if which == "loads":
        par = il.Param("sym", n)
        c, e = il.ri(par.reduce(y)), np.eye(2 * par.size)
        same_density(ctx, run.build_loads_id_prior(n, y), [(e[k], c[k], 1) for k in offdiag(par)], 1e-10, str(case))
    elif which == "lasso":
        same_density(ctx, run.build_lasso_prior(n, y, lap), lasso_rows(n, y, lap), 1e-5, str(case))
    else:
        p = run.build_complex_prior(n, lp, y, lap, tls_diag, each_row, reg)
        same_density(ctx, p, complex_rows(n, lp, y, lap, tls_diag, each_row, reg), 1e-8, str(case))
    ctx.equal(y, y0, "preliminary estimate after building the prior")


def known(case, ctx):
    n, lap, which = case
    y = il.truth(kinds(lap), n, 3)
    y0 = y.copy()
    par = il.Param(kinds(lap), n)
    base = SparseSmoothPrior(smoothness_param=1e-8, n=2 * par.size)
    base.add_sparsity_prior(np.arange(2), weights=2., orders=SmoothPrior.LAPLACE)
    e = np.eye(2 * par.size)
    p = run.add_known_lines(n, base, 7., y, laplacian=lap, prior_type=which)
    same_density(ctx, p, [(e[0] * 2, 0., 1), (e[1] * 2, 0., 1)] + known_rows(n, 7., y, lap, which), 1e-8, str(case))
    ctx.equal(y, y0, "exact matrix after building the prior")


def centred(v, i, lap):
    if lap:
        return v - v.mean(), i.copy()
    return v - v.mean(axis=0), i - i.mean(axis=0)


def measurements(n, t, lap, salt, noise=.002):
    y = il.truth(kinds(lap), n, salt)
    v = 1 + .05 * cplx((t, n), salt + 1)
    i = v @ y + .3 * cplx((1, n), salt + 4) * (0 if lap else 1)
    return il.stored(v + noise * cplx((t, n), salt + 2), t + n + lap), il.stored(i + noise * cplx((t, n), salt + 3), t + 2 * lap), y


CONF = dict(lambda_lasso=1e-3, lambda_eiv=1e-2, lambdaprime=3., abs_tol=1e-13, rel_tol=1e-16)


def read(name):
    with np.load(os.path.join("data/simulations_output", name + ".npz"), allow_pickle=True) as f:
        return {k: f[k] for k in f.files}


def standard(case, ctx):
    n, extra, lap, maximum, tol, lam = case
    v, i, _ = measurements(n, n + extra, lap, n)
    v0, i0 = v.copy(), i.copy()
    name = "net%d" % n
    with netlib.setconf("identification", **dict(CONF, lambda_lasso=lam, abs_tol=tol, rel_tol=0.)):
        got = run.standard_methods(name, v, i, None, lap, maximum, False)
        ctx.equal(v, v0, "voltages after the stage")
        ctx.equal(i, i0, "currents after the stage")
        vc, ic = centred(v, i, lap)
        ols = np.linalg.lstsq(vc, ic, rcond=None)[0]
        w, u = np.linalg.eigh(np.hstack((vc, ic)).conj().T @ np.hstack((vc, ic)))
        tls = -u[:n, :n] @ np.linalg.inv(u[n:, :n])
        ctx.close(got[0], ols, "OLS estimate", rtol=1e-6)
        ctx.close(got[1], tls, "TLS estimate", rtol=1e-4)
        if maximum == 0:
            ctx.close(got[2], got[0], "lasso estimate without iterations")
        else:
            par = il.Param(kinds(lap), n)
            rows = lasso_rows(n, got[0], lap)
            A = il.blocks(np.kron(np.eye(n), vc) @ par.matrix())
            b = il.ri(ic.flatten("F"))
            y = il.ri(par.reduce(got[0]))
            prev = None
            for k in range(maximum):
                M, mu, _ = il.density(rows, 1e-5, y)
                y = np.linalg.solve(A.T @ A + lam * M, A.T @ b + lam * mu)
                cur = abs(np.sum((b - A @ y) ** 2) + lam * il.density(rows, 1e-5, y)[2])
                if prev is not None and il.stops(cur, prev, tol, 0.):
                    break
                prev = cur
            ctx.note("lasso iterations", k + 1)
            ctx.close(got[2], par.expand(y[:par.size] + 1j * y[par.size:]), "lasso estimate", rtol=1e-6)
        f = read("standard_results_" + name)
        for k, a in zip("otl", got):
            ctx.equal(f[k], a, "saved estimate " + k)
        for a, b in ((None, None), (None, i)):
            again = run.standard_methods(name, a, b, None, lap, maximum, False)
            for k in range(3):
                ctx.equal(again[k], got[k], "estimate %d loaded back" % k)
    ctx.seen(*got)


def prior_of(n, lp, y, lap, opts):
    """The documented prior through the public interface of the (separately checked) prior class."""
    par = il.Param(kinds(lap), n)
    p = SparseSmoothPrior(smoothness_param=1e-8, n=2 * par.size)
    for c, mu, _ in complex_rows(n, lp, y, lap, *opts):
        idx = np.flatnonzero(c)
        if mu == 0:
            p.add_sparsity_prior(idx, weights=c[idx], orders=1)
        elif len(idx) == 1 and opts[2] and abs(mu) != lp:
            p.add_exact_prior(idx, np.array([mu / c[idx[0]]]), weights=[c[idx[0]]], orders=1)
        else:
            p.add_contrast_prior(np.array([idx]), np.array([mu / c[idx[0]]]), weights=[mu], orders=1)
    return p


SD = (2e-3 + 1e-3j, 1.5e-3 + 7e-4j)


def reference(v, i, ratings, y0, lap, weighted, maximum, sync, opts, lp, lam, tol):
    n = v.shape[1]
    wv = wi = None
    cv, ci = v, i
    if not sync:
        cv = np.abs(v)
        ci = i * np.exp(-1j * np.angle(v))
    if weighted and sync:
        wv = average_true_noise_covariance(v, SD[0].real, SD[0].imag, True)
        wi = average_true_noise_covariance(i, SD[1].real * ratings, SD[1].imag, True)
    elif weighted:
        wv = naive_noise_covariance(cv, SD[0].real, 100 * SD[0].imag, True)
        wi = naive_noise_covariance(ci, SD[1].real * ratings, SD[1].imag, True)
    cv, ci = centred(cv, ci, lap)
    m = BayesianEIVRegression(prior_of(n, lp, y0, lap, opts), lambda_value=lam, abs_tol=tol, rel_tol=0., max_iterations=maximum,
                              verbose=False, **il.Param.BUILDERS[kinds(lap)])
    m.fit(cv, ci, wv, wi, y_init=y0)
    return m.fitted_admittance_matrix, m.iterations


def iterations_equal(ctx, a, b, what, rtol):
    ctx.check(len(a) == len(b), "%s: %d iterations, expected %d" % (what, len(a), len(b)))
    for k, (p, q) in enumerate(zip(a, b)):
        ctx.check(p.iteration == q.iteration, "%s: number of iteration %d" % (what, k))
        ctx.close(p.fitted_parameters, q.fitted_parameters, "%s: iterate %d" % (what, k), rtol=rtol)
        ctx.close(float(p.target_function), float(q.target_function), "%s: objective %d" % (what, k), rtol=rtol)


def bayesian(case, ctx):
    n, extra, lap, weighted, sync, opts, maximum, tol = case
    opts = tuple(opts)
    v, i, y = measurements(n, n + extra, lap, n + 7)
    ratings = (.5 + unit((n,), 5)) * (1., 1e-3, 20.)[(n + extra + maximum) % 3 if sync and tol == 0 else 0]
    y0 = y + .2 * (cplx((n, n), 3) + cplx((n, n), 3).T)
    frozen = [a.copy() for a in (v, i, ratings, y0)]
    name = "net%d" % n
    lp, lam = 3., (1e-2 if not weighted else 10.)
    with netlib.setconf("identification", **dict(CONF, lambda_eiv=lam, lambdaprime=lp, abs_tol=tol, rel_tol=0., use_tls_diag=opts[0],
                                                 contrast_each_row=opts[1], regularize_diag=opts[2])):
        got, its = run.bayesian_eiv(name, v, i, None, SD[0], SD[1], ratings, y0, None, lap, weighted, maximum, sync, False)
        for a, b, what in zip((v, i, ratings, y0), frozen, ("voltages", "currents", "ratings", "initial estimate")):
            ctx.equal(a, b, what + " after the stage")
        want, wits = reference(v, i, ratings, y0, lap, weighted, maximum, sync, opts, lp, lam, tol)
        iterations_equal(ctx, its, wits, "Bayesian stage", 1e-7 if sync or not weighted else 1e-5)
        ctx.equal(got, its[-1].fitted_parameters, "result and last iterate")
        f = read("bayesian_results_" + name)
        ctx.equal(f["y"], got, "saved estimate")
        iterations_equal(ctx, list(f["i"]), its, "saved iterations", 1e-15)
        back, bits = run.bayesian_eiv(name, v, i, None, SD[0], SD[1], ratings, y0, None, lap, weighted, 0, sync, False)
        ctx.equal(back, got, "estimate loaded back")
        iterations_equal(ctx, list(bits), its, "iterations loaded back", 1e-15)
        if not sync:
            rot = np.exp(3j * real(v.shape, 77))
            other, oits = run.bayesian_eiv(name, v * rot, i * rot, None, SD[0], SD[1], ratings, y0, None, lap, weighted, maximum, sync, False)
            iterations_equal(ctx, oits, its, "with other phase references", 1e-5)
    ctx.note("Bayesian iterations", len(its))
    ctx.seen(got)


def exact_stage(case, ctx):
    """The exact values of the known lines are part of the prior of the stage, in the parameters of the network."""
    n, lap, extra = case
    v, i, y = measurements(n, n + extra, lap, 5, 1e-4)
    y0 = y + .2 * (cplx((n, n), 3) + cplx((n, n), 3).T)
    exact = y * (1 + .3 * unit((n, n), 8))
    exact = exact + exact.T
    e0 = exact.copy()
    lp, lam = 3., 1e-3
    with netlib.setconf("identification", **dict(CONF, lambda_eiv=lam, lambdaprime=lp)):
        got, its = run.bayesian_eiv("known", v, i, None, SD[0], SD[1], np.ones(n), y0, exact, lap, False, 1, True, False)
    ctx.equal(exact, e0, "exact matrix after the stage")
    p = prior_of(n, lp, y0, lap, (False, True, False))
    for c, mu, _ in known_rows(n, lp, exact, lap, "optimal"):
        idx = np.flatnonzero(c)
        p.add_exact_prior(idx, mu / c[idx], weights=c[idx], orders=1)
    m = BayesianEIVRegression(p, lambda_value=lam, abs_tol=0., rel_tol=0., max_iterations=1, verbose=False, **il.Param.BUILDERS[kinds(lap)])
    cv, ci = centred(v, i, lap)
    m.fit(cv, ci, None, None, y_init=y0)
    iterations_equal(ctx, its, m.iterations, "Bayesian stage with known lines", 1e-6)
    ctx.seen(got)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    ns = range(2, 7) if not big else range(2, 11)
    b = [["lasso", n, lap, s, 0, False, True, False] for n in ns for lap in (False, True) for s in (True, False)]
    b += [["loads", n, False, s, 0, False, True, False] for n in ns for s in (True, False)]
    b += [["complex", n, lap, s, lp, d, e, r] for n in ns for lap in (False, True) for s in (True, False) for lp in (.5, 20.)
          for d in (False, True) for e in (True, False) for r in ((False, True) if e and not lap else (False,))]
    kn = [[n, lap, w] for n in ((29,) if not big else (29, 31, 40)) for lap in (False, True) for w in ("optimal", "suboptimal", "wrong optimal", "wrong suboptimal")]
    st = [[n, e, lap, m, tol, lam] for n in (range(2, 5) if not big else range(2, 8)) for e in (n + 1, n + 6) for lap in (False, True) for m in (0, 1, 2, 7)
          for tol in (0., 1e-2) for lam in (1e-6, 1e-2)]
    opts = [[d, e, r] for d in (False, True) for e in (True, False) for r in (False, True) if e or not r]
    ba = [[n, e, lap, w, s, o, m, tol] for n in ((2, 3) if not big else (2, 3, 4, 5)) for e in (2, 5) for lap in (False, True) for w in (False, True)
          for s in (True, False) for o in opts for m, tol in ((1, 0.), (3, 0.), (8, 1e-1)) if not (lap and o[2])]
    out = [Group("prior builders", b, builders), Group("known lines", kn, known), Group("standard methods", st, standard),
           Group("Bayesian stage", ba, bayesian)]
    out.append(Group("known lines in the stage", [[29, False, 6], [29, True, 6]] + ([[32, False, 20]] if big else []), exact_stage))
    return out
