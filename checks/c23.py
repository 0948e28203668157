"""C23: every step of the Bayesian regression is the penalised least-squares step, and it stops exactly when it should."""
import itertools

import numpy as np

from checks import iterlib as il
from mc.gen import cplx
from src.models.regression import BayesianRegression

LEVEL = "model_checking"
RULE = ("sizes x parametrisation x prior x units of the data x smoothing x lambda x initial estimate x noise x tolerances x maximum; the state is the current estimate, and "
        "every recorded iterate is checked as a transition from the iterate before it; and every sequence of 2 (3) fits of one estimator on 9 sets of data and start")
ASSUMPTIONS = ["well-conditioned steps: smoothing of at least 1e-5"]
TOLS = {"max": (0., 0.), "abs": (1e-4, 0.), "rel": (0., 1e-4), "both": (1e-9, 1e-9), "loose": (1e3, 0.)}


def machine(case, ctx):
    n, extra, kind, prior, alpha, lam, init, noise, tol, maximum, sparse = case[:11]
    sx, sz = case[11] if len(case) > 11 else (0, 0)
    par = il.Param(kind, n)
    t = n + extra
    x, z, y = il.data(kind, n, t, n + extra, noise)
    y0 = {"truth": y, "zero": np.zeros((n, n), complex), "far": y + 2 * cplx((n, n), 9), "real": np.eye(n), "unit": np.eye(n)}[init]
    if init == "real":  # everything is real
        x, z, y0 = x.real.copy(), z.real.copy(), np.round(y.real)
    # other units
    x, z, y, y0 = x * 2. ** sx, z * 2. ** sz, y * 2. ** (sz - sx), y0 * 2. ** (sz - sx)
    rows = il.terms(prior, par, y, n)
    lay = len(prior) + maximum + n + len(tol)
    x, z, y0 = il.stored(x, lay), il.stored(z, lay + lay // 4), il.stored(y0, lay // 3)
    atol, rtol = TOLS[tol]
    pr = il.build(prior, par, y, n, sparse, alpha)
    frozen = [a.copy() for a in (x, z, y0)]
    m = BayesianRegression(pr, lambda_value=lam, abs_tol=atol, rel_tol=rtol, max_iterations=maximum, verbose=False, **par.BUILDERS[kind])
    m.fit(x, z, y_init=y0)
    for a, b, what in zip((x, z, y0), frozen, ("voltages", "currents", "initial estimate")):
        ctx.equal(a, b, what + " after the fit")
    its = list(m.iterations)
    A = il.blocks(np.kron(np.eye(n), x) @ par.matrix())
    b = il.ri(z.flatten("F"))
    prev = il.ri(par.reduce(y0))
    M, mu, _ = il.density(rows, alpha, prev)
    for k, it in enumerate(its):
        ctx.check(it.iteration == k, "iteration number %r at %d" % (it.iteration, k))
        S, s = A.T @ A + lam * M, A.T @ b + lam * mu
        want = np.linalg.solve(S, s)
        cond = np.linalg.cond(S)
        got = np.asarray(it.fitted_parameters)
        ctx.check(got.shape == (n, n), "iterate has shape %s" % (got.shape,))
        ctx.close(got, par.expand(want[:par.size] + 1j * want[par.size:]), "iterate %d" % k, rtol=1e-9 + 1e-14 * cond)
        cur = il.ri(par.reduce(got))
        M, mu, pen = il.density(rows, alpha, cur)
        d = b - A @ cur
        ctx.close(float(np.real(it.target_function)), abs(d @ d + lam * pen), "objective of iterate %d" % k, rtol=1e-8)
        ctx.transitions += 1
        ctx.new_state(got)
        prev = cur
    il.check_stop(ctx, its, atol, rtol, maximum, "regression")
    ctx.equal(m.fitted_admittance_matrix, its[-1].fitted_parameters, "result and last iterate")
    first = [np.array(i.fitted_parameters) for i in its]
    m.fit(x, z, y_init=y0)
    ctx.check(len(m.iterations) == len(first), "second fit took %d iterations, the first %d" % (len(m.iterations), len(first)))
    for k, (a, c) in enumerate(zip(m.iterations, first)):
        ctx.close(a.fitted_parameters, c, "second fit, iterate %d" % k, rtol=1e-13)
    for k, (a, c) in enumerate(zip(its, first)):
        ctx.equal(a.fitted_parameters, c, "iterate %d of the first fit, after the second" % k)
    if tol != "max" and (tol, init) != ("rel", "truth"):
        return
    # starting from the result of the previous fit, whose array the model itself holds
    last = np.array(m.fitted_admittance_matrix)
    other = BayesianRegression(il.build(prior, par, y, n, sparse, alpha), lambda_value=lam, abs_tol=atol, rel_tol=rtol,
                               max_iterations=maximum, verbose=True, **par.BUILDERS[kind])
    with il.silent():
        other.fit(x, z, y_init=last)
    m.fit(x, z, y_init=m.fitted_admittance_matrix)
    il.same(ctx, m.iterations, other.iterations, "fit continued from the result")


def boundaries(case, ctx):
    n, kind, prior, alpha, lam, init, noise, maximum = case
    par = il.Param(kind, n)
    x, z, y = il.data(kind, n, n + 3, n, noise)
    y0 = {"truth": y, "zero": np.zeros((n, n), complex), "far": y + 2 * cplx((n, n), 9)}[init]

    def fit(atol, rtol):
        m = BayesianRegression(il.build(prior, par, y, n, True, alpha), lambda_value=lam, abs_tol=atol, rel_tol=rtol,
                               max_iterations=maximum, verbose=False, **par.BUILDERS[kind])
        m.fit(x, z, y_init=y0)
        return list(m.iterations)
    its = fit(0., 0.)
    il.boundary(ctx, fit, its, maximum, "regression")
    ctx.new_state(its[-1].fitted_parameters)
    ctx.transitions += len(its)


def other_start(y0):
    return y0.conj() * 1.5


CHANGES = [lambda x, z, y: (x, z, y), lambda x, z, y: (x[::-1].copy(), z, y), lambda x, z, y: (x[:, ::-1].copy(), z, y), lambda x, z, y: (-x, z, y),
           lambda x, z, y: (x, z[::-1].copy(), y), lambda x, z, y: (x, -z, y), lambda x, z, y: (x, z, other_start(y)),
           lambda x, z, y: (x[:-1], z[:-1], y), lambda x, z, y: (x.real.copy(), z.real.copy(), y)]


def histories(case, ctx):
    n, kind, prior, tol, verbose, depth = case
    par = il.Param(kind, n)
    x, z, y = il.data(kind, n, n + 4, n, .05)
    atol, rtol = TOLS[tol]

    def make():
        return BayesianRegression(il.build(prior, par, y, n, True, 1e-3), lambda_value=.1, abs_tol=atol, rel_tol=rtol, max_iterations=3,
                                  verbose=verbose, **par.BUILDERS[kind])

    def fit(m, x, z, y0):
        with il.silent():
            m.fit(x, z, y_init=y0)
        return list(m.iterations)
    il.refits(ctx, make, fit, CHANGES, (x, z, y + .3 * cplx((n, n), 4)), depth, "%s" % (case,), il.same)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    ns = {"full": [1, 2, 3], "sym": [1, 2, 3], "lap": [2, 3]} if not big else {"full": [1, 2, 3, 4], "sym": [1, 2, 3, 5], "lap": [2, 3, 5]}
    space = []
    for kind in ("full", "sym", "lap"):
        for n, extra, prior, (alpha, lam), init, noise, tol, sparse in itertools.product(
                ns[kind], (2,) if not big else (0, 4), ("lasso", "l0", "ridge", "mixed"), ((1e-5, .1), (1e-2, 5.), (1e-3, 1e-3)),
                ("truth", "zero", "far"), (0., .1), ("max", "abs", "rel", "both", "loose"), (True, False)):
            space.append([n, extra, kind, prior, alpha, lam, init, noise, tol, 2 if tol == "loose" and init == "zero" else 5 if tol == "max" else 9 if not big else 25, sparse])
    space += [[n, 2, k, prior, 1e-4, .1, init, .1, tol, 4, True] for k in ns for n in ns[k] for init in ("real", "unit") for prior in ("lasso", "mixed") for tol in ("max", "rel")]
    space += [[n, 2, k, "lasso", 1e-5, .1, "unit", .1, "rel", 1, True] for k in ns for n in ns[k]]
    units = [[n, 2, k, prior, alpha, lam, init, .1, tol, 4, sparse, u] for k in ns for n in ns[k][-2:] for prior in ("lasso", "mixed") for alpha, lam in ((1e-5, .1), (1e-2, 5.))
             for init in ("truth", "far") for tol in ("max", "rel") for sparse in (True, False) for u in ((-13, -13), (-20, -20), (10, 10), (-13, 0), (0, -10), (0, 7))]
    if not big:
        space = [c for k, c in enumerate(space) if c[8] == "rel" or k % 3 == 0]
    space += units if big else units[::7]
    bound = [[n, kind, prior, alpha, lam, init, noise, 6 if not big else 15] for kind in ns for n in ns[kind][-2:] for prior in ("lasso", "l0", "mixed")
             for alpha, lam in ((1e-3, 1.), (1e-2, 50.)) for init in ("truth", "zero", "far") for noise in (.02, .3)]
    again = [[n, k, prior, tol, verbose, 2 if not big else 3] for k in ns for n in ns[k][-2:] for prior in ("lasso", "mixed") for tol in ("max", "rel")
             for verbose in ((False, True) if big else (False,))]
    return [Group("histories of fits", again, histories), Group("tolerance boundaries", bound if big else bound[::5], boundaries), Group("iteration machine", space, machine)]
