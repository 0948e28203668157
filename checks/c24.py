"""C24: every step of the Bayesian EIV estimator is the optimal voltage correction followed by the penalised step, with the documented objective."""
import itertools

import numpy as np
from scipy import sparse

from checks import iterlib as il
from mc.gen import cplx, unit
from src.models.error_in_variable import BayesianEIVRegression

LEVEL = "model_checking"
RULE = ("sizes x parametrisation x prior x units of the data x weights (none, identity, diagonal, 2x2 blocks, in three sparse formats or dense) x lambda x initial estimate x "
        "tolerances x maximum; the state is the current estimate, and every recorded iterate is checked as a transition from the one before it; "
        "and every sequence of 2 (3) fits of one estimator on 11 sets of data, weights and start")
ASSUMPTIONS = ["weights representable in single precision; single-precision accuracy of the voltage corrections", "well-conditioned steps"]
TOLS = {"max": (0., 0.), "abs": (1e-3, 0.), "rel": (0., 1e-3), "loose": (1e3, 0.)}


def weight(kind, size, salt, form, power=0):
    """Positive definite weight of a stacked real vector of the given size, entries multiples of 1/64, in units of 2^power."""
    if kind == "none":
        return None, None
    q = lambda lo, hi, s, n: np.round((lo + (hi - lo) * unit((n,), salt + s)) * 64) / 64
    h = size // 2
    if kind == "eye":
        w = np.eye(size)
    elif kind == "diag":
        w = np.diag(q(.5, 8, 0, size))
    else:
        c = np.diag(q(-1, 1, 1, h))
        w = np.block([[np.diag(q(2, 8, 2, h)), c], [c, np.diag(q(2, 6, 3, h))]])
    w = w * 4. ** -power
    given = w.copy() if form == "dense" else getattr(sparse, form + "_matrix")(w)
    return w, given


def content(w):
    return None if w is None else np.array(w.toarray() if hasattr(w, "toarray") else w)


def machine(case, ctx):
    n, extra, kind, prior, (wx, wz), form, alpha, lam, init, noise, tol, maximum = case[:12]
    sx, sz = case[12] if len(case) > 12 else (0, 0)
    par = il.Param(kind, n)
    t = n + extra
    x, z, y = il.data(kind, n, t, n + extra, noise)
    y0 = {"truth": y, "far": y + 2 * cplx((n, n), 9), "ols": np.linalg.pinv(x) @ z, "real": y, "rest": y}[init]
    if init == "rest":  # nothing flows
        z, y, y0 = 0 * z, y, 0 * y
    if init == "real":  # everything is real
        x, z, y0 = x.real.copy(), z.real.copy(), np.round(y.real)
    # other units: powers of two, so that the weights stay representable
    x, z, y, y0 = x * 2. ** sx, z * 2. ** sz, y * 2. ** (sz - sx), y0 * 2. ** (sz - sx)
    rows = il.terms(prior, par, y, n)
    lay = len(prior) + maximum + n + len(tol)
    x, z, y0 = il.stored(x, lay), il.stored(z, lay + lay // 4), il.stored(y0, lay // 3)
    atol, rtol = TOLS[tol]
    Wx, gx = weight(wx, 2 * t * n, 11, form, sx)
    Wz, gz = weight(wz, 2 * t * n, 23, form, sz)
    pr = il.build(prior, par, y, n, True, alpha)
    m = BayesianEIVRegression(pr, lambda_value=lam, abs_tol=atol, rel_tol=rtol, max_iterations=maximum, verbose=False, **par.BUILDERS[kind])
    frozen = [a.copy() for a in (x, z, y0)]
    m.fit(x, z, gx, gz, y_init=y0)
    for a, b, what in zip((x, z, y0, content(gx), content(gz)), frozen + [Wx, Wz], ("voltages", "currents", "initial estimate", "weights", "weights")):
        if a is not None:
            ctx.equal(a, b, what + " after the fit")
    if Wx is None or Wz is None:
        Wx, Wz = np.eye(2 * t * n), np.eye(2 * t * n)
    its = list(m.iterations)
    a, b = il.ri(x.flatten("F")), il.ri(z.flatten("F"))
    D = par.matrix()
    Y = y0.astype(complex)
    M, mu, _ = il.density(rows, alpha, il.ri(par.reduce(y0)))
    for k, it in enumerate(its):
        ctx.check(it.iteration == k, "iteration number %r at %d" % (it.iteration, k))
        yb = il.blocks(np.kron(Y.T, np.eye(t)))
        da = np.linalg.solve(yb.T @ Wz @ yb + Wx, yb.T @ Wz @ (yb @ a - b))
        dx = (da[:t * n] + 1j * da[t * n:]).reshape((t, n), order="F")
        A = il.blocks(np.kron(np.eye(n), x - dx) @ D)
        S, s = A.T @ Wz @ A + lam * M, A.T @ Wz @ b + lam * mu
        want = np.linalg.solve(S, s)
        got = np.asarray(it.fitted_parameters)
        ctx.check(got.shape == (n, n), "iterate has shape %s" % (got.shape,))
        ctx.close(got, par.expand(want[:par.size] + 1j * want[par.size:]), "iterate %d" % k, rtol=1e-5)
        cur = il.ri(par.reduce(got))
        M, mu, pen = il.density(rows, alpha, cur)
        d = b - A @ cur
        cost = d @ Wz @ d + da @ Wx @ da
        ctx.close(float(np.real(it.target_function)), abs(cost + lam * pen), "objective of iterate %d" % k, rtol=1e-5, atol=1e-9)
        ctx.transitions += 1
        ctx.new_state(got)
        Y = got
    il.check_stop(ctx, its, atol, rtol, maximum, "EIV")
    ctx.equal(m.fitted_admittance_matrix, its[-1].fitted_parameters, "result and last iterate")
    first = [np.array(i.fitted_parameters) for i in its]
    m.fit(x, z, gx, gz, y_init=y0)
    ctx.check(len(m.iterations) == len(first), "second fit took %d iterations, the first %d" % (len(m.iterations), len(first)))
    for k, (p, c) in enumerate(zip(m.iterations, first)):
        ctx.close(p.fitted_parameters, c, "second fit, iterate %d" % k, rtol=1e-13)
    for k, (p, c) in enumerate(zip(its, first)):
        ctx.equal(p.fitted_parameters, c, "iterate %d of the first fit, after the second" % k)
    if tol != "max" and (tol, init) != ("rel", "truth"):
        return
    # starting from the result of the previous fit, whose array the model itself holds
    last = np.array(m.fitted_admittance_matrix)
    other = BayesianEIVRegression(il.build(prior, par, y, n, True, alpha), lambda_value=lam, abs_tol=atol, rel_tol=rtol,
                                  max_iterations=maximum, verbose=True, **par.BUILDERS[kind])
    with il.silent():
        other.fit(x, z, gx, gz, y_init=last)
    m.fit(x, z, gx, gz, y_init=m.fitted_admittance_matrix)
    il.same(ctx, m.iterations, other.iterations, "fit continued from the result")


def boundaries(case, ctx):
    n, kind, prior, (wx, wz), alpha, lam, init, noise, maximum = case
    par = il.Param(kind, n)
    t = n + 2
    x, z, y = il.data(kind, n, t, n, noise)
    y0 = {"truth": y, "far": y + 2 * cplx((n, n), 9)}[init]
    _, gx = weight(wx, 2 * t * n, 11, "csr")
    _, gz = weight(wz, 2 * t * n, 23, "csr")

    def fit(atol, rtol):
        m = BayesianEIVRegression(il.build(prior, par, y, n, True, alpha), lambda_value=lam, abs_tol=atol, rel_tol=rtol,
                                  max_iterations=maximum, verbose=False, **par.BUILDERS[kind])
        m.fit(x, z, gx, gz, y_init=y0)
        return list(m.iterations)
    its = fit(0., 0.)
    il.boundary(ctx, fit, its, maximum, "EIV")
    ctx.new_state(its[-1].fitted_parameters)
    ctx.transitions += len(its)


CHANGES = [lambda x, z, a, b, y: (x, z, a, b, y), lambda x, z, a, b, y: (x[::-1].copy(), z, a, b, y), lambda x, z, a, b, y: (x[:, ::-1].copy(), z, a, b, y),
           lambda x, z, a, b, y: (x, z[::-1].copy(), a, b, y), lambda x, z, a, b, y: (x, z, a * 4, b, y), lambda x, z, a, b, y: (x, z, a, b[::-1, ::-1], y),
           lambda x, z, a, b, y: (x, z, None, None, y), lambda x, z, a, b, y: (x, z, a, b, y.conj() * 1.5),
           lambda x, z, a, b, y: (x, z, b, a, y), lambda x, z, a, b, y: (x[:-1], z[:-1], None, None, y), lambda x, z, a, b, y: (x.real.copy(), z.real.copy(), a, b, y)]


def histories(case, ctx):
    n, kind, prior, (wx, wz), tol, verbose, depth = case
    par = il.Param(kind, n)
    t = n + 3
    x, z, y = il.data(kind, n, t, n, .02)
    atol, rtol = TOLS[tol]
    Wx, Wz = weight(wx, 2 * t * n, 11, "csr")[1], weight(wz, 2 * t * n, 23, "csr")[1]

    def make():
        return BayesianEIVRegression(il.build(prior, par, y, n, True, 1e-3), lambda_value=.1, abs_tol=atol, rel_tol=rtol, max_iterations=3,
                                     verbose=verbose, **par.BUILDERS[kind])

    def fit(m, x, z, gx, gz, y0):
        with il.silent():
            m.fit(x, z, gx, gz, y_init=y0)
        return list(m.iterations)
    il.refits(ctx, make, fit, CHANGES, (x, z, Wx, Wz, y + .2 * cplx((n, n), 4)), depth, "%s" % (case,), il.same)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    ns = {"full": [1, 2], "sym": [1, 2, 3], "lap": [2, 3]} if not big else {"full": [1, 2, 3], "sym": [1, 2, 3, 4], "lap": [2, 3, 4]}
    space = []
    weights = [("none", "none"), ("eye", "eye"), ("diag", "diag"), ("block", "block"), ("block", "eye"), ("eye", "block")]
    for kind in ("full", "sym", "lap"):
        for n, extra, prior, w, (alpha, lam), init, noise, tol in itertools.product(
                ns[kind], (1,) if not big else (0, 2), ("lasso", "mixed", "ridge"), weights, ((1e-4, .1), (1e-2, 2.)),
                ("truth", "far", "ols"), (.02,) if not big else (0., .02, .1), ("max", "abs", "rel", "loose")):
            for form in ("csr",) if w[0] == "none" or prior != "lasso" else ("csr", "csc", "coo", "dense"):
                space.append([n, extra, kind, prior, w, form, alpha, lam, init, noise, tol, 3 if tol == "max" else 5 if not big else 20])
    if not big:
        space = [c for k, c in enumerate(space) if c[5] == "csr" and (c[10] == "rel" or k % 3 == 0) or k % 7 == 0]
    space += [[n, 1, k, prior, w, "csr", 1e-3, .1, "real", .02, tol, 3] for k in ns for n in ns[k] for prior in ("lasso", "mixed") for w in weights[:1] + weights[2:4] for tol in ("max", "rel")]
    space += [[n, 1, k, prior, w, "csr", 1e-3, .1, "rest", .02, tol, 4] for k in ns for n in ns[k][-2:] for prior in ("lasso", "ridge", "mixed") for w in weights[:1] + weights[2:4]
              for tol in (("max", "abs", "rel") if prior == "lasso" or big else ("rel",))]
    # one weight without the other is not used
    space += [[n, 1, k, "lasso", w, "csr", 1e-3, .1, init, .02, "max", 2] for k in ns for n in ns[k] for w in (("none", "block"), ("block", "none")) for init in ("far", "real")]
    space += [[2, 1, k, "lasso", w, "csr", 1e-4, .1, "far", .02, "rel", 1] for k in ns for w in weights]
    units = [[n, 1, k, prior, w, "csr", 1e-3, .1, init, .02, tol, 3, units] for k in ns for n in ns[k][-2:] for prior in ("lasso", "mixed") for w in weights[2:4]
              for init in ("truth", "far") for tol in ("max", "rel") for units in ((-13, -13), (-20, -20), (10, 10), (-13, 0), (0, -10), (0, 7))]
    space += units if big else units[::5]
    bound = [[n, kind, prior, w, alpha, lam, init, noise, 5 if not big else 12] for kind in ns for n in ns[kind][-2:] for prior in ("lasso", "mixed")
             for w in (("diag", "diag"), ("none", "none")) for alpha, lam in ((1e-3, 1.), (1e-2, 50.)) for init in ("truth", "far") for noise in (.02, .1)]
    again = [[n, k, prior, w, tol, verbose, 2] for k in ns for n in ns[k][-2:] for prior in ("lasso", "mixed") for w in (("diag", "diag"), ("block", "block"))
             for tol in ("max", "rel") for verbose in ((False, True) if big else (False,))]
    again = again + [[2, k, "mixed", ("block", "diag"), "max", False, 3] for k in ns] if big else again[::3]
    return [Group("histories of fits", again, histories), Group("tolerance boundaries", bound if big else bound[::5], boundaries), Group("iteration machine", space, machine)]
