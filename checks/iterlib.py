"""Dense reference of the iterative estimators: parametrisations, prior terms and lock-step transitions."""
import contextlib
import os

import itertools

import numpy as np

from mc.gen import cplx, real, unit
from src.models import matrix_operations as mo
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior


class Param(object):
    """Reduced parameters of an n x n matrix: everything, the lower triangle column by column, or the branch admittances."""

    BUILDERS = {
        "full": {},
        "sym": dict(dt_matrix_builder=mo.duplication_matrix, e_matrix_builder=mo.elimination_sym_matrix),
        "lap": dict(dt_matrix_builder=lambda n: mo.duplication_matrix(n) @ mo.transformation_matrix(n),
                    e_matrix_builder=lambda n: mo.elimination_lap_matrix(n) @ mo.elimination_sym_matrix(n)),
    }

    def __init__(self, kind, n):
        self.kind, self.n = kind, n
        self.pairs = {"full": [(i, j) for j in range(n) for i in range(n)],
                      "sym": [(i, j) for j in range(n) for i in range(j, n)],
                      "lap": [(i, j) for j in range(n) for i in range(j + 1, n)]}[kind]
        self.size = len(self.pairs)

    def reduce(self, y):
        if self.kind == "full":
            return np.array([y[i, j] for i, j in self.pairs], dtype=complex)
        s = (y + y.T) / 2
        sign = -1 if self.kind == "lap" else 1
        return np.array([sign * s[i, j] for i, j in self.pairs], dtype=complex)

    def expand(self, c):
        y = np.zeros((self.n, self.n), dtype=complex)
        for v, (i, j) in zip(c, self.pairs):
            if self.kind == "lap":
                y[i, i] += v
                y[j, j] += v
                y[i, j] -= v
                y[j, i] -= v
            else:
                y[i, j] = v
                if self.kind == "sym":
                    y[j, i] = v
        return y

    def matrix(self):
        return np.array([self.expand(e).flatten("F") for e in np.eye(self.size)]).T.reshape(self.n ** 2, self.size)


def ri(v):
    return np.concatenate((np.real(v), np.imag(v)))


def blocks(m):
    return np.block([[m.real, -m.imag], [m.imag, m.real]])


def truth(kind, n, salt):
    """An admittance-like matrix within the parametrisation."""
    p = Param(kind, n)
    c = (1 + unit((p.size,), salt)) - 1j * (2 + 2 * unit((p.size,), salt + 7))
    y = p.expand(c if kind == "lap" else -c)
    if kind != "lap":
        y = y + np.diag(-y.sum(axis=1) + .5 + 0j)
        if kind == "full":
            y = y + .3 * cplx((n, n), salt)
    return y


def data(kind, n, t, salt, noise):
    y = truth(kind, n, salt)
    x = cplx((t, n), salt + 1)
    z = x @ y
    return x + noise * cplx((t, n), salt + 2), z + noise * cplx((t, n), salt + 3), y


def terms(name, par, y, n):
    """Rows (coefficients, weighted centre, order) of the prior called name, as added by build."""
    m = 2 * par.size
    v = ri(par.reduce(y))
    e = np.eye(m)
    rows = []
    if name in ("lasso", "mixed"):
        for k in range(m):
            rows.append((e[k] / (abs(v[k]) + .1), 0., 1))
    if name in ("l0", "ridge"):
        for k in range(m):
            rows.append((e[k] * (1 + k), 0., 0 if name == "l0" else 2))
    if name == "mixed":
        rows.append((e[0] * 3, 3 * v[0] * .9, 2))
        rows.append((e[m - 1] * 2, 2 * v[m - 1] * 1.1, 1))
        if m > 2:
            rows.append(((e[0] + e[m - 1]) * 2 / (v[0] + v[m - 1] + 20), 2., 1))
    return rows


def build(name, par, y, n, sparse, alpha):
    m = 2 * par.size
    v = ri(par.reduce(y))
    p = (SparseSmoothPrior if sparse else SmoothPrior)(smoothness_param=alpha, n=m)
    idx = np.arange(m)
    if name in ("lasso", "mixed"):
        p.add_adaptive_sparsity_prior(idx, np.abs(v) + .1, orders=1)
    if name in ("l0", "ridge"):
        p.add_sparsity_prior(idx, weights=1. + idx, orders=0 if name == "l0" else 2)
    if name == "mixed":
        p.add_exact_prior([0], np.array([v[0] * .9]), weights=3., orders=2)
        p.add_exact_prior([m - 1], np.array([v[m - 1] * 1.1]), weights=2., orders=1)
        if m > 2:
            p.add_contrast_prior(np.array([[0, m - 1]]), np.array([v[0] + v[m - 1] + 20]), weights=[2.], orders=1)
    return p


def density(rows, alpha, v):
    """Quadratic term, linear term and penalty of the smoothed log-density at v."""
    m = len(v)
    M, mu, pen = np.zeros((m, m)), np.zeros(m), 0.
    for c, b, o in rows:
        r = abs(c @ v - b)
        w = (r ** (2 - o) if o != 2 else 1.) + alpha
        M += np.outer(c, c) / w
        mu += c * b / w
        pen += w
    return M, mu, pen


def stops(cur, prev, atol, rtol):
    return (abs(cur - prev) < atol or abs(cur - prev) / abs(prev) < rtol) and prev >= cur


def borderline(cur, prev, atol, rtol):
    d = abs(cur - prev)
    near = lambda a, b: abs(a - b) <= 1e-6 * max(abs(a), abs(b))
    a, r = near(d, atol), near(d / abs(prev), rtol)
    return (a and (r or d / abs(prev) >= rtol)) or (r and (a or d >= atol))   # the other tolerance may settle it


def check_stop(ctx, its, atol, rtol, maximum, what):
    t = [float(np.real(i.target_function)) for i in its]
    ctx.check(1 <= len(t) <= maximum, "%s: %d iterations, at most %d allowed" % (what, len(t), maximum))
    for k in range(1, len(t)):
        if borderline(t[k], t[k - 1], atol, rtol):
            continue
        s = stops(t[k], t[k - 1], atol, rtol)
        if k < len(t) - 1:
            ctx.check(not s, "%s: went on after iteration %d, which was stationary: %r -> %r" % (what, k, t[k - 1], t[k]))
            if t[k] > t[k - 1] and (abs(t[k] - t[k - 1]) < atol or abs(t[k] - t[k - 1]) / t[k - 1] < rtol):
                ctx.note("went on after a small increase")
        elif len(t) < maximum:
            ctx.check(s, "%s: stopped at iteration %d, which was not stationary: %r -> %r" % (what, k, t[k - 1], t[k]))
    if len(t) < maximum:
        ctx.note("stopped when stationary")
        ctx.check(len(t) >= 2, "%s: stopped after one iteration" % what)
    else:
        ctx.note("stopped at the maximum")


def tolerances(its):
    """Tolerances just above and just below what each recorded decrease asks for, and between its relative size to the
    value before and to the value after."""
    t = [float(np.real(i.target_function)) for i in its]
    out = []
    for k in range(1, len(t)):
        d = abs(t[k - 1] - t[k])
        if d <= 1e-9 * abs(t[k - 1]):
            continue
        for f in (1 - 1e-3, 1 + 1e-3):
            out += [(d * f, 0.), (0., d / t[k - 1] * f)]
        out += [(d * .5, d / t[k - 1] * .5), (d * 2, d / t[k - 1] * .5), (d * .5, d / t[k - 1] * 2)]
        if abs(t[k - 1] - t[k]) > 1e-4 * t[k - 1]:
            out += [(0., d / np.sqrt(t[k - 1] * t[k])), (d / t[k - 1], 0.), (0., d)]
    return out


def boundary(ctx, fit, its, maximum, what):
    """fit(atol, rtol) repeats the fit that gave its, with other tolerances: only where it stops may differ."""
    full = [(np.array(i.fitted_parameters), float(np.real(i.target_function))) for i in its]
    for atol, rtol in tolerances(its):
        got = fit(atol, rtol)
        for k, (g, (p, f)) in enumerate(zip(got, full)):
            ctx.close(g.fitted_parameters, p, "%s, iterate %d with other tolerances" % (what, k), rtol=1e-12)
        check_stop(ctx, got, atol, rtol, maximum, "%s with tolerances %g and %g" % (what, atol, rtol))
        ctx.note("tolerance boundary")


def same(ctx, got, want, what, rtol=1e-12):
    """Two histories of iterations agree."""
    ctx.check(len(got) == len(want), "%s: %d iterations, expected %d" % (what, len(got), len(want)))
    for k, (a, b) in enumerate(zip(got, want)):
        ctx.check(a.iteration == b.iteration == k, "%s: iteration number %r at %d" % (what, a.iteration, k))
        ctx.close(a.fitted_parameters, b.fitted_parameters, "%s: iterate %d" % (what, k), rtol=rtol)
        ctx.close(float(np.real(a.target_function)), float(np.real(b.target_function)), "%s: objective %d" % (what, k), rtol=1e-10)


def refits(ctx, make, fit, changes, base, depth, what, compare):
    """Every sequence of fits of one estimator, each on data differing from the base by one change: every fit gives what a new estimator gives."""
    want = {}
    for k, change in enumerate(changes):
        m = make()
        want[k] = fit(m, *change(*base))
    for ops in itertools.product(range(len(changes)), repeat=depth):
        if any(a == b for a, b in zip(ops, ops[1:])):
            continue
        m = make()
        for done, k in enumerate(ops):
            compare(ctx, fit(m, *changes[k](*base)), want[k], "%s, fit %d of the data sets %s" % (what, done, (ops,)))
            ctx.transitions += 1
        ctx.new_state(what, ops)
    ctx.note("histories of fits")


def stored(a, k):
    """The same matrix in another storage: as it is, column by column, with gaps, read-only."""
    a = np.array(a)
    if k % 4 == 1:
        return np.asfortranarray(a)
    if k % 4 == 2:
        big = np.full((2 * a.shape[0],) + tuple(3 * s for s in a.shape[1:]), 7, dtype=a.dtype)
        part = (slice(1, None, 2),) + (slice(None, None, 3),) * (a.ndim - 1)
        big[part] = a
        return big[part]
    if k % 4 == 3:
        a.setflags(write=False)
    return a


@contextlib.contextmanager
def silent():
    with open(os.devnull, "w") as f, contextlib.redirect_stderr(f), contextlib.redirect_stdout(f):
        yield
