"""Reference model of the priors: a list of weighted rows (coefficients, centre, order)."""
import numpy as np

from src.models.bayesian_prior import BayesianPrior
from src.models.smooth_prior import SmoothPrior, SparseSmoothPrior

N = 4
CLASSES = {"base": BayesianPrior, "smooth": SmoothPrior, "sparse": SparseSmoothPrior}

# name, indices, values, weights, orders
OPS = [
    ("exact", [2], [3.0], None, 2),
    ("exact", [0, 3], [1.5, -2.0], 2.0, 1),
    ("exact", [3, 1, 0], [.5, -1.0, 4.0], [1.0, .25, -3.0], [2, 1, 0]),
    ("adaptive", [1], [-2.0], None, 1),
    ("adaptive", [2, 0], [4.0, .5], [3.0, 5.0], 2),
    ("sparsity", [0, 2], None, None, 1),
    ("sparsity", [3], None, .5, 0),
    ("sparsity", [1, 3, 2], None, [2.0, 4.0, .125], [0, 1, 2]),
    ("adaptive_sparsity", [1, 2], [2.0, -4.0], None, 1),
    ("adaptive_sparsity", [3, 0], [.5, 8.0], None, [1, 0]),
    ("contrast", [[0, 1], [2, 3]], [2.0, -1.0], None, 1),
    ("contrast", [[3, 0, 1]], [5.0], [-2.0], 2),
    ("ratios", [[1, 2]], [3.0], None, 2),
    ("ratios", [[0, 3], [2, 1]], [-.5, 2.0], [2.0, .5], 1),
    ("adaptive", [0, 3], [2.0, -3.0], .5, 1.5),
    ("ratios", [[3, 0], [1, 2]], [2.0, 3.0], .5, .5),
    ("exact", [1, 2], [4.0, -3.0], .25, 1.5),
    ("adaptive_sparsity", [0, 1], [3.0, -5.0], None, .5),
    ("contrast", [[0, 2], [1, 3]], [3.0, 2.0], .75, 1.5),
]

# values and weights far from one, one term of each kind at least
EXTREME = [
    ("exact", [1, 3], [2e-9, -3e8], [1e-6, 4e5], [1, 2]),
    ("exact", [0], [-4e-13], None, 0),
    ("adaptive", [2, 0], [4e-7, -5e6], [3e-4, 2e3], 1),
    ("sparsity", [1, 3], None, [2e-7, 4e7], [0, 1]),
    ("adaptive_sparsity", [1, 2], [2e-9, -4e8], None, 1),
    ("contrast", [[0, 1], [2, 3]], [2e-8, -1e6], [1e-5, 1e3], 1),
    ("ratios", [[1, 2], [3, 0]], [3e-7, -2e6], [1e-3, 10.], 2),
    ("ratios", [[2, 1]], [-4e-11], None, 1),
]


def args_of(op, form):
    name, idx, val, w, _ = op
    conv = (lambda v: np.array(v)) if form != "list" else (lambda v: v)
    a = [np.array(idx) if name in ("contrast", "ratios") else conv(idx)]
    if name != "sparsity":
        # whole numbers stored as such, next to fractional weights
        whole = form == "int" and all(x == round(x) for x in val)
        a.append(np.array([round(x) for x in val]) if whole else np.array(val))
    if name != "adaptive_sparsity":
        a.append(w if w is None or np.isscalar(w) else np.array(w))
    return a


def apply(prior, op, smooth, form="array"):
    meth = {"exact": "add_exact_prior", "adaptive": "add_exact_adaptive_prior", "sparsity": "add_sparsity_prior",
            "adaptive_sparsity": "add_adaptive_sparsity_prior", "contrast": "add_contrast_prior",
            "ratios": "add_ratios_prior"}[op[0]]
    a = args_of(op, form)
    frozen = [np.array(v, dtype=float) if v is not None else None for v in a]
    if smooth:
        o = op[4] if np.isscalar(op[4]) else np.array(op[4])
        getattr(prior, meth)(*a, orders=o)
    else:
        getattr(prior, meth)(*a)
    for v, f in zip(a, frozen):
        if f is not None and not np.array_equal(np.array(v, dtype=float), f):
            raise AssertionError("%s changed its arguments" % meth)


def rows(op, smooth):
    """List of (coefficients, centre, order, adaptive?)"""
    name, idx, val, w, order = op
    out = []
    for k in range(len(idx)):
        wk = 1.0 if w is None else (w if np.isscalar(w) else w[k])
        ok = order if np.isscalar(order) else order[k]
        c = np.zeros(N)
        if name == "exact":
            c[idx[k]], mu = wk, wk * val[k]
        elif name == "adaptive":
            c[idx[k]], mu = wk / val[k], wk
        elif name == "sparsity":
            c[idx[k]], mu = wk, 0.0
        elif name == "adaptive_sparsity":
            c[idx[k]], mu = 1.0 / val[k], 0.0
        elif name == "contrast":
            c[idx[k]], mu = wk / val[k], wk
        else:
            c[idx[k][0]], c[idx[k][1]], mu = wk, -val[k] * wk, 0.0
        out.append((c, mu, ok, name == "adaptive"))
    return out


def compare(ctx, prior, model, smooth, what):
    """prior holds exactly the rows of the model, in order of addition."""
    L = prior.L.toarray() if hasattr(prior.L, "toarray") else np.asarray(prior.L)
    mu = np.asarray(prior.mu)
    ctx.check(L.shape == (len(model), N), "%s: L has shape %s, expected %s" % (what, L.shape, (len(model), N)))
    ctx.check(mu.shape == (len(model),), "%s: mu has shape %s" % (what, mu.shape))
    for k, (c, m, o, ad) in enumerate(model):
        row, cen = L[k], mu[k]
        if ad:
            # an adaptive exact term may be normalised by the value or not, but must be centred on the value
            i = np.flatnonzero(c)
            ctx.check(np.array_equal(np.flatnonzero(row), i), "%s: row %d acts on %s" % (what, k, np.flatnonzero(row)))
            ctx.close(cen / row[i[0]], m / c[i[0]], "%s: centre of adaptive term %d" % (what, k))
            ctx.check(np.isclose(row[i[0]], c[i[0]]) or np.isclose(row[i[0]], m), "%s: weight of adaptive term %d" % (what, k))
        else:
            ctx.close(row, c, "%s: coefficients of term %d" % (what, k))
            ctx.close(cen, m, "%s: weighted centre of term %d" % (what, k))
    if smooth:
        ctx.close(prior.gamma, np.array([o for _, _, o, _ in model], dtype=float), "%s: orders" % what)
