"""C33: the identified matrices do not depend on how nodes, samples, angle references and units were chosen."""
import itertools

import numpy as np

from checks import c25
from checks import netlib
from mc.gen import cplx, unit
from src.identification import run

LEVEL = "exploration"
RULE = ("every order of up to 4 nodes, generating set of the orders of samples, rotations of the angle reference and changes of unit x size x Laplacian x weights x "
        "synchronisation x prior options; non-trivial means distinct estimates")
ASSUMPTIONS = ["without weights the misfit is in squared units of the data, and the regularisation parameter is changed with it",
               "fixed number of iterations"]
CONF = dict(c25.CONF, abs_tol=0., rel_tol=0.)


def sample_orders(t):
    e = list(range(t))
    out = [e[::-1], e[1:] + e[:1]]
    for k in range(t - 1):
        s = list(e)
        s[k], s[k + 1] = s[k + 1], s[k]
        out.append(s)
    return out


def variants(n, t, units):
    """(description, order of nodes, order of samples, rotation, unit)"""
    en, et = list(range(n)), list(range(t))
    out = [("order of nodes %s" % (p,), list(p), et, 1., 1.) for p in itertools.permutations(range(n)) if list(p) != en]
    out += [("order of samples %s" % s, en, s, 1., 1.) for s in sample_orders(t)]
    out += [("angle reference turned by %g" % a, en, et, np.exp(1j * a), 1.) for a in (.4, np.pi / 2, -2.5, np.pi)]
    if units:
        out += [("unit %g" % u, en, et, 1., u) for u in (1e-4, 1e-2, .5, 3., 250., 1e4)]
    out.append(("all together", en[::-1], et[1:] + et[:1], 1j, 7. if units else 1.))
    return out


def moved(a, s, p, f=1.):
    return f * a[s][:, p]


def standard(case, ctx):
    n, extra, lap, maximum = case
    t = n + 2 + extra
    v, i, _ = c25.measurements(n, t, lap, 3 * n + extra)
    with netlib.setconf("identification", **CONF):
        base = run.standard_methods("net", v, i, None, lap, maximum, False)
        for what, p, s, f, u in variants(n, t, True):
            with netlib.setconf("identification", **dict(CONF, lambda_lasso=CONF["lambda_lasso"] * u * u)):
                got = run.standard_methods("net", moved(v, s, p, f * u), moved(i, s, p, f * u), None, lap, maximum, False)
            for name, a, b in zip(("OLS", "TLS", "lasso"), got, base):
                ctx.close(a, b[np.ix_(p, p)], "%s with %s" % (name, what), rtol=1e-7)
    ctx.seen(*base)


def bayesian(case, ctx):
    n, extra, lap, weighted, sync, opts, maximum = case
    t = n + 2 + extra
    v, i, y = c25.measurements(n, t, lap, 5 * n + extra)
    ratings = .5 + unit((n,), 6)
    y0 = y + .2 * (cplx((n, n), 3) + cplx((n, n), 3).T)
    conf = dict(CONF, lambda_eiv=10. if weighted else 1e-2, lambdaprime=3., use_tls_diag=opts[0], contrast_each_row=opts[1], regularize_diag=opts[2])

    def fit(p, s, f, u):
        # without weights the misfit is in squared units
        c = dict(conf, lambda_eiv=conf["lambda_eiv"] * (1 if weighted else u * u))
        with netlib.setconf("identification", **c):
            return run.bayesian_eiv("net", moved(v, s, p, f * u), moved(i, s, p, f * u), None,
                                    u * c25.SD[0].real + 1j * c25.SD[0].imag, c25.SD[1],
                                    u * ratings[p], y0[np.ix_(p, p)], None, lap, weighted, maximum, sync, False)

    en = list(range(n))
    base, its = fit(en, list(range(t)), 1., 1.)
    for what, p, s, f, u in variants(n, t, True):
        got, other = fit(p, s, f, u)
        ctx.check(len(other) == len(its), "%d iterations instead of %d with %s" % (len(other), len(its), what))
        for k, (a, b) in enumerate(zip(other, its)):
            x = b.fitted_parameters[np.ix_(p, p)]
            ctx.close(a.fitted_parameters, x, "iterate %d with %s" % (k, what), rtol=1e-3)
            w = b.target_function * (1 if weighted else u * u)
            ctx.close(float(a.target_function), float(w), "objective %d with %s" % (k, what), rtol=1e-3)
        ctx.close(got, base[np.ix_(p, p)], "estimate with " + what, rtol=1e-3)
    ctx.seen(base)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    ns = (2, 3, 4) if not big else (2, 3, 4, 5)
    st = [[n, e, lap, m] for n in ns for e in (n, n + 3) for lap in (False, True) for m in (0, 1, 4)]
    opts = [[False, True, False], [True, True, False], [False, False, False], [False, True, True]]
    ba = [[n, e, lap, w, s, o, m] for n in ((2, 3) if not big else (2, 3, 4)) for e in (2, 5) for lap in (False, True) for w in (False, True) for s in (True, False)
          for o in opts for m in (1, 4) if not (lap and o[2])]
    if not big:
        st, ba = st[::2], ba[::5]
    return [Group("standard methods", st, standard), Group("Bayesian stage", ba, bayesian, show_output=True)]
