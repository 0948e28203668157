"""C21: functions leave their arguments alone and their results are independent of arguments and of other results."""
import itertools

import numpy as np
import scipy.sparse as sps

from checks import c25, c26
from checks import iterlib as il
from checks import netlib
from checks.c07 import const, generator
from mc.gen import cplx, real, unit
from src.identification import run as irun
from src.identification import run3ph as irun3
from src.models import error_metrics as em
from src.models import matrix_operations as mo
from src.models import noise_transformation as nt
from src.models.error_in_variable import BayesianEIVRegression, TotalLeastSquares
from src.models.regression import BayesianRegression, ComplexRegression
from src.simulation import lines, load_profile, noise
from src.simulation import run as srun
from src.simulation import run3ph as srun3

LEVEL = "model_checking"
RULE = ("for every function and memory layout of its arguments: every sequence of up to 3 (4) operations among calling with two sets of arguments, "
        "overwriting arguments and overwriting the latest result; after each operation all arguments and all earlier results must be as they were, "
        "and every call must give the result of a first call on contiguous arrays; and every sequence of 2 (3) ways to build a network from the same bus and line data, "
        "for every combination of line directions: the data stay as they were, the networks are equal")
ASSUMPTIONS = ["unvectorize_matrix, which gives a view as documented by its use, is left out", "the random generator is owned"]

LAYOUTS = ["C", "F", "slice", "reverse", "readonly"]


def lay(a, layout):
    """The same values in another memory layout."""
    if not isinstance(a, np.ndarray) or a.ndim == 0 or a.dtype == object:
        return a
    a = np.array(a)
    if layout == "F":
        return np.asfortranarray(a)
    if layout == "slice":
        big = np.zeros(tuple(2 * s + 1 for s in a.shape), dtype=a.dtype)
        s = tuple(slice(1, None, 2) for _ in a.shape)
        big[s] = a
        return big[s]
    if layout == "reverse":
        return np.array(a[::-1])[::-1]
    if layout == "readonly":
        a.setflags(write=False)
    return a


def arrays(x, out=None):
    """All arrays within a value."""
    out = [] if out is None else out
    if isinstance(x, np.ndarray):
        out.append(x)
    elif sps.issparse(x):
        x = x.tocoo() if not hasattr(x, "data") else x
        out += [getattr(x, k) for k in ("data", "indices", "indptr", "row", "col", "offsets") if isinstance(getattr(x, k, None), np.ndarray)]
    elif isinstance(x, (list, tuple)):
        for y in x:
            arrays(y, out)
    elif callable(x):  # something that holds data and can be asked again
        arrays(x(), out)
    elif isinstance(x, dict):
        for k in sorted(x):
            arrays(x[k], out)
    elif hasattr(x, "fitted_parameters"):
        out.append(np.asarray(x.fitted_parameters))
        out.append(np.array([float(np.real(x.target_function)), x.iteration]))
    elif isinstance(x, (int, float, complex, np.number)):
        out.append(np.array(x))
    return out


def frozen(x):
    return [np.array(a) for a in arrays(x)]


def same(x, want, exact=True):
    got = arrays(x)
    if len(got) != len(want):
        return "%d arrays, %d before" % (len(got), len(want))
    for g, w in zip(got, want):
        if g.shape != w.shape:
            return "shape %s, %s before" % (g.shape, w.shape)
        if not np.array_equal(g, w, equal_nan=g.dtype.kind in "fc"):
            with np.errstate(all="ignore"):
                if exact or not np.allclose(g, w, rtol=1e-9, atol=1e-12 * max(1., float(np.max(np.abs(w[np.isfinite(w)]), initial=0)))):
                    return "%s, %s before" % (str(g)[:200], str(w)[:200])
    return None


def scribble(x):
    for a in arrays(x):
        if a.flags.writeable and a.dtype.kind in "fciu":
            a[...] = 77


# ---- subjects: name -> function of the salt giving arguments, and the function; state is an object that the calls share ----

def fit(make):
    def build():
        model = make()

        def call(*a):
            model.fit(*a)
            return [model.fitted_admittance_matrix] + ([model.iterations] if hasattr(model, "iterations") else [])
        return call
    return build


def xz(salt, n=2, t=6):
    x, z, y = il.data("sym", n, t, salt, .01)
    return x, z, y


def prior(n=2):
    par = il.Param("sym", n)
    return il.build("lasso", par, il.truth("sym", n, 3), n, False, 1e-3)


def weights(m, salt):
    return sps.diags(1 + unit((m,), salt), format="csr")


def bayes(cls, **kw):
    return cls(prior(), lambda_value=.1, abs_tol=1e-12, rel_tol=0., max_iterations=3, verbose=False, dt_matrix_builder=mo.duplication_matrix,
               e_matrix_builder=mo.elimination_sym_matrix)


def plain(f):
    return lambda: f


def drawn(f):
    """With the random generator owned by the check."""
    def call(*a):
        with generator(const(.3)):
            return f(*a)
    return lambda: call


def meas(salt, t=5, n=3):
    return cplx((t, n), salt) + 3


PRIORS = {
    "exact": lambda p, i, v: p.add_exact_prior(i, v, v + 1, v * 0 + 1), "adaptive": lambda p, i, v: p.add_exact_adaptive_prior(i, v, v + 1, v * 0 + 1),
    "sparsity": lambda p, i, v: p.add_sparsity_prior(i, v, v * 0 + 1), "adaptive sparsity": lambda p, i, v: p.add_adaptive_sparsity_prior(i, v, v * 0 + 1),
    "contrast": lambda p, i, v: p.add_contrast_prior(np.stack((i, i + 1), axis=1), v, v + 1, v * 0 + 1),
    "ratios": lambda p, i, v: p.add_ratios_prior(np.stack((i, i + 1), axis=1), v, v + 1, v * 0 + 1)}


def prior_subject(kind, sparse):
    def call(i, v, x):
        p = (c25.SparseSmoothPrior if sparse else c25.SmoothPrior)(smoothness_param=1e-3, n=5)
        PRIORS[kind](p, i, v)
        a = p.log_distribution(x)
        PRIORS[kind](p, i, v)
        b = p.log_distribution(x)
        return [a[0], np.asarray(a[1]), a[2], b[0], np.asarray(b[1]), b[2]]
    return lambda: call


def prior_held():
    """A prior keeps its terms when the arrays they were made from change."""
    held = {}

    def call(i, v, x):
        p = c25.SmoothPrior(smoothness_param=1e-3, n=5)
        for k in sorted(PRIORS):
            PRIORS[k](p, i, v)
        held[len(held)] = p
        return lambda: list(p.log_distribution(real((5,), 91)))
    return call


def prior_args(s):
    return [np.array([2, 0, 3]), 1 + unit((3,), s), real((5,), s)]


def net_for(kind, key="b"):
    from checks import c10
    return netlib.cached({1: c10.make1, 3: c10.make3}[kind], key, "c21")


def reduce1(lap):
    def build():
        net = netlib.cached(netlib.net1, [5, 3, 12, 1], [(0, 1), (1, 2), (1, 3)], netlib.loads1(4, 0, (1,)), 0, "c21r")
        state = netlib.table_state(net)

        def call(v, c, h):
            r = srun.reduce_network(net, v, c, h, lap, False)
            assert netlib.table_state(net) == state, "the network changed"
            return [np.array(sorted(r[0])), np.asarray(r[1])]
        return call
    return build


def reduce3(single):
    def build():
        net = netlib.cached(netlib.net3, [5, 3, 12, 1], [(0, 1), (1, 2), (1, 3)], netlib.loads3(4, 0, (1,)), 0, "c21r3")
        state = netlib.table_state(net)

        def call(v, c, h):
            r = srun3.reduce_network(net, v, c, h, False, single, False)
            assert netlib.table_state(net) == state, "the network changed"
            return [np.array(sorted(r[0])), np.asarray(r[1])]
        return call
    return build


def noise_stage(kind, equivalent):
    def build():
        net = net_for(kind)
        state = netlib.table_state(net)
        mod = srun if kind == 1 else srun3

        def call(v, c, times, sf_):
            par = (.01, .02, .03, .04, equivalent, sf_ if kind == 3 else float(sf_[0]))
            r = mod.add_noise_and_filter(net, v, c, times, 1 / 30., 4, par, False)
            assert netlib.table_state(net) == state, "the network changed"
            return list(r[:5])
        with_gen = drawn(call)()
        return with_gen
    return build


def noise_args(kind):
    def make(s):
        m = 3 * (3 if kind == 3 else 1)
        return [meas(s, 9, m), meas(s + 1, 9, m), np.arange(9) * 60, np.array([4., 3., 2.]) + s]
    return make


def power_flow(kind):
    def build():
        net = net_for(kind)
        state = netlib.table_state(net)

        def call(p, q):
            if kind == 1:
                r = net.run(p, q, verbose=False, calculate_voltage_angles=True).get_current_and_voltage()
            else:
                z = np.zeros((len(p), len(net.load)))
                p, q = p[:, :len(net.asymmetric_load)], q[:, :len(net.asymmetric_load)]
                r = net.run(z, z, (p, p * .5, p * .7, q, q * .5, q * .7), verbose=False).get_current_and_voltage()
            assert netlib.table_state(net) == state, "the network changed"
            return [np.asarray(r[0]), np.asarray(r[1])]
        return call
    return build


def loads_stage():
    def call(ref_p, ref_q, h, l):
        from checks import c10
        c10.files()
        np.random.seed(3)
        return list(load_profile.load_profile_from_numpy("big_p.npy", "big_q.npy", h, l, ref_p, ref_q))
    return call


def stage_standard(lap):
    def call(v, c):
        with netlib.setconf("identification", **dict(c25.CONF, lambda_lasso=1e-3)):
            return list(irun.standard_methods("c21", v, c, None, lap, 3, False))
    return lambda: call


def stage_bayes(lap, weighted, sync):
    def call(v, c, r, y0, sdv, sdi):
        with netlib.setconf("identification", **dict(c25.CONF, lambda_eiv=.1, lambdaprime=3., abs_tol=1e-9, rel_tol=0.)):
            return list(irun.bayesian_eiv("c21", v, c, None, sdv, sdi, r, y0, None, lap, weighted, 3, sync, False))
    return lambda: call


def stage_bayes3(lab):
    def call(v, c, r, y0, sdv, sdi):
        with netlib.setconf("identification", **dict(c25.CONF, lambda_eiv=.1, lambdaprime=3., abs_tol=1e-9, rel_tol=0.)):
            return list(irun3.bayesian_eiv("c21", v, c, lab, sdv, sdi, r, y0, None, False, True, 2, True, False))
    return lambda: call


def stage_fim(lap):
    def call(v, c, r, y, sdv, sdi):
        with netlib.setconf("identification", **c25.CONF):
            return list(irun.eiv_fim("c21", v, c, sdv, sdi, r, y, 20, lap, False))
    return lambda: call


def stage_args(lap, three=False):
    def make(s):
        n = 2
        v, c, y = c25.measurements(n, 7, lap, 5 + s, .003)
        sd = np.array([2e-3 + 1e-3j, 3e-3 + 2e-3j])[:, None][:, 0]
        if three:
            v, c = np.hstack([v, v * 1.1, v * .9]), np.hstack([c, c, c])
            y = np.kron(np.eye(3), np.asarray(y))
            n = 6
        return [np.asarray(v), np.asarray(c), .5 + unit((n,), s), np.asarray((y + y.T) / 2 + .01), sd[0], sd[1]]
    return make


def subjects(tier):
    out = {}
    two = lambda s: list(xz(s)[:2])
    three = lambda s: list(xz(s))
    weighted = lambda s: [xz(s)[0], xz(s)[1], weights(24, s), weights(24, s + 1), xz(s)[2]]
    unweighted = lambda s: [xz(s)[0], xz(s)[1], None, None, xz(s)[2]]
    out["least squares"] = (fit(ComplexRegression), two)
    out["total least squares"] = (fit(TotalLeastSquares), two)
    out["regularised regression"] = (fit(lambda: bayes(BayesianRegression)), three)
    out["weighted estimator"] = (fit(lambda: bayes(BayesianEIVRegression)), weighted)
    out["unweighted estimator"] = (fit(lambda: bayes(BayesianEIVRegression)), unweighted)
    out["Fisher information"] = (lambda: TotalLeastSquares().fisher_info, lambda s: [xz(s)[0], xz(s)[1], weights(24, s), weights(24, s + 1), xz(s)[2]])
    for k in PRIORS:
        for sp in (False, True):
            out["prior %s %s" % (k, "sparse" if sp else "dense")] = (prior_subject(k, sp), prior_args)
    out["prior held"] = (prior_held, prior_args)
    sds = lambda s: [meas(s), .01 + .01 * unit((3,), s), np.float64(.02)]
    for name in ("exact_noise_covariance", "naive_noise_covariance", "average_true_noise_covariance"):
        for inv in (False, True):
            out["%s%s" % (name, " inverted" if inv else "")] = ((lambda f, i: lambda: lambda m, a, b: f(m, a, b, i))(getattr(nt, name), inv), sds)
    for name in ("average_true_var_real", "average_true_var_imag", "average_true_cov"):
        out[name] = (plain(getattr(nt, name)), lambda s: [meas(s)[:, 0], .01, .02])
    out["polar noise"] = (drawn(noise.add_polar_noise_to_measurement), lambda s: [meas(s), .01 * unit((3,), s), .02 * unit((3,), s + 1)])
    out["polar noise, none"] = (drawn(noise.add_polar_noise_to_measurement), lambda s: [meas(s), np.zeros(3), np.zeros(3)])
    out["polar noise, scalar"] = (drawn(noise.add_polar_noise_to_measurement), lambda s: [meas(s), .01, .02])
    out["polar noise, both"] = (drawn(noise.add_noise_in_polar_coordinates), lambda s: [meas(s), meas(s + 1), .01, .02])
    out["cartesian noise"] = (drawn(noise.add_cartesian_noise_to_measurement), lambda s: [meas(s), .1, .2])
    out["cartesian noise, both"] = (drawn(noise.add_noise_in_cartesian_coordinates), lambda s: [meas(s), meas(s + 1), .1, .2])
    grid = lambda s: [meas(s, 6), np.arange(6) * 2., np.arange(10) * 1., np.array([.01, .02, .03]), np.array([.03, .02, .01])]
    for f in (1, 2):
        for fcn in (None, noise.add_polar_noise_to_measurement):
            call = (lambda f, fcn: lambda m, old, new, a, b: noise.filter_and_resample_measurement(m, old, new, f, a, b, fcn))(f, fcn)
            out["filter %d %s" % (f, "with noise" if fcn else "alone")] = (drawn(call), grid)
    out["filter, same times"] = (plain(lambda m, old: noise.filter_and_resample_measurement(m, old, old)), lambda s: [meas(s, 6), np.arange(6) * 2.])
    m6 = lambda s: [meas(s, 6, 6)]
    for name in ("admittance_sequence_to_phase", "admittance_phase_to_sequence", "measurement_sequence_to_phase", "measurement_phase_to_sequence"):
        out[name] = (plain(getattr(lines, name)), m6)
    out["Gaussian loads"] = (drawn(load_profile.generate_gaussian_load), lambda s: [.2, 4, unit((3,), s), unit((3,), s + 1)])
    out["Gaussian loads of three phases"] = (drawn(load_profile.generate_gaussian_load),
                                             lambda s: [.2, 4] + [unit((3,), s + k) for k in range(6)])
    out["household loads"] = (loads_stage, lambda s: [.3 + unit((3,), s), .3 + unit((3,), s + 1), np.array([0, 10080 + s]), np.array(200)])
    y2 = lambda s: [cplx((3, 3), s), cplx((3, 3), s + 1)]
    for name in ("fro_error", "max_error", "rrms_error", "map_error"):
        out[name] = (plain(getattr(em, name)), y2)
    out["vectorize_matrix"] = (plain(mo.vectorize_matrix), lambda s: [cplx((2, 3), s)])
    out["make_real_vector"] = (plain(mo.make_real_vector), lambda s: [cplx((3,), s)])
    out["make_complex_vector"] = (plain(mo.make_complex_vector), lambda s: [real((6,), s)])
    out["make_real_matrix"] = (plain(mo.make_real_matrix), lambda s: [cplx((2, 3), s)])
    out["make_real_matrix, sparse"] = (plain(mo.make_real_matrix), lambda s: [sps.csr_matrix(cplx((2, 3), s))])
    out["make_complex_matrix"] = (plain(mo.make_complex_matrix), lambda s: [real((4, 6), s)])
    out["undelete rows"] = (plain(lambda m, i: mo.undelete(m, i, 0)), lambda s: [real((2, 3), s), np.array([2, 0])])
    out["undelete columns"] = (plain(lambda m, i: mo.undelete(m, i, 1)), lambda s: [real((2, 3), s), np.array([3, 1])])
    for name in ("duplication_matrix", "transformation_matrix", "elimination_sym_matrix", "elimination_lap_matrix"):
        out[name] = (plain(getattr(mo, name)), lambda s: [3 + (s > 0)])
    kron = lambda: netlib.cached(netlib.net1, [5, 3, 12, 1], [(0, 1), (1, 2), (1, 3)], netlib.loads1(4, 0, (1,)), 0, "c21r").kron_reduction
    out["Kron reduction"] = (kron, lambda s: [np.array([2, 0]), cplx((4, 4), s) + 4 * np.eye(4)])
    slow = {}
    for lap in (False, True):
        slow["reduced network%s" % (" Laplacian" if lap else "")] = (reduce1(lap), lambda s: [meas(s, 5, 4), meas(s + 1, 5, 4), [12] if s else [1]])
    slow["reduced three-phase network"] = (reduce3(True), lambda s: [meas(s, 5, 12), meas(s + 1, 5, 12), [12] if s else [1]])
    slow["admittance matrix"] = (lambda: lambda *_: np.asarray(net_for(1).make_y_bus()), lambda s: [])
    slow["three-phase admittance matrix"] = (lambda: lambda *_: np.asarray(net_for(3).make_y_bus()), lambda s: [])
    for kind in (1, 3):
        for eq in (False, True):
            slow["noise stage of %d phases%s" % (kind, ", equivalent" if eq else "")] = (noise_stage(kind, eq), noise_args(kind))
    slow["power flow"] = (power_flow(1), lambda s: [.02 * unit((2, 3), s), .01 * unit((2, 3), s + 1)])
    slow["three-phase power flow"] = (power_flow(3), lambda s: [.02 * unit((2, 2), s), .01 * unit((2, 2), s + 1)])
    for lap in (False, True):
        slow["standard methods%s" % (" Laplacian" if lap else "")] = (stage_standard(lap), (lambda lap: lambda s: stage_args(lap)(s)[:2])(lap))
        slow["uncertainty%s" % (" Laplacian" if lap else "")] = (stage_fim(lap), stage_args(lap))
        for w in (False, True):
            for sync in (False, True):
                slow["Bayesian stage %s %s %s" % (lap, w, sync)] = (stage_bayes(lap, w, sync), stage_args(lap))
    slow["Bayesian stage of three sequences"] = (stage_bayes3(np.array([0, 0, 1, 1, 2, 2])), stage_args(False, True))
    return out, slow


FIXED = ("duplication_matrix", "transformation_matrix", "elimination_sym_matrix", "elimination_lap_matrix")
_table = {}


def table():
    if not _table:
        fast, slow = subjects("")
        _table.update(fast)
        _table.update(slow)
    return _table


def history(case, ctx):
    name, layout, depth = case
    build, make = table()[name]
    menu = "ABR" if name in FIXED else "ABIR"

    def fresh(which):
        return [lay(a, layout) for a in make(0 if which == "A" else 11)]
    orig = {w: frozen(fresh(w)) for w in "AB"}
    ref = {}
    for which in "AB":
        ref[which] = frozen(build()(*make(0 if which == "A" else 11)))
    for ops in itertools.product(menu, repeat=depth):
        if ops[0] not in "AB" or any(ops[k] == ops[k + 1] and ops[k] in "IR" for k in range(depth - 1)):
            continue
        call = build()
        args = {w: fresh(w) for w in "AB"}
        kept = []  # results and copies of them
        last = None
        for k, op in enumerate(ops):
            if op in "AB":
                res = call(*args[op])
                bad = same(res, ref[op], exact=False)
                ctx.check(bad is None, lambda: "%s (%s): call %d of %s gives %s" % (name, layout, k, "".join(ops), bad))
                kept.append((res, frozen(res)))
                last = op
            elif op == "I":  # the caller reuses the arrays
                scribble(args[last])
                args[last] = fresh(last)
            else:
                if kept:
                    scribble(kept.pop()[0])
            ctx.transitions += 1
            for w in "AB":
                bad = same(args[w], orig[w])
                ctx.check(bad is None, lambda: "%s (%s): arguments changed after %s: %s" % (name, layout, "".join(ops[:k + 1]), bad))
            for r, copy in kept:
                bad = same(r, copy)
                ctx.check(bad is None, lambda: "%s (%s): an earlier result changed after %s: %s" % (name, layout, "".join(ops[:k + 1]), bad))
        ctx.new_state(name, layout, ops)
    ctx.note("functions x layouts")


def attributes(objects):
    return [sorted((k, repr(v)) for k, v in vars(o).items()) for o in objects]


def make_net(op, three, types, buses, ls):
    """A network of the same data, built in another way."""
    from src.simulation.network import NetData
    from src.simulation.network_3ph import NetData3P
    from src.simulation.simulation import SimulatedNet
    from src.simulation.simulation_3ph import SimulatedNet3P
    data, sim = (NetData3P, SimulatedNet3P) if three else (NetData, SimulatedNet)
    if op == "D":
        return data(types, buses, ls) if three else data(buses, ls)
    if op == "S":
        return sim(types, buses, ls) if three else sim(buses, ls)
    net = data(types) if three else data()
    net.create_buses(buses)
    net.create_lines(ls)
    return net


def construction(case, ctx):
    """Data describing a network builds the same network any number of times and stays as it was."""
    three, ids, flips, status, depth = case
    from src.simulation.net_templates_3ph import ieee123_types
    edges = [(0, 1), (1, 2), (1, 3)]
    edges = [(b, a) if f else (a, b) for (a, b), f in zip(edges, flips)]
    for ops in itertools.product("DSL", repeat=depth):
        buses = netlib.bus1(ids, (netlib.loads3 if three else netlib.loads1)(4, 1), 0)
        ls = (netlib.lines3 if three else netlib.lines1)(ids, edges)
        for l, st in zip(ls, status):
            l.status = st
        types = {k: dict(v) for k, v in ieee123_types.items()}
        b0, l0, t0 = attributes(buses), attributes(ls), repr(types)
        first, kept = {}, []
        for k, op in enumerate(ops):
            net = make_net(op, three, types, buses, ls)
            state = netlib.table_state(net)
            done = "".join(ops[:k + 1])
            ctx.transitions += 1
            ctx.check(first.setdefault(op, state) == state, lambda: "build %s of the same data gives another network" % done)
            ctx.check(attributes(buses) == b0, lambda: "bus data changed after building %s: %s, %s before" % (done, attributes(buses), b0))
            ctx.check(attributes(ls) == l0, lambda: "line data changed after building %s: %s, %s before" % (done, attributes(ls), l0))
            ctx.check(repr(types) == t0, lambda: "line types changed after building %s" % done)
            kept.append((net, state))
            for n, st in kept[:-1]:
                ctx.check(netlib.table_state(n) == st, lambda: "an earlier network changed when building %s" % done)
        ctx.new_state(case, ops)
    ctx.note("networks built")


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    fast, slow = subjects(tier)
    cases = [[n, l, 4 if big else 3] for n in fast for l in LAYOUTS]
    lays = LAYOUTS if big else ["readonly", "slice"]
    expensive = [[n, l, 3 if big else 2] for n in slow for l in lays]
    nets = [[three, ids, list(f), list(st), 3 if big else 2] for three in (False, True) for ids in ([5, 3, 12, 1], [1, 2, 3, 4])
            for f in itertools.product((False, True), repeat=3) for st in ((1, 1, 1), (1, 1, 0))
            if big or (ids[0] == 5) == (st[2] == 1)]
    return [Group("networks from data", nets, construction), Group("stages and networks", expensive, history), Group("functions", cases, history)]
