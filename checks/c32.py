"""C32: what is simulated without noise is identified exactly, from the command that simulates to the command that identifies."""
import os

import numpy as np

from checks import netlib
from checks import simflow as sf
from mc.gen import graphs, subsets
from src.simulation import net_templates, net_templates_3ph

LEVEL = "exploration"
RULE = ("every connected network up to the bound x position of the supply x passive nodes x order of identifiers x Laplacian or supply removed x "
        "one or three phases, each simulated without noise and identified by the two commands; non-trivial means distinct admittance matrices")
ASSUMPTIONS = ["power flow replaced by an exact linear solution (C13 covers the real one)", "no hidden nodes, whose loads are only known on average",
               "negligible regularisation for the lasso and Bayesian estimates"]
ORDERS = {2: [[11, 3], [1, 2]], 3: [[2, 10, 1], [0, 7, 3]], 4: [[12, 3, 20, 1], [1, 2, 3, 4]]}
CONF = dict(lambda_lasso=1e-18, lambda_eiv=1e-16, lambdaprime=1., abs_tol=0., rel_tol=0.)


def files(kind):
    with np.load(os.path.join(sf.OUT, kind + "flow.npz"), allow_pickle=True) as f:
        return {k: f[k] for k in f.files}


def pipeline(case, ctx):
    ids, edges, pcc, passive, variant, steps = case[:6]
    long = case[6] if len(case) > 6 else 0
    n = len(ids)
    three = variant.startswith("three")
    lap = variant == "laplacian"
    loads = (netlib.loads3 if three else netlib.loads1)(n, n, passive)
    if three:
        loads[pcc] = (5., 5.)
    mod = net_templates_3ph if three else net_templates
    mod.flow_bus = netlib.bus1(ids, loads, pcc)
    mod.flow_net = (netlib.lines3 if three else netlib.lines1)(ids, edges)
    netlib.stretch(mod.flow_net, long)
    sf.restore({})
    flags = ["-l"] if lap else ["-t"] if three else []
    eq = ["-e"] if variant.endswith("equivalent") else []
    ctx.check(sf.simulate(["-n", "flow", "-g", .3] + flags + eq, level="no", steps=steps) is None, "simulation failed")
    sim = sf.read("flow")
    y = sim["y"]
    ph = 3 if three else 1
    keep = [k for k in range(n) if k not in passive and (lap or k != pcc)]
    ctx.check(y.shape == (ph * len(keep),) * 2, "matrix of shape %s for %d nodes" % (y.shape, len(keep)))
    ctx.close(sim["v"], sim["w"], "measured voltages without noise", atol=0)
    ctx.close(sim["i"], sim["j"], "measured currents without noise", atol=0)
    import identify_network
    with netlib.setconf("identification", **CONF):
        args = ["-n", "flow", "-i", "2", "-p", "123" if three else "1"] + (["-l"] if lap else [])
        try:
            identify_network.identify.main(args, standalone_mode=False)
        except NotImplementedError:
            ctx.check(three, "not implemented for one phase")
    v = sim["v"] - (np.mean(sim["v"]) if lap else np.mean(sim["v"], axis=0))
    cond = np.linalg.cond(v)
    ctx.check(cond < 1e9, "harness: voltages do not determine the matrix (%g)" % cond)
    ctx.note("condition below 1e%d" % np.ceil(np.log10(cond)))
    st = files("standard_results_")
    tol = 1e-13 * cond + 1e-9
    ctx.close(st["o"], y, "OLS estimate", rtol=tol)
    ctx.close(st["t"], y, "TLS estimate", rtol=10 * tol)
    ref = files("reference_results_")
    ctx.equal(ref["y"], y, "reference matrix")
    if long:  # the regularised estimators compute in single precision, which does not reach this far
        ctx.seen(y)
        return
    ctx.close(st["l"], y, "lasso estimate", rtol=1e-7)
    if not three:
        ctx.close(files("bayesian_results_")["y"], y, "Bayesian estimate", rtol=1e-7)
    ctx.seen(y)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    cases, k = [], 0
    for variant in ("plain", "laplacian", "equivalent", "three"):
        for n in (2, 3, 4):
            for es in graphs(n):
                for pcc in range(n):
                    for passive in subsets([x for x in range(n) if x != pcc], 0, n - 2):
                        if n - len(passive) - (variant != "laplacian") < 2 and variant != "three":
                            continue
                        k += 1
                        if k % (6 if big else 40):
                            continue
                        cases.append([ORDERS[n][k % 2], es, pcc, passive, variant, (90, 60, 143)[k % 3]])
    # Lines of very different length
    far = [c + [1 + j % 3] for j, c in enumerate(c for c in cases if c[4] in ("plain", "laplacian") and len(c[1]) > 1)]
    return [Group("pipeline", cases, pipeline, show_output=True),
            Group("long and short lines", far if big else far[::2], pipeline, show_output=True)]
