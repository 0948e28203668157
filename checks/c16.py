"""C16: the reduced single-phase network is electrically equivalent to the full one at the nodes that are kept."""
import itertools
import json
import os
import shutil
import subprocess
from pathlib import Path

import numpy as np

from checks import iterlib as il
from checks import netlib
from mc import boot
from mc.gen import cplx, graphs, subsets
from src.simulation import run

LEVEL = "exploration"
RULE = ("every connected graph up to the bound x position of the supplies x set of passive nodes x set of hidden nodes x kept or removed supply "
        "x order of identifiers x signs of the loads, and under CPython every set of eliminated or hidden nodes of up to 10 (13) nodes; non-trivial means distinct reduced matrices")
ASSUMPTIONS = ["hidden nodes are constant admittances; for varying ones the equivalence holds for the time means"]

ORDERS = {2: [[1, 2], [11, 3]], 3: [[2, 10, 1], [0, 7, 3]], 4: [[12, 3, 20, 1], [1, 2, 3, 4]], 5: [[5, 4, 3, 2, 1], [10, 9, 1, 100, 2]]}


def measurements(y, keep, passive, hidden, pcc, t, constant, salt):
    """Voltages and currents of the full network: passive nodes take no current, hidden ones constant admittances.
    constant=False: the currents of hidden nodes vary freely."""
    n = len(y)
    v = 1 + .05 * cplx((t, n), salt)
    v[:, pcc] = 1
    s = .5 * cplx((n,), salt + 3)
    gone = sorted(set(passive) | set(hidden)) if constant else sorted(passive)
    gone = [k for k in gone if k not in np.atleast_1d(pcc)]
    if gone:
        rest = [k for k in range(n) if k not in gone]
        d = np.diag([s[k] if k in hidden and k not in passive else 0 for k in gone])
        v[:, gone] = np.linalg.solve((y[np.ix_(gone, gone)] - d), -(v[:, rest] @ y[np.ix_(rest, gone)]).T).T
    return il.stored(v, t + n + len(hidden)), il.stored(v @ y, t + len(hidden))


def graph_case(case, ctx):
    ids, edges, pcc, passive, signs = case
    long = signs % 3 if len(edges) > 1 else 0  # lines of very different lengths
    supplies = [pcc] if isinstance(pcc, int) else pcc
    n = len(ids)
    net = netlib.net1(ids, edges, netlib.signed1(netlib.loads1(n, n, passive), signs), pcc, "net", long=long)
    y = netlib.ybus1(ids, netlib.stretch(netlib.lines1(ids, edges), long))
    free = [k for k in range(n) if k not in passive and k not in supplies]
    before = netlib.table_state(net)
    for hidden in subsets(free, 0):
        # the supply is removed without Laplacian, listed as hidden (as simulate does) or not, and with Laplacian if it is hidden
        for laplacian, listed in ((True, False), (False, True), (False, False), (True, True))[:4 if (len(hidden) + signs) % 2 == 0 else 2]:
            gone = set(passive) | set(hidden) | (set() if laplacian and not listed else set(supplies))
            keep = [k for k in range(n) if k not in gone]
            if not keep:
                continue
            for constant in (True, False):
                if not constant and not hidden:
                    continue
                # the order of the list, and passive nodes in it, do not matter
                names = [ids[k] for k in reversed(hidden)] + ([ids[k] for k in supplies] if listed else []) + [ids[k] for k in passive[:len(hidden)]]
                v, i = measurements(y, keep, passive, hidden, pcc, 4, constant, n + len(hidden))
                args = v.copy(), i.copy(), list(names)
                todel, red = run.reduce_network(net, v, i, names, laplacian, verbose=False)
                red = np.asarray(red)
                ctx.equal(v, args[0], "voltages after the call")
                ctx.equal(i, args[1], "currents after the call")
                ctx.equal(names, args[2], "hidden nodes after the call")
                ctx.equal(sorted(set(todel)), sorted(gone), "removed positions")
                ctx.check(red.shape == (len(keep),) * 2, "reduced matrix of shape %s for %d nodes" % (red.shape, len(keep)))
                vk, ik = np.delete(v, todel, axis=1), np.delete(i, todel, axis=1)
                what = "hidden %s, passive %s, %s" % (hidden, passive, "supply removed" if supplies[0] in gone else "laplacian")
                tol = 1e-9 * np.max(np.abs(y))
                if constant and laplacian and not listed:
                    ctx.close(vk @ red, ik, "currents at the kept nodes, " + what, atol=tol)
                elif constant:
                    ctx.close((vk - vk.mean(axis=0)) @ red, ik - ik.mean(axis=0), "current changes at the kept nodes, " + what, atol=tol)
                elif laplacian and not listed:
                    ctx.close(vk.mean(axis=0) @ red, ik.mean(axis=0), "mean currents at the kept nodes, " + what, atol=tol)
                ctx.close(red, red.T, "symmetry, " + what, atol=tol)
                if not hidden and laplacian and not listed:
                    ctx.close(red.sum(axis=0), np.zeros(len(keep)), "row sums, " + what, atol=len(keep) * tol)
                ctx.seen(red)
    ctx.check(netlib.table_state(net) == before, "the network was changed")


def kron_case(case, ctx):
    """Eliminating nodes, in any order, given as list or array, alone or one after the other."""
    n, es, gone = case
    ids = list(range(n))
    y = netlib.ybus1(ids, netlib.lines1(ids, es, 2)) + np.diag(cplx((n,), n))
    net = netlib.cached(netlib.net1, [1, 2], [(0, 1)], [(0, 0), (.1, .1)], 0, "kron")
    keep = [k for k in range(n) if k not in gone]
    want = np.linalg.inv(np.linalg.inv(y)[np.ix_(keep, keep)])
    y0 = y.copy()
    for order in (gone, gone[::-1], np.array(gone), np.array(gone, dtype=float)):
        got = net.kron_reduction(order, y)
        ctx.close(got, want, "eliminating %s" % gone, rtol=1e-8)
        ctx.equal(y, y0, "matrix after the call")
    step = y
    for k in sorted(gone, reverse=True):
        step = net.kron_reduction([k], step)
    ctx.close(step, want, "eliminating %s one by one" % gone, rtol=1e-8)
    ctx.seen(want)


def template_case(case, ctx):
    name, laplacian, nhidden = case
    net, bus, lines = run.make_net(name)
    ids = [b.id for b in bus]
    n = len(ids)
    y = netlib.ybus1(ids, lines, bus[0].baseKV)
    pcc = [k for k, b in enumerate(bus) if b.type == 3][0]
    passive = [k for k, b in enumerate(bus) if b.type == 1 and b.Pd == 0 and b.Qd == 0]
    free = [k for k in range(n) if k not in passive and k != pcc]
    hidden = free[1::3][:nhidden]
    gone = set(passive) | set(hidden) | (set() if laplacian else {pcc})
    keep = [k for k in range(n) if k not in gone]
    v, i = measurements(y, keep, passive, hidden, pcc, 4, True, 5)
    names = [ids[k] for k in hidden] + ([] if laplacian else [ids[pcc]])
    todel, red = run.reduce_network(net, v, i, names, laplacian, verbose=False)
    ctx.equal(sorted(set(todel)), sorted(gone), "removed positions")
    vk, ik = np.delete(v, todel, axis=1), np.delete(i, todel, axis=1)
    red = np.asarray(red)
    tol = 1e-8 * np.max(np.abs(y))
    if laplacian:
        ctx.close(vk @ red, ik, "currents at the kept nodes", atol=tol)
    else:
        ctx.close((vk - vk.mean(axis=0)) @ red, ik - ik.mean(axis=0), "current changes at the kept nodes", atol=tol)
    ctx.seen(red)


def interpreter_case(case, ctx):
    """Sets of numbers have another order under CPython; the reduction must not depend on it."""
    py = shutil.which("python3-vt")
    if py is None:
        return ctx.note("no other interpreter")
    here = Path(__file__).resolve().parent
    r = subprocess.run([py, str(here / "cpython_reduce.py"), boot.REPO, str(case[0])], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600,
                       env=dict({k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1"))
    try:
        out = json.loads(r.stdout.decode().strip().splitlines()[-1])
    except (ValueError, IndexError):
        out = {"skipped": r.stderr.decode()[-200:]}
    if "skipped" in out:
        return ctx.note("other interpreter: not available")
    ctx.transitions += out["done"]
    ctx.note("other interpreter: explored")
    ctx.new_state("cpython", case)
    ctx.check(out["bad"] is None, "under CPython: %s" % out["bad"])


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    cases, k = [], 0
    for n in (2, 3, 4) + ((5,) if big else ()):
        for es in graphs(n):
            if n == 5 and len(es) > 5:
                continue
            for pcc in range(n):
                for passive in subsets([x for x in range(n) if x != pcc], 0, n - 2):
                    k += 1
                    if n == 4 and k % 11 and not big or n == 5 and k % 7:
                        continue
                    cases.append([ORDERS[n][k % 2], es, pcc, passive, k % 8])
            # more than one supply
            for pccs in subsets(range(n), 2, n - 1):
                for passive in subsets([x for x in range(n) if x not in pccs], 0, n - 2):
                    k += 1
                    if k % (13 if n == 4 and not big else 7 if n == 5 else 1) == 0:
                        cases.append([ORDERS[n][k % 2], es, pccs[::-1], passive, k % 8])
    kron = [[n, es, g] for n in (2, 3, 4) for es in graphs(n) for g in subsets(range(n), 1, n - 1)]
    temps = [[nm, l, h] for nm in ("ieee_33", "cigre_mv_feeder1", "bolognani21", "bolognani33", "bolognani56") for l in (True, False) for h in (0, 1, 4)]
    other = [[n] for n in range(2, 11 if not big else 14)]
    return [Group("other interpreter", other, interpreter_case), Group("templates", temps if big else temps[::2], template_case), Group("graphs", cases, graph_case), Group("elimination", kron, kron_case)]
