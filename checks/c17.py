"""C17: the reduced three-phase network is electrically equivalent to the full one at the nodes that are kept."""
import numpy as np

from checks import iterlib as il
from checks import netlib
from mc.gen import cplx, subsets
from src.simulation import run3ph

LEVEL = "exploration"
RULE = ("networks x position of the supplies x nodes passive on all phases x partially loaded nodes x hidden nodes x both treatments of "
        "single phases x order of identifiers; non-trivial means distinct reduced matrices")
ASSUMPTIONS = ["hidden nodes are constant admittances, one for every phase", "the supply is always removed, so equivalence concerns deviations from the time mean"]

SHAPES = {2: [[(0, 1)]], 3: [[(0, 1), (1, 2)], [(0, 1), (0, 2), (1, 2)]], 4: [[(0, 1), (1, 2), (1, 3)], [(0, 1), (1, 2), (2, 3), (3, 0)], [(0, 1), (1, 2), (2, 3)]]}
ORDERS = {2: [[11, 3]], 3: [[2, 10, 1], [0, 7, 3]], 4: [[12, 3, 20, 1], [1, 2, 3, 4]]}

PHASES = [(0,), (1,), (2,), (0, 1), (0, 2), (1, 2)]


def three(nodes):
    return [3 * k + ph for k in sorted(nodes) for ph in range(3)]


def measurements(y, n, pcc, passive, hidden, salt, t=5):
    """passive and hidden are positions of single phases; hidden ones carry constant admittances, different for every phase."""
    v = (1 + .05 * cplx((t, 3 * n), salt)) * np.tile(np.exp(-2j * np.pi / 3 * np.arange(3)), n)
    for k in pcc:
        v[:, 3 * k:3 * k + 3] = np.exp(-2j * np.pi / 3 * np.arange(3))
    s = 5 * cplx((3 * n,), salt + 3)
    gone = sorted(set(passive) | set(hidden))
    if gone:
        rest = [k for k in range(3 * n) if k not in gone]
        d = np.diag([s[k] if k in hidden and k not in passive else 0 for k in gone])
        v[:, gone] = np.linalg.solve((y[np.ix_(gone, gone)] - d).T, -(v[:, rest] @ y[np.ix_(rest, gone)]).T).T
    return il.stored(v, salt + n + len(gone)), il.stored(v @ y, salt + len(gone))


def judge(ctx, net, y, n, ids, pcc, passive, hidden, partial, laplacian, single, salt):
    """partial holds (node, phase) pairs without load at nodes that are loaded on other phases."""
    pas = three(passive) + ([3 * k + ph for k, ph in partial] if single else [])
    v, i = measurements(y, n, pcc, pas, three(hidden), salt)
    names = [ids[k] for k in reversed(hidden)] + ([ids[k] for k in pcc] if laplacian else []) + ([ids[k] for k in passive[:1]] if salt % 3 == 0 else [])
    args = v.copy(), i.copy(), list(names)
    todel, red = run3ph.reduce_network(net, v, i, names, laplacian, single, verbose=False)
    red = np.asarray(red)
    ctx.equal(v, args[0], "voltages after the call")
    ctx.equal(i, args[1], "currents after the call")
    ctx.equal(names, args[2], "hidden nodes after the call")
    gone = sorted(set(pas) | set(three(set(hidden) | set(pcc))))
    ctx.equal(sorted(set(int(k) for k in todel)), gone, "removed positions")
    m = 3 * n - len(gone)
    ctx.check(red.shape == (m, m), "reduced matrix of shape %s for %d measurements" % (red.shape, m))
    todel = [int(k) for k in todel]
    vk, ik = np.delete(v, todel, axis=1), np.delete(i, todel, axis=1)
    rows = [k for k in range(3 * n) if k not in three(pcc)]
    tol = 1e-9 * np.max(np.abs(y[rows, :]))
    what = "hidden %s, passive %s, %s, %s" % (hidden, passive, partial, "phases apart" if single else "all phases")
    ctx.close((vk - vk.mean(axis=0)) @ red, ik - ik.mean(axis=0), "current changes at the kept nodes, " + what, atol=tol)
    ctx.seen(red)


def graph_case(case, ctx):
    ids, edges, pcc, passive, partial, typ, signs = case
    pcc = [pcc] if isinstance(pcc, int) else pcc
    n = len(ids)
    loads = netlib.signed3(netlib.loads3(n, n, tuple(passive) + tuple(map(tuple, partial))), signs)
    # some of the loads, and of the nodes without load, are symmetric
    kept = [k for k, _ in partial]
    net = netlib.net3(ids, edges, netlib.mixed3(loads, [k for k in range(n) if k not in kept and (k + signs) % 3 == 0]), pcc, "net3", typ=typ,
                     long=(signs + n) % 3 if len(edges) > 1 else 0)  # lines of very different lengths
    y = np.asarray(net.make_y_bus())
    before = netlib.table_state(net)
    free = [k for k in range(n) if k not in passive and k not in pcc]
    for k, hidden in enumerate(subsets(free, 0, max(len(free) - 1, 0))):
        for single in (False, True) if k % 2 == 0 or partial else (True,):
            judge(ctx, net, y, n, ids, pcc, passive, hidden, partial, k % 3 == 1, single, n + k)
    ctx.check(netlib.table_state(net) == before, "the network was changed")


def template_case(case, ctx):
    name, nhidden, single = case
    net, bus, lines = run3ph.make_net(name)
    ids = [b.id for b in bus]
    n = len(ids)
    pcc = [k for k, b in enumerate(bus) if b.type == 3]
    passive = [k for k, b in enumerate(bus) if b.type == 1 and not np.any(b.Pd) and not np.any(b.Qd)]
    y = np.asarray(net.make_y_bus())
    free = [k for k in range(n) if k not in passive and k not in pcc]
    partial = [(k, ph) for k, b in enumerate(bus) if k not in passive and k not in pcc for ph in range(3)
               if np.size(b.Pd) == 3 and b.Pd[ph] == 0 and b.Qd[ph] == 0]
    judge(ctx, net, y, n, ids, pcc, passive, free[1::3][:nhidden], partial, False, single, 3)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    cases, k = [], 0
    for n in (2, 3, 4):
        for es in SHAPES[n]:
            for ids in ORDERS[n]:
                for pcc in range(n):
                    for passive in subsets([x for x in range(n) if x != pcc], 0, n - 2):
                        k += 1
                        if n == 4 and not big and k % 5:
                            continue
                        loaded = [x for x in range(n) if x != pcc and x not in passive]
                        for partial in ([], PHASES[k % 6], PHASES[(k + 3) % 6]) if big or k % 3 == 0 else ((), PHASES[k // 3 % 6])[k % 2:][:1]:
                            # phases without load at one node, or at all loaded nodes
                            at = loaded[:1] if k % 4 else loaded
                            cases.append([ids, es, pcc, passive, [[x, ph] for x in at for ph in partial],
                                          ["OG3", "UG3CIGRE", "OG1"][k % 3], k % 8])
                # more than one supply
                for pccs in subsets(range(n), 2, n - 1):
                    for passive in subsets([x for x in range(n) if x not in pccs], 0, n - len(pccs) - 1):
                        k += 1
                        if big or k % 7 == 0:
                            cases.append([ids, es, pccs[::-1], passive, [], ["OG3", "UG3CIGRE", "OG1"][k % 3], k % 8])
    temps = [["cigre_mv_feeder3", h, s] for h in (0, 1, 3) for s in (True, False)] + [["test_3phase", h, s] for h in (0, 1, 2) for s in (True, False)] + \
        ([["ieee123center", h, s] for h in (0, 1, 5) for s in (True, False)] if big else [["ieee123center", 1, True]])
    return [Group("templates", temps, template_case), Group("graphs", cases, graph_case)]
