"""C11: a network's admittance matrix is the Laplacian of its lines, and lines rebuilt from the matrix give it back."""
import itertools

import numpy as np

from checks import netlib
from mc.gen import graphs, unit
from src.simulation import net_templates, net_templates_3ph, run, run3ph
from src.simulation.lines import LineData, admittance_phase_to_sequence
from src.simulation.net_templates_3ph import ieee123_types
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P

LEVEL = "exploration"
RULE = ("every connected graph up to the bound x order of identifiers x orientation of the lines x position of the external grid, "
        "variants with parallel, broken and long lines, every template; non-trivial means distinct admittance matrices")
ASSUMPTIONS = ["one nominal voltage per network", "lines without shunt susceptance",
               "the external grid's own impedance, which pandapower adds to its node in the zero and negative sequences, is left out"]


def orient(lines, mask):
    out = []
    for k, l in enumerate(lines):
        if mask >> k & 1:
            l = LineData(l.end_bus, l.start_bus, l.length, l.t, l.R, l.X, s=l.status)
        out.append(l)
    return out


def check1(ctx, net, ids, lines, kv, what="admittance matrix"):
    before = netlib.table_state(net)
    y = np.asarray(net.make_y_bus())
    want = netlib.ybus1(ids, lines, kv)
    ctx.close(y, want, what)
    off = ~np.eye(len(y), dtype=bool)
    ctx.check(np.all(np.abs(y - want)[off] <= 1e-8 * np.abs(want)[off]), lambda: "%s: %s, expected %s" % (what, y, want))
    ctx.close(y, y.T, what + " symmetry")
    ctx.close(y.sum(axis=0), np.zeros(len(ids)), what + " row sums", atol=1e-9 * np.max(np.abs(want)))
    ctx.check(netlib.table_state(net) == before, "computing the matrix changed the network")
    ctx.equal(np.asarray(net.make_y_bus()), y, what + " computed again")
    ctx.seen(y)
    return y


def graph_case(case, ctx):
    ids, edges, mask, pcc, kv, variant = case
    loads = netlib.loads1(len(ids), len(edges), range(len(ids)) if variant == "spread" else ())
    lines = orient(netlib.lines1(ids, edges, len(ids)), mask)
    ref = orient(netlib.lines1(ids, edges, len(ids)), mask)
    if variant == "parallel":
        for ls in (lines, ref):
            ls.append(LineData(ls[0].end_bus, ls[0].start_bus, 2.5, None, .3, .9))
    elif variant == "broken":
        for ls in (lines, ref):
            ls.append(LineData(ids[0], ids[-1], 1., None, .1, .1, s=0))
    elif variant == "long":
        for ls in (lines, ref):
            for k, l in enumerate(ls):
                l.length = 10. ** (k - 2)
    elif variant == "spread":   # strong and weak branches
        for ls in (lines, ref):
            for k, l in enumerate(ls):
                l.R, l.X = (x * 10. ** ((3 * k + len(ids)) % 9 - 4) for x in (l.R, l.X))
    net = SimulatedNet(netlib.bus1(ids, loads, pcc, kv), lines)
    ctx.equal(net.bus.index.values, np.array(ids), "order of the buses")
    ctx.equal(net.load.bus.values, np.array(ids), "order of the loads")
    ctx.equal(net.ext_grid.bus.values, np.array([ids[pcc]]), "external grid")
    for k, i in enumerate(ids):
        w = (0, 0) if k == pcc else loads[k]
        ctx.close([net.load.p_mw[i], net.load.q_mvar[i]], list(w), "load of bus %d" % i)
    y = check1(ctx, net, ids, ref, kv)
    if variant == "single":
        one = SimulatedNet(netlib.bus1(ids, loads, pcc, kv))
        for l in lines:
            one.create_line(l.start_bus, l.end_bus, l.R, l.X, l.length)
        check1(ctx, one, ids, ref, kv, "admittance matrix of lines created one by one")
    if variant in ("plain", "parallel", "spread"):
        back = SimulatedNet(netlib.bus1(ids, loads, pcc, kv))
        ctx.check(back.create_lines_from_ybus(y) is back, "chained calls")
        check1(ctx, back, ids, ref, kv, "matrix of the lines rebuilt from it")
        ctx.check(len(back.line) == len(set(map(tuple, edges))), "%d lines rebuilt for %d branches" % (len(back.line), len(edges)))


def three_case(case, ctx):
    ids, edges, pcc, kv, typ, status = case
    lines = netlib.lines3(ids, edges, typ)
    for k, l in enumerate(lines):
        l.status = 1 if status >> k & 1 == 0 else 0
    lines.append(LineData(ids[edges[0][1]], ids[edges[0][0]], .7, typ))
    loads = netlib.loads3(len(ids))
    net = SimulatedNet3P(ieee123_types, netlib.bus1(ids, loads, pcc, kv), lines)
    check3(ctx, net, ids, lines, kv, ids[pcc])
    for k, i in enumerate(ids):
        if k != pcc:
            row = net.asymmetric_load[net.asymmetric_load.bus == i].iloc[0]
            ctx.close([row["p_%s_mw" % c] for c in "abc"], list(loads[k][0]), "active loads of bus %d" % i)
            ctx.close([row["q_%s_mvar" % c] for c in "abc"], list(loads[k][1]), "reactive loads of bus %d" % i)


def check3(ctx, net, ids, lines, kv, pcc):
    before = netlib.table_state(net)
    ctx.equal(net.bus.index.values, np.array(ids), "order of the buses")
    y = np.asarray(net.make_y_bus())
    ctx.check(y.shape == (3 * len(ids),) * 2, "shape %s" % (y.shape,))
    n = len(ids)
    a = np.exp(2j * np.pi / 3)
    # Phase values are f times the sequence values, f symmetric
    f = np.array([[1, 1, 1], [1, a ** 2, a], [1, a, a ** 2]])
    want = np.zeros((3 * n, 3 * n), dtype=complex)
    for s in range(3):
        ws = np.zeros((n, n), dtype=complex)
        for l in lines:
            if l.status <= 0:
                continue
            t = ieee123_types[l.t]
            z = (t["r0_ohm_per_km"] + 1j * t["x0_ohm_per_km"]) if s == 0 else (t["r_ohm_per_km"] + 1j * t["x_ohm_per_km"])
            w = kv * kv / (3 * z * l.length)
            i, j = ids.index(l.start_bus), ids.index(l.end_bus)
            for p, q, g in ((i, i, w), (j, j, w), (i, j, -w), (j, i, -w)):
                ws[p, q] += g
        want += np.kron(ws, np.outer(f[:, s], f[:, s].conj()) / 3)
    k = ids.index(pcc)
    keep = [c for c in range(3 * n) if c // 3 != k]
    scale = 1e-9 * np.max(np.abs(want))
    ctx.close(y[keep, :], want[keep, :], "three-phase admittances", atol=scale)
    ctx.close(y[:, keep], want[:, keep], "three-phase admittances of the external grid", atol=scale)
    seq = admittance_phase_to_sequence(y)
    ctx.close(np.asarray(seq)[3 * k + 1, 3 * k + 1], (f.conj() / 3 @ want[3 * k:3 * k + 3, 3 * k:3 * k + 3] @ f)[1, 1],
              "positive sequence of the external grid", rtol=1e-7)
    ctx.check(netlib.table_state(net) == before, "computing the matrix changed the network")
    ctx.seen(y)


def template_case(case, ctx):
    phases, name = case
    mod = net_templates if phases == 1 else net_templates_3ph
    net, bus, lines = (run if phases == 1 else run3ph).make_net(name)
    ctx.check(net.name == name, "name %s" % net.name)
    ctx.check(bus is getattr(mod, name + "_bus") or len(bus) == len(getattr(mod, name + "_bus")), "bus data")
    ids = [b.id for b in bus]
    ctx.check(len(set(ids)) == len(ids), "duplicate buses")
    kvs = {b.baseKV for b in bus}
    ctx.check(len(kvs) == 1, "nominal voltages %s" % kvs)
    kv = kvs.pop()
    pcc = [b.id for b in bus if b.type == 3]
    ctx.check(len(pcc) == 1, "external grids %s" % pcc)
    for l in lines:
        ctx.check(l.start_bus in ids and l.end_bus in ids and l.start_bus != l.end_bus, "line %s" % vars(l))
    seen, todo = {pcc[0]}, [pcc[0]]
    while todo:
        i = todo.pop()
        for l in lines:
            if l.status > 0 and i in (l.start_bus, l.end_bus):
                j = l.start_bus + l.end_bus - i
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
    ctx.check(len(seen) == len(ids), "buses without supply: %s" % (set(ids) - seen))
    if phases == 1:
        y = check1(ctx, net, ids, lines, kv)
        back, _, none = run.make_net(name, y)
        ctx.close(np.asarray(back.make_y_bus()), y, "network made from the matrix")
        ctx.check(len(none) == 0 and back.name == name, "line data of a network made from a matrix")
    else:
        check3(ctx, net, ids, lines, kv, pcc[0])
    for b in bus:
        t = net.load if phases == 1 or b.type == 3 else net.asymmetric_load
        row = t[t.bus == b.id]
        ctx.check(len(row) == 1, "bus %d has %d loads" % (b.id, len(row)))


def connected(n, lines):
    seen, size = {0}, 0
    while len(seen) != size:
        size = len(seen)
        for a, b, _, _, on in lines:
            if on and (a in seen or b in seen):
                seen |= {a, b}
    return size == n


EDITS = ["off", "on", "length", "type", "move", "drop", "add", "exchange", "load", "bus"]


def edit(net, ids, lines, op, k, phases):
    """Changes the network and its description [from, to, length, (r, x) or type, on]; False if impossible."""
    df = net.line
    if op in ("off", "on"):
        at = [j for j, l in enumerate(lines) if l[4] == (op == "off")]
        if not at:
            return False
        j = at[k % len(at)]
        lines[j][4] = not lines[j][4]
        df.at[df.index[j], "in_service"] = lines[j][4]
    elif op == "length":
        j = k % len(lines)
        lines[j][2] = round(lines[j][2] * 1.5, 6)
        df.at[df.index[j], "length_km"] = lines[j][2]
    elif op == "exchange":  # two lines exchange their lengths: all totals stay the same
        if len(lines) < 2:
            return False
        a, b = k % len(lines), (k + 1) % len(lines)
        lines[a][2], lines[b][2] = lines[b][2], lines[a][2]
        for j in (a, b):
            df.at[df.index[j], "length_km"] = lines[j][2]
    elif op == "type":
        j = k % len(lines)
        if phases == 1:
            r, x = lines[j][3]
            lines[j][3] = (x, 2 * r)
            df.at[df.index[j], "r_ohm_per_km"], df.at[df.index[j], "x_ohm_per_km"] = lines[j][3]
        else:
            lines[j][3] = "UG3" if lines[j][3] != "UG3" else "OG3"
            t = ieee123_types[lines[j][3]]
            for c in ("r_ohm_per_km", "x_ohm_per_km", "r0_ohm_per_km", "x0_ohm_per_km"):
                df.at[df.index[j], c] = t[c]
    elif op == "move":
        j = k % len(lines)
        a, b = lines[j][:2]
        c = next((c for c in range(len(ids)) if c not in (a, b)), None)
        if c is None:
            return False
        lines[j][1] = c
        df.at[df.index[j], "to_bus" if df.at[df.index[j], "to_bus"] == net.bus.index[b] else "from_bus"] = net.bus.index[c]
    elif op == "drop":
        j = k % len(lines)
        del lines[j]
        df.drop(df.index[j], inplace=True)
    elif op == "load":
        t = net.load if phases == 1 else net.asymmetric_load
        for c in ("p_mw", "q_mvar", "p_a_mw", "q_b_mvar"):
            if c in t.columns:
                t[c] = t[c] * .5
        return True
    else:
        if op == "bus":
            ids.append(max(ids) + 3)
            a, b = len(ids) - 1, k % (len(ids) - 1)
            net.create_bus(ids[-1], 1, *((.01, .004) if phases == 1 else ((.01,) * 3, (.004,) * 3)), 4.16)
        else:
            a, b = k % len(ids), (k + 1) % len(ids)
        if phases == 1:
            lines.append([a, b, .4, (.5, .75), True])
            net.create_line(ids[a], ids[b], .2, .3, .4)
        else:
            lines.append([a, b, .15, "OG1", True])
            net.create_line(ids[a], ids[b], .15, "OG1")
    return connected(len(ids), lines)


def edits_case(case, ctx):
    """The matrix is computed between all changes of one network, or of its copies, and is always that of the present lines."""
    phases, ids, edges, pcc, ops = case
    ids = list(ids)
    n = len(ids)
    if phases == 1:
        net = netlib.net1(ids, edges, netlib.loads1(n), pcc)
        lines = [[*e, l.length, (l.R / l.length, l.X / l.length), True] for e, l in zip(edges, netlib.lines1(ids, edges))]
    else:
        net = netlib.net3(ids, edges, netlib.loads3(n), pcc)
        lines = [[*e, l.length, l.t, True] for e, l in zip(edges, netlib.lines3(ids, edges))]

    def judge(net, lines, what):
        data = [LineData(ids[a], ids[b], l, t if phases == 3 else None, *((t[0] * l, t[1] * l) if phases == 1 else ()), s=int(on)) for a, b, l, t, on in lines]
        if phases == 1:
            check1(ctx, net, ids, data, 4.16, what)
        else:
            check3(ctx, net, ids, data, 4.16, ids[pcc])
        ctx.transitions += 1
    judge(net, lines, "admittance matrix")
    for k, op in enumerate(ops):
        copy = net.deepcopy()
        old, oldids = [list(l) for l in lines], list(ids)
        if not edit(net, ids, lines, op, k + len(edges), phases):
            return
        what = "matrix after " + ", ".join(ops[:k + 1])
        judge(net, lines, what)
        if k == 0:
            ids, new = oldids, ids
            judge(copy, old, what + " of a copy made before")
            ids = new


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    orders = {2: [[1, 2], [10, 9]], 3: [[1, 2, 3], [2, 10, 1], [0, 7, 3]], 4: [[1, 2, 3, 4], [12, 3, 20, 1]],
              5: [[5, 4, 3, 2, 1], [10, 9, 1, 100, 2]]}
    cases = []
    count = itertools.count()
    for n in (2, 3, 4) + ((5,) if big else ()):
        for es in graphs(n):
            for ids in orders[n]:
                for variant in ("plain", "single", "parallel", "broken", "long"):
                    masks = range(2 ** len(es)) if n <= 3 and variant == "plain" or big and n <= 4 else [next(count) % 2 ** len(es)]
                    if n >= 4 and variant not in ("plain", "parallel") and not big and next(count) % 3:
                        continue
                    for m in masks:
                        k = next(count)
                        cases.append([ids, es, m, k % n, [4.16, 20, .4, 1][k % 4], variant])
    for n in (2, 3, 4):
        for k, es in enumerate(graphs(n)):
            for j, ids in enumerate(orders[n]):
                if n < 4 or big or (k + j) % 3 == 0:
                    cases.append([ids, es, (5 * k + j) % 2 ** len(es), (k + j) % n, [4.16, 20, .4, 1][(k + j) % 4], "spread"])
    three = []
    for n in (2, 3, 4):
        for es in graphs(n):
            if n == 4 and len(es) > 3 and not big:
                continue
            for ids in orders[n]:
                k = next(count)
                status = 1 if len(es) > n - 1 and n == 3 else 0
                three.append([ids, es, k % n, [4.16, 20][k % 2], ["OG3", "UG3", "OG1", "UG3CIGRE"][k % 4], status])
    hist = []
    for d in (1, 2) + ((3,) if big else ()):
        for ops in itertools.product(EDITS, repeat=d):
            k = next(count)
            for phases in (1, 3):
                if phases == 1 and d == 3 and k % 2 or phases == 3 and (d == 2 and not big and k % 3 or d == 3 and k % 5):
                    continue
                ids, es = (([2, 10, 1], [(0, 1), (0, 2), (1, 2)]), ([12, 3, 20, 1], [(0, 1), (1, 2), (2, 3), (0, 3)]), ([0, 7, 3], [(0, 1), (1, 2), (0, 2), (0, 1)]))[k % 3]
                hist.append([phases, ids, es, k % len(ids), list(ops)])
    t1 = [[1, k[:-4]] for k in vars(net_templates) if k.endswith("_bus")]
    t3 = [[3, k[:-4]] for k in vars(net_templates_3ph) if k.endswith("_bus")]
    return [Group("templates", t3 + t1, template_case), Group("graphs", cases, graph_case),
            Group("three phases", three, three_case), Group("changed networks", hist, edits_case)]
