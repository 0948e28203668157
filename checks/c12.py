"""C12: after every history of edits a network holds exactly the buses, loads and lines that the edits say."""
import numpy as np

from checks import netlib
from mc.core import h8
from src.simulation.lines import LineData
from src.simulation.load_profile import BusData
from src.simulation.net_templates_3ph import ieee123_types
from src.simulation.simulation import SimulatedNet
from src.simulation.simulation_3ph import SimulatedNet3P

LEVEL = "model_checking"
RULE = ("every sequence of edits (add a loaded, passive or supply bus; several buses; add a line, several lines; remove a bus, several "
        "buses, a line, several lines) up to a depth, from an empty and two built networks, executed on the real network objects; "
        "a state is the set of buses with their loads and lines in order")
ASSUMPTIONS = ["indices of new lines are chosen by pandapower, so they are read from the network when a line is added"]

START = {
    1: {"empty": ([], [], None), "path": ([10, 2, 3], [(0, 1), (1, 2)], 1), "ring": ([1, 12, 7, 2], [(0, 1), (1, 2), (2, 3), (3, 0)], 3)},
}
POOL = [5, 11, 4]


class Model(object):
    """Buses (in order) with their loads, and lines by index."""

    def __init__(self, phases):
        self.phases, self.buses, self.loads, self.pcc, self.lines = phases, [], {}, set(), {}
        self.kv, self.shares, self.mixed = {}, {}, False

    def add_bus(self, i, kind, p, q, kv, z, c):
        self.buses.append(i)
        self.kv[i], self.shares[i] = kv, (0., 0.) if kind == 3 else (z, c)
        self.loads[i] = (0., 0.) if kind == 3 else (p, q)
        if kind == 3:
            self.pcc.add(i)

    def drop_bus(self, i):
        self.buses.remove(i)
        del self.loads[i]
        self.pcc.discard(i)
        self.lines = {k: l for k, l in self.lines.items() if i not in l[0]}

    def passive(self):
        out = []
        for ph in range(3):
            out.append([i for i in self.buses if i not in self.pcc and all(
                (v if np.isscalar(v) else v[ph]) == 0 for v in self.loads[i])])
        return out

    def key(self):
        return (self.phases, self.buses, sorted(self.loads.items()), sorted(self.pcc), [(self.kv[i], self.shares[i]) for i in self.buses], [self.lines[k] for k in sorted(self.lines)])


def power(i, kind, phases):
    if kind == "passive":
        return (0., 0.) if phases == 1 else ((0., 0., 0.), (0., 0., 0.))
    if phases == 1:
        return (i / 100., i / 200.) if kind == "load" else (i / 50., 0.)
    return ((i / 100., 0., i / 300.), (0., 0., i / 200.)) if kind == "load" else ((0., i / 100., 0.), (i / 150., 0., 0.))


def menu(m, depth_left):
    """The edits that can be made in a state, with small argument domains."""
    ops = []
    free = [i for i in POOL if i not in m.buses]
    if free:
        i = free[0]
        ops += [("bus", i, "load"), ("bus", i, "passive"), ("bus", i, "active")]
        if not m.pcc:
            ops.append(("bus", i, "pcc"))
    if len(free) > 1:
        ops.append(("buses", free[:2]))
    if len(m.buses) > 1:
        ops += [("line", m.buses[0], m.buses[-1]), ("line", m.buses[-1], m.buses[-2]),
                ("lines", [(m.buses[-1], m.buses[0], 1), (m.buses[0], m.buses[1], 0)])]
    if len(m.buses) > 2:
        ops += [("drop", m.buses[1]), ("drop", m.buses[-1]), ("drops", [m.buses[-1], m.buses[0]])]
    if m.lines:
        k = sorted(m.lines)
        ops += [("dropline", k[0])] + ([("dropline", k[-1])] if len(k) > 1 else [])
        if len(k) > 1:
            ops.append(("droplines", [k[-1], k[0]]))
        if len(k) > 2:
            ops.append(("droplines", [k[1]]))
    return ops


def shares(i, kind):
    """Constant impedance and constant current shares of a load in percent, in every combination of zero and not."""
    return ((0., 0.), (30., 0.), (0., 40.), (20., 10.), (100., 0.), (60., 40.))[(i + len(kind)) % 6]


def bus_data(i, kind, m):
    t = 3 if kind == "pcc" else 1
    p, q = (5. + i, 4. + i) if kind == "pcc" else power(i, kind, m.phases)
    z, c = shares(i, kind)
    return BusData(i, t, p, q, kv=4.16 + i if m.mixed else 4.16, z_perc=z, i_perc=c)


def apply(net, m, op, ctx):
    before = set(net.line.index)
    new_lines, keep = [], None
    if op[0] == "bus":
        b = bus_data(op[1], op[2], m)
        more = (b.Z, b.I) if op[2] != "active" else ()
        r = net.create_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV, *more)
        ctx.check(r is net, "create_bus is chainable")
        m.add_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV, *(more or (0., 0.)))
    elif op[0] == "buses":
        bs = [bus_data(i, k, m) for i, k in zip(op[1], ("active", "passive"))]
        ctx.check(net.create_buses(bs) is net, "create_buses is chainable")
        for b in bs:
            m.add_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV, b.Z, b.I)
    elif op[0] == "line":
        r, x, l = .02 * op[1], .03 * op[2], 2.
        res = net.create_line(op[1], op[2], r, x, l) if m.phases == 1 else net.create_line(op[1], op[2], l, "OG3")
        ctx.check(res is net, "create_line is chainable")
        new_lines = [(op[1], op[2], r, x, l)]
    elif op[0] == "lines":
        data = [LineData(f, t, .5, "UG3", .04 * f, .01 * t, s=s) for f, t, s in op[1]]
        ctx.check(net.create_lines(data) is net, "create_lines is chainable")
        new_lines = [(f, t, .04 * f, .01 * t, .5) for f, t, s in op[1] if s > 0]
    elif op[0] == "drop":
        net.remove_bus(op[1])
        m.drop_bus(op[1])
    elif op[0] == "drops":
        keep = list(op[1])
        net.remove_buses(keep)
        for i in op[1]:
            m.drop_bus(i)
    elif op[0] == "dropline":
        net.remove_line(op[1])
        del m.lines[op[1]]
    else:
        keep = list(op[1])
        net.remove_lines(keep)
        for k in op[1]:
            del m.lines[k]
    if keep is not None:
        ctx.equal(keep, list(op[1]), "arguments of %s after the call" % op[0])
    added = sorted(set(net.line.index) - before)
    ctx.check(len(added) == len(new_lines), "%d lines added for %s" % (len(added), op))
    for k, (f, t, r, x, l) in zip(added, new_lines):
        m.lines[k] = (tuple(sorted((f, t))), (r, x, l) if m.phases == 1 else (l, "OG3" if op[0] == "line" else "UG3"))


def compare(net, m, ctx):
    ctx.equal(net.bus.index.values.astype(int), np.array(m.buses, dtype=int), "buses")
    ctx.equal(sorted(net.ext_grid.bus.values.tolist()), sorted(m.pcc), "external grids")
    ctx.close(net.bus.vn_kv.values.astype(float), [m.kv[i] for i in m.buses], "rated voltages of the buses")
    for i in m.pcc:
        row = net.ext_grid[net.ext_grid.bus == i].iloc[0]
        ctx.close([row.vm_pu, row.va_degree, row.max_p_mw, row.max_q_mvar], [1., 0., 5. + i, 4. + i], "supply at bus %d" % i)
    for tab in ("bus", "load", "asymmetric_load", "line", "ext_grid"):
        ctx.check(bool(np.all(net[tab].in_service.values.astype(bool))), "%s out of service" % tab)
    sym = {i: v for i, v in m.loads.items() if np.isscalar(v[0])}
    asym = {i: v for i, v in m.loads.items() if not np.isscalar(v[0])}
    ctx.equal(sorted(net.load.bus.values.tolist()), sorted(sym), "buses with loads")
    for i, (p, q) in sym.items():
        row = net.load[net.load.bus == i].iloc[0]
        ctx.close([row.p_mw, row.q_mvar], [p, q], "load of bus %d" % i)
        ctx.close([row.const_z_percent, row.const_i_percent], list(m.shares[i]), "constant impedance and current shares of the load of bus %d" % i)
    if m.phases == 3:
        ctx.equal(sorted(net.asymmetric_load.bus.values.tolist()), sorted(asym), "buses with asymmetric loads")
        for i, (p, q) in asym.items():
            row = net.asymmetric_load[net.asymmetric_load.bus == i].iloc[0]
            ctx.close([row["p_%s_mw" % c] for c in "abc"] + [row["q_%s_mvar" % c] for c in "abc"], list(p) + list(q), "loads of bus %d" % i)
    ctx.equal(sorted(net.line.index), sorted(m.lines), "lines")
    for k, (ends, val) in m.lines.items():
        row = net.line.loc[k]
        ctx.check(tuple(sorted((row.from_bus, row.to_bus))) == ends, "line %s connects %s, expected %s" % (k, (row.from_bus, row.to_bus), ends))
        if m.phases == 1:
            ctx.close([row.r_ohm_per_km * row.length_km, row.x_ohm_per_km * row.length_km, row.length_km], list(val), "line %s" % k)
        else:
            t = ieee123_types[val[1]]
            ctx.close([row.length_km, row.r_ohm_per_km, row.x_ohm_per_km], [val[0], t["r_ohm_per_km"], t["x_ohm_per_km"]], "line %s" % k)
    got = net.give_passive_nodes()
    ctx.check(len(got) == 3, "passive nodes of %d phases" % len(got))
    for ph, want in enumerate(m.passive()):
        ctx.equal(np.array(got[ph], dtype=int), np.array(want, dtype=int), "passive nodes of phase %d" % ph)


def build(phases, start, ctx, mixed=False):
    ids, edges, pcc = START[1][start]
    m = Model(phases)
    kinds = ["pcc" if k == pcc else ("load", "passive", "active", "load")[k] for k in range(len(ids))]
    m.mixed = mixed
    bs = [bus_data(i, k, m) for i, k in zip(ids, kinds)]
    ls = netlib.lines1(ids, edges) if phases == 1 else netlib.lines3(ids, edges)
    net = SimulatedNet(bs, ls) if phases == 1 else SimulatedNet3P(ieee123_types, bs, ls)
    for b in bs:
        m.add_bus(b.id, b.type, b.Pd, b.Qd, b.baseKV, b.Z, b.I)
    for k, l in zip(sorted(net.line.index), ls):
        m.lines[k] = (tuple(sorted((l.start_bus, l.end_bus))), (l.R, l.X, l.length) if phases == 1 else (l.length, "OG3"))
    compare(net, m, ctx)
    return net, m


def histories(case, ctx):
    """All histories that start with the given choices."""
    phases, start, prefix, depth = case
    stack = [list(prefix)]
    done = set()
    while stack:
        hist = stack.pop()
        net, m = build(phases, start, ctx, True)
        ok = True
        for k, c in enumerate(hist):
            ops = menu(m, depth - k)
            if c >= len(ops):
                ok = False
                break
            apply(net, m, ops[c], ctx)
        if not ok:
            continue
        # only the last state is new
        compare(net, m, ctx)
        ctx.transitions += 1
        s = h8(m.key(), sorted(m.lines))
        ctx.new_state(m.key())
        if len(hist) < depth and (s, len(hist)) not in done:
            done.add((s, len(hist)))
            stack += [hist + [c] for c in range(len(menu(m, 0)))]


def matrix_case(case, ctx):
    """The admittance matrix after edits is that of the edited network."""
    start, hist = case
    net, m = build(1, start, ctx)
    for c in hist:
        ops = menu(m, 0)
        apply(net, m, ops[c % len(ops)], ctx)
    if len(m.pcc) != 1 or not m.lines or not connected(m):
        ctx.note("no connected network")
        return
    y = np.zeros((len(m.buses),) * 2, dtype=complex)
    for (f, t), (r, x, l) in m.lines.values():
        w = 4.16 ** 2 / (r + 1j * x)
        i, j = m.buses.index(f), m.buses.index(t)
        for a, b, g in ((i, i, w), (j, j, w), (i, j, -w), (j, i, -w)):
            y[a, b] += g
    ctx.close(np.asarray(net.make_y_bus()), y, "admittance matrix after the edits")
    ctx.transitions += 1
    ctx.new_state(m.key())


def connected(m):
    seen, todo = set(m.pcc), list(m.pcc)
    while todo:
        i = todo.pop()
        for ends, _ in m.lines.values():
            if i in ends:
                j = sum(ends) - i
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
    return len(seen) == len(m.buses)


class Shadow(object):
    """Follows only how many buses and lines there are, to know which edits can be made."""

    def __init__(self, start):
        ids, edges, pcc = START[1][start]
        self.buses, self.pcc = list(ids), set() if pcc is None else {ids[pcc]}
        self.lines = {k: (tuple(sorted((ids[a], ids[b]))),) for k, (a, b) in enumerate(edges)}

    def apply(self, op):
        if op[0] == "bus":
            self.buses.append(op[1])
            self.pcc |= {op[1]} if op[2] == "pcc" else set()
        elif op[0] == "buses":
            self.buses += op[1]
        elif op[0] in ("line", "lines"):
            for f, t in [op[1:3]] if op[0] == "line" else [(f, t) for f, t, s in op[1] if s > 0]:
                self.lines[max(self.lines, default=-1) + 1] = (tuple(sorted((f, t))),)
        elif op[0] in ("drop", "drops"):
            for i in [op[1]] if op[0] == "drop" else op[1]:
                self.buses.remove(i)
                self.pcc.discard(i)
                self.lines = {k: l for k, l in self.lines.items() if i not in l[0]}
        else:
            for k in [op[1]] if op[0] == "dropline" else op[1]:
                del self.lines[k]


def prefixes(start, n):
    out = [[]]
    for _ in range(n):
        nxt = []
        for hist in out:
            m = Shadow(start)
            for c in hist:
                m.apply(menu(m, 0)[c])
            nxt += [hist + [c] for c in range(len(menu(m, 0)))]
        out = nxt
    return out


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    depth = 3 if big else 2
    cases = [[ph, s, h, depth] for ph in (1, 3) for s in START[1] for h in prefixes(s, 2)]
    mats = [[s, h] for s in ("path", "ring") for h in prefixes(s, 2) if big or sum(h) % 3 == 0]
    return [Group("histories", cases, histories), Group("admittance matrix", mats, matrix_case)]
