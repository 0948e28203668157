"""C13: simulated voltages and currents satisfy the network equations and the loads at every time step."""
import numpy as np

from checks import netlib
from mc.gen import unit
from src.simulation import run, run3ph

LEVEL = "exploration"
RULE = ("network (shape, order of identifiers, supply position) x load series (all different; one of active and reactive, one phase or one node changing; repeated steps) x number of time steps x voltage dependency of the "
        "loads x phases, run through pandapower's time series and read back; non-trivial means distinct voltage matrices")
ASSUMPTIONS = ["pandapower's solution is accepted within its own power tolerance (1e-8 MVA)", "loads light enough for a unique high-voltage solution"]

SHAPES = {2: [[(0, 1)]], 3: [[(0, 1), (1, 2)], [(0, 1), (0, 2), (1, 2)]], 4: [[(0, 1), (1, 2), (1, 3)], [(0, 1), (1, 2), (2, 3), (3, 0)]],
          5: [[(0, 1), (1, 2), (2, 3), (3, 4)], [(4, 0), (4, 1), (4, 2), (4, 3), (0, 1)]]}
ORDERS = {2: [[1, 2], [11, 3]], 3: [[2, 10, 1], [0, 7, 3]], 4: [[12, 3, 20, 1], [1, 2, 3, 4]], 5: [[5, 4, 3, 2, 1], [10, 9, 1, 100, 2]]}


def supplies(pcc):
    return [pcc] if isinstance(pcc, int) else pcc


def series(t, n, salt, pcc):
    """Loads that differ for every time step and node."""
    p = .01 + .05 * unit((t, n), salt)
    p[:, pcc] = 0
    return p


def vary(loads, k):
    """Loads that repeat in some parts from one step to the next: variant k of the given arrays."""
    loads = [a.copy() for a in loads]
    if k < len(loads):   # only one array changes
        for j, a in enumerate(loads):
            if j != k:
                a[:] = a[0]
    elif k % 2 == 0:   # only one node changes at every step
        for a in loads:
            for t in range(1, len(a)):
                new = a[t, t % a.shape[1]] if a.shape[1] else 0
                a[t] = a[t - 1]
                if a.shape[1]:
                    a[t, t % a.shape[1]] = new
    else:   # pairs of equal steps, and a return to an earlier one
        for a in loads:
            a[1::2] = a[:len(a) - len(a) % 2:2]
            a[-1] = a[0]
    return loads


def demand(p0, v, Z, I):
    m = np.abs(v)
    return p0 * ((100 - Z - I) + Z * m ** 2 + I * m) / 100


def one_phase(case, ctx):
    ids, edges, pcc, t, Z, I = case[:6]
    n = len(ids)
    from src.simulation.simulation import SimulatedNet
    # the nominal loads, replaced by the series, can be zero or have other signs
    bus = netlib.bus1(ids, netlib.signed1(netlib.loads1(n), t + len(edges)), pcc, 4.16, Z, I)
    lines = netlib.lines1(ids, edges, n)
    net = SimulatedNet(bus, lines)
    net.name = "net"
    p, q = series(t, n, 3, pcc), .4 * series(t, n, 4, pcc)
    if len(case) > 6:
        p, q = vary([p, q], case[6])
    p0, q0 = p.copy(), q.copy()
    before = netlib.table_state(net)
    v, i, y = run.simulate_net(net, p, q, verbose=False)
    v, i, y = np.asarray(v), np.asarray(i), np.asarray(y)
    ctx.equal(p, p0, "active loads after the simulation")
    ctx.equal(q, q0, "reactive loads after the simulation")
    ctx.check(netlib.table_state(net) == before, "the network was changed")
    want = netlib.ybus1(ids, lines)
    ctx.check(v.shape == (t, n) and i.shape == (t, n), "shapes %s and %s" % (v.shape, i.shape))
    ctx.close(y, want, "admittance matrix")
    ctx.close(v[:, supplies(pcc)], np.ones((t, len(supplies(pcc)))), "voltage of the supply")
    scale = 1e-9 * np.max(np.abs(want))
    ctx.close(i, v @ want, "currents are those of the lines", atol=scale)
    other = [k for k in range(n) if k not in supplies(pcc)]
    s = demand(p, v, Z, I) + 1j * demand(q, v, Z, I)
    ctx.close((v * i.conj())[:, other], -s[:, other], "power at the loads", atol=3e-7 + scale)
    ctx.close(i.sum(axis=1), np.zeros(t), "currents add up to zero", atol=n * scale)
    ctx.check(np.all(np.abs(v) > .7) and np.all(np.abs(v) < 1.001), "voltages %s" % np.abs(v))
    again = run.simulate_net(net, None, None, verbose=False)
    for a, b in zip(again, (v, i, y)):
        ctx.equal(a, b, "saved simulation")
    ctx.seen(v)


def three_phase(case, ctx):
    ids, edges, pcc, t, typ, passive, symmetric = case[:7]
    n = len(ids)
    net = netlib.net3(ids, edges, netlib.mixed3(netlib.signed3(netlib.loads3(n), t + len(passive)), symmetric), pcc, "net3", typ=typ)
    for k in symmetric[::2]:  # nominal loads, replaced by the series, can be zero
        net.load.loc[net.load.bus == ids[k], "q_mvar" if t % 2 else "p_mw"] = 0.
    own = [k for k in range(n) if k not in supplies(pcc) + symmetric]
    one = [k for k in range(n) if k in supplies(pcc) + symmetric]
    asym = [(.3 if k < 3 else .15) * series(t, n, 5 + k, pcc)[:, own] for k in range(6)]
    for k, ph in passive:
        if k in own:
            asym[ph][:, own.index(k)] = 0
            asym[3 + ph][:, own.index(k)] = 0
    p, q = .8 * series(t, n, 3, pcc)[:, one], .4 * series(t, n, 4, pcc)[:, one]
    if len(case) > 7:
        *asym, p, q = vary(asym + [p, q], case[7])
    keep = [a.copy() for a in asym]
    p0, q0 = p.copy(), q.copy()
    v, i, y = run3ph.simulate_net(net, p, q, asym, verbose=False)
    ctx.equal(p, p0, "symmetric active loads after the simulation")
    ctx.equal(q, q0, "symmetric reactive loads after the simulation")
    v, i, y = np.asarray(v), np.asarray(i), np.asarray(y)
    for a, b in zip(asym, keep):
        ctx.equal(a, b, "loads after the simulation")
    ctx.check(v.shape == (t, 3 * n) and i.shape == (t, 3 * n), "shapes %s and %s" % (v.shape, i.shape))
    # Electrically symmetric lines: y is symmetric except at the external grid
    rows = [3 * k + ph for k in range(n) if k not in supplies(pcc) for ph in range(3)]
    scale = 1e-9 * np.max(np.abs(y[rows, :]))
    ctx.close(y[np.ix_(rows, rows)], y[np.ix_(rows, rows)].T, "symmetry of the admittances", atol=scale)
    ctx.close(i[:, rows], (v @ y)[:, rows], "currents are those of the lines", atol=scale * 10)
    s = np.zeros((t, 3 * n), dtype=complex)
    for ph in range(3):
        s[:, [3 * k + ph for k in own]] = asym[ph] + 1j * asym[3 + ph]
        s[:, [3 * k + ph for k in one]] = (p + 1j * q) / 3
    # runpp_3ph stops at 1e-6 p.u.
    ctx.close((v * i.conj())[:, rows], -s[:, rows], "power at the loads", atol=3e-5)
    turn = np.exp(-2j * np.pi / 3 * np.arange(3))
    for k in supplies(pcc):
        ctx.close(v[:, 3 * k:3 * k + 3], np.tile(turn, (t, 1)), "voltage of the supply", rtol=2e-3)
    ctx.check(np.all(np.abs(v * np.tile(turn, n).conj() - 1) < .25), "phase rotation of the voltages")
    again = run3ph.simulate_net(net, None, None, None, verbose=False)
    for a, b in zip(again, (v, i, y)):
        ctx.equal(a, b, "saved simulation")
    ctx.seen(v)


def template_case(case, ctx):
    name, t = case
    net, bus, lines = run.make_net(name)
    ids = [b.id for b in bus]
    n = len(ids)
    f = .6 + .4 * unit((t, 1), 9)
    p = np.array([b.Pd if b.type == 1 else 0 for b in bus]) * f
    q = np.array([b.Qd if b.type == 1 else 0 for b in bus]) * f
    v, i, y = [np.asarray(a) for a in run.simulate_net(net, p, q, verbose=False)]
    want = netlib.ybus1(ids, lines, bus[0].baseKV)
    pcc = [k for k, b in enumerate(bus) if b.type == 3]
    rest = [k for k in range(n) if k not in pcc]
    scale = 1e-9 * np.max(np.abs(want))
    ctx.close(i, v @ want, "currents are those of the lines", atol=scale)
    ctx.close((v * i.conj())[:, rest], -(p + 1j * q)[:, rest], "power at the loads", atol=1e-6 + scale)
    ctx.close(v[:, pcc], np.ones((t, len(pcc))), "voltage of the supply")
    ctx.seen(v)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    one, k = [], 0
    for n in SHAPES:
        for e in SHAPES[n]:
            for ids in ORDERS[n]:
                for pcc in list(range(n)) + ([[n - 1, 0]] if n > 2 else []):
                    for t, Z, I in ((2, 0, 0), (12, 0, 0), (1, 0, 0), (3, 100, 0), (3, 0, 100), (3, 30, 20)):
                        k += 1
                        if big or k % 8 == 0 or (t == 12 and k % 5 == 0):
                            one.append([ids, e, pcc, t, Z, I])
    three = []
    for n in (2, 3, 4):
        for e in SHAPES[n]:
            for ids in ORDERS[n]:
                for pcc in list(range(n)) + ([[n - 1, 0]] if n > 2 else []):
                    for t, typ, passive in ((2, "OG3", []), (11, "UG3CIGRE", [[0, 1]]), (3, "UG3", [[0, 0], [1, 2]]), (1, "OG3", [[1, 0]])):
                        k += 1
                        if big or k % 8 == 0:
                            others = [x for x in range(n) if x not in supplies(pcc)]
                            three.append([ids, e, pcc, t, typ, passive, ([], others[:1], others[1:], others)[k % 3 if not big else k % 4]])
    temps = [[nm, t] for nm in ("ieee_33", "cigre_mv_feeder1", "bolognani21", "bolognani33", "bolognani56") for t in ((2,) if not big else (2, 20))]
    hold = [[ORDERS[n][0], SHAPES[n][-1], pcc, t, Z, 0, v] for n in (2, 3, 4) for pcc in (0, n - 1) for t in (2, 5) for Z in (0, 40) for v in (0, 1, 8, 9)]
    hold3 = [[ORDERS[n][0], SHAPES[n][-1], 0, t, "UG3", [], sym, v] for n, sym in ((3, []), (4, [1]), (4, [2, 3])) for t in ((3,) if not big else (3, 6)) for v in range(10)]
    if not big:
        hold, hold3 = hold[1::3], hold3[:10:2] + hold3[11::2]
    return [Group("repeated loads", hold, one_phase), Group("repeated loads, three phases", hold3, three_phase), Group("templates", temps, template_case), Group("one phase", one, one_phase), Group("three phases", three, three_phase)]
