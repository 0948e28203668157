"""Small networks described by plain data, and reference values computed from that description only."""
import contextlib
import sys

import numpy as np

from mc.gen import unit
from src.simulation.lines import LineData
from src.simulation.load_profile import BusData


def bus1(ids, loads, pcc, kv=4.16, Z=0, I=0):
    """Bus data of a single-phase network: loads[k] = (P, Q) of bus ids[k]; pcc is a position or a list of positions."""
    pcc = [pcc] if isinstance(pcc, int) else list(pcc)
    return [BusData(i, 3, 5., 5., kv=kv) if k in pcc else
            BusData(i, 1, loads[k][0], loads[k][1], kv=kv, z_perc=Z, i_perc=I) for k, i in enumerate(ids)]


def lines1(ids, edges, salt=0, spread=1.):
    """One line per edge (a pair of positions), each with an impedance of its own."""
    u = unit((max(len(edges), 1), 3), salt)
    return [LineData(ids[a], ids[b], round(.1 + float(u[k, 2]), 3), None, .05 + .4 * spread * float(u[k, 0]),
                     .04 + .3 * spread * float(u[k, 1])) for k, (a, b) in enumerate(edges)]


def stretch(lines, k):
    """Makes some of the lines far shorter or longer than the others (k = 0: none)."""
    for j, l in enumerate(lines):
        f = (1, 10, 1, .001)[(j + k) % 4] if k else 1
        l.length, l.R, l.X = l.length * f, l.R * f, l.X * f
    return lines


def ybus1(ids, lines, kv=4.16):
    """Admittance matrix (per unit of 1 MVA) in bus order, from the line data alone."""
    n = len(ids)
    pos = {i: k for k, i in enumerate(ids)}
    y = np.zeros((n, n), dtype=complex)
    for l in lines:
        if l.status <= 0:
            continue
        a, b = pos[l.start_bus], pos[l.end_bus]
        w = kv * kv / (l.R + 1j * l.X)
        y[a, a] += w
        y[b, b] += w
        y[a, b] -= w
        y[b, a] -= w
    return y


def loads1(n, salt=0, passive=()):
    u = unit((n, 2), salt + 40)
    return [(0., 0.) if k in passive else (round(.01 + .04 * float(u[k, 0]), 4), round(.004 + .02 * float(u[k, 1]), 4))
            for k in range(n)]


SIGNS = [(1, 1), (1, 0), (0, 1), (0, -1), (-1, 1), (1, -1), (-1, 0), (-1, -1)]


def signed1(loads, k=0):
    """The same loads with other signs: capacitors, generators, purely active or reactive ones."""
    return [(p * SIGNS[(k + j) % 8][0], q * SIGNS[(k + j) % 8][1]) for j, (p, q) in enumerate(loads)]


def signed3(loads, k=0):
    return [tuple(zip(*signed1(list(zip(*l)), k + 3 * j))) for j, l in enumerate(loads)]


def loads3(n, salt=0, passive=()):
    """Three active and three reactive powers for each bus; passive holds positions or (position, phase) pairs."""
    u = unit((n, 6), salt + 80)
    out = []
    for k in range(n):
        on = [not (k in passive or (k, ph) in passive) for ph in range(3)]
        out.append((tuple(round(.01 + .03 * float(u[k, ph]), 4) if on[ph] else 0. for ph in range(3)),
                    tuple(round(.004 + .015 * float(u[k, 3 + ph]), 4) if on[ph] else 0. for ph in range(3))))
    return out


def mixed3(loads, symmetric):
    """The loads at some positions as one symmetric load over the three phases."""
    return [(round(sum(p), 4), round(sum(q), 4)) if k in symmetric else (p, q) for k, (p, q) in enumerate(loads)]


def lines3(ids, edges, typ="OG3"):
    return [LineData(ids[a], ids[b], round(.1 + .05 * k, 3), typ) for k, (a, b) in enumerate(edges)]


def net1(ids, edges, loads, pcc, name="net", salt=0, kv=4.16, long=0):
    from src.simulation.simulation import SimulatedNet
    net = SimulatedNet(bus1(ids, loads, pcc, kv), stretch(lines1(ids, edges, salt), long))
    net.name = name
    return net


def net3(ids, edges, loads, pcc, name="net", kv=4.16, typ="OG3", long=0):
    from src.simulation.net_templates_3ph import ieee123_types
    from src.simulation.simulation_3ph import SimulatedNet3P
    net = SimulatedNet3P(ieee123_types, bus1(ids, loads, pcc, kv), stretch(lines3(ids, edges, typ), long))
    net.name = name
    return net


IDS = [[1, 2, 3], [2, 10, 1], [0, 7, 3], [12, 3, 20, 1], [5, 4, 3, 2, 1], [10, 9, 1, 100, 2]]


@contextlib.contextmanager
def setconf(section, **values):
    """Changes configuration values, also where a module of the project imported one by name."""
    import importlib
    mod = importlib.import_module("conf." + section)
    saved = []
    for name, v in values.items():
        old = getattr(mod, name)
        for m in list(sys.modules.values()):
            if m is mod or (getattr(m, "__name__", "").split(".")[0] in
                            ("src", "simulate_network", "identify_network", "plot_results")
                            and getattr(m, name, None) is old and name in vars(m)):
                saved.append((m, name, old))
                setattr(m, name, v)
    try:
        yield
    finally:
        for m, name, old in saved:
            setattr(m, name, old)


_cache = {}


def cached(make, *args):
    """Networks are expensive to build and are not changed by the stages (which C21 checks)."""
    key = (make.__name__, repr(args))
    if key not in _cache:
        _cache[key] = make(*args)
    return _cache[key]


def table_state(net):
    """The parts of a network a user can see, to tell whether it changed."""
    out = []
    for t in ("bus", "line", "load", "asymmetric_load", "ext_grid"):
        df = net[t]
        out.append((t, list(df.columns), df.index.tolist(), df.values.tolist()))
    return repr(out)
