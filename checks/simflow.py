"""Runs the simulate command on small networks: real code except for the power flow, which is solved linearly."""
import contextlib
import os

import numpy as np
import pandas as pd

from checks import netlib
from src.simulation import net_templates, net_templates_3ph
from src.simulation import simulation as s1
from src.simulation import simulation_3ph as s3
from src.simulation.lines import LineData

# identifiers, lines (positions), supply (position), passive positions
SHAPES = {"tinya": ([2, 10, 1, 7], [(0, 1), (1, 2), (1, 3)], 2, (1,)),
          "tinyb": ([5, 3, 12], [(0, 1), (1, 2)], 0, ()),
          "tinyc": ([1, 2, 3, 4, 11], [(0, 1), (1, 2), (2, 3), (3, 4), (0, 2)], 4, (0,))}


def install():
    for name, (ids, edges, pcc, passive) in SHAPES.items():
        n = len(ids)
        setattr(net_templates, name + "_bus", netlib.bus1(ids, netlib.loads1(n, n, passive), pcc))
        setattr(net_templates, name + "_net", netlib.lines1(ids, edges, n))
        loads = netlib.loads3(n, n, passive)
        loads[pcc] = (5., 5.)
        setattr(net_templates_3ph, name + "_bus", netlib.bus1(ids, loads, pcc))
        setattr(net_templates_3ph, name + "_net", netlib.lines3(ids, edges))


install()
_ymem = {}


def _y(net):
    """The network's admittance matrix, computed once for the stub."""
    key = (type(net).__name__, netlib.table_state(net))
    if key not in _ymem:
        _ymem[key] = np.asarray(net.make_y_bus())
    return _ymem[key]


def solve(y, inj, pccs, vp):
    """Voltages such that the currents at the other nodes are inj (rows are instants)."""
    n = len(y)
    o = [k for k in range(n) if k not in pccs]
    v = np.zeros((len(inj), n), dtype=complex)
    v[:, pccs] = vp
    v[:, o] = np.linalg.solve(y[np.ix_(o, o)].T, (inj[:, o] - v[:, pccs] @ y[np.ix_(pccs, o)]).T).T
    return v


def linear1(net, load_p, load_q):
    ids = net.bus.index.tolist()
    s = np.zeros((len(load_p), len(ids)), dtype=complex)
    for k, b in enumerate(net.load.bus.values):
        s[:, ids.index(b)] += np.asarray(load_p)[:, k] - 1j * np.asarray(load_q)[:, k]
    pccs = [ids.index(b) for b in net.ext_grid.bus.values]
    return solve(_y(net), -s, pccs, 1.)


def linear3(net, asym):
    ids = net.bus.index.tolist()
    t = len(asym[0])
    s = np.zeros((t, 3 * len(ids)), dtype=complex)
    for k, b in enumerate(net.asymmetric_load.bus.values):
        for ph in range(3):
            s[:, 3 * ids.index(b) + ph] += (np.asarray(asym[ph])[:, k] - 1j * np.asarray(asym[3 + ph])[:, k]) * np.exp(-2j * np.pi / 3 * ph)
    pccs = [3 * ids.index(b) + ph for b in net.ext_grid.bus.values for ph in range(3)]
    return solve(_y(net), -s, pccs, np.tile(np.exp(-2j * np.pi / 3 * np.arange(3)), len(pccs) // 3))


@contextlib.contextmanager
def linear_power_flow():
    saved = s1.SimulatedNet.run, s3.SimulatedNet3P.run

    def run1(self, load_p, load_q, *a, **kw):
        v = linear1(self, load_p, load_q)
        f = lambda x: pd.DataFrame(x, columns=[str(b) for b in self.bus.index])
        self.sim_result = s1.SimulationResult(vm_pu=f(np.abs(v)), va_degree=f(np.rad2deg(np.angle(v))), p_mw=f(0 * np.abs(v)),
                                              q_mvar=f(0 * np.abs(v)), loading_percent=None, result_path=None)
        return self

    def run3(self, load_p, load_q, asym_load=None, *a, **kw):
        v = linear3(self, asym_load)
        cols = {}
        for ph, c in enumerate("abc"):
            x = v[:, ph::3]
            for name, d in (("vm_%s_pu", np.abs(x)), ("va_%s_degree", np.rad2deg(np.angle(x))), ("p_%s_mw", 0 * np.abs(x)), ("q_%s_mvar", 0 * np.abs(x))):
                cols[name % c] = pd.DataFrame(d, columns=[str(b) for b in self.bus.index])
        self.sim_result = s3.SimulationResult3P(result_path=None, **cols)
        return self

    s1.SimulatedNet.run, s3.SimulatedNet3P.run = run1, run3
    try:
        yield
    finally:
        s1.SimulatedNet.run, s3.SimulatedNet3P.run = saved


LEVELS = {"lo": dict(voltage_magnitude_sd=1e-4, current_magnitude_sd=2e-2, voltage_phase_sd=2e-4, current_phase_sd=3e-4),
          "hi": dict(voltage_magnitude_sd=1e-3, current_magnitude_sd=1e-1, voltage_phase_sd=2e-3, current_phase_sd=1e-3),
          "no": dict(voltage_magnitude_sd=0., current_magnitude_sd=0., voltage_phase_sd=0., current_phase_sd=0.)}


def simulate(args, level="lo", hidden=(), constant=True, seed=None, steps=90, fmeas=1 / 60., days=1, factor=4):
    """Runs the command line of simulate_network.py in the current directory."""
    import simulate_network
    vals = dict(LEVELS[level], hidden_nodes=list(hidden), constant_load_hidden_nodes=constant, time_steps=steps,
                measurement_frequency=fmeas, days=days, safety_factor=factor, selected_weeks=np.array([0]))
    with contextlib.ExitStack() as st:
        st.enter_context(linear_power_flow())
        st.enter_context(netlib.setconf("simulation", **vals))
        if seed is not None:
            st.enter_context(netlib.setconf("conf", seed=seed))
        try:
            simulate_network.simulate.main([str(a) for a in args], standalone_mode=False)
        except SystemExit as e:
            return e.code
    return None


OUT = "data/simulations_output"


def read(name):
    with np.load(os.path.join(OUT, name + ".npz")) as f:
        return {k: f[k] for k in f.files}


def snapshot():
    out = {}
    for d, _, files in os.walk("data"):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[p] = h.read()
    return out


def restore(snap):
    for d, _, files in os.walk("data"):
        for f in files:
            if os.path.join(d, f) not in snap:
                os.remove(os.path.join(d, f))
    for p, b in snap.items():
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as h:
            h.write(b)
