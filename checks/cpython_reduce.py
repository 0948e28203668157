"""Run by C16 under CPython, where sets have another order than under PyPy: python cpython_reduce.py REPO N

Eliminates every set of nodes from an N-node matrix, and reduces a network with every set of hidden nodes;
prints the number of comparisons and the first difference as json. Packages that are not installed here are replaced
by stand-ins: the functions under test only use numpy and the few attributes of the network given below.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import json
import sys
import types


class StandIn(types.ModuleType):
    __path__ = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return type(name, (object,), {"__init__": lambda self, *a, **k: None})


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        return importlib.machinery.ModuleSpec(name, self, is_package=True) if top in MISSING else None

    def create_module(self, spec):
        return StandIn(spec.name)

    def exec_module(self, module):
        pass


MISSING = {m for m in ("pandapower", "pandas", "tqdm", "networkx", "numba", "matplotlib", "click") if importlib.util.find_spec(m) is None}
sys.meta_path.insert(0, Finder())
sys.path.insert(0, sys.argv[1])
try:
    import numpy as np
    from src.simulation import run
    from src.simulation.abstract_network import Net
except Exception as e:  # nothing can be said
    print(json.dumps({"skipped": repr(e)}))
    sys.exit(0)


def bus_matrix(n):
    k = np.arange(n)
    g = -np.cos(k[:, None] * k[None, :] + k[:, None] + k[None, :]) ** 2 - 1j
    g = g - np.diag(np.diag(g))
    return g - np.diag(g.sum(axis=0))


def main(n):
    done, y0 = 0, bus_matrix(n)
    grounded = y0 + np.diag(1. + np.arange(n) * .1)
    for size in range(1, n):
        for gone in itertools.combinations(range(n), size):
            keep = [k for k in range(n) if k not in gone]
            want = np.linalg.inv(np.linalg.inv(grounded)[np.ix_(keep, keep)])
            got = np.asarray(Net.kron_reduction(None, list(gone), grounded))
            done += 1
            if got.shape != want.shape or np.max(np.abs(got - want)) > 1e-9 * np.max(np.abs(want)):
                return done, "eliminating %s of %d nodes gives %s instead of %s" % (gone, n, got, want)
    # two samples suffice: the equivalence is checked, not a fit
    for size in range(0, n - 1):
        for hidden in itertools.combinations(range(n), size):
            pcc = n - 1 if (sum(hidden) + size) % 2 else 0
            passive = [k for k in hidden if k != pcc and k % 3 == 1]
            hidden = [k for k in hidden if k != pcc and k % 3 != 1]
            ids = [(7 * k + 3) % 31 + 1 for k in range(n)]
            names = lambda s: [ids[k] for k in s]
            net = types.SimpleNamespace(bus=types.SimpleNamespace(index=np.array(ids)), ext_grid=types.SimpleNamespace(bus=types.SimpleNamespace(values=np.array([ids[pcc]]))),
                                        make_y_bus=lambda: y0.copy(), give_passive_nodes=lambda: (names(passive),) * 3)
            net.kron_reduction = lambda idx, y=None: Net.kron_reduction(net, idx, y)
            gone = sorted(passive + hidden)
            rest = [k for k in range(n) if k not in gone]
            v = 1 + .05 * np.cos(np.arange(4)[:, None] * 3 + 1 + np.arange(n)) + .02j * np.sin(np.arange(4)[:, None] * 5 + 2 * np.arange(n))
            v[:, pcc] = 1
            if gone:
                d = np.diag([.3 + .1j * k if k in hidden else 0 for k in gone])
                v[:, gone] = np.linalg.solve(y0[np.ix_(gone, gone)] - d, -(v[:, rest] @ y0[np.ix_(rest, gone)]).T).T
            i = v @ y0
            for lap in (True, False):
                todel, red = run.reduce_network(net, v, i, names(hidden[::-1]), lap, False)
                keep = rest if lap else [k for k in rest if k != pcc]
                red = np.asarray(red)
                done += 1
                if sorted(set(range(n)) - set(todel)) != keep:
                    return done, "hidden %s, passive %s: %s removed" % (hidden, passive, todel)
                a, b = np.delete(v, todel, axis=1), np.delete(i, todel, axis=1)
                if not lap:
                    a, b = a - a.mean(axis=0), b - b.mean(axis=0)
                if red.shape != (len(keep),) * 2 or np.max(np.abs(a @ red - b), initial=0) > 1e-9 * np.max(np.abs(y0)):
                    return done, "hidden %s, passive %s of %d nodes, supply %d: currents differ" % (hidden, passive, n, pcc)
    return done, None


if __name__ == "__main__":
    try:
        done, bad = main(int(sys.argv[2]))
        print(json.dumps({"done": done, "bad": bad}))
    except Exception as e:  # it asks more of the stand-ins than they have; the other groups of C16 see real failures
        print(json.dumps({"skipped": repr(e)}))
