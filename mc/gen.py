"""Fixed, structure-free numbers: every position of an array gets a value of its own."""
import contextlib
import itertools
import sys

import numpy as np


def unit(shape, salt=0):
    """Values in (0, 1), all different, a fixed function of position and salt."""
    n = int(np.prod(shape))
    k = np.arange(1, n + 1, dtype=float)
    v = np.sin(k * 12.9898 + salt * 78.233 + 0.5) * 43758.5453
    return (v - np.floor(v)).reshape(shape)


def real(shape, salt=0):
    return 2 * unit(shape, salt) - 1


def cplx(shape, salt=0):
    return real(shape, 2 * salt + 1000) + 1j * real(shape, 2 * salt + 1001)


def subsets(items, kmin=0, kmax=None):
    items = list(items)
    kmax = len(items) if kmax is None else kmax
    for k in range(kmin, kmax + 1):
        for c in itertools.combinations(items, k):
            yield list(c)


def graphs(n, connected=True):
    """Every labelled simple graph on nodes 0..n-1, as a list of edges."""
    pairs = list(itertools.combinations(range(n), 2))
    for es in subsets(pairs):
        if connected and not is_connected(n, es):
            continue
        yield [list(e) for e in es]


def is_connected(n, edges):
    seen, todo = {0}, [0]
    while todo:
        a = todo.pop()
        for e in edges:
            for u, v in ((e[0], e[1]), (e[1], e[0])):
                if u == a and v not in seen:
                    seen.add(v)
                    todo.append(v)
    return len(seen) == n


def trees(n):
    """Every labelled tree on nodes 0..n-1 (Pruefer codes)."""
    if n == 1:
        yield []
        return
    if n == 2:
        yield [[0, 1]]
        return
    for code in itertools.product(range(n), repeat=n - 2):
        deg = [1] * n
        for c in code:
            deg[c] += 1
        edges = []
        for c in code:
            for u in range(n):
                if deg[u] == 1:
                    edges.append([min(u, c), max(u, c)])
                    deg[u] -= 1
                    deg[c] -= 1
                    break
        u, v = [k for k in range(n) if deg[k] == 1]
        edges.append([u, v])
        yield sorted(edges)


def laplacian(n, edges, weights):
    y = np.zeros((n, n), dtype=complex)
    for (a, b), w in zip(edges, weights):
        y[a, a] += w
        y[b, b] += w
        y[a, b] -= w
        y[b, a] -= w
    return y


@contextlib.contextmanager
def replaced(**functions):
    """Replaces functions of np.random, also where a module of the project refers to one by a name of its own."""
    done = []

    class State(np.random.RandomState):
        """Generators made meanwhile answer the same way."""

    class Generator(np.random.Generator):
        pass

    for name, new in functions.items():
        setattr(State, name, staticmethod(new))
        setattr(Generator, {"randint": "integers"}.get(name, name), staticmethod(new))
    functions = dict(functions, RandomState=State, default_rng=lambda *seed: Generator(np.random.PCG64(*seed)))
    for name, new in functions.items():
        old = getattr(np.random, name)
        for m in [np.random] + [m for k, m in list(sys.modules.items()) if k.split(".")[0] == "src" and m is not None]:
            for k, v in list(vars(m).items()):
                if v is old:
                    done.append((m, k, v))
                    setattr(m, k, new)
    try:
        yield
    finally:
        for m, k, v in done:
            setattr(m, k, v)
