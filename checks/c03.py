"""C03: the reported error metrics equal their definitions for every pair of estimates."""
import itertools
import math

import numpy as np

from mc.gen import cplx, real
from src.models import error_metrics as em

LEVEL = "exploration"
RULE = ("every pair of true and estimated arrays over a small alphabet up to 3 elements (vectors) and 2x2 (matrices), and "
        "generic arrays of every shape up to the bound in every memory layout; non-trivial means a distinct 4-tuple of metrics")
ASSUMPTIONS = ["an all-zero true array has no relative error and is left out"]


def oracle(y, h):
    y, h = [complex(v) for v in np.asarray(y).flatten()], [complex(v) for v in np.asarray(h).flatten()]
    d2 = [abs(a - b) ** 2 for a, b in zip(y, h)]
    n2 = math.sqrt(sum(abs(a) ** 2 for a in y))
    fro = math.sqrt(sum(d2))
    nz = math.sqrt(sum(abs(abs(a - b)) ** 2 for a, b in zip(y, h) if a != 0))
    return fro, max(abs(a - b) for a, b in zip(y, h)), fro / n2 * 100, nz / n2 * 100


def compare(y, h, ctx):
    y0, h0 = np.array(y), np.array(h)
    want = oracle(y, h)
    m = em.error_metrics(y, h)
    got = (m.fro_error, m.max_error, m.rrms_error, m.map_error)
    single = (em.fro_error(y, h), em.max_error(y, h), em.rrms_error(y, h), em.map_error(y, h))
    for g, s, w, name in zip(got, single, want, ("Frobenius", "maximum", "relative", "known-topology")):
        ctx.check(abs(g - w) <= 1e-9 * w and abs(s - w) <= 1e-9 * w,
                  lambda: "%s error %r (alone %r), expected %r, of %s and %s" % (name, g, s, w, y, h))
    ctx.equal(np.array(y), y0, "true values after the call")
    ctx.equal(np.array(h), h0, "estimates after the call")
    ctx.seen(np.array(want))


def alphabet_case(case, ctx):
    shape, y = case
    alph = ALPH if int(np.prod(shape)) < 4 else ALPH[:4]
    y = np.array([complex(*v) for v in y]).reshape(shape)
    if not np.any(y):
        return
    for h in itertools.product(alph, repeat=y.size):
        compare(y, np.array([complex(*v) for v in h]).reshape(shape), ctx)
    if not np.any(y.imag):
        for h in itertools.product([-1., 0., 2.], repeat=y.size):
            compare(y.real.copy(), np.array(h).reshape(shape), ctx)


def shape_case(case, ctx):
    shape, kind, zeros = case
    f = cplx if kind != "real" else real
    y, h = f(tuple(shape), 1), f(tuple(shape), 2)
    if zeros:
        k = np.arange(y.size).reshape(y.shape)
        y = np.where(k % 3 == 1, 0, y)
        h = np.where(k % 5 == 2, 0, h)
    if not np.any(y):
        return
    if kind == "matrix":
        if y.ndim == 2:
            compare(np.asmatrix(y), np.asmatrix(h), ctx)
            compare(np.asmatrix(y), h, ctx)
    elif kind == "F":
        compare(np.asfortranarray(y), h, ctx)
    elif kind == "int":
        compare(np.round(10 * y.real).astype(int) + 1, np.round(10 * h.real).astype(int), ctx)
    else:
        compare(y, h, ctx)
        compare(y, y.copy(), ctx)
        compare(1e-9 * y, 1e-9 * h, ctx)
        compare(1e9 * y, h, ctx)
        a, b = em.error_metrics(y, h), em.error_metrics(3 * y, 3 * h)
        ctx.close([b.fro_error, b.max_error, b.rrms_error, b.map_error],
                  [3 * a.fro_error, 3 * a.max_error, a.rrms_error, a.map_error], "metrics after scaling by 3")


def empty_case(case, ctx):
    """Absolute errors of no entry are zero, as when a network without zero entries is reported."""
    y = np.zeros(case, dtype=complex)
    ctx.check(em.fro_error(y, y) == 0 and em.max_error(y, y) == 0, "errors of no entry")
    m = em.error_metrics(y, y)
    ctx.check(m.fro_error == 0 and m.max_error == 0, "errors of no entry in the table")
    ctx.seen(case)


ALPH = [(0, 0), (1, 0), (0, 1), (-2, 0), (3, -4)]


def groups(tier):
    from mc.core import Group
    al = []
    for shape in ([1], [2], [3], [1, 2], [2, 1], [2, 2]):
        k = int(np.prod(shape))
        al += [[shape, list(v)] for v in itertools.product(ALPH if k < 4 else ALPH[:4], repeat=k)]
    hi = 6 if tier == "quick" else 14
    shapes = [[k] for k in range(1, 3 * hi)] + [[r, c] for r in range(1, hi) for c in range(1, hi)]
    return [Group("empty", [[0], [0, 3], [3, 0], [0, 0]], empty_case), Group("alphabet", al, alphabet_case),
            Group("shapes", [[s, k, z] for s in shapes for k in ("complex", "real", "F", "matrix", "int") for z in (False, True)],
                  shape_case)]
