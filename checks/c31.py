"""C31: the GPU helper functions give the same results as the CPU ones."""
import importlib
import itertools
import sys
import types

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg

from checks.c01 import LAYOUTS, fill, layout
from src.models import matrix_operations as cpu

LEVEL = "exploration"
RULE = ("every matrix shape up to the bound x memory layout x number type x dense or sparse format (csr, csc, coo; unsorted, duplicated and explicit zero "
        "entries), every vector length, every target shape, filled with values that differ at every position, and every matrix over {0,1,-1,i,1+i} "
        "up to 2x2; non-trivial means a distinct result")
ASSUMPTIONS = ["numpy and scipy.sparse stand in for cupy and cupyx.scipy.sparse, which document the same interface",
               "the functions move, negate and zero entries only, so arrays with pairwise different entries stand for all arrays of that shape and type"]


def stand_in():
    """gpu_matrix_operations, imported with numpy and scipy in the place of cupy."""
    names = {"cupy": np}
    for n, m in (("cupyx", None), ("cupyx.scipy", None), ("cupyx.scipy.sparse", sp), ("cupyx.scipy.sparse.linalg", sp.linalg)):
        mod = types.ModuleType(n)
        mod.__path__ = []
        if m is not None:
            mod.__dict__.update({k: v for k, v in m.__dict__.items() if not k.startswith("__")})
        names[n] = mod
    names["cupyx"].scipy = names["cupyx.scipy"]
    names["cupyx.scipy"].sparse = names["cupyx.scipy.sparse"]
    names["cupyx.scipy.sparse"].linalg = names["cupyx.scipy.sparse.linalg"]
    old = {n: sys.modules.get(n) for n in names}
    sys.modules.update(names)
    try:
        return importlib.import_module("src.models.gpu_matrix_operations")
    finally:
        for n, m in old.items():
            if m is None:
                del sys.modules[n]
            else:
                sys.modules[n] = m


gpu = stand_in()


def dense(a):
    return np.asarray(a.toarray() if sp.issparse(a) else a)


def compare(ctx, name, *args):
    kept = [dense(a).copy() if not isinstance(a, tuple) else a for a in args]
    got, want = getattr(gpu, name)(*args), getattr(cpu, name)(*args)
    for a, k in zip(args, kept):
        if not isinstance(a, tuple):
            ctx.equal(dense(a), k, "argument of %s after the call" % name)
    ctx.check(sp.issparse(got) == sp.issparse(want) and (not sp.issparse(got) or got.format == want.format),
              "%s: result is a %s, expected %s" % (name, type(got), type(want)))
    got, want = dense(got), dense(want)
    ctx.check(got.dtype.kind == want.dtype.kind, "%s: number type %s, expected %s" % (name, got.dtype, want.dtype))
    ctx.equal(got, want, name)
    ctx.seen(name, got)
    return got


def matrices(case, ctx):
    r, c, kind, lay = case
    m = layout(fill(r, c, kind, 3), lay)
    v = compare(ctx, "vectorize_matrix", m)
    ctx.equal(v, [m[i, j] for j in range(c) for i in range(r)], "columns of the matrix one after the other")
    ctx.equal(gpu.unvectorize_matrix(v, (r, c)), m, "unvectorize_matrix(vectorize_matrix(m))")
    x = compare(ctx, "make_real_matrix", m)
    ctx.equal(x, np.vstack((np.hstack((np.real(m), -np.imag(m))), np.hstack((np.imag(m), np.real(m))))), "real embedding")
    ctx.equal(gpu.make_complex_matrix(gpu.make_real_matrix(m)), m, "make_complex_matrix(make_real_matrix(m))")
    if r % 2 == 0 and c % 2 == 0 and kind != "complex" and kind != "single":
        compare(ctx, "make_complex_matrix", m)


def vectors(case, ctx):
    n, kind, lay = case
    v = fill(n, 1, kind, 5)[:, 0]
    if lay == "strided":
        b = np.zeros(2 * n, dtype=v.dtype)
        b[::2] = v
        v = b[::2]
    if lay == "reversed":
        v = v[::-1]
    x = compare(ctx, "make_real_vector", v)
    ctx.equal(x, np.concatenate((v.real, v.imag)), "stacked vector")
    ctx.equal(gpu.make_complex_vector(gpu.make_real_vector(v)), v, "make_complex_vector(make_real_vector(v))")
    if kind in ("real", "int") and n % 2 == 0:
        compare(ctx, "make_complex_vector", v)
        ctx.equal(gpu.make_real_vector(gpu.make_complex_vector(v)), v, "make_real_vector(make_complex_vector(v))")
    for r in range(1, n + 1):
        if n % r == 0:
            u = compare(ctx, "unvectorize_matrix", v, (r, n // r))
            ctx.equal(gpu.vectorize_matrix(u), v, "vectorize_matrix(unvectorize_matrix(v))")


def sparse_matrix(m, fmt, form):
    r, c = m.shape
    if form == "plain":
        return sp.coo_matrix(m).asformat(fmt)
    rows, cols = np.divmod(np.arange(r * c)[::-1], c)
    if form == "holes":
        keep = (rows + 2 * cols) % 3 != 0
        return sp.coo_matrix((m[rows[keep], cols[keep]], (rows[keep], cols[keep])), shape=m.shape).asformat(fmt)
    if form == "zeros":  # explicit zeros, reversed order
        return sp.coo_matrix((m[rows, cols] * ((rows + cols) % 2), (rows, cols)), shape=m.shape).asformat(fmt)
    if form == "empty":
        return sp.coo_matrix(m.shape, dtype=m.dtype).asformat(fmt)


def sparses(case, ctx):
    r, c, kind, fmt, form = case
    m = sparse_matrix(fill(r, c, kind, 7), fmt, form)
    d = m.toarray()
    x = compare(ctx, "make_real_matrix", m)
    ctx.equal(x, cpu.make_real_matrix(d), "sparse against dense")
    if fmt != "coo":
        b = gpu.make_complex_matrix(gpu.make_real_matrix(m))
        ctx.equal(dense(b), d, "make_complex_matrix(make_real_matrix(m))")
        if r % 2 == 0 and c % 2 == 0 and kind != "complex":
            compare(ctx, "make_complex_matrix", m)


def tiny(case, ctx):
    r, c, vals = case
    m = np.array([complex(a, b) for a, b in vals]).reshape(r, c)
    compare(ctx, "vectorize_matrix", m)
    compare(ctx, "make_real_matrix", m)
    compare(ctx, "make_real_vector", m.flatten())
    for fmt in ("csr", "csc", "coo"):
        compare(ctx, "make_real_matrix", sp.coo_matrix(m).asformat(fmt))


def groups(tier):
    from mc.core import Group
    k = 5 if tier == "quick" else 8
    kinds = ["complex", "real", "int", "single"]
    mats = [[r, c, t, l] for r in range(1, k + 1) for c in range(1, k + 1) for t in kinds for l in LAYOUTS if l != "matrix"]
    vecs = [[n, t, l] for n in range(1, 2 * k + 3) for t in kinds for l in ("C", "strided", "reversed")]
    spm = [[r, c, t, f, o] for r in range(1, k + 1) for c in range(1, k + 1) for t in ("complex", "real", "single") for f in ("csr", "csc", "coo")
           for o in ("plain", "holes", "zeros", "empty")]
    alph = [(0, 0), (1, 0), (-1, 0), (0, 1), (1, 1)]
    small = [[r, c, list(map(list, v))] for r, c in ((1, 1), (1, 2), (2, 1), (2, 2)) for v in itertools.product(alph, repeat=r * c)]
    return [Group("matrices", mats, matrices), Group("vectors", vecs, vectors), Group("sparse matrices", spm, sparses), Group("small alphabets", small, tiny)]
