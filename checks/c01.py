"""C01: vectorisation, real/complex embeddings and deletion have exact inverses."""
import itertools

import numpy as np
import scipy.sparse as sp

from mc.gen import cplx, real, subsets
from src.models import matrix_operations as mo

LEVEL = "exploration"
RULE = ("every matrix shape up to the bound, times memory layout, number type and sparse format, filled with values that "
        "differ at every position (so any misplaced entry shows), every matrix over {0,1,-1,i} up to 2x2, and every "
        "subset of deleted positions in every order; non-trivial means a distinct expected result")
ASSUMPTIONS = ["the functions move, negate and zero entries only, so one array with pairwise different entries per "
               "shape stands for all arrays of that shape and type"]


def layout(m, kind):
    if kind == "C":
        return np.ascontiguousarray(m)
    if kind == "F":
        return np.asfortranarray(m)
    if kind == "T":
        return np.ascontiguousarray(m.T).T
    if kind == "strided":
        big = np.zeros((2 * m.shape[0], 3 * m.shape[1]), dtype=m.dtype)
        big[::2, ::3] = m
        return big[::2, ::3]
    if kind == "reversed":
        return np.ascontiguousarray(m[::-1, ::-1])[::-1, ::-1]
    return np.asmatrix(m)


KINDS = ("complex", "real", "int", "complex64", "tiny", "huge", "spread")
SPARSE = ["csr", "csc", "coo", "lil", "dok", "dia", "bsr"]
LAYOUTS = ["C", "F", "T", "strided", "reversed", "matrix"]


def fill(r, c, kind, salt=0):
    if kind == "complex":
        return cplx((r, c), salt)
    if kind == "real":
        return real((r, c), salt)
    if kind == "int":
        return np.arange(1, r * c + 1).reshape((r, c)) * np.where(np.arange(r * c) % 2, -1, 1).reshape((r, c))
    if kind in ("tiny", "huge"):
        return cplx((r, c), salt) * (1e-13 if kind == "tiny" else 1e13)
    if kind == "spread":  # sizes from 1e-15 to 1e15 within one array
        return cplx((r, c), salt) * 10. ** (np.arange(r * c).reshape((r, c)) % 7 * 5 - 15)
    return cplx((r, c), salt).astype(np.complex64)


def vec_case(case, ctx):
    r, c, kind, lay = case
    m = layout(fill(r, c, kind), lay)
    want = [m[i, j] for j in range(c) for i in range(r)]
    v = mo.vectorize_matrix(m)
    ctx.equal(v, np.array(want), "vectorize_matrix")
    ctx.check(np.asarray(v).dtype == m.dtype, "vectorize_matrix changed the number type")
    back = mo.unvectorize_matrix(v, (r, c))
    ctx.equal(back, np.asarray(m), "unvectorize_matrix(vectorize_matrix(m))")
    # any other shape with the same number of elements is filled column by column too
    for r2 in range(1, r * c + 1):
        if (r * c) % r2 == 0:
            u = mo.unvectorize_matrix(np.array(want), (r2, r * c // r2))
            ctx.equal(mo.vectorize_matrix(u), np.array(want), "vectorize_matrix(unvectorize_matrix(v, %d rows))" % r2)
            ctx.check(u.shape == (r2, r * c // r2), "unvectorize_matrix: wrong shape")
    ctx.seen(np.array(want))


def real_vec_case(case, ctx):
    n, kind = case
    z = fill(n, 1, kind)[:, 0]
    rv = mo.make_real_vector(z)
    ctx.equal(rv, np.array([np.real(x) for x in z] + [np.imag(x) for x in z]), "make_real_vector")
    ctx.check(not np.iscomplexobj(rv), "make_real_vector is complex")
    ctx.equal(mo.make_complex_vector(rv), z, "make_complex_vector(make_real_vector(z))")
    x = real((2 * n,), 5)
    ctx.equal(mo.make_real_vector(mo.make_complex_vector(x)), x, "make_real_vector(make_complex_vector(x))")
    ctx.seen(z)


def block(m):
    r, c = m.shape
    out = np.zeros((2 * r, 2 * c))
    for i in range(r):
        for j in range(c):
            out[i, j], out[i + r, j + c] = np.real(m[i, j]), np.real(m[i, j])
            out[i, j + c], out[i + r, j] = -np.imag(m[i, j]), np.imag(m[i, j])
    return out


def real_mat_case(case, ctx):
    r, c, kind, form = case
    m = fill(r, c, kind)
    if form in SPARSE:
        m = m.copy()
        m[(np.arange(r)[:, None] + 2 * np.arange(c)[None, :]) % 3 == 1] = 0
        a = getattr(sp, form + "_matrix")(m)
    else:
        a = layout(m, form)
    want = block(m)
    got = mo.make_real_matrix(a)
    ctx.close(got, want, "make_real_matrix(%s)" % form, rtol=1e-12 if kind != "complex64" else 1e-6)
    if form in SPARSE:
        ctx.check(sp.issparse(got) and got.format == form, "make_real_matrix does not keep the %s format" % form)
        if kind in ("tiny", "spread"):
            ctx.equal(got, want, "make_real_matrix(%s) of small entries" % form)
            ctx.equal(mo.make_complex_matrix(got), m + 0j, "make_complex_matrix(make_real_matrix(m)) in %s format, of small entries" % form)
        ctx.close(a, m, "make_real_matrix changed its input")
        back = mo.make_complex_matrix(got)
        ctx.close(back, m + 0j, "make_complex_matrix(make_real_matrix(m)) in %s format" % form, rtol=1e-12 if kind != "complex64" else 1e-6)
        ctx.close(got, want, "make_complex_matrix changed its input")
    else:
        back = mo.make_complex_matrix(got)
        ctx.equal(np.asarray(back), m + 0j, "make_complex_matrix(make_real_matrix(m))")
    ctx.seen(want, form)


def hom_case(case, ctx):
    r, k, c = case
    a, b, x = cplx((r, k), 1), cplx((k, c), 2), cplx((k,), 3)
    ra, rb = mo.make_real_matrix(a), mo.make_real_matrix(b)
    ctx.close(ra @ rb, mo.make_real_matrix(a @ b), "product of the real forms")
    ctx.close(ra @ mo.make_real_vector(x), mo.make_real_vector(a @ x), "real form of a product with a vector")
    ctx.close(ra.T, mo.make_real_matrix(a.conj().T), "transpose of the real form")
    ctx.close(mo.make_real_matrix(sp.csr_matrix(a)) @ mo.make_real_matrix(sp.csr_matrix(b)),
              mo.make_real_matrix(a @ b), "product of the sparse real forms")
    # vec(A X B) = (B^T kron A) vec(X), the identity every regression of the library relies on
    xm = cplx((k, c), 4)
    ctx.close(np.kron(np.eye(c), a) @ mo.vectorize_matrix(xm), mo.vectorize_matrix(a @ xm), "(I kron A) vec(X)")
    ctx.seen(a @ b)


def small_case(case, ctx):
    r, c, vals = case
    m = np.array([complex(*v) for v in vals]).reshape((r, c))
    ctx.equal(mo.make_real_matrix(m), block(m), "make_real_matrix")
    ctx.equal(mo.make_complex_matrix(block(m)), m, "make_complex_matrix")
    for f in SPARSE:
        ctx.equal(mo.make_real_matrix(getattr(sp, f + "_matrix")(m)), block(m), "make_real_matrix " + f)
        ctx.equal(mo.make_complex_matrix(getattr(sp, f + "_matrix")(block(m))), m, "make_complex_matrix " + f)
    ctx.equal(mo.unvectorize_matrix(mo.vectorize_matrix(m), (r, c)), m, "unvectorize(vectorize)")
    ctx.seen(m)


def undelete_case(case, ctx):
    n, other, idx, axis, kind, as_list = case
    m = fill(n, other, kind, 3) if axis == 0 else fill(other, n, kind, 3)
    keep = np.delete(m, idx, axis=axis)
    before = keep.copy()
    arg = list(idx) if as_list else np.array(idx, dtype=int)
    got = mo.undelete(keep, arg, axis=axis) if axis else mo.undelete(keep, arg)
    want = m.copy()
    if axis == 0:
        want[idx, :] = 0
    else:
        want[:, idx] = 0
    ctx.equal(got, want, "undelete(delete(m, %s), axis=%d)" % (idx, axis))
    ctx.equal(np.delete(got, idx, axis=axis), before, "delete(undelete(m, %s), axis=%d)" % (idx, axis))
    ctx.equal(keep, before, "undelete changed its input")
    if not as_list:
        ctx.equal(arg, np.array(idx, dtype=int), "undelete changed the list of indices")
    ctx.seen(want)


def groups(tier):
    from mc.core import Group
    hi = 5 if tier == "quick" else 9
    und = 6 if tier == "quick" else 8
    alph = [(0, 0), (1, 0), (-1, 0), (0, 1)]
    shapes = [(r, c) for r in range(1, hi + 1) for c in range(1, hi + 1)]
    und_cases = []
    for n in range(1, und + 1):
        for idx in subsets(range(n), 0, n - 1):
            orders = {tuple(idx), tuple(idx[::-1]), tuple(idx[1:] + idx[:1])}
            if len(idx) <= 4:
                orders = set(itertools.permutations(idx))
            for o in sorted(orders):
                for axis in (0, 1):
                    for other in (1, 3):
                        und_cases.append([n, other, list(o), axis, ("complex", "real")[(n + axis) % 2], bool(other == 1)])
    return [
        Group("vectorise", [[r, c, k, l] for r, c in shapes for k in KINDS
                            for l in LAYOUTS], vec_case),
        Group("real vector", [[n, k] for n in range(1, 2 * hi + 1) for k in ("complex", "real", "int", "tiny", "spread")], real_vec_case),
        Group("real matrix", [[r, c, k, f] for r, c in shapes for k in KINDS
                              for f in SPARSE + LAYOUTS], real_mat_case),
        Group("homomorphism", [[r, k, c] for r in range(1, hi + 1) for k in range(1, hi + 1) for c in range(1, hi + 1)],
              hom_case),
        Group("all small matrices", [[r, c, list(v)] for r in (1, 2) for c in (1, 2)
                                     for v in itertools.product(alph, repeat=r * c)], small_case),
        Group("undelete", und_cases, undelete_case),
    ]
