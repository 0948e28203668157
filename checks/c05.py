"""C05: the quadratic cost handed to the solvers is the smoothed log-density of the prior at the current point."""
import itertools

import numpy as np

from checks import iterlib as il
from checks.priorlib import CLASSES, EXTREME, N, OPS, apply, rows
from mc.gen import real

LEVEL = "exploration"
RULE = ("every pair of terms out of 14 argument patterns, times smoothing parameter, times evaluation point (generic, zero, on "
        "the centre of a term, column vector), for the dense and the sparse prior; every sequence of up to 4 (5) evaluations, added terms, changes of the "
        "point and of the smoothing; non-trivial means distinct quadratic terms")
ASSUMPTIONS = ["the smoothed surrogate documented by the code: weights |Lx - mu|^(2 - order) + smoothing"]


def surrogate(ctx, p, ops, alpha, x, what, rt=1e-9, table=OPS):
    """Evaluates a prior made of the given terms and compares with the definition."""
    L = np.asarray(p.L.toarray() if hasattr(p.L, "toarray") else p.L)
    mu = np.asarray(p.mu)
    order = np.array([r[2] for o in ops for r in rows(table[o], True)], dtype=float)
    ctx.check(L.shape == (len(order), N) and mu.size == len(order), "%s: %d terms of %d" % (what, len(L), len(order)))
    A, b, pen = p.log_distribution(x)
    res = np.abs(L @ x.reshape(-1) - mu)
    w = np.array([(r ** (2 - o) if not (r == 0 and o == 2) else 1.0) for r, o in zip(res, order)]) + alpha
    wantA, wantb = np.zeros((N, N)), np.zeros(N)
    for k in range(len(w)):
        wantA += np.outer(L[k], L[k]) / w[k]
        wantb += L[k] * mu[k] / w[k]
    ctx.close(A, wantA, "%s: quadratic term" % what, rtol=rt)
    ctx.close(np.asarray(b).reshape(-1), wantb, "%s: linear term" % what, rtol=rt)
    ctx.close(float(pen), float(np.sum(w)), "%s: penalty" % what, rtol=rt)
    return A, b, pen


def history(case, ctx):
    """Evaluations between additions of terms and changes of the point, the same array being evaluated again and again."""
    cls, first, depth, alpha = case
    for steps in itertools.product("EFTWAN", repeat=depth):
        if steps[-1] not in "EFN" or not set(steps[:-1]) & set("TWA"):
            continue
        p = CLASSES[cls](smoothness_param=alpha, n=N)
        ops = [first]
        apply(p, OPS[first], True)
        x = real((N,), 3)
        p.log_distribution(x)
        for k, s in enumerate(steps):
            what = "%s after %s" % (cls, "".join(steps[:k + 1]))
            ctx.transitions += 1
            if s == "T":
                ops.append((ops[-1] + 5) % len(OPS))
                apply(p, OPS[ops[-1]], True)
            elif s == "W":  # in place
                x[...] = real((N,), 20 + k)
            elif s == "A":
                alpha_new = p.alpha * 10
                p.alpha = alpha_new
            elif s == "N":
                surrogate(ctx, CLASSES[cls](p.alpha, N, p), ops, p.alpha, x, "copy " + what)
            else:
                surrogate(ctx, p, ops, p.alpha, x if s == "E" else x.copy(), what)
        ctx.new_state(cls, first, steps)


def case_fn(case, ctx):
    ops, alpha, point = case
    out = []
    for cls in ("smooth", "sparse"):
        p = CLASSES[cls](smoothness_param=alpha, n=N)
        for o in ops:
            apply(p, OPS[o], True)
        L = np.asarray(p.L.toarray() if hasattr(p.L, "toarray") else p.L)
        mu = np.asarray(p.mu)
        x = {"generic": real((N,), 3), "zero": np.zeros(N), "column": real((N, 1), 5), "large": 1e6 * real((N,), 4),
             "centre": np.linalg.pinv(L) @ mu}[point]
        x = il.stored(x, len(ops) + ops[0] + ops[-1])
        x0 = x.copy()
        A, b, pen = surrogate(ctx, p, ops, alpha, x, cls, 1e-6 if point == "centre" else 1e-9)
        ctx.equal(x, x0, "evaluation point after the call")
        A2, b2, pen2 = p.log_distribution(x)
        ctx.close(A2, A, "second evaluation", rtol=1e-14)
        ctx.close(b2, b, "second evaluation", rtol=1e-14)
        out.append((np.asarray(A.toarray() if hasattr(A, "toarray") else A), np.asarray(b).reshape(-1), pen))
        ctx.seen(out[-1][0], out[-1][1])
        ctx.transitions += 1
    ctx.close(out[0][0], out[1][0], "dense and sparse quadratic term")
    ctx.close(out[0][1], out[1][1], "dense and sparse linear term")
    ctx.close(out[0][2], out[1][2], "dense and sparse penalty")


def magnitudes(case, ctx):
    """Terms with values and weights far from one, at points far from one."""
    ops, alpha, size = case
    for cls in ("smooth", "sparse"):
        p = CLASSES[cls](smoothness_param=alpha, n=N)
        for o in ops:
            apply(p, EXTREME[o], True)
        x = size * real((N,), 3) if np.isscalar(size) else np.array(size)
        A, b, pen = surrogate(ctx, p, ops, alpha, x, cls, table=EXTREME)
        # the entries of the quadratic term differ in size
        L = np.asarray(p.L.toarray() if hasattr(p.L, "toarray") else p.L)
        res = np.abs(L @ x - np.asarray(p.mu))
        order = np.array([r[2] for o in ops for r in rows(EXTREME[o], True)], dtype=float)
        w = res ** (2 - order) + alpha
        A = np.asarray(A.toarray() if hasattr(A, "toarray") else A)
        top = np.abs(L.T / w) @ np.abs(L)
        ctx.check(np.all(np.abs(A - (L.T / w) @ L) <= 1e-10 * top), lambda: "%s: quadratic term %s, expected %s" % (cls, A, (L.T / w) @ L))
        ctx.check(np.all(np.abs(np.asarray(b).reshape(-1) - (L.T / w) @ np.asarray(p.mu)) <= 1e-10 * np.abs(L.T / w) @ np.abs(np.asarray(p.mu))),
                  lambda: "%s: linear term %s" % (cls, b))
        ctx.seen(A, np.asarray(b).reshape(-1))


def groups(tier):
    from mc.core import Group
    k = range(len(OPS))
    seqs = [list(s) for s in itertools.product(k, repeat=2 if tier == "quick" else 3)] + [[i] for i in k]
    alphas = [1e-5, 1e-8, .5] if tier == "quick" else [1e-5, 1e-8, .5, 1e-2]
    ext = [[list(s), a, z] for d in (1, 2) for s in itertools.product(range(len(EXTREME)), repeat=d) for a in alphas for z in (1, 1e-9, 1e9, [1e-8, 1e8, 3e-4, 2e5])]
    return [Group("magnitudes", ext, magnitudes), Group("log distribution", [[s, a, p] for s in seqs for a in alphas
                                       for p in ("generic", "zero", "column", "large", "centre")], case_fn),
            Group("histories", [[c, f, 4 if tier == "quick" else 5, a] for c in ("smooth", "sparse") for f in k for a in (1e-5, .5)][::1 if tier != "quick" else 3],
                  history)]
