"""C04: a prior is exactly the sequence of terms added to it, whatever the history of additions and copies."""
import itertools

import numpy as np

from checks.priorlib import CLASSES, EXTREME, N, OPS, apply, compare, rows

LEVEL = "model_checking"
RULE = ("every sequence of additions up to the depth bound over 19 argument patterns of the six kinds of terms, for the base, "
        "dense and sparse priors, and every point of the sequence at which the prior is copied and the copy and the original "
        "continue differently; a state is the observed (terms, centres, orders) of every prior of the history")
ASSUMPTIONS = ["4 parameters; indices within one row are distinct, as in every use in the repository"]


def history_case(case, ctx):
    cls, ops, form = case
    smooth = cls != "base"
    model, prior = [], CLASSES[cls](n=N)
    compare(ctx, prior, model, smooth, "empty prior")
    for o in ops:
        apply(prior, OPS[o], smooth, form)
        model += rows(OPS[o], smooth)
        ctx.transitions += 1
        compare(ctx, prior, model, smooth, "after %s" % (OPS[o],))
        ctx.seen(cls, np.asarray(prior.mu), prior.L.toarray() if hasattr(prior.L, "toarray") else prior.L)


def magnitudes(case, ctx):
    """Terms with values and weights far from one."""
    cls, ops = case
    smooth = cls != "base"
    model, prior = [], CLASSES[cls](n=N)
    for o in ops:
        op = EXTREME[o] if o < len(EXTREME) else OPS[o - len(EXTREME)]
        apply(prior, op, smooth)
        model += rows(op, smooth)
        ctx.transitions += 1
        L = prior.L.toarray() if hasattr(prior.L, "toarray") else np.asarray(prior.L)
        ctx.check(L.shape == (len(model), N), "L has shape %s, expected %s" % (L.shape, (len(model), N)))
        for k, (c, m, _, ad) in enumerate(model):
            if not ad:   # entry by entry: the sizes within a row differ
                for g, w in list(zip(L[k], c)) + [(np.asarray(prior.mu)[k], m)]:
                    ctx.check(abs(g - w) <= 1e-12 * abs(w), "term %d: %r, expected %r" % (k, g, w))
        compare(ctx, prior, model, smooth, "after %s" % (op,))
        ctx.seen(cls, np.asarray(prior.mu), L)


def copy_case(case, ctx):
    """original: a then c; copy made after a, continues with b."""
    src, dst, a, b, c = case
    ms, md = src != "base", dst != "base"
    p = CLASSES[src](n=N)
    model = []
    for o in a:
        apply(p, OPS[o], ms)
        model += rows(OPS[o], ms)
    q = CLASSES[dst](n=N, other=p)
    mq = list(model) if ms or not md else [(x, m, 2, ad) for x, m, _, ad in model]
    compare(ctx, q, mq, md, "copy")
    compare(ctx, p, model, ms, "original after it was copied")
    for who, o in (("q", b), ("p", c)):
        if who == "q":
            apply(q, OPS[o], md)
            mq = mq + rows(OPS[o], md)
        else:
            apply(p, OPS[o], ms)
            model = model + rows(OPS[o], ms)
        ctx.transitions += 1
        compare(ctx, q, mq, md, "copy after a term was added to %s" % who)
        compare(ctx, p, model, ms, "original after a term was added to %s" % who)
    r = CLASSES[src](n=N)
    compare(ctx, r, [], ms, "a new prior, after others were filled")
    ctx.seen(src, dst, np.asarray(p.mu), np.asarray(q.mu))


def groups(tier):
    from mc.core import Group
    depth = 3 if tier == "quick" else 4
    k = range(len(OPS))
    hist = [[c, list(s), f] for c in CLASSES for s in itertools.product(k, repeat=2) for f in ("array", "list", "int")]
    hist += [[c, list(s), "array"] for c in ("smooth", "sparse") for s in itertools.product(k, repeat=depth)]
    pairs = [("base", "base"), ("smooth", "smooth"), ("sparse", "sparse"), ("base", "smooth"), ("smooth", "sparse"), ("base", "sparse")]
    step = 3 if tier == "quick" else 1
    cop = [[s, d, list(a), b, c] for s, d in pairs for a in [()] + [(x,) for x in k] for b in k for c in k[::step]]
    ext = [[c, list(s)] for c in CLASSES for d in (1, 2) for s in itertools.product(range(len(EXTREME) + (0 if tier == "quick" else len(OPS))), repeat=d)]
    return [Group("magnitudes", ext, magnitudes), Group("histories", hist, history_case), Group("copies", cop, copy_case)]
