"""C09: every node is loaded with exactly its share of randomly drawn households, for every draw."""
import contextlib
import itertools

import numpy as np

from checks.c07 import const, generator
from mc.gen import replaced, unit
from src.simulation import load_profile as lp

LEVEL = "model_checking"
RULE = ("every answer of the owned random generator (every sequence of drawn households for two nodes with up to two "
        "households each, and every constant answer for larger ones), times profile windows, number of nodes, one or three "
        "phases, numpy or csv input; a state is the pair of load matrices")
ASSUMPTIONS = ["household counts avoid exact halves, where rounding direction is a matter of convention",
               "household profiles are linearly independent, so the number of times each was used can be read off the loads"]


@contextlib.contextmanager
def draws(seq, log):
    """np.random.randint (and choice) answer from seq (cyclically), whatever sizes are asked for."""
    pos = [0]

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        k = 1 if size is None else int(np.prod(size))
        vals = []
        for _ in range(k):
            v = low + seq[pos[0] % len(seq)] % (high - low)
            vals.append(v)
            pos[0] += 1
        log.append((low, high, k))
        return vals[0] if size is None else np.array(vals, dtype=dtype).reshape(size)

    real_choice = np.random.choice

    def choice(a, size=None, replace=True, p=None):
        if not replace or p is not None:
            return real_choice(a, size, replace, p)
        if np.ndim(a) == 0:
            return randint(0, a, size)
        return np.asarray(a)[randint(0, len(a), size)]

    with replaced(randint=randint, choice=choice):
        yield


def profiles(rows, homes, salt):
    """Household powers in W (and var): independent columns, some reactive values negative."""
    p = 200 + 800 * unit((rows, homes), salt) + 50 * np.eye(rows, homes)
    return p


def files(rows, homes, fmt, tag="", reactive=None):
    """Both files, of possibly different numbers of households."""
    p, q = profiles(rows, homes, 1), profiles(rows, reactive or homes, 2) * .4
    q[::3] *= -1
    if fmt == "npy":
        np.save("p%s.npy" % tag, p)
        np.save("q%s.npy" % tag, q)
        return p, q, "p%s.npy" % tag, "q%s.npy" % tag
    for a, name in ((p, "p"), (q, "q")):
        with open("%s%s.csv" % (name, tag), "w") as f:
            for r in a:
                f.write(";".join(repr(float(v)) for v in r) + "\n")
    return p, q, "p%s.csv" % tag, "q%s.csv" % tag


def per_home(prof):
    """Average over households of the 90th percentile of their absolute power, MW."""
    cols = []
    for j in range(prof.shape[1]):
        v = sorted(abs(prof[:, j]) / 1e6)
        pos = .9 * (len(v) - 1)
        k = int(np.floor(pos))
        cols.append(v[k] + (v[min(k + 1, len(v) - 1)] - v[k]) * (pos - k))
    return sum(cols) / len(cols)


def call(fmt, af, rf, start, length, total, refs, verbose=False):
    kw = dict(zip(("load_p_reference", "load_q_reference", "load_p_rb", "load_q_rb", "load_p_rc", "load_q_rc"), refs))
    start, length = np.array(start), np.array(length)
    if fmt == "npy":
        return lp.load_profile_from_numpy(af, rf, start, length, verbose=verbose, **kw)
    return lp.load_profile_from_csv(af, rf, start, total - (start + length), verbose=verbose, **kw)


def window(a, start, length):
    length = np.broadcast_to(np.array(length), (len(start),))
    return np.vstack([a[s:s + n] for s, n in zip(start, length)])


def refs_for(counts_p, counts_q, pw, qw):
    """Nominal powers that need the given numbers of households (not exactly at the rounding boundary)."""
    off = [.3, -.3, .1, -.45, .45]
    rp = np.array([(c + off[k % 5] * (c > 0)) * per_home(pw) if c else .3 * per_home(pw) for k, c in enumerate(counts_p)])
    rq = np.array([(c + off[(k + 1) % 5] * (c > 0)) * per_home(qw) if c else 0. for k, c in enumerate(counts_q)])
    return rp, rq


def used(ctx, col, prof, count, what):
    """Number of times each household is part of the load."""
    n, *_ = np.linalg.lstsq(prof / 1e6, col, rcond=None)
    r = np.round(n)
    ctx.close(prof / 1e6 @ r, col, "%s: not a sum of households" % what, rtol=1e-7)
    ctx.check(np.all(r >= 0) and int(round(r.sum())) == count, "%s: %d households, expected %d" % (what, r.sum(), count))
    return [int(v) for v in r]


def draw_case(case, ctx):
    fmt, homes, cp, cq, seq = case
    rows = 8
    p, q, af, rf = files(rows, homes, fmt)
    rp, rq = refs_for(cp, cq, p, q)
    log = []
    with draws(seq, log):
        gp, gq = call(fmt, af, rf, [0], [rows], rows, (rp, rq))
    ctx.check(gp.shape == (rows, len(cp)) and gq.shape == (rows, len(cp)), "shapes %s, %s" % (gp.shape, gq.shape))
    tot = np.zeros(homes, dtype=int)
    for i in range(len(cp)):
        tot += used(ctx, gp[:, i], p, cp[i], "active load %d" % i)
        tot += used(ctx, gq[:, i], q, cq[i], "reactive load %d" % i)
    need = sum(cp) + sum(cq)
    want = np.bincount([seq[k % len(seq)] % homes for k in range(need)], minlength=homes)
    ctx.equal(tot, want, "households used, against the draws made")
    ctx.check(all(lo == 0 and hi == homes for lo, hi, k in log if k), "households drawn from %s" % log)
    ctx.seen(gp, gq)
    ctx.transitions += need


def constant_case(case, ctx):
    """Any number of nodes, windows and phases; the generator always answers with household h."""
    fmt, n, h, wins, phases, salt = case
    homes, rows = 5, 24
    p, q, af, rf = files(rows, homes, fmt, "", [7, 5, 3][(salt + n) % 3])
    start, length = wins
    pw, qw = window(p, start, length), window(q, start, length)
    counts = lambda s: [(3 * k + s + salt) % 7 for k in range(n)]
    cs = [counts(s) for s in range(2 * phases)]
    refs = []
    for k in range(phases):
        refs += list(refs_for(cs[2 * k], cs[2 * k + 1], pw, qw))
    keep = [r.copy() for r in refs]
    log = []
    with draws([h], log):
        got = call(fmt, af, rf, start, length, rows, refs)
    ctx.check(len(got) == 2 * phases, "%d matrices" % len(got))
    order = [0, 1] if phases == 1 else [0, 2, 4, 1, 3, 5]  # active of the three phases, then reactive
    for g, k in zip(got, order):
        prof = pw if k % 2 == 0 else qw
        ctx.close(g, np.outer(prof[:, h % prof.shape[1]] / 1e6, cs[k]), "%s load of phase %d" % ("active" if k % 2 == 0 else "reactive", k // 2))
        ctx.seen(g)
    for a, b in zip(refs, keep):
        ctx.equal(a, b, "nominal powers after the call")
    ctx.transitions += 1


def equal_case(case, ctx):
    """csv and numpy inputs give the same loads for the same seed, and every household can be drawn."""
    n, wins, seed, phases, verbose = case
    homes, rows = 4, 20
    p, q, af, rf = files(rows, homes, "npy")
    _, _, ac, rc = files(rows, homes, "csv")
    start, length = wins
    pw, qw = window(p, start, length), window(q, start, length)
    refs = []
    cs = []
    for k in range(phases):
        cs += [[(k + i + seed) % 5 + 2 for i in range(n)], [(k + 2 * i) % 4 + 1 for i in range(n)]]
        refs += list(refs_for(cs[-2], cs[-1], pw, qw))
    np.random.seed(seed)
    a = call("npy", af, rf, start, length, rows, refs, verbose)
    np.random.seed(seed)
    b = call("csv", ac, rc, start, length, rows, refs, verbose)
    np.random.seed(seed)
    c = call("npy", af, rf, start, length, rows, refs)
    order = [0, 1] if phases == 1 else [0, 2, 4, 1, 3, 5]
    for x, y, z, k in zip(a, b, c, order):
        ctx.close(x, y, "csv and numpy loads")
        ctx.close(x, z, "same seed")
        if n and len(pw) >= homes:
            for i in range(n):
                u = used(ctx, x[:, i], pw if k % 2 == 0 else qw, cs[k][i], "load %d" % i)
                for j, v in enumerate(u):
                    if v:
                        ctx.seen("household", j)
        ctx.seen(x)
    ctx.transitions += 1


def coverage_case(case, ctx):
    """Over a fixed set of seeds, each household is drawn by each node."""
    homes, n = case
    more = homes + (1, 0, -1)[n % 3] or 1
    p, q, af, rf = files(12, homes, "npy", "", more)
    rp, rq = refs_for([2] * n, [1] * n, p, q)
    seen = [np.zeros((n, homes), dtype=int), np.zeros((n, more), dtype=int)]
    nodes_differ = False
    for seed in range(60):
        np.random.seed(seed)
        a, b = call("npy", af, rf, [0], [12], 12, (rp, rq))
        for i in range(n):
            seen[0][i] += used(ctx, a[:, i], p, 2, "active load")
            seen[1][i] += used(ctx, b[:, i], q, 1, "reactive load")
        nodes_differ |= n > 1 and not np.allclose(a[:, 0], a[:, 1])
    ctx.check(all(np.all(x > 0) for x in seen), "households never drawn by some node: %s" % [x.tolist() for x in seen])
    ctx.check(n == 1 or homes == 1 or nodes_differ, "all nodes always draw the same households")
    ctx.seen(*seen)


def gaussian_case(case, ctx):
    n, t, sd, z, phases, kind = case
    refs = [.1 * (1 + np.arange(n)) * (1 + k) for k in range(2 * phases)]
    if kind == "signed":   # generation, and loads of a leading power factor
        refs = [r * (-1.) ** (np.arange(n) + k) for k, r in enumerate(refs)]
    keep = [r.copy() for r in refs]
    with generator(const(z)):
        got = lp.generate_gaussian_load(sd, t, *refs)
    ctx.check(len(got) == 2 * phases, "%d matrices" % len(got))
    for g, r in zip(got, refs):
        ctx.check(np.shape(g) == (t, n), "shape %s" % (np.shape(g),))
        sign = np.where((r < 0) & (np.sign(g - r) == np.sign(r) * np.sign(z)), -1., 1.)   # a negative load may be drawn either way
        ctx.close(g, r + np.abs(r) * sign * sd * z, "gaussian load")
        ctx.seen(g)
    for a, b in zip(refs, keep):
        ctx.equal(a, b, "nominal powers after the call")
    if sd:
        np.random.seed(3)
        vals = np.concatenate([((g - r) / (sd * np.abs(r))).ravel() for g, r in zip(lp.generate_gaussian_load(sd, t, *refs), refs)])
        ctx.check(vals.size < 2 or np.min(np.diff(np.sort(vals))) > 1e-12, "two loads share the same randomness")
        if vals.size > 300:
            ctx.check(abs(np.mean(vals)) < 5 / np.sqrt(vals.size) and abs(np.std(vals) - 1) < 5 / np.sqrt(2 * vals.size),
                      "mean %g, deviation %g" % (np.mean(vals), np.std(vals)))


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    seqs = []
    for homes in (2, 3):
        cc = [([1, 1], [1, 1]), ([2, 0], [0, 1]), ([0, 2], [1, 0])] + ([([2, 2], [1, 1])] if big else [])
        for cp, cq in cc:
            for s in itertools.product(range(homes), repeat=sum(cp) + sum(cq)):
                seqs += [["npy", homes, cp, cq, list(s)]]
                if sum(s) % 5 == 0:
                    seqs += [["csv", homes, cp, cq, list(s)]]
    wins = [([0], [24]), ([3], [9]), ([0, 12], [6, 6]), ([12, 0], [4, 4]), ([0, 8, 16], [8, 8, 8]), ([5, 5], [7, 2])]
    wine = [([0], [20]), ([4], [10]), ([10, 0], [5, 5])]
    nmax = 4 if not big else 8
    return [
        Group("all draws", seqs, draw_case),
        Group("windows and phases", [[f, n, h, list(w), ph, s] for f in ("npy", "csv") for n in range(1, nmax) for h in (range(7) if f == "npy" else (0, 4, 6))
                                     for w in wins for ph in (1, 3) for s in (range(2) if f == "npy" else [0])], constant_case),
        Group("csv equals numpy", [[n, list(w), s, ph, v] for n in (1, 3) for w in wine for s in range(3 if not big else 10)
                                   for ph in (1, 3) for v in (False, True)], equal_case),
        Group("every household", [[h, n] for h in (1, 2, 3, 6) for n in (1, 2, 4)], coverage_case),
        Group("gaussian", [[n, t, sd, z, ph, k] for n in (1, 2, 5) for t in (1, 2, 40) for sd in (0, .1, 1.) for z in (-1, 0, 2)
                           for ph in (1, 3) for k in ("plain", "signed")], gaussian_case),
    ]
