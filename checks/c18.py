"""C18: conversions between phase and sequence values are the symmetrical-component transform, node by node, and invert exactly."""
import numpy as np

from checks import iterlib as il
from mc.gen import cplx, graphs, real
from src.simulation import lines as ln

LEVEL = "exploration"
RULE = ("every basis element of the spaces of admittance matrices and measurements up to the bound, generic ones of larger size, of scales from 1e-12 to 1e12 and with small imaginary parts, in every memory layout, and "
        "every balanced network on a connected graph; non-trivial means distinct results")
ASSUMPTIONS = ["row vectors of measurements, three phases of a node next to each other"]

A = np.exp(2j * np.pi / 3)


def seq_of(x):
    """Zero, positive and negative sequence of the three phases, node by node."""
    out = np.zeros_like(x, dtype=complex)
    for k in range(x.shape[1] // 3):
        a, b, c = x[:, 3 * k], x[:, 3 * k + 1], x[:, 3 * k + 2]
        out[:, 3 * k] = (a + b + c) / 3
        out[:, 3 * k + 1] = (a + A * b + A ** 2 * c) / 3
        out[:, 3 * k + 2] = (a + A ** 2 * b + A * c) / 3
    return out


def phase_of(s):
    out = np.zeros_like(s, dtype=complex)
    for k in range(s.shape[1] // 3):
        z, p, n = s[:, 3 * k], s[:, 3 * k + 1], s[:, 3 * k + 2]
        out[:, 3 * k] = z + p + n
        out[:, 3 * k + 1] = z + A ** 2 * p + A * n
        out[:, 3 * k + 2] = z + A * p + A ** 2 * n
    return out


def adm_seq(y):
    """Sequence currents (columns) caused by unit sequence voltages: column convention i = y v."""
    n = y.shape[0]
    return seq_of((y @ phase_of(np.eye(n, dtype=complex)).T).T).T


def adm_phase(y):
    n = y.shape[0]
    return phase_of((y @ seq_of(np.eye(n, dtype=complex)).T).T).T


def judge(ctx, got, want, what):
    """Real and imaginary parts are each judged at the scale of the largest one among them, whatever that scale is,
    and small columns (a small sequence, a small phase) at the scale of their own block of three."""
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, "%s of shape %s instead of %s" % (what, got.shape, want.shape))
    top = np.max(np.abs(want))
    ctx.check(np.max(np.abs(got - want)) <= 1e-11 * top, "%s differ by %g at a scale of %g" % (what, np.max(np.abs(got - want)), top))


def measure_case(case, ctx):
    t, n, kind, arg = case[:4]
    x = basis((t, 3 * n), kind, arg) * (case[4] if len(case) > 4 else 1)
    if len(case) > 5:   # nearly real or nearly imaginary values: what is small must survive
        x = x.real + case[5] * 1j * x.imag
    for k in range(1, 4):   # in other storage
        judge(ctx, ln.measurement_phase_to_sequence(il.stored(x, k)), seq_of(x), "sequence measurements, storage %d" % k)
        judge(ctx, ln.measurement_sequence_to_phase(il.stored(x, k)), phase_of(x), "phase measurements, storage %d" % k)
    x0 = x.copy()
    s = ln.measurement_phase_to_sequence(x)
    judge(ctx, s, seq_of(x), "sequence measurements")
    p = ln.measurement_sequence_to_phase(x)
    judge(ctx, p, phase_of(x), "phase measurements")
    judge(ctx, ln.measurement_sequence_to_phase(s), x, "to sequence and back")
    judge(ctx, ln.measurement_phase_to_sequence(p), x, "to phase and back")
    if len(case) > 5:
        small = balanced(t, n, case[5])
        judge(ctx, ln.measurement_phase_to_sequence(small), seq_of(small), "sequence measurements of nearly balanced phases")
        s = np.asarray(ln.measurement_phase_to_sequence(small)) - seq_of(balanced(t, n, 0))
        ctx.check(np.max(np.abs(s.imag - case[5])) <= 1e-6 * case[5] + 1e-14, "a small sequence is lost")
    ctx.equal(x, x0, "measurements after the calls")
    ctx.seen(np.asarray(s))


def admittance_case(case, ctx):
    n, kind, arg = case[:3]
    y = basis((3 * n, 3 * n), kind, arg) * (case[3] if len(case) > 3 else 1)
    if len(case) > 4:
        y = y.real + case[4] * 1j * y.imag
    y0 = y.copy()
    for m in [y, np.asmatrix(y)] + [il.stored(y, k) for k in range(1, 4)]:
        s = ln.admittance_phase_to_sequence(m)
        judge(ctx, s, adm_seq(y), "sequence admittances")
        p = ln.admittance_sequence_to_phase(m)
        judge(ctx, p, adm_phase(y), "phase admittances")
        judge(ctx, ln.admittance_sequence_to_phase(s), y, "to sequence and back")
        judge(ctx, ln.admittance_phase_to_sequence(p), y, "to phase and back")
    ctx.equal(y, y0, "admittances after the calls")
    ctx.seen(np.asarray(s))


def balanced(t, n, small):
    """Phases whose sequences are all real but for a small imaginary part."""
    return phase_of(np.tile([0., 1., .5], (t, n)) * (1 + .1 * np.arange(t))[:, None] + 1j * small)


def basis(shape, kind, arg):
    if kind == "unit":
        x = np.zeros(shape, dtype=complex)
        x.flat[arg[0]] = arg[1] + 1j * arg[2]
        return x
    if kind == "real":
        return real(shape, arg[0])
    return cplx(shape, arg[0])


def ohm_case(case, ctx):
    """Ohm's law holds in sequence values when it holds in phase values, for networks of balanced lines."""
    n, es, t = case
    y = np.zeros((3 * n, 3 * n), dtype=complex)
    w = cplx((max(len(es), 1), 2), n)
    for k, (a, b) in enumerate(es):
        blk = w[k, 0] * np.eye(3) + w[k, 1] * np.ones((3, 3))
        for i, j, s in ((a, a, 1), (b, b, 1), (a, b, -1), (b, a, -1)):
            y[3 * i:3 * i + 3, 3 * j:3 * j + 3] += s * blk
    v = cplx((t, 3 * n), t)
    i = v @ y
    ys = ln.admittance_phase_to_sequence(y)
    ctx.close(ln.measurement_phase_to_sequence(v) @ ys, ln.measurement_phase_to_sequence(i), "sequence currents")
    for p in range(3):
        for q in range(3):
            if p != q:
                ctx.close(np.asarray(ys)[p::3, q::3], np.zeros((n, n)), "coupling of sequences", atol=1e-9)
    for ph in range(3):
        vs = ln.measurement_phase_to_sequence(v)
        ctx.close(vs[:, ph::3] @ np.asarray(ys)[ph::3, ph::3], ln.measurement_phase_to_sequence(i)[:, ph::3], "one sequence alone")
    ctx.seen(np.asarray(ys))


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    meas = [[t, n, "unit", [k, 1, 0]] for t in (1, 2, 3) for n in (1, 2, 3) for k in range(t * 3 * n)]
    meas += [[t, n, kind, [s]] for t in (1, 2, 5, 20) for n in (1, 2, 3, 7, 56) for kind in ("real", "cplx") for s in range(3)]
    adm = [[n, "unit", [k, 1, 0]] for n in (1, 2, 3) + ((4, 5) if big else ()) for k in range(9 * n * n)]
    adm += [[n, kind, [s]] for n in (1, 2, 3, 7, 20) for kind in ("real", "cplx") for s in range(3)]
    for scale in (1e-12, 1e-6, 1e6, 1e12):
        meas += [[t, n, "cplx", [1], scale] for t in (1, 3) for n in (1, 2, 7)] + [[2, n, "unit", [k, 1, .5], scale] for n in (1, 2) for k in range(6 * n)]
        adm += [[n, "cplx", [1], scale] for n in (1, 2, 7)] + [[1, "unit", [k, 1, .5], scale] for k in range(9)]
    for small in (1e-3, 1e-6, 1e-9):
        meas += [[t, n, "cplx", [2], scale, small] for t in (1, 3) for n in (1, 2, 7) for scale in (1, 1e-3)]
        adm += [[n, "cplx", [2], scale, small] for n in (1, 2, 7) for scale in (1, 1e-3)]
    ohm = [[n, es, t] for n in (1, 2, 3, 4) + ((5,) if big else ()) for es in (graphs(n) if n > 1 else [[]]) for t in (1, 4)]
    return [Group("measurements", meas, measure_case), Group("admittances", adm, admittance_case), Group("ohm", ohm, ohm_case)]
