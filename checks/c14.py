"""C14: simulations running at the same time, or started in the same second, each get their own results."""
import datetime as dt
import threading

import numpy as np
import pandas as pd

from checks import netlib
from src.simulation import simulation as s1
from src.simulation import simulation_3ph as s3

LEVEL = "model_checking"
RULE = ("every schedule of two (three) simulations with at most the stated number of preemptions; scheduling points are each time step, each "
        "file written and each file read; the clock is frozen so that all simulations start in the same second; networks of different names, and of the same name and structure after "
        "an earlier simulation; a state is the "
        "sequence of scheduled simulations together with what each of them obtained")
ASSUMPTIONS = ["pandapower's power flow is replaced by a direct function of the loads, so that expected results are known; everything else of the run is real",
               "simulations are preempted at time steps and file operations only"]


class Divergence(BaseException):
    pass


class Scheduler(object):
    """Runs threads one at a time; at every point the schedule says which thread continues."""

    def __init__(self, choices):
        self.choices, self.points, self.cur = list(choices), [], None
        self.lock = threading.Condition()
        self.alive = []
        self.ids = {}

    def point(self):
        tid = self.ids.get(threading.get_ident())
        if tid is None:
            return
        with self.lock:
            self._choose(tid)
            while self.cur != tid:
                self.lock.wait()

    def _choose(self, tid):
        """Enabled threads, the running one first; choice k takes the k-th."""
        enabled = ([tid] if tid in self.alive else []) + sorted(a for a in self.alive if a != tid)
        k = len(self.points)
        c = self.choices[k] if k < len(self.choices) else 0
        if c >= len(enabled):
            raise Divergence("choice %d of %d at point %d" % (c, len(enabled), k))
        self.points.append((len(enabled), tid in self.alive))
        self.cur = enabled[c]
        self.lock.notify_all()

    def run(self, jobs):
        errors, results = [], [None] * len(jobs)

        def body(tid):
            self.ids[threading.get_ident()] = tid
            with self.lock:
                while self.cur != tid:
                    self.lock.wait()
            try:
                results[tid] = jobs[tid]()
            except BaseException as e:
                errors.append((tid, e))
            with self.lock:
                self.alive.remove(tid)
                if self.alive:
                    try:
                        self._choose(tid)
                    except Divergence as e:
                        errors.append((tid, e))
                        self.cur = self.alive[0]
                        self.lock.notify_all()

        self.alive = list(range(len(jobs)))
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
        for t in threads:
            t.start()
        with self.lock:
            self._choose(-1)
        for t in threads:
            t.join(60)
            if t.is_alive():
                raise Divergence("a simulation does not end")
        return results, errors


class Frozen(dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return cls(2022, 2, 3, 4, 5, 6)


def fake_pf(sched):
    def pf(net, **kw):
        sched.point()
        p = net.load.p_mw.loc[net.bus.index].values
        q = net.load.q_mvar.loc[net.bus.index].values
        net["res_bus"] = pd.DataFrame({"vm_pu": 1 - p, "va_degree": -10 * q, "p_mw": p, "q_mvar": q}, index=net.bus.index)
        net["res_line"] = pd.DataFrame({"loading_percent": np.full(len(net.line), p.sum())}, index=net.line.index)
        net["converged"] = True
    return pf


def fake_pf3(sched):
    def pf(net, **kw):
        sched.point()
        cols = {}
        a = net.asymmetric_load.set_index("bus").reindex(net.bus.index).fillna(0)
        for k, ph in enumerate("abc"):
            p, q = a["p_%s_mw" % ph].values.astype(float), a["q_%s_mvar" % ph].values.astype(float)
            cols.update({"vm_%s_pu" % ph: 1 - p, "va_%s_degree" % ph: -120. * k - 10 * q, "p_%s_mw" % ph: p, "q_%s_mvar" % ph: q})
        net["res_bus_3ph"] = pd.DataFrame(cols, index=net.bus.index)
        net["converged"] = True
    return pf


def nets(kind):
    """Three networks; those of kinds "same" have one name and one structure in common."""
    alike = kind.startswith("same")
    if kind in THREE:
        return [netlib.net3([2, 10, 1], [(0, 1), (1, 2)], netlib.loads3(3, k), 2, "net" if alike else "three%d" % k) for k in range(3)]
    return [netlib.net1([2, 10, 1], [(0, 1), (1, 2)], netlib.loads1(3, k), 2, "net" if alike else "one%d" % k) for k in range(3)]


THREE = ("three", "same3")


def loads(k, t=2):
    """Different for each simulation."""
    p = .01 * (1 + k) + .001 * np.arange(3 * t).reshape(t, 3)
    return p, .5 * p


_nets = {}


def expect(kind, k):
    p, q = loads(k)
    if kind not in THREE:
        return {"vm_pu": 1 - p, "va_degree": -10 * q, "p_mw": p, "q_mvar": q}
    out = {}
    for c, ph in enumerate("abc"):
        pp, qq = np.insert((1 + c) * p[:, :2], 2, 0, axis=1), np.insert((1 + c) * q[:, :2], 2, 0, axis=1)
        out.update({"vm_%s_pu" % ph: 1 - pp, "va_%s_degree" % ph: -120. * c - 10 * qq, "p_%s_mw" % ph: pp, "q_%s_mvar" % ph: qq})
    return out


def execute(kind, n, choices):
    """One complete execution under a schedule."""
    if kind not in _nets:
        _nets[kind] = nets(kind)
    sched = Scheduler(choices)
    saved = (pd.DataFrame.to_csv, pd.read_csv, s1.__dict__.get("datetime"), s3.__dict__.get("datetime"))

    def to_csv(self, *a, **kw):
        sched.point()
        return saved[0](self, *a, **kw)

    def read_csv(*a, **kw):
        sched.point()
        return saved[1](*a, **kw)

    def job(k):
        def go():
            p, q = loads(k)
            net = _nets[kind][k]
            if kind not in THREE:
                return net.run(p, q, verbose=False, run=fake_pf(sched)).sim_result
            z = np.zeros((len(p), 1))
            asym = [(1 + c) * p[:, :2] for c in range(3)] + [(1 + c) * q[:, :2] for c in range(3)]
            return net.run(z, z, asym, verbose=False, run=fake_pf3(sched)).sim_result
        return go

    pd.DataFrame.to_csv, pd.read_csv = to_csv, read_csv
    for m, old in ((s1, saved[2]), (s3, saved[3])):
        if old is dt.datetime:
            m.datetime = Frozen
    try:
        if kind.startswith("same"):
            job(2)()  # An earlier simulation, not scheduled
        results, errors = sched.run([job(k) for k in range(n)])
    finally:
        pd.DataFrame.to_csv, pd.read_csv = saved[0], saved[1]
        for m, old in ((s1, saved[2]), (s3, saved[3])):
            if old is not None:
                m.datetime = old
    return sched, results, errors


def judge(ctx, kind, n, choices):
    sched, results, errors = execute(kind, n, choices)
    for tid, e in errors:
        if isinstance(e, Divergence):
            raise RuntimeError("schedule %s cannot be followed: %s" % (choices, e))
        ctx.fail("simulation %d failed under schedule %s: %s: %s" % (tid, choices, type(e).__name__, e))
    for k in range(n):
        for name, want in expect(kind, k).items():
            got = getattr(results[k], name).values
            if got.shape != want.shape or not np.allclose(got, want, atol=1e-9):
                ctx.fail("schedule %s: simulation %d got %s\n%s\nexpected\n%s" % (choices, k, name, got, want))
        ctx.traces += 1
    ctx.new_state(kind, choices)
    ctx.transitions += len(sched.points)
    return sched


def schedule_case(case, ctx):
    """All schedules whose first deviation from the default is the given point."""
    kind, n, first, alt, bound, stride = case
    root = judge(ctx, kind, n, []) if first is None else None
    if first is None:
        again = execute(kind, n, [])[0]
        ctx.check(again.points == root.points, "the same schedule gives other scheduling points")
        return
    explore(ctx, kind, n, [0] * first + [alt], bound, stride)


def explore(ctx, kind, n, choices, bound, stride):
    sched = judge(ctx, kind, n, choices)
    pts = sched.points
    spent = sum(1 for c, p in zip(choices, pts) if c and p[1])
    for i in range(len(choices), len(pts), stride):
        enabled, running = pts[i]
        if spent + (1 if running else 0) > bound:
            continue
        for alt in range(1, enabled):
            explore(ctx, kind, n, choices + [0] * (i - len(choices)) + [alt], bound, stride)


def groups(tier):
    from mc.core import Group
    big = tier != "quick"
    cases = [["one", 2, None, 0, 0, 1], ["three", 2, None, 0, 0, 1], ["one", 3, None, 0, 0, 1], ["same", 2, None, 0, 0, 1],
             ["same3", 2, None, 0, 0, 1]]
    return [Group("default schedule", cases, schedule_case),
            Group("one simulation preempted", plan("one", 2, 2 if big else 1, 1), schedule_case),
            Group("three-phase", plan("three", 2, 2 if big else 1, 1 if big else 3), schedule_case),
            Group("same name", plan("same", 2, 2 if big else 1, 1 if big else 2), schedule_case),
            Group("same name, three-phase", plan("same3", 2, 1, 1 if big else 4), schedule_case),
            Group("three simulations", plan("one", 3, 2 if big else 1, 1 if big else 2), schedule_case)]


def plan(kind, n, bound, stride):
    """First deviations: every point of the default schedule (found by running it once)."""
    try:
        sched, results, errors = quiet_run(kind, n)
    except (Exception, Divergence):
        return []  # the default schedule itself is a case, which reports it
    out = []
    for i, (enabled, running) in enumerate(sched.points):
        if i % stride == 0 or not running:
            out += [[kind, n, i, a, bound, stride] for a in range(1, enabled)]
    return out


def quiet_run(kind, n):
    import os
    from mc import boot
    from mc.core import quiet
    old = os.getcwd()
    boot.fresh_dir(os.path.join(boot.SCRATCH, "plan"))
    try:
        with quiet():
            return execute(kind, n, [])
    finally:
        os.chdir(old)
