"""Exhaustive enumeration driver: groups of cases, parallel workers, evidence, violations, replay files."""
import contextlib
import hashlib
import io
import json
import os
import pickle
import signal
import sys
import time
import traceback

import numpy as np

from mc import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CASE_LIMIT = 150  # [s] a single case normally takes milliseconds to seconds


class Violation(Exception):
    pass


class CaseTimeout(BaseException):
    pass


def h8(*objs):
    """Short digest of observed values, used to count distinct outcomes and states."""
    m = hashlib.blake2b(digest_size=8)
    for o in objs:
        if isinstance(o, np.ndarray):
            m.update(str((o.shape, o.dtype.kind)).encode())
            if o.dtype.kind in "fc":
                with np.errstate(all="ignore"):
                    m.update(np.ascontiguousarray(np.round(o, 9) + 0.0).tobytes())
            else:
                m.update(np.ascontiguousarray(o).tobytes() if o.dtype != object else repr(o.tolist()).encode())
        else:
            m.update(repr(o).encode())
    return m.digest()


class Ctx(object):
    """Collects what one worker covered."""

    def __init__(self):
        self.evals = 0
        self.transitions = 0
        self.traces = 0
        self.distinct = set()
        self.notes = {}

    def seen(self, *objs):
        self.distinct.add(h8(*objs))

    def new_state(self, *objs):
        """True the first time a state is reached in this worker."""
        d = h8(*objs)
        if d in self.distinct:
            return False
        self.distinct.add(d)
        return True

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    @staticmethod
    def fail(msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.traces += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, what, rtol=1e-9, atol=1e-12):
        """got and want agree in shape and value, up to the given tolerance relative to the largest wanted entry."""
        self.traces += 1
        got_a, want_a = np.asarray(todense(got)), np.asarray(todense(want))
        if got_a.shape != want_a.shape:
            raise Violation("%s: shape %s, expected %s" % (what, got_a.shape, want_a.shape))
        if got_a.size == 0:
            return
        if got_a.dtype == object:
            raise Violation("%s: not a numeric array" % what)
        with np.errstate(all="ignore"):
            nan = np.isnan(got_a) != np.isnan(want_a)
            fin = np.isfinite(want_a)
            scale = np.max(np.abs(want_a[fin])) if np.any(fin) else 0.0
            err = np.abs(got_a - want_a)
            bad = nan | (fin & ~(err <= atol + rtol * scale)) | (np.isinf(want_a) & (got_a != want_a))
            bad &= ~(np.isnan(got_a) & np.isnan(want_a))
        if np.any(bad):
            k = tuple(int(x) for x in np.argwhere(bad)[0])
            raise Violation("%s: at %s got %r, expected %r (scale %.3g)\n got: %s\nwant: %s" % (
                what, k, got_a[k], want_a[k], scale, short(got_a), short(want_a)))

    def equal(self, got, want, what):
        self.traces += 1
        got_a, want_a = np.asarray(todense(got)), np.asarray(todense(want))
        if got_a.shape != want_a.shape or not np.array_equal(got_a, want_a):
            raise Violation("%s: got %s %s, expected %s %s" % (
                what, got_a.shape, short(got_a), want_a.shape, short(want_a)))


def todense(a):
    return a.toarray() if hasattr(a, "toarray") else a


def short(a, n=600):
    with np.printoptions(threshold=60, linewidth=150, precision=6):
        s = str(a)
    return s if len(s) <= n else s[:n] + "..."


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


class Group(object):
    """A finite space of cases (a sequence of JSON-serialisable values) and the function that decides one case."""

    def __init__(self, name, cases, fn, show_output=False):
        self.name, self.fn, self.show_output = name, fn, show_output
        self.cases = cases if isinstance(cases, list) else list(cases)


def run_case(group, case, ctx):
    """Returns None or the description of the violation."""

    def on_alarm(*_):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(CASE_LIMIT)
    try:
        ctx.evals += 1
        with quiet():
            group.fn(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return "no result within %d s" % CASE_LIMIT
    except (Exception, SystemExit) as e:
        return "unexpected %s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_exc()[-2500:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def _worker(w, groups, out):
    boot.fresh_dir(os.path.join(boot.SCRATCH, "w%d" % w))
    res = {}
    for gi, g in enumerate(groups):
        ctx, viol = Ctx(), []
        t0 = time.time()
        for ci in range(w, len(g.cases), WORKERS):
            msg = run_case(g, g.cases[ci], ctx)
            if msg is not None:
                viol.append((ci, msg))
                if len(viol) >= 2:
                    break
        res[gi] = (ctx.evals, ctx.transitions, ctx.traces, ctx.distinct, ctx.notes, viol, time.time() - t0)
    with open(out, "wb") as f:
        pickle.dump(res, f)


def explore(groups):
    """Runs every case of every group on forked workers. Case i of a group goes to worker i mod WORKERS."""
    pids = {}
    sys.stdout.flush()
    for w in range(WORKERS):
        out = os.path.join(boot.SCRATCH, "out%d.pkl" % w)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                _worker(w, groups, out)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        pids[pid] = (w, out)
    results, broken = [], []
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        w, out = pids.pop(pid)
        if status != 0:
            broken.append((w, status))
            continue
        with open(out, "rb") as f:
            results.append(pickle.load(f))
    return results, broken


def load_known(prop):
    path = os.path.join(VERIF, "known-findings.txt")
    known = []
    if os.path.isfile(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property=%s " % prop):
                    key, _, what = line.split(" ", 2)[2].partition(" ")
                    known.append((key[len("key="):], what))
    return known


def broken_import(prop, tier, text):
    """Reports that the code of a property can not be imported."""
    for d in ("evidence", "replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "exploration",
                   "coverage": {"rule": "importing the code under test", "samples": [], "exhaustive": False,
                                "evaluations": 1, "distinct_nontrivial": 1},
                   "assumptions": [], "wall_s": 0.0, "violations": 1}, f, indent=1)
    path = os.path.join("replays", "%s-import.json" % prop)
    with open(os.path.join(VERIF, path), "w") as f:
        json.dump({"property": prop, "group": "import", "case": None, "message": text[-3000:]}, f, indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def main(prop, module, tier, replay=None):
    t0 = time.time()
    groups = module.groups(tier)
    if replay:
        with open(replay) as f:
            rec = json.load(f)
        boot.fresh_dir(os.path.join(boot.SCRATCH, "w0"))
        for g in groups:
            if g.name == rec["group"]:
                msg = run_case(g, rec["case"], Ctx())
                print("replayed %s / %s: %s" % (prop, g.name, "VIOLATED\n" + msg if msg else "holds"))
                return 1 if msg else 0
        print("unknown group %s" % rec["group"])
        return 2

    results, broken = explore(groups)
    known = load_known(prop)
    hit_known, violations = {}, []
    tot = dict(evals=0, trans=0, traces=0)
    distinct, per_group, notes = set(), {}, {}
    for gi, g in enumerate(groups):
        gd, viol = set(), []
        st = dict(cases=len(g.cases), evaluated=0, transitions=0, comparisons=0, worker_seconds=0.0)
        for r in results:
            ev, tr, tc, ds, nt, vi, secs = r[gi]
            st["evaluated"] += ev
            st["transitions"] += tr
            st["comparisons"] += tc
            st["worker_seconds"] = round(st["worker_seconds"] + secs, 2)
            gd |= ds
            viol += vi
            for k, v in nt.items():
                notes[k] = notes.get(k, 0) + v
        st["distinct"] = len(gd)
        per_group[g.name] = st
        distinct |= {g.name.encode() + d for d in gd}
        tot["evals"] += st["evaluated"]
        tot["trans"] += st["transitions"]
        tot["traces"] += st["comparisons"]
        for ci, msg in sorted(viol)[:3]:
            case = g.cases[ci]
            key = "%s:%s" % (g.name, json.dumps(case, separators=(",", ":"), default=str))
            for kkey, what in known:
                if key == kkey:
                    hit_known[kkey] = what
                    break
            else:
                violations.append((g, ci, case, msg))

    complete = not broken and not violations and all(s["evaluated"] == s["cases"] for s in per_group.values())
    samples = []
    for g in groups:
        for ci in sorted({0, len(g.cases) // 2}):
            if ci < len(g.cases) and len(samples) < 24:
                samples.append({"group": g.name, "case": json.loads(json.dumps(g.cases[ci], default=str))})
    coverage = {"rule": module.RULE, "samples": samples, "exhaustive": bool(complete), "groups": per_group, "notes": notes}
    if module.LEVEL == "model_checking":
        coverage.update(states=len(distinct), transitions=tot["trans"], traces_validated_against_impl=tot["traces"])
    else:
        coverage.update(evaluations=tot["evals"], distinct_nontrivial=len(distinct))
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": module.LEVEL,
        "coverage": coverage, "assumptions": module.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)
    for gname, st in per_group.items():
        print("%-34s cases=%-6d evaluated=%-6d distinct=%-6d transitions=%-7d comparisons=%-7d %.1f worker-s" % (
            gname, st["cases"], st["evaluated"], st["distinct"], st["transitions"], st["comparisons"],
            st["worker_seconds"]))
    for k, what in sorted(hit_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if broken:
        # A worker that dies (memory, signal) decided nothing; that is an error of the run, not a verdict.
        print("error: workers ended abnormally: %s" % broken)
        if not violations:
            return 2
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for g, ci, case, msg in violations[:5]:
            rec = {"property": prop, "group": g.name, "case": case, "message": msg}
            body = json.dumps(rec, indent=1, default=str)
            path = os.path.join("replays", "%s-%s.json" % (prop, hashlib.sha1(body.encode()).hexdigest()[:10]))
            with open(os.path.join(VERIF, path), "w") as f:
                f.write(body)
            print("\n[%s] case %s\n%s" % (g.name, short(json.dumps(case, default=str), 400), msg[:3000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s %s: held on %d cases, %d distinct, %.1f s" % (prop, tier, tot["evals"], len(distinct), time.time() - t0))
    return 0
