#!/usr/bin/env python3
"""Confirm and keep one planted bug.

usage: mkseed.py SPEC.py...
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] and DEMO (source of demo.py).
The change is applied in a scratch copy of /repo, the stable tests run there, and the demonstration
runs with and without it; only then patch.diff, demo.sh, demo.py and meta.json are written to seeded/ID.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR="/opt/vp/state/mpl")
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero otherwise; run from the root of the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg MPLCONFIGDIR="$T/mpl"
/opt/venv/bin/python "$D/demo.py" "$T"
'''
HEAD = '''import os, sys
from pathlib import Path
sys.path.insert(0, os.getcwd())
T = Path(sys.argv[1])
import numpy as np
import conf.conf as cc
cc.DATA_DIR = T / "data"
cc.SIM_DIR = cc.DATA_DIR / "simulations_output"
for d in ("simulations_output/plot_data", "tikz", "profiles"):
    (cc.DATA_DIR / d).mkdir(parents=True)

'''


def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def tests(d, base):
    xml = d.parent / "junit.xml"
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "test", "-q", "-p", "no:cacheprovider", "--timeout=300",
            "--continue-on-collection-errors", "--randomly-seed=131", "--randomly-dont-reorganize",
            "--ignore=test/cuda_test.py", "-o", "junit_family=xunit2", f"--junitxml={xml}"], d)
    import xml.etree.ElementTree as ET
    bad = set()
    seen = set()
    for c in ET.parse(xml).iter("testcase"):
        n = c.get("classname") + "::" + c.get("name")
        seen.add(n)
        if any(e.tag in ("failure", "error") for e in c):
            bad.add(n)
    return [n for n in base if n in bad or n not in seen]


def main(spec):
    s = runpy.run_path(spec)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    tmp = Path(tempfile.mkdtemp(prefix="seed."))
    try:
        d = tmp / "repo"
        shutil.copytree("/repo", d, symlinks=True)
        demo = tmp / "demo"
        demo.mkdir()
        (demo / "demo.py").write_text(HEAD + s["DEMO"])
        (demo / "demo.sh").write_text(SH)
        r = sh(["bash", str(demo / "demo.sh")], d)
        if r.returncode:
            print(s["ID"], "demo fails on the unchanged tree\n", r.stdout[-1500:])
            return 1
        for f, a, b, *k in s["EDITS"]:          # k: which occurrence (counted from 0), the only one if absent
            p = d / f
            t = p.read_text()
            if t.count(a) != 1 and not k or t.count(a) <= sum(k):
                print(s["ID"], f, "edit matches", t.count(a), "times:", a)
                return 1
            # lines changed have to be the original ones
            at = -1
            for _ in range(sum(k) + 1):
                at = t.index(a, at + 1)
            n0 = t[:at].count("\n")
            bl = sh(["git", "blame", "-s", "-L", f"{n0+1},{n0+1+a.count(chr(10))}", f], d).stdout.splitlines()
            if not any(l.startswith("^") for l in bl):
                print(s["ID"], "WARNING: edit touches no original line", bl)
            p.write_text(t[:at] + b + t[at + len(a):])
        diff = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE).stdout
        bad = tests(d, base)
        if bad:
            print(s["ID"], "stable tests fail:", bad)
            return 1
        r = sh(["bash", str(demo / "demo.sh")], d)
        if r.returncode == 0:
            print(s["ID"], "demo passes with the change")
            return 1
        o = V / "seeded" / s["ID"]
        o.mkdir(parents=True, exist_ok=True)
        (o / "patch.diff").write_bytes(diff)
        for n in ("demo.py", "demo.sh"):
            shutil.copy(demo / n, o / n)
        os.chmod(o / "demo.sh", 0o755)
        (o / "meta.json").write_text(json.dumps(
            {"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        print(s["ID"], "kept; demo says:", r.stdout.strip().splitlines()[-1:])
        return 0
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.exit(max([main(f) for f in sys.argv[1:]]))
