"""Systematic mutants of the code under test, to find out what the checks do not see.

usage: mutants.py OUT.jsonl [--files REGEX] [--every N] [--offset K] [--slots S]
Each mutant changes one syntax node of one function; the checks that cover the function run on a copy of /repo with the mutant
(VERIF_REPO), cheapest first, until one of them reports it. Survivors are for reading: most are equivalent."""
import argparse
import ast
import hashlib
import json
import os
import queue
import re
import shutil
import subprocess
import threading
import time

REPO, VERIF = "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [  # file, function regex, checks in order
    ("src/models/matrix_operations.py", "", "C01 C02"),
    ("src/models/gpu_matrix_operations.py", "", "C31"),
    ("src/models/error_metrics.py", "", "C03"),
    ("src/models/(smooth_prior|bayesian_prior).py", "", "C04 C05"),
    ("src/models/noise_transformation.py", "", "C06"),
    ("src/models/regression.py", "ComplexRegression", "C22"),
    ("src/models/regression.py", "", "C23"),
    ("src/models/error_in_variable.py", "fisher_info|bias_and", "C29"),
    ("src/models/error_in_variable.py", "TotalLeast", "C22"),
    ("src/models/error_in_variable.py", "", "C24"),
    ("src/simulation/noise.py", "filter", "C08 C15"),
    ("src/simulation/noise.py", "", "C07"),
    ("src/simulation/load_profile.py", "gaussian", "C10 C09"),
    ("src/simulation/load_profile.py", "BusData", "C12 C11"),
    ("src/simulation/load_profile.py", "", "C09"),
    ("src/simulation/lines.py", "LineData", "C12 C11"),
    ("src/simulation/lines.py", "", "C18"),
    ("src/simulation/abstract_network.py", "passive|kron", "C16 C17"),
    ("src/simulation/(network|network_3ph|abstract_network).py", "", "C12 C11"),
    ("src/simulation/(simulation|simulation_3ph).py", "", "C13 C14"),
    ("src/simulation/(run|run3ph).py", "make_net", "C11 C16 C17"),
    ("src/simulation/(run|run3ph).py", "generate_loads", "C10 C19"),
    ("src/simulation/(run|run3ph).py", "simulate_net", "C13 C19"),
    ("src/simulation/(run|run3ph).py", "add_noise", "C15 C19"),
    ("src/simulation/run.py", "reduce_network", "C16"),
    ("src/simulation/run3ph.py", "reduce_network", "C17"),
    ("src/identification/run.py", "eiv_fim", "C25 C29"),
    ("src/identification/run.py", "", "C25 C27"),
    ("src/identification/run3ph.py", "", "C26 C25 C27"),
    ("simulate_network.py", "", "C19 C20"),
    ("identify_network.py", "", "C27 C20 C26"),
    ("plot_results.py", "", "C30"),
    ("src/identification/utils.py", "", "C30"),
]


def checks_for(path, func):
    for f, g, c in MAP:
        if re.search(f + "$", path) and re.search(g, func):
            return c.split()
    return []


class Finder(ast.NodeVisitor):
    def __init__(self, src):
        self.src, self.out, self.stack = src, [], []
        self.lines = src.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()) + 1)
        self.raw = src.encode()

    def span(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.span(n)
        old = self.raw[a:b].decode()
        if old != new:
            self.out.append((a, b, new, kind, ".".join(self.stack), n.lineno, old))

    def visit_FunctionDef(self, n):
        if n.name == "pprint":
            return
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        for s in n.body:
            self.visit(s)
        self.stack.pop()

    def skip(self, n):
        t = self.text(n)
        return re.match(r"\s*(p?print|tqdm|raise|click)\b", t) or isinstance(n, ast.If) and "verbose" in self.text(n.test)

    def generic_visit(self, n):
        if isinstance(n, ast.stmt) and self.skip(n):
            return
        if self.stack:
            m = getattr(self, "m_" + type(n).__name__, None)
            if m:
                m(n)
        ast.NodeVisitor.generic_visit(self, n)

    def m_Compare(self, n):
        if len(n.ops) != 1:
            return
        l, r = self.text(n.left), self.text(n.comparators[0])
        for new in {"Lt": ["<="], "LtE": ["<"], "Gt": [">="], "GtE": [">"], "Eq": ["!="], "NotEq": ["=="], "In": ["not in"],
                    "NotIn": ["in"], "Is": ["is not"], "IsNot": ["is"]}[type(n.ops[0]).__name__]:
            self.add(n, "%s %s %s" % (l, new, r), "compare")

    def m_BinOp(self, n):
        new = {"Add": "-", "Sub": "+", "Mult": "/", "Div": "*", "FloorDiv": "*", "Mod": "//", "Pow": "*"}.get(type(n.op).__name__)
        l, r = self.text(n.left), self.text(n.right)
        if new:
            a, b = self.span(n.left)[1], self.span(n.right)[0]
            op = self.raw[a:b].decode()
            sym = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/", "FloorDiv": "//", "Mod": "%", "Pow": "**"}[type(n.op).__name__]
            if op.count(sym) == 1 and not isinstance(n.left, ast.Constant) or op.count(sym) == 1 and not isinstance(n.left.value, str):
                self.out.append((a, b, op.replace(sym, new), "operator", ".".join(self.stack), n.lineno, l + op + r))
        if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)) and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            self.add(n, "(" + l + ")", "drop right")
        if isinstance(n.op, ast.MatMult) and self.text(n.left) != self.text(n.right):
            self.add(n, "(%s @ %s)" % (r, l), "swap @")

    def m_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, str(not n.value), "constant")
        elif isinstance(n.value, int):
            self.add(n, str(n.value + 1), "constant")
        elif isinstance(n.value, float):
            self.add(n, repr(n.value * 2 + .01), "constant")

    def m_BoolOp(self, n):
        sym = " or " if isinstance(n.op, ast.And) else " and "
        self.add(n, "(" + sym.join("(%s)" % self.text(v) for v in n.values) + ")", "bool")
        for k in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != k]
            op = " and " if isinstance(n.op, ast.And) else " or "
            self.add(n, "(" + op.join("(%s)" % self.text(v) for v in rest) + ")", "drop operand")

    def m_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.add(n, self.text(n.operand), "unary")

    def m_Attribute(self, n):
        if n.attr == "T":
            self.add(n, self.text(n.value), "drop .T")
        if n.attr in ("real", "imag") and not isinstance(n.value, ast.Name):
            self.add(n, self.text(n.value) + (".imag" if n.attr == "real" else ".real"), "real/imag")

    def m_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr in ("conj", "copy", "squeeze", "conjugate", "transpose", "sum", "flatten", "ravel", "toarray", "tolist"):
            if not n.args and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "cp", "sp", "sparse")):
                self.add(n, self.text(f.value), "drop ." + f.attr)
        if isinstance(f, ast.Attribute) and f.attr in ("real", "imag"):
            t = self.text(f)
            self.add(f, t[:-4] + ("imag" if f.attr == "real" else "real"), "real/imag")
        if isinstance(f, ast.Attribute) and f.attr in ("abs", "conj", "copy", "mean", "sum", "sqrt", "sort", "unique", "asarray", "array", "diag", "sign",
                                                       "triu", "tril", "deepcopy") and len(n.args) == 1 and not n.keywords:
            self.add(n, self.text(n.args[0]), "drop np." + f.attr)
        if isinstance(f, ast.Name) and f.id in ("sorted", "abs", "set", "list", "deepcopy", "float", "int", "round") and len(n.args) == 1:
            self.add(n, self.text(n.args[0]), "drop " + f.id)
        for a, b in zip(n.args, n.args[1:]):
            if not isinstance(a, ast.Starred) and not isinstance(b, ast.Starred) and self.text(a) != self.text(b):
                x, y = self.span(a)[0], self.span(b)[1]
                mid = self.raw[self.span(a)[1]:self.span(b)[0]].decode()
                self.out.append((x, y, self.text(b) + mid + self.text(a), "swap args", ".".join(self.stack), n.lineno, self.text(n)))
        for k in n.keywords:
            if k.arg:
                a, b = self.span(k)
                t = self.raw[a:b].decode()
                if isinstance(k.value, ast.Constant) and isinstance(k.value.value, str):
                    continue
                # remove the keyword with the comma before it
                c = a
                while c > 0 and self.raw[c - 1:c] in (b" ", b"\n", b"\t"):
                    c -= 1
                if self.raw[c - 1:c] == b",":
                    self.out.append((c - 1, b, "", "drop keyword", ".".join(self.stack), k.value.lineno, t))
        if isinstance(f, ast.Name) and f.id == "range" and len(n.args) == 1:
            self.add(n, "range(1, %s)" % self.text(n.args[0]), "range")
            self.add(n, "range(%s - 1)" % self.text(n.args[0]), "range")

    def m_If(self, n):
        self.add(n.test, "(False)", "if False")
        self.add(n.test, "(True)", "if True")

    def m_IfExp(self, n):
        self.add(n, "(" + self.text(n.body) + ")", "if body")
        self.add(n, "(" + self.text(n.orelse) + ")", "if else")

    def m_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.add(n, "pass", "delete statement")

    def m_AugAssign(self, n):
        self.add(n, "pass", "delete statement")

    def m_Assign(self, n):
        if not isinstance(n.targets[0], (ast.Name, ast.Tuple, ast.List)):
            self.add(n, "pass", "delete statement")
        elif isinstance(n.targets[0], ast.Name) and re.search(r"\b%s\b" % re.escape(n.targets[0].id), self.text(n.value)):
            self.add(n, "pass", "delete statement")

    def m_Slice(self, n):
        if n.upper is not None and not isinstance(n.upper, ast.Constant):
            self.add(n.upper, "(%s) - 1" % self.text(n.upper), "slice end")
        if n.lower is not None and not isinstance(n.lower, ast.Constant):
            self.add(n.lower, "(%s) + 1" % self.text(n.lower), "slice start")


def mutants(files):
    out = []
    for root in ("src", "."):
        for d, sub, fs in os.walk(os.path.join(REPO, root)):
            if root == ".":
                sub[:] = []
            for f in sorted(fs):
                p = os.path.relpath(os.path.join(d, f), REPO)
                if not f.endswith(".py") or "templates" in f or not re.search(files, p):
                    continue
                src = open(os.path.join(REPO, p)).read()
                v = Finder(src)
                v.visit(ast.parse(src))
                for a, b, new, kind, func, line, old in v.out:
                    raw = v.raw[:a] + new.encode() + v.raw[b:]
                    try:
                        ast.parse(raw)
                    except SyntaxError:
                        continue
                    c = checks_for(p, func)
                    if c:
                        out.append(dict(file=p, func=func, line=line, kind=kind, old=old, new=new, checks=c, span=[a, b]))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default="")
    ap.add_argument("--every", type=int, default=1)
    ap.add_argument("--offset", type=int, default=0)
    ap.add_argument("--slots", type=int, default=8)
    ap.add_argument("--workers", default="1")
    ap.add_argument("--count", action="store_true")
    a = ap.parse_args()
    ms = mutants(a.files)
    if a.count:
        from collections import Counter
        print(len(ms), Counter(m["file"] for m in ms))
        return
    key = lambda m: hashlib.sha1(repr((m["file"], m["span"], m["new"])).encode()).hexdigest()
    for m in ms:
        m["key"] = key(m)[:12]
    ms = [m for m in sorted(ms, key=key)][a.offset::a.every]
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["key"] for l in open(a.out)}
    q = queue.Queue()
    for m in ms:
        if m["key"] not in done:
            q.put(m)
    print("%d mutants" % q.qsize(), flush=True)
    lock = threading.Lock()

    def work(slot):
        base = "/tmp/mt/slot%d" % slot
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        subprocess.run(["cp", "-a", REPO, base + "/repo"], check=True)
        subprocess.run(["rsync", "-a", "--exclude=.git", VERIF + "/", base + "/verif/"]) if shutil.which("rsync") else \
            subprocess.run("mkdir -p %s/verif && cp -a %s/checks %s/mc %s/check.sh %s/known-findings.txt %s/properties.jsonl %s/MANIFEST.json %s/verif/ && mkdir -p %s/verif/evidence %s/verif/replays" % ((base,) + (VERIF,) * 7 + (base,) * 3), shell=True, check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            path = os.path.join(base, "repo", m["file"])
            raw = open(os.path.join(REPO, m["file"]), "rb").read()
            with open(path, "wb") as f:
                f.write(raw[:m["span"][0]] + m["new"].encode() + raw[m["span"][1]:])
            t0, res = time.time(), "survived"
            for c in m["checks"]:
                env = dict(os.environ, VERIF_REPO=base + "/repo", VERIF_WORKERS=a.workers)
                try:
                    r = subprocess.run(["./check.sh", c, "quick"], cwd=base + "/verif", env=env, capture_output=True, text=True, timeout=1500)
                    if r.returncode == 1:
                        res = "killed " + c
                        break
                    if r.returncode != 0:
                        res = "exit %d %s %s" % (r.returncode, c, r.stderr[-300:])
                        break
                except subprocess.TimeoutExpired:
                    res = "timeout " + c
                    break
            with open(path, "wb") as f:
                f.write(raw)
            m.update(result=res, seconds=round(time.time() - t0, 1))
            with lock, open(a.out, "a") as f:
                f.write(json.dumps(m) + "\n")
        shutil.rmtree(base, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(k,)) for k in range(a.slots)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
