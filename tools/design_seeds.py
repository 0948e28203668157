"""Rewrites the planted-bug table of DESIGN.md from seeded/*/meta.json."""
import collections
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- seeds -->\n", "<!-- end seeds -->\n"
rows = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    with open(f) as h:
        m = json.load(h)
    rows[m["property"]].append("`%s`%s" % (f.split(os.sep)[-2], " *" if m.get("first_missed") else ""))
text = "| caught by | planted bugs |\n|---|---|\n" + "".join("| %s | %s |\n" % (k, ", ".join(rows[k])) for k in sorted(rows))
p = os.path.join(ROOT, "DESIGN.md")
with open(p) as h:
    s = h.read()
a, b = s.index(A) + len(A), s.index(B)
with open(p, "w") as h:
    h.write(s[:a] + text + s[b:])
