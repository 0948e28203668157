"""Single source of properties.jsonl and MANIFEST.json. Run: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, level="exploration", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, state=state))


exec(open(os.path.join(HERE, "tools", "props_data.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                            "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.isfile(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check.sh %s quick" % p["id"],
                           "thorough_cmd": "./check.sh %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                           "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Pure Python: nothing is compiled. Every check imports the code from /repo's working tree (no hooks, no "
                  "copies), redirects its output folders to a scratch directory, and enumerates the stated space on 8 workers."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


main()
