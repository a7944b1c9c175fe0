#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the tests which exist."""
import json, os, re, glob
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
src = "\n".join(open(f).read() for f in glob.glob(os.path.join(V, "harness/*props/*_test.go")))
tech = json.load(open(os.path.join(V, "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if not re.search(r"func Test%s\(" % i, src):
        na.append({"property": i, "reason": "its check is not built yet"})
        continue
    t = tech[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 run.py check %s quick" % i,
        "thorough_cmd": "python3 run.py check %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": t[0],
        "level": "exploration",
        "level_note": t[1],
    })
m = {"version": 1, "setup_cmd": "python3 run.py build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the harness uses exported APIs and reflection only. Genuine defects are listed in known_findings.txt."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed,", len(na), "not")
