#!/usr/bin/env python3
"""merge.py ID FLAVOUR=PART.json...: one evidence file from the parts that the builds of a check wrote."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pid, parts = sys.argv[1], [a.split("=", 1) for a in sys.argv[2:]]
parts = [(f, json.load(open(p))) for f, p in parts if os.path.exists(p)]
if not parts:
    sys.exit(f"no evidence of {pid}")
ev = dict(parts[0][1])
cov = dict(ev["coverage"])
for k in ("evaluations", "distinct_nontrivial"):
    cov[k] = sum(e["coverage"].get(k, 0) for _, e in parts)
cov["samples"] = [dict(s, build=f) for f, e in parts for s in e["coverage"].get("samples", [])[:2]]
cov["observed"], cov["inconclusive"] = {}, {}
for f, e in parts:
    for k in ("observed", "inconclusive"):
        for n, v in e["coverage"].get(k, {}).items():
            cov[k][n] = cov[k].get(n, 0) + v
cov["builds"] = {}
for f, e in parts:
    b = cov["builds"].setdefault(f, {"runs": 0, "evaluations": 0, "distinct_nontrivial": 0, "wall_s": 0})
    b["runs"] += 1
    b["wall_s"] += e["wall_s"]
    for k in ("evaluations", "distinct_nontrivial"):
        b[k] += e["coverage"].get(k, 0)
cov.pop("planned_cases", None)
ev["coverage"] = cov
ev["wall_s"] = sum(e["wall_s"] for _, e in parts)
ev["violations"] = sum(e.get("violations", 0) for _, e in parts)
json.dump(ev, open(f"{root}/evidence/{pid}.json", "w"), indent=2)
