#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
SIM = "real hyper code in a deterministic single-threaded simulation (own executor, virtual time, in-memory transport); "
# id: (technique, level, note)
T = {
 "C01": ("runtime monitoring: offline comparison of every service call with the generated message",
  "exploration", SIM + "random valid HTTP/1 streams x segmentation x readiness x reading style; trusts the generator and the transport model"),
}
exec(open(os.path.join(root, "tools", "claims.py")).read()) if os.path.exists(os.path.join(root, "tools", "claims.py")) else None
checks, na = [], []
for p in props:
    i = p["id"]
    if i in T:
        t, lv, note = T[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh check {i} quick", "thorough_cmd": f"./run.sh check {i} thorough",
                       "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: everything is observed through hyper's public API, its transport and its executor/timer traits."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
