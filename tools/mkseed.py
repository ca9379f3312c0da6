#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY: makes seeded/ID/patch.diff from /repo's uncommitted change, then undoes it.
demo.rs, needs and what_it_breaks come from stdin: needs\\n---\\nbreaks\\n---\\ndemo.rs"""
import sys, os, json, subprocess, shutil
i, p = sys.argv[1:3]
d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
needs, breaks, demo = sys.stdin.read().split("\n---\n", 2)
diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
assert diff
open(f"{d}/patch.diff", "w").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": p, "needs": needs.strip(), "what_it_breaks": breaks.strip()}, open(f"{d}/meta.json", "w"), indent=1)
open(f"{d}/demo.rs", "w").write(demo)
shutil.copy("/verif/tools/demo.sh.tmpl", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
