#!/bin/bash
# tools/seedtest.sh ID [check-id...]: confirms a planted bug (build, stable tests, demo both ways) and runs checks against it.
id=$1; shift
s=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
git apply "$s/patch.diff" || exit 2
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; echo "BUILD FAILED"; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1; python3 -c "
import json
t=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('lost tests:',set(b['stable'])-set(t['passed']))"
fi
if [ -z "$SKIPDEMO" ]; then timeout 300 bash "$s/demo.sh" >/tmp/demo.log 2>&1; echo "demo with patch: $? ($(tail -1 /tmp/demo.log))"; fi
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
for c in $p "$@"; do VERIF_TIER=quick timeout 900 bash /verif/run.sh check $c quick >/tmp/chk.log 2>&1; echo "check $c: rc $? $(grep -c ^VIOLATION /tmp/chk.log) $(grep -m1 '  case' /tmp/chk.log | cut -c1-220) [$(grep -m1 cases /tmp/chk.log | cut -c1-80)]"; done
git checkout -q -- .
if [ -z "$SKIPDEMO" ]; then timeout 300 bash "$s/demo.sh" >/tmp/demo.log 2>&1; echo "demo unpatched: $? ($(tail -1 /tmp/demo.log))"; fi
