#!/bin/bash
# bugtest.sh DIR [check]: in a private mount namespace with a scratch copy of /repo: apply DIR/patch.diff, build, run the tests, the demonstration and the property's check
D=$(realpath "$1"); W=$(mktemp -d /tmp/bt.XXXXXX); cp -a /repo "$W/repo"
P=$(python3 -c "import json,sys; print(json.load(open('$D/meta.json'))['property'])")
export D W P
unshare -Urm bash -c '
mount --bind "$W/repo" /repo; cd /repo; git checkout -q -- . ; git apply "$D/patch.diff" || { echo "$D: does not apply"; exit 1; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh "$W/out.json" > "$W/test.log" 2>&1
python3 - <<Q
import json
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); o=json.load(open("$W/out.json")); m=b-set(o["passed"]); print("$D".split("/")[-1], "tests:", "ok" if not m else "FAIL %d" % len(m))
Q
bash "$D/demo.sh" > "$W/demo.log" 2>&1; echo "  demo with patch: rc $?"; fi
cd /verif; SX_EVIDENCE=$W/ev python3 check.py $P > "$W/check.log" 2>&1; echo "  check $P: rc $? $(grep -m1 VIOLATION $W/check.log)"
'
rm -rf "$W"
