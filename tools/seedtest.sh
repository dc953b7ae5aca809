#!/bin/bash
# seedtest.sh NAME : in /repo: apply, build, demo; run check; undo.
n=$1; p=$(/opt/venv/bin/python -c "import json;print(json.load(open('/verif/seeded/$n/meta.json'))['property'])")
cd /repo; git apply /verif/seeded/$n/patch.diff || exit 9
bash /opt/vp/build.sh > /tmp/sb.log 2>&1 || echo BUILD FAIL
timeout 300 bash /verif/seeded/$n/demo.sh > /tmp/sd.log 2>&1; echo "demo rc $?"; tail -1 /tmp/sd.log | cut -c1-200
if [ "$2" != nocheck ]; then (cd /verif; timeout 900 ./check ${3:-$p} > /tmp/sc.log 2>&1; echo "check rc $?"; grep VIOLATION /tmp/sc.log | head -3 | cut -c1-250); fi
if [ "$2" = test ]; then bash /opt/vp/test.sh /tmp/st.json > /tmp/st.log 2>&1; tail -1 /tmp/st.log; fi
git -C /repo checkout -q -- . 
bash /opt/vp/build.sh > /tmp/sb.log 2>&1
