#!/bin/bash
# trybug.sh ID [nocheck]: validates seeded/ID against /repo (apply, build, stable tests, demo, check, undo).
d=/verif/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
if [ "$2" != nodemo ]; then
bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/tb.out 2>&1; echo "$1 clean demo: $? (want 0)"
fi
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/tb.build 2>&1; echo "$1 build $?"
bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
python3 -c "
import json
a=json.load(open('/tmp/tb.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('$1 tests missing',[x for x in b if x not in a['passed']])"
bash $d/demo.sh >/tmp/tb.out 2>&1; echo "$1 patched demo: $? (want nonzero)"; tail -2 /tmp/tb.out
if [ "$2" != nocheck ]; then (cd /verif; ./check $prop quick | cut -c1-300 | tail -6; echo "check rc ${PIPESTATUS[0]}"); fi
git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
