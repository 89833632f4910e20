#!/bin/bash
# seed.sh <id> [nocheck]: confirm a planted bug: builds, passes the stable tests, demo fails with it and
# passes without it, and which check reports it. Leaves /repo as it was.
id=$1; D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
git apply $D/patch.diff || { echo "APPLY FAILED"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed.build.log 2>&1 || { echo "$id: BUILD FAILED"; tail -5 /tmp/seed.build.log; exit 2; }
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test.log 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(names(x[k])) if not isinstance(x[k],list) else set(x[k])
    return set(x)
bad=names(b)-names(r)
print("$id: tests lost:",len(bad),sorted(bad)[:5])
PY
bash $D/demo.sh >/tmp/seed.demo.log 2>&1; echo "$id: demo with bug: $? ($(tail -1 /tmp/seed.demo.log))"
if [ "$2" != nocheck ]; then
 cd /verif; for p in $P; do timeout 900 python3 tools/check.py $p >/tmp/seed.check.log 2>&1; echo "$id: check $p exit $? $(grep -c VIOLATION /tmp/seed.check.log) :: $(grep -m1 -B400 VIOLATION /tmp/seed.check.log | grep -m1 ': ' | tail -1 | cut -c1-200)"; done
fi
git -C /repo checkout -q -- .; trap - EXIT
cd /repo; bash /opt/vp/build.sh >/tmp/seed.build.log 2>&1
bash $D/demo.sh >/tmp/seed.demo.log 2>&1; echo "$id: demo without bug: $?"
