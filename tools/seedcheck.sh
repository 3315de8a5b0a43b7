#!/bin/bash
# seedcheck.sh ID [notest]: apply a planted change to /repo, build, test, demo, check; undo. Prints one summary line.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
git -C /repo diff --quiet || { echo "repo not clean"; exit 9; }
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; B=$?
T=-
if [ "$2" != notest ]; then bash /opt/vp/test.sh /tmp/seed_test.json >/tmp/seed_test.log 2>&1; T=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_test.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','stable','tests'):
            if k in x: return set(names(x[k]))
        return set(x)
    return set(t if isinstance(t,str) else t.get('name') for t in x)
print('tests-missing=%d'%len(names(b)-names(r)))
PY
); fi
(bash $D/demo.sh >/tmp/seed_demo.log 2>&1); X=$?
cd /verif && timeout 900 python3-vt engine/run.py $P >/tmp/seed_check.log 2>&1; C=$?
git -C /repo checkout -q -- .; trap - EXIT
V=$(grep -h VIOLATION /tmp/seed_check.log | tail -1)
echo "$ID prop=$P build=$B $T demo(patched)=$X check=$C $V"
grep -E "^failing input|^failed obligation" /tmp/seed_check.log | cut -c1-260 | head -3
