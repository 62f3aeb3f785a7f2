#!/bin/bash
# seedcheck.sh ID...: does a planted bug count?  Works in a scratch copy of /repo that is bind-mounted nowhere: build and tests run on /repo
# itself with the patch applied and taken back afterwards.
for id in "$@"; do
  d=/verif/seeded/$id
  echo "== $id"
  git -C /repo status --short | grep -q . && { echo "repo not clean"; exit 1; }
  bash /opt/vp/build.sh > /tmp/seedwork/build.log 2>&1 || { echo "no build on the unchanged tree"; exit 1; }
  (cd /repo && timeout 300 bash $d/demo.sh) > /tmp/seedwork/demo0.log 2>&1; r0=$?
  git -C /repo apply $d/patch.diff || { echo "does not apply"; continue; }
  if bash /opt/vp/build.sh > /tmp/seedwork/build.log 2>&1; then
    bash /opt/vp/test.sh /tmp/seedwork/out.json > /tmp/seedwork/test.log 2>&1
    t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedwork/out.json'))
st=b.get('stable') or b.get('stable_tests') or b.get('tests') or b
p=set(o.get('passed') or o.get('pass') or [])
print(len([x for x in st if x not in p]))
P
)
    (cd /repo && timeout 300 bash $d/demo.sh) > /tmp/seedwork/demo1.log 2>&1; r1=$?
    echo "demo unchanged $r0, patched $r1, failing stable tests $t"; tail -1 /tmp/seedwork/demo0.log; tail -1 /tmp/seedwork/demo1.log
    [ -n "$NOCHECK" ] || { p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); for q in $p $ALSO; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/run.py $q 2>&1 | grep -v '^violated' | cut -c1-300 | tail -2); done; }
  else echo "does not build"; tail -20 /tmp/seedwork/build.log; fi
  git -C /repo checkout -- .
done
bash /opt/vp/build.sh > /tmp/seedwork/build.log 2>&1
