#!/bin/bash
# seedtest.sh ID [notests]: does the planted bug count, and does the check of its property catch it?
# Applies the patch to /repo's working tree and undoes it.
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
. /opt/vp/env.sh
mkdir -p /tmp/seedtest
T=$(mktemp -d /tmp/seedtest/XXXX); cp "$D"/* $T/; rm -f $T/patch.diff $T/meta.json
(cd /repo; bash $T/demo.sh > $T/pre.log 2>&1); A=$?
git -C /repo apply "$D/patch.diff" || { echo "$1 does not apply"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
(cd /repo; bash $T/demo.sh > $T/post.log 2>&1); B=$?
S=skipped
if [ "$2" != notests ]; then
  bash /opt/vp/test.sh $T/out.json > $T/test.log 2>&1
  S=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$T/out.json'))
names=b.get('stable') or b.get('passed') or b.get('tests') or b
p=set(o.get('passed',[]))
m=[n for n in names if n not in p]
print('tests-ok' if not m else 'TESTS-FAIL %s' % m[:3])
PY
)
fi
(cd /verif; timeout 900 ./check.sh $P quick > $T/check.log 2>&1); C=$?
V=$(grep -c "^VIOLATION property=$P" $T/check.log)
echo "$1 $P demo-pre=$A demo-post=$B $S check-rc=$C violations=$V log=$T"
