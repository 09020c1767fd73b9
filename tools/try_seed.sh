#!/bin/bash
# usage: tools/try_seed.sh <seed-id> [check ids...]
# Applies /verif/seeded/<id>/patch.diff to /repo, confirms it builds, keeps the stable tests, breaks its demo, and reports
# which checks catch it; /repo is restored afterwards.
ID=$1; shift
D=/verif/seeded/$ID
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
timeout 300 bash "$D/demo.sh" >/tmp/demo0.log 2>&1; R0=$?
git apply --check "$D/patch.diff" && git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/build.log 2>&1; RB=$?
bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
MISS=$(python3 - <<'PY'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/seedtest.json'))
print(len(b-set(r['passed'])))
PY
)
timeout 300 bash "$D/demo.sh" >/tmp/demo1.log 2>&1; R1=$?
echo "$ID [$P]: build=$RB stable-tests-lost=$MISS demo clean=$R0 patched=$R1"
for c in "${@:-$P}"; do
  (cd /verif && timeout 900 ./check.sh "$c" >/tmp/seedcheck-$c.log 2>&1); rc=$?
  echo "   $c -> rc=$rc $(grep -c '^VIOLATION' /tmp/seedcheck-$c.log) violations; $(grep -m1 'key:' /tmp/seedcheck-$c.log)"
done
