#!/bin/bash
# tools/seeds_alive.sh: do all planted changes still apply, keep the demo green without them and red with them?
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
for D in /verif/seeded/*/; do
  id=$(basename "$D")
  timeout 300 bash "$D/demo.sh" >/dev/null 2>&1; a=$?
  git apply "$D/patch.diff" 2>/dev/null || { echo "$id: DOES NOT APPLY"; continue; }
  timeout 300 bash "$D/demo.sh" >/dev/null 2>&1; b=$?
  git checkout -q -- .
  if [ $a -eq 0 ] && [ $b -ne 0 ]; then echo "$id ok"; else echo "$id: BAD clean=$a patched=$b"; fi
done
