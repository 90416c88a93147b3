#!/bin/bash
# catch.sh ID...: run the quick check of each planted bug's own property with the bug applied to /repo.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git apply "/verif/seeded/$id/patch.diff" || continue
  VERIF_SEED=1 timeout 900 python3 /verif/check.py $p quick >/tmp/catch.log 2>&1; r=$?
  git checkout -q -- .
  echo "$id: $p exit=$r $(grep -m1 VIOLATION /tmp/catch.log) $(grep -m1 -v VIOLATION /tmp/catch.log | cut -c1-200)"
done
