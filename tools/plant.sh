#!/bin/bash
# plant.sh ID...: confirm that a planted bug builds, passes the stable tests, and that its demo tells the two trees apart.
# Works on /repo itself (build.sh names it) and puts it back; needs a clean /repo.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  git apply --check "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/plant.log 2>&1 || { echo "$id: clean build fails"; continue; }
  (timeout 300 bash "$d/demo.sh") >/tmp/plant_clean.log 2>&1; c=$?
  git apply "$d/patch.diff"
  if [ "$NOTESTS" ]; then bash /opt/vp/build.sh >/tmp/plant.log 2>&1; t=skipped; else
    bash /opt/vp/test.sh /tmp/plant_t.json >/tmp/plant.log 2>&1
    t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/plant_t.json'))
m=[x for x in b['stable'] if x not in t['passed']]; print('ok' if not m else 'FAIL %s'%m[:4])"); fi
  (timeout 300 bash "$d/demo.sh") >/tmp/plant_bug.log 2>&1; b=$?
  n=0; [ "$REPS" ] && for i in $(seq $REPS); do (timeout 300 bash "$d/demo.sh") >/dev/null 2>&1 || n=$((n+1)); done
  git checkout -q -- .
  echo "$id: clean=$c bug=$b tests=$t ${REPS:+fails $n/$REPS}"
done
bash /opt/vp/build.sh >/tmp/plant.log 2>&1
