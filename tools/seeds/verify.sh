#!/bin/bash
# verify.sh id...: demo quiet on HEAD, patch builds, stable tests pass, demo fails, the property's check reports it
H=$(cd "$(dirname "$0")" && pwd)
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  D="$H/../../seeded/$id"; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  bash "$D/demo.sh" >/tmp/sd0 2>&1; a=$?
  git apply "$D/patch.diff" || { echo "$id: does not apply"; continue; }
  rm -f /tmp/so.json; bash /opt/vp/test.sh /tmp/so.json >/tmp/sb 2>&1
  m=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/so.json'))
g=lambda x: set(next(x[k] for k in ('passed','passing','stable','tests') if k in x))
print(len(g(b)-g(o)))")
  bash "$D/demo.sh" >/tmp/sd1 2>&1; b=$?
  if [ -z "$NOCHECK" ]; then timeout 900 python3 /verif/check.py $P > /tmp/sc 2>&1; c=$?; else c=skipped; fi
  git checkout -q -- .
  echo "$id prop=$P demo-clean=$a (want 0) tests-missing=$m (want 0) demo-patched=$b (want !=0) check=$c (want 1) $(grep -c VIOLATION /tmp/sc)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
