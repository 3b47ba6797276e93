#!/bin/bash
# tryseed.sh ID... : demo without and with the patch, stable tests with it, then the property's check
cd "$(dirname "$0")/.."; V=$PWD
for id in "$@"; do
  D=$V/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 1; }
  r="$id $P"
  (cd /repo && bash "$D/demo.sh" >/tmp/demo0.log 2>&1); r="$r demo-clean=$?"
  git -C /repo apply "$D/patch.diff" || { echo "$id: does not apply"; continue; }
  (cd /repo && bash "$D/demo.sh" >/tmp/demo1.log 2>&1); r="$r demo-patched=$?"
  if [ -z "$NOTEST" ]; then bash /opt/vp/build.sh >/tmp/build1.log 2>&1 || r="$r BUILD-FAILS"; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; r="$r tests=$(python3 -c "
import json;print(json.dumps(json.load(open('/tmp/o.json')))[:120])")"; fi
  if [ -z "$NOCHECK" ]; then
  k=$(python3 -c "
import json
for c in json.load(open('$V/MANIFEST.json'))['checks']:
    if c['property']=='$P': print(c['quick_cmd'])")
  VERIF_SEED=1 VERIF_TIER=quick $k >/tmp/check1.log 2>&1; r="$r check=$? ($(grep -A0 '^---' /tmp/check1.log | head -2 | tr '\n' ' '))"; fi
  git -C /repo checkout -q -- .
  echo "$r"
done
