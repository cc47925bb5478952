#!/bin/bash
# tools/catch.sh ID...: run each planted bug's property check against a scratch copy with the bug applied
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$(mktemp -d); cp -a /repo $d/repo; git -C $d/repo apply $V/seeded/$id/patch.diff || echo "$id: patch does not apply"
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); VERIF_REPO=$d/repo VERIF_SEED=${VERIF_SEED:-1} $V/check $p >$d/out 2>&1; r=$?
  echo "$id $p exit $r $(grep -m1 VIOLATION $d/out | cut -c1-90) $(($(date +%s)-s))s"
  rm -rf "$d"
done
