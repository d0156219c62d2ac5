#!/bin/bash
# Development aid: runs the quick check of each planted bug's property against a scratch copy with
# the bug applied. usage: runbugs.sh [id...]
cd /verif/seeded || exit 1
ids=${*:-$(ls)}
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  wt=$(mktemp -d /tmp/rb.XXXXXX)
  cp -a /repo "$wt/repo"
  git -C "$wt/repo" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; rm -rf "$wt"; continue; }
  s=$(date +%s)
  VP_REPO=$wt/repo VP_EVIDENCE=$wt/ev timeout 900 /verif/bin/vpcheck check $p quick > "$wt/out" 2>&1; rc=$?
  e=$(date +%s)
  echo "$id: $p rc=$rc $((e-s))s $(grep -m1 VIOLATION "$wt/out" | cut -c1-140)"
  [ $rc -eq 2 ] && tail -3 "$wt/out" | cut -c1-300
  rm -rf "$wt"
done
