#!/usr/bin/env bash
# Runs the check of each planted bug's property (or the one given by -p)
# against /repo with the bug applied, and says whether it is caught.
# Usage: try_seeded.sh [ID...]
cd "$(dirname "$0")/.." || exit 3
ids=("$@"); [ $# -gt 0 ] || ids=($(ls seeded))
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 3; }
for id in "${ids[@]}"; do
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  out=$(./check.sh "$prop" quick 2>&1); rc=$?
  e=$(date +%s)
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$prop " <<<"$out"; then echo "CAUGHT $id ($prop, $((e-s))s): $(grep -m1 '^facet' <<<"$out" | cut -c1-160)"
  else echo "MISSED $id ($prop, rc=$rc, $((e-s))s): $(tail -2 <<<"$out" | cut -c1-300)"; fi
done
