#!/usr/bin/env bash
# Usage: check.sh <PROPERTY-ID> [quick|thorough]
#        check.sh replay <FILE>
# Builds the check binary that owns the property from /repo's working tree and
# runs it. Exit 0: held on everything explored; 1: VIOLATION; other: no answer.
set -u
cd "$(dirname "$0")" || exit 3
export VERIF_DIR="$PWD"
id="${1:?property id}"
tier="${2:-${VERIF_TIER:-quick}}"
if [ "$id" = replay ]; then
  file=$(realpath "$2")
  id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
  set -- replay "$file"
else
  set -- check "$id" "$tier"
fi
group=$(sed -n "s/^$id //p" harness/groups.txt)
[ -n "$group" ] || { echo "unknown property $id" >&2; exit 3; }
bin=$(./build.sh "$group") || { echo "ERROR: building $group failed" >&2; exit 3; }
exec "$bin" "$@"
