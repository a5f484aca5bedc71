#!/usr/bin/env bash
# Builds every check binary once (warms the build caches).
cd "$(dirname "$0")" || exit 3
for g in $(awk '{print $2}' harness/groups.txt | sort -u); do
  ./build.sh "$g" >/dev/null || exit 3
done
