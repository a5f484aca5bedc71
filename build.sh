#!/usr/bin/env bash
# Builds one check binary (harness/cmd/<group>) against /repo's working tree
# and prints its path.
set -u
cd "$(dirname "$0")" || exit 3
root="$PWD"
group="$1"
export GOWORK=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS="-mod=readonly -buildvcs=false" CGO_ENABLED=0
export GOCACHE="${GOCACHE:-${HOME:-/root}/.cache/go-build}" GOPATH="${GOPATH:-/root/go}"
mkdir -p "$root/out/bin"
out="$root/out/bin/$group"
overlay=()
if [ -x "harness/cmd/$group/overlay.sh" ]; then
  "harness/cmd/$group/overlay.sh" "$root/out/overlay-$group" >&2 || exit 3
  overlay=(-overlay "$root/out/overlay-$group/overlay.json")
fi
(cd harness && go build "${overlay[@]}" -o "$out.$$" "./cmd/$group") >&2 || exit 3
mv -f "$out.$$" "$out"
echo "$out"
