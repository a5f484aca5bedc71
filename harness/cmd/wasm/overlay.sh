#!/usr/bin/env bash
# Builds the WebAssembly guest from /repo's working tree. The standard Go
# compiler links imported functions another way than TinyGo does, so that the
# three declarations of imports_webassembly.go are replaced.
set -eu
out="$1"
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$out"
printf '{"Replace":{"/repo/go/transport/wasmrs/guest/imports_webassembly.go":"%s/imports.go"}}' "$out" > "$out/guest.json"
cp "$here/guest_imports.go.txt" "$out/imports.go"
cd "$here/../.."
GOOS=wasip1 GOARCH=wasm go build -buildmode=c-shared -overlay "$out/guest.json" -ldflags "-s -w" -o "$out/guest.wasm.$$" ./guest
mv -f "$out/guest.wasm.$$" "$out/guest.wasm"
clang --target=wasm32 -nostdlib -ffreestanding -fno-builtin -O1 -Wl,--no-entry -o "$out/raw.wasm.$$" -x c "$here/rawguest.c.txt"
mv -f "$out/raw.wasm.$$" "$out/raw.wasm"
echo '{"Replace":{}}' > "$out/overlay.json"
