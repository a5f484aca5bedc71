#!/usr/bin/env bash
# Builds the Rust drivers, which compile the crates of /repo/rust from the
# working tree. They are built outside /repo/rust, whose rust-toolchain.toml
# names a toolchain that is not installed.
set -eu
out="$1"
here=$(cd "$(dirname "$0")" && pwd)
root=$(cd "$here/../../.." && pwd)
mkdir -p "$out"
export CARGO_NET_OFFLINE=true
cd "$root/harness/rust"
CARGO_TARGET_DIR="$root/out/rust-target" RUSTFLAGS="--cap-lints allow" \
  cargo build --offline --locked --quiet -p driver
cd "$root/harness/rustguest"
CARGO_TARGET_DIR="$root/out/rustguest-target" RUSTFLAGS="--cap-lints allow -A explicit_builtin_cfgs_in_flags" \
  cargo build --offline --locked --quiet -p guest-driver
echo '{"Replace":{}}' > "$out/overlay.json"
