#!/bin/bash
# replay.sh : builds the native replay library (debug and release) against /repo's working tree
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/build/target-replay" RUSTFLAGS=
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.lock-replay"
flock 9
for p in debug release; do
  rm -rf "$CARGO_TARGET_DIR"/$p/.fingerprint/unicode-normalization-* "$CARGO_TARGET_DIR"/$p/.fingerprint/replay-*
done
cd "$here/replay"
cargo build --offline -q 1>&2 &
p=$!
wait $p
cargo build --release --offline -q 1>&2
