#!/bin/bash
# irbuild.sh OUTDIR [HARNESS...] : builds the harness crate against /repo's working tree and
# prepares the IR of the given harnesses (default: all)
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
out=${1:-$here/build/ir}
shift || true
mkdir -p "$out"
out=$(cd "$out" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
LT=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
cd "$here/harness-ir"
export CARGO_TARGET_DIR="$here/build/target-ir"
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.symx-lock"
flock 9
# the crate under test is always compiled again from its sources
rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/unicode-normalization-* "$CARGO_TARGET_DIR"/release/.fingerprint/hx-*
rm -f "$CARGO_TARGET_DIR"/release/deps/hx.ll "$CARGO_TARGET_DIR"/release/deps/hx-*.ll
RUSTFLAGS= cargo rustc --release --offline -q -- --emit=llvm-ir -C save-temps=no 1>&2
cp "$CARGO_TARGET_DIR"/release/deps/hx.ll "$out/hx0.ll"
flock -u 9
if [ $# -gt 0 ]; then
  HS=$(echo "$@" | tr ' ' ,)
else
  HS=$(grep -ohE '^define [^@]*@h_[a-z0-9_]+' "$out/hx0.ll" | sed 's/.*@//' | sort -u | paste -sd,)
fi
"$LT/opt" -S -passes='internalize,globaldce' -internalize-public-api-list="$HS" "$out/hx0.ll" -o "$out/hx1.ll"
rm -f "$out/hx0.ll"
"$LT/opt" -S -passes='default<O2>' -vectorize-loops=false -vectorize-slp=false -unroll-runtime=false "$out/hx1.ll" -o "$out/hx2.ll"
python3 "$here/tools/calls.py" "$out/hx1.ll" "$out/calls.json"
rm -f "$out/hx1.ll"
echo "$HS" | tr , '\n' > "$out/harnesses"
