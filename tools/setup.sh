#!/bin/bash
# setup.sh [symx]: builds the symbolic executor; without argument also warms up the harness builds
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings
mkdir -p "$here/build"
( exec 9>"$here/build/.lock-symx"; flock 9; cd "$here/symx" && CARGO_TARGET_DIR="$here/symx/target" cargo build --release --offline -q 1>&2 )
[ "$1" = symx ] && exit 0
bash "$here/tools/replay.sh"
bash "$here/tools/irbuild.sh" "$here/build/setup" h_c09_ccc
rm -rf "$here/build/setup"
