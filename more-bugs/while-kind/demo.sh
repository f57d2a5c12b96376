#!/bin/bash
# runs in /repo after the build
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cd "$T"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
MZ="$R/tooling/target/debug/minimize"
MR="$R/tooling/target/debug/minirun"
L="$R/tooling/target/debug/deps"
rustc --edition 2024 "$D/demo.rs" -o demo -L dependency="$L" --extern miniutil="$(ls -t "$L"/libminiutil-*.rlib | head -1)" --extern minirust_rs="$(ls -t "$L"/libminirust_rs-*.rlib | head -1)" 2>err || { cat err; exit 3; }
./demo
