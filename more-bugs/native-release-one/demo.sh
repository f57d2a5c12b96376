#!/bin/bash
# runs in /repo after the build
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cd "$T"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
MZ="$R/tooling/target/debug/minimize"
MR="$R/tooling/target/debug/minirun"
rustc --edition 2021 --crate-type rlib --crate-name intrinsics -O "$R/tooling/minimize/intrinsics/src/lib.rs" -o libintrinsics.rlib 2>err || { cat err; exit 3; }
rustc --edition 2021 -O "$D/demo.rs" -o demo --extern intrinsics=libintrinsics.rlib 2>err || { cat err; exit 3; }
timeout 20 ./demo || { echo "stuck"; exit 1; }
exit 0
