#!/bin/bash
# runs in /repo after the build
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cd "$T"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
MZ="$R/tooling/target/debug/minimize"
MR="$R/tooling/target/debug/minirun"
for i in $(seq 1); do
  "$MZ" --edition 2021 -Adead_code -Aunused --minirust-tree-borrows "$D/demo.rs" >out 2>err; S=$?
  [ $S = 0 ] || { echo "ended with $S"; cat err; exit 1; }
done
exit 0
