#!/bin/bash
# runs in /repo after the build
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cd "$T"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
MZ="$R/tooling/target/debug/minimize"
MR="$R/tooling/target/debug/minirun"
cat >p.rs <<'X'
fn main() { let x = [1u8, 2]; if x[1] != 2 { panic!() } }
X
"$MZ" --edition 2021 --minimize-dump=json p.rs >p.json 2>err || { cat err; exit 3; }
(cd "$R/tooling" && cargo build --offline -q -p minirun) 2>err || { cat err; exit 3; }
"$MR" --minirust-tree-borrows p.json || exit 1
"$MR" p.json --minirust-tree-borrows || exit 1
exit 0
