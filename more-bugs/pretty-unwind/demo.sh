#!/bin/bash
# runs in /repo after the build
. /opt/vp/env.sh
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
cd "$T"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib"
MZ="$R/tooling/target/debug/minimize"
MR="$R/tooling/target/debug/minirun"
cat >p.rs <<'X'
struct D(u8);
impl Drop for D { fn drop(&mut self) { if self.0 == 3 { loop {} } } }
fn never(x: u8) -> ! { if x > 1 { panic!() } loop {} }
fn main() { let d = D(1); never(d.0 + 4) }
X
"$MZ" --edition 2021 --minimize-dump=pretty p.rs >out 2>err || { cat err; exit 3; }
grep -qE '= f[0-9]+\(.*\) -> unwind: bb' out || { echo "no call with only an unwind target is shown"; exit 1; }
exit 0
