#![feature(core_intrinsics, custom_mir)]
#![allow(internal_features)]
use std::intrinsics::mir::*;
fn t(d: *mut u8) { let p = d as *mut *mut i32; unsafe { *p = (*p).add(1); } panic!() }
fn c(_: *mut u8, _: *mut u8) {}
#[custom_mir(dialect = "runtime", phase = "optimized")]
fn catch(mut p: *mut i32, t: fn(*mut u8), c: fn(*mut u8, *mut u8)) {
    mir! {
        let q: *mut *mut i32;
        let r: *mut u8;
        {
            q = &raw mut p;
            r = CastPtrToPtr(q);
            Call(*p = std::intrinsics::catch_unwind(t, r, c), ReturnTo(e), UnwindUnreachable())
        }
        e = { Return() }
    }
}
fn main() {
    let mut a = [7i32, 8];
    catch(&raw mut a[0], t, c);
    if a[0] != 1 || a[1] != 8 { panic!() }
}
