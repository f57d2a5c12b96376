use std::marker::PhantomPinned;
struct S(u32, PhantomPinned);
fn f(s: &mut [S], p: *mut S) -> u32 { unsafe { (*p).0 = 5; } s[0].0 += 1; s[0].0 }
fn main() {
    let mut a = [S(1, PhantomPinned), S(2, PhantomPinned)];
    let p = &raw mut a as *mut S;
    let s: &mut [S] = unsafe { std::slice::from_raw_parts_mut(p, 2) };
    if f(s, p) != 6 { panic!() }
}
