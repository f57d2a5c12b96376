#[repr(C)] struct S { a: u8, b: u32 }
static X: (S, u16) = (S { a: 1, b: 2 }, 3);
fn main() {
    let p = &raw const X.0 as *const u8;
    let v = unsafe { *p.add(1) };
    if v == 77 { panic!() }
}
