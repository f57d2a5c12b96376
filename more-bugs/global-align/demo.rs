#[repr(align(2048))] struct A(u8, [u32; 3]);
static S: A = A(1, [2, 3, 4]);
fn main() {
    let r: &A = &S;
    if (r as *const A).addr() % 2048 != 0 { panic!() }
    if r.0 as u32 + r.1[2] != 5 { panic!() }
}
