use std::cell::Cell;
struct N { next: Option<&'static N>, v: Cell<u8> }
unsafe impl Sync for N {}
static A: N = N { next: Some(&B), v: Cell::new(1) };
static B: N = N { next: Some(&A), v: Cell::new(2) };
fn main() { A.next.unwrap().v.set(9); if B.v.get() != 9 || B.next.unwrap().v.get() != 1 { panic!() } }
