#[repr(C)] #[derive(Clone, Copy)] struct P { z: [u16; 0], pad: (), a: u8, b: u16 }
#[repr(C)] #[derive(Clone, Copy)] union I { p: P }
#[repr(C)] #[derive(Clone, Copy)] union O { i: I, n: () }
fn main() {
    let o = O { i: I { p: P { z: [], pad: (), a: 7, b: 0x1234 } } };
    let c = o;
    let v = unsafe { c.i.p.b };
    if v != 0x1234 { panic!() }
    if unsafe { c.i.p.a } != 7 { panic!() }
}
