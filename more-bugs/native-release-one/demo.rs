use intrinsics::*;
use std::{thread::sleep, time::Duration};
extern "C" fn wait(l: *const ()) { let l = l as usize; acquire(l); release(l); }
fn main() {
    let (a, b) = (create_lock(), create_lock());
    acquire(a); acquire(b);
    let t1 = spawn(wait, a as *const ());
    sleep(Duration::from_millis(300));
    let t2 = spawn(wait, b as *const ());
    sleep(Duration::from_millis(300));
    release(a);
    join(t1);
    release(b);
    join(t2);
}
