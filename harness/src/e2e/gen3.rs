//! Random Rust programs, as source text: threads, ways to end, undefined behaviour, aliasing, intrinsics.
use super::gen2::sub;
use super::gen_rs::*;
use super::types::*;

macro_rules! tpl { ($t:expr $(, $k:ident = $v:expr)* $(,)?) => {{ let kv: Vec<(&str, String)> = vec![$((stringify!($k), ($v).to_string())),*]; sub($t, &kv) }} }

// ---------- threads ----------
pub fn thread_prog(p: &mut P) {
    p.items.push_str("static mut TIDS: [usize; 8] = [0; 8];\nstatic mut SH: u32 = 0; static mut LK: usize = 0; static mut L2: usize = 0; static mut FL: [u32; 4] = [0; 4];\nfn fl(i: usize) -> *mut u32 { unsafe { (&raw mut FL as *mut u32).add(i) } }\nfn wait(i: usize, v: u32) { unsafe { while atomic_load(fl(i)) != v {} } }\n");
    p.several(8, thread_one);
    p.reps = 4
}
fn thread_one(p: &mut P) {
    let n = 2 + p.us(2);
    let k = 1 + p.us(3);
    let (a, b) = (1 + p.us(9), 1 + p.us(9));
    let sp = |f: &str, d: &str| format!("let mut i = 0; while i < {n} {{ unsafe {{ TIDS[i] = spawn({f}, {d}); }} i += 1 }} let mut i = 0; while i < {n} {{ unsafe {{ join(TIDS[i]); }} i += 1 }} ");
    match p.us(21) {
        0 => { p.tag("thr.fetch"); p.items.push_str(&format!("extern \"C\" fn w(d: *const ()) {{ let c = d as *mut u32; let mut i = 0; while i < {k} {{ unsafe {{ atomic_fetch_add(c, {a}); atomic_fetch_sub(c, 1); }} i += 1 }} }}\n")); p.body(format!("let mut c = {b}u32; let d = &raw mut c as *const (); {} print(c); unsafe {{ print(atomic_load(&raw mut c)); }}", sp("w", "d"))) }
        1 => { p.tag("thr.lock"); p.items.push_str(&format!("extern \"C\" fn w(d: *const ()) {{ let mut i = 0; while i < {k} {{ unsafe {{ acquire(LK); let v = SH; SH = v + {a}; print(v); release(LK); }} i += 1 }} }}\n")); p.body(format!("unsafe {{ LK = create_lock(); SH = {b}; }} {} unsafe {{ print(SH); acquire(LK); print(SH); release(LK); }}", sp("w", "std::ptr::null()"))) }
        2 => { p.tag("thr.cas"); p.items.push_str("static mut WINS: u32 = 0; extern \"C\" fn w(d: *const ()) { unsafe { if compare_exchange(d as *mut u32, 0, 7) == 0 { WINS += 1; } } }\n"); p.body(format!("let mut c = 0u32; let d = &raw mut c as *const (); {} print(c); unsafe {{ print(WINS); print(compare_exchange(&raw mut c, 7, 3)); print(compare_exchange(&raw mut c, 7, 4)); }} print(c);", sp("w", "d"))) }
        3 => { p.tag("thr.casloop"); p.items.push_str(&format!("extern \"C\" fn w(d: *const ()) {{ let c = d as *mut u32; let mut i = 0; while i < {k} {{ unsafe {{ loop {{ let o = atomic_load(c); if compare_exchange(c, o, o * 3 + 1) == o {{ break }} }} }} i += 1 }} }}\n")); p.body(format!("let mut c = {b}u32; let d = &raw mut c as *const (); {} print(c);", sp("w", "d"))) }
        4 => { p.tag("thr.pingpong"); p.items.push_str(&format!("extern \"C\" fn w(d: *const ()) {{ let mut i = 0; while i < {k} {{ wait(0, 1); unsafe {{ SH = SH * 2 + 1; print(SH); atomic_store(fl(0), 0); }} i += 1 }} }}\n")); p.body(format!("unsafe {{ SH = {a}; }} let t = spawn(w, std::ptr::null()); let mut i = 0; while i < {k} {{ unsafe {{ SH += {b}; print(SH); atomic_store(fl(0), 1); }} wait(0, 0); i += 1 }} join(t); unsafe {{ print(SH); }}")) }
        5 => { p.tag("thr.data"); let t = loop { let t = p.ty(2, true); if p.t.inhabited(&t) { break t } }; let (tn, v, w) = (p.name(&t), p.val(&t), p.val(&t)); p.items.push_str(&format!("struct Ar {{ i: usize, x: {tn}, y: {tn}, r: u32 }} extern \"C\" fn w(d: *const ()) {{ let a = unsafe {{ &mut *(d as *mut Ar) }}; let o = replace(&mut a.x, a.y); a.y = o; a.r = a.i as u32 * {a} + {b}; }}\n")); p.body(format!("let mut ar = [{}]; let mut i = 0; while i < {n} {{ unsafe {{ TIDS[i] = spawn(w, &raw mut ar[i] as *const ()); }} i += 1 }} let mut i = {n}; while i > 0 {{ i -= 1; unsafe {{ join(TIDS[i]); }} ar[i].x.show(); ar[i].y.show(); print(ar[i].r); }}", (0..n).map(|i| format!("Ar {{ i: {i}, x: {v}, y: {w}, r: 0 }}")).collect::<Vec<_>>().join(", "))) }
        6 => { p.tag("thr.nested"); p.items.push_str(&format!("extern \"C\" fn leaf(d: *const ()) {{ unsafe {{ atomic_fetch_add(d as *mut u32, {a}); }} }} extern \"C\" fn mid(d: *const ()) {{ let t = spawn(leaf, d); let u = spawn(leaf, d); join(u); join(t); unsafe {{ atomic_fetch_add(d as *mut u32, 100); }} }}\n")); p.body(format!("let mut c = 0u32; let d = &raw mut c as *const (); {} print(c);", if n == 2 { sp("mid", "d") } else { "join(spawn(mid, d)); print(c); let t = spawn(mid, d); let u = spawn(leaf, d); join(t); join(u); ".into() })) }
        7 => { p.tag("thr.order"); p.items.push_str("extern \"C\" fn w(d: *const ()) { unsafe { let i = *(d as *const u32); wait(1, i); print(i * 11); atomic_store(fl(1), i + 1); } }\n"); p.body(format!("let ids = [2u32, 0, 1, 3]; let mut i = 0; while i < {m} {{ unsafe {{ TIDS[i] = spawn(w, &raw const ids[i] as *const ()); }} i += 1 }} let mut i = 0; while i < {m} {{ unsafe {{ join(TIDS[i]); }} i += 1 }} unsafe {{ print(atomic_load(fl(1))); }}", m = if n == 2 { 3 } else { 4 })) }
        8 => { p.tag("thr.twolocks"); p.items.push_str("extern \"C\" fn w(d: *const ()) { unsafe { acquire(LK); acquire(L2); SH += 1; FL[2] += SH; release(LK); release(L2); } } extern \"C\" fn v(d: *const ()) { unsafe { acquire(L2); SH += 10; release(L2); acquire(LK); FL[3] += 1; release(LK); } }\n"); p.body("unsafe { LK = create_lock(); L2 = create_lock(); let t = spawn(w, std::ptr::null()); let u = spawn(v, std::ptr::null()); acquire(LK); FL[3] += 5; release(LK); join(t); join(u); print(SH); print(FL[3]); print(FL[2] == 1 || FL[2] == 11); }".into()) }
        9 => { p.tag("thr.heap"); p.items.push_str(&format!("extern \"C\" fn w(d: *const ()) {{ unsafe {{ let q = *(d as *const *mut u64); *q.add(1) = *q + {a}; let z = allocate(8, 8) as *mut u64; *z = 5; *(d as *mut *mut u64) = z; deallocate(q as *mut u8, 16, 8); }} }}\n")); p.body(format!("unsafe {{ let mut q = allocate(16, 8) as *mut u64; *q = {b}; *q.add(1) = 0; let t = spawn(w, &raw const q as *const ()); join(t); print(*q); deallocate(q as *mut u8, 8, 8); }}")) }
        10 => { p.tag("thr.exit"); p.items.push_str("extern \"C\" fn w(d: *const ()) { loop { unsafe { if atomic_load(fl(0)) == 9 { return } } } } extern \"C\" fn x(d: *const ()) { print(5); exit(); }\n"); if p.ch(50) { p.body("let t = spawn(w, std::ptr::null()); print(1); exit(); print(2);".into()) } else { p.body("let t = spawn(x, std::ptr::null()); join(t); print(2);".into()) } }
        11 => { p.tag("thr.selfdead"); p.expect = Expect::Deadlock; p.body("let l = create_lock(); acquire(l); print(1); release(l); acquire(l); print(2); if cfg!(native) { exit() } acquire(l); print(3);".into()) }
        12 => { p.tag("thr.joindead"); let dead = p.ch(60); if dead { p.expect = Expect::Deadlock } p.items.push_str("extern \"C\" fn w(d: *const ()) { unsafe { atomic_store(fl(0), 1); acquire(LK); SH = 5; release(LK); } }\n"); p.body(format!("unsafe {{ LK = create_lock(); acquire(LK); let t = spawn(w, std::ptr::null()); wait(0, 1); print(1); {} if cfg!(native) && {dead} {{ exit() }} join(t); print(SH); }}", if dead { "" } else { "release(LK);" })) }
        13 => { p.tag("thr.abba"); let dead = p.ch(60); if dead { p.expect = Expect::Deadlock } let (x, y) = if dead { ("L2", "LK") } else { ("LK", "L2") }; p.items.push_str(&format!("extern \"C\" fn w(d: *const ()) {{ unsafe {{ {} acquire({x}); atomic_store(fl(0), 1); {} acquire({y}); SH += 1; release({y}); release({x}); }} }}\n", if dead { "" } else { "wait(1, 1);" }, if dead { "wait(1, 1);" } else { "" })); p.body(format!("unsafe {{ LK = create_lock(); L2 = create_lock(); let t = spawn(w, std::ptr::null()); acquire(LK); atomic_store(fl(1), 1); {} print(7); if cfg!(native) && {dead} {{ exit() }} acquire(L2); SH += 2; release(L2); release(LK); join(t); print(SH); }}", if dead { "wait(0, 1);" } else { "" })) }
        14 => { p.tag("thr.badlock"); p.expect = Expect::Ub; let w = p.us(5); p.items.push_str("extern \"C\" fn w(d: *const ()) { unsafe { acquire(LK); atomic_store(fl(0), 1); } }\n"); p.body(format!("let l = create_lock(); acquire(l); release(l); unsafe {{ LK = l; }} print(1); {}", match w { 0 => "if cfg!(native) { exit() } release(l);", 1 => "if cfg!(native) { exit() } acquire(l + 55);", 2 => "let t = spawn(w, std::ptr::null()); wait(0, 1); print(3); if cfg!(native) { exit() } release(l);", 3 => "if cfg!(native) { exit() } release(l + 9);", _ => "if cfg!(native) { exit() } join(77);" })) }
        // many rounds natively, a few in the machine
        15 | 16 => { p.tag("thr.stress.lock"); let l = 1 + p.us(3); p.items.push_str(&format!("static mut LS: [usize; {l}] = [0; {l}]; static mut CS: [u32; {l}] = [0; {l}]; const NI: usize = if cfg!(native) {{ 1500 }} else {{ {k} }}; const NW: usize = if cfg!(native) {{ 30 }} else {{ 1 }}; extern \"C\" fn w(d: *const ()) {{ let mut s = d as usize; let mut i = 0; while i < NI {{ s = (s * 7 + 3 + i) % {l}; unsafe {{ acquire(LS[s]); let v = CS[s]; let mut j = 0; while j < NW {{ j += bb(1); }} CS[s] = v + 1; release(LS[s]); }} i += 1 }} }}\n")); p.body(format!("let mut i = 0; while i < {l} {{ unsafe {{ LS[i] = create_lock(); if i > 0 {{ print(LS[i] != LS[i - 1]); }} }} i += 1 }} {} let mut t = 0; let mut i = 0; while i < {l} {{ unsafe {{ acquire(LS[i]); t += CS[i] as usize; release(LS[i]); }} i += 1 }} print(t == {n} * NI);", sp("w", "bb(i) as *const ()"))) }
        17 => { p.tag("thr.stress.atomic"); let o = p.us(4); let op = ["atomic_fetch_add(c, 3); atomic_fetch_sub(c, 2);", "loop { let o = atomic_load(c); if compare_exchange(c, o, o + 1) == o { break } }", "atomic_fetch_sub(c, 1); atomic_fetch_add(c, 1); atomic_fetch_add(c, 1);", "while compare_exchange(fl(2), 0, 1) != 0 {} let v = SH; SH = v + 1; atomic_store(fl(2), 0); atomic_fetch_add(c, 1);"][o]; p.items.push_str(&format!("const NI: usize = if cfg!(native) {{ 5000 }} else {{ {k} }}; extern \"C\" fn w(d: *const ()) {{ let c = d as *mut u32; let mut i = 0; while i < NI {{ unsafe {{ {op} }} i += 1 }} }}\n")); p.body(format!("unsafe {{ SH = 0; }} let mut c = 100u32; let d = &raw mut c as *const (); {} print(c as usize == 100 + {n} * NI); unsafe {{ print(SH as usize == if {o} == 3 {{ {n} * NI }} else {{ 0 }}); }}", sp("w", "d"))) }
        18 | 19 => { p.tag("thr.waiters"); let (f, s) = if p.ch(50) { ("LK", "L2") } else { ("L2", "LK") }; let two = p.ch(50); let (f1, f2) = if p.ch(50) { ("x", "y") } else { ("y", "x") };
            p.items.push_str("extern \"C\" fn x(d: *const ()) { unsafe { acquire(LK); atomic_fetch_add(d as *mut u32, 1); release(LK); } } extern \"C\" fn y(d: *const ()) { unsafe { acquire(L2); atomic_fetch_add(d as *mut u32, 100); release(L2); } }\n");
            p.body(format!("unsafe {{ LK = create_lock(); L2 = create_lock(); print(LK != L2); acquire(LK); acquire(L2); let mut c = 0u32; let d = &raw mut c as *const (); let t = spawn({f1}, d); pause(4); let u = spawn({f2}, d); pause(4); {} print(atomic_load(&raw mut c)); release({f}); join({}); print({two} || atomic_load(&raw mut c) > 0); release({s}); join({}); {} print(c); }}", if two { "let v = spawn(x, d); pause(4);" } else { "" }, if (f == "LK") == (f1 == "x") { "t" } else { "u" }, if (f == "LK") == (f1 == "x") { "u" } else { "t" }, if two { "join(v);" } else { "" })) }
        _ => { p.tag("thr.unwind"); p.items.push_str("struct D(u32); impl Drop for D { fn drop(&mut self) { unsafe { acquire(LK); SH += self.0; release(LK); } } } fn inner(x: u32) -> u32 { let d = D(x); let e = D(10 * x); d.0 + e.0 } #[inline(never)] fn hw() { let _a = D(100); let i = inner(1); unsafe { acquire(LK); SH += i; release(LK); } } extern \"C\" fn w(d: *const ()) { hw() }\n"); p.body(format!("unsafe {{ LK = create_lock(); }} {} let _q = D(3); unsafe {{ print(SH); }}", sp("w", "std::ptr::null()"))) }
    }
}

// ---------- ways to end ----------
pub fn end_prog(p: &mut P) {
    match p.us(6) { 0 => p.flags = vec!["-Cpanic=abort", "-Coverflow-checks=on"], 1 => p.flags = vec!["-Coverflow-checks=off"], _ => {} }
    p.several(8, end_one)
}
fn end_one(p: &mut P) {
    let (a, b) = (p.us(200), p.us(200));
    let pre = tpl!("eprint(@A); print(@B); eprint(bb(true)); ", A = a, B = b);
    match p.us(15) {
        0 => { p.tag("end.nested"); p.items.push_str("struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0); eprint(self.0); } } #[inline(never)] fn f(n: u32) { let _d = D(n); if n == 0 { exit() } f(n - 1); print(99); }\n"); p.body(format!("{pre} let _d = D(50); {{ let _e = D(51); }} f({}); print(3);", a % 4)) }
        1 => { p.tag("end.abort"); p.body(format!("{pre} core::intrinsics::abort(); print(4);")) }
        2 => { p.tag("end.indrop"); p.items.push_str("struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0); if self.0 == 3 { exit() } eprint(self.0); } }\n"); p.body(format!("{pre} let _a = D(1); let _b = D({}); let _c = D(2); print(9);", 2 + a % 3)) }
        3 => { p.tag("end.panic"); p.body(format!("{pre} if bb({a}) < 300 {{ panic!() }} print(4);")) }
        4 => { p.tag("end.return"); p.body(format!("{pre} if bb({a}) < 100 {{ return }} eprint(4); print(5);")) }
        5 | 6 => { p.tag("end.leak"); let leak = p.ch(60); let n = 1 + p.us(3); if leak { p.expect = Expect::Leak } let m = if leak { p.us(n) } else { n }; p.body(format!("{pre} unsafe {{ let mut ps = [std::ptr::null_mut::<u8>(); {n}]; let mut i = 0; while i < {n} {{ ps[i] = allocate({}, {}); *ps[i] = 3; i += 1 }} let mut i = 0; while i < {} {{ deallocate(ps[i], {}, {}); i += 1 }} }}", 1 + a, 1 << (b % 6), m, 1 + a, 1 << (b % 6))) }
        7 => { p.tag("end.loop"); p.body(format!("{pre} let mut i = 0u8; loop {{ i += 1; if i == {} {{ if bb(true) {{ exit() }} }} if i > 240 {{ break }} if i % 50 == 0 {{ eprint(i) }} }}", 1 + a)) }
        8 => { p.tag("end.printtypes"); let (i, j) = (p.us(12), p.us(12)); let (x, y) = (p.ival(i), p.ival(j)); p.body(format!("{pre} print({x}); eprint({y}); print(bb({x})); eprint(bb({y}) == {y}); print(bb(false)); eprint({x});")) }
        9 => { p.tag("end.aborted"); p.items.push_str("struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0); } } #[inline(never)] fn g(n: u32) { let _d = D(n); if n == 0 { core::intrinsics::abort() } g(n - 1); }\n"); p.body(format!("{pre} g({}); print(3);", a % 4)) }
        10 => { p.tag("end.leakexit"); p.expect = Expect::Leak; p.body(format!("{pre} unsafe {{ let q = allocate(8, 8); *q = 1; if bb({a}) < 300 {{ exit() }} deallocate(q, 8, 8); }}")) }
        11 => { p.tag("end.panicabort"); p.items.push_str("struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0); } }\n"); p.body(format!("{pre} let _d = D(1); {{ let _e = D(2); }} let x: u8 = bb({a}); print(x + {b}); if bb({b}) > 100 {{ panic!() }}")) }
        12 => { p.tag("end.overflowoff"); p.body(format!("{pre} let x: u8 = bb({a}); print(x + {b}); print(x * 3); print(-(x as i8)); print(x << bb({}u8)); print(-bb(i8::MIN)); print(i32::MAX + bb({b})); print(x - {b}); print(x >> bb(9u32));", a % 20)) }
        13 => {
            p.tag("end.nounwind");
            let call = p.pick(&["panic_nounwind(\"no\")", "panic_nounwind_fmt(format_args!(\"no\"), false)", "panic(\"may\")", "panic_fmt(format_args!(\"may\"))"]).to_string();
            let n = 1 + a % 4;
            p.items.push_str("struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0); } }\n");
            p.items.push_str(&format!("#[inline(never)] fn g(n: u32) {{ let _d = D(n); if n == 0 {{ core::panicking::{call} }} g(n - 1); print(n + 40); }}\nfn tr(d: *mut u8) {{ let _d = D(70); g(d.addr() as u32); print(71) }} fn ca(_: *mut u8, _: *mut u8) {{ print(72) }}\n"));
            p.body(format!("{pre} let _e = D(60); print(unsafe {{ core::intrinsics::catch_unwind(tr, std::ptr::without_provenance_mut({n}), ca) }}); print(3);"))
        }
        _ => { p.tag("end.uninhabited"); p.items.push_str("#[inline(never)] fn nv(x: u32) -> ! { print(x); panic!() } #[inline(never)] fn lp(x: u32) -> ! { loop { if x > 0 { exit() } } }\n"); p.body(format!("{pre} let y: u32 = match bb({a}u32) {{ 0..=99 => nv(1), 100..=150 => lp(3), z => z }}; print(y);")) }
    }
}

// ---------- undefined behaviour, and its neighbours which are fine ----------
/// (what, items, before, the operation, whether it is undefined)
pub fn ub_prog(p: &mut P) {
    p.several(9, ub_one)
}
fn ub_one(p: &mut P) {
    let it = p.us(12);
    let tn = INTS[it];
    let (v, w) = (p.ival(it), p.ival(it));
    let n = 1 + p.us(5);
    let ub = p.ch(60);
    let c = |u: &str, ok: &str| if ub { u.to_string() } else { ok.to_string() };
    let big = it >= 1 && it != 6; // more than one byte
    let mt = if big { tn } else { "u32" };
    let k = p.us(48);
    let (items, pre, op): (String, String, String) = match k {
        0 => ("".into(), format!("let a = [{v}; {n}]; let q = a.as_ptr();"), format!("unsafe {{ print(*q.add({})); }}", c(&n.to_string(), &(n - 1).to_string()))),
        1 => ("".into(), format!("let a = [{v}; {n}]; let q = a.as_ptr();"), format!("unsafe {{ let r = q.add({}); print(r > q); }}", c(&(n + 1).to_string(), &n.to_string()))),
        2 => ("".into(), format!("let a = [{v}; {n}]; let s: &[{tn}] = &a;"), format!("unsafe {{ print(*s.get_unchecked(bb({}))); }}", c(&n.to_string(), &(n - 1).to_string()))),
        3 => ("".into(), format!("let q: *const {tn}; let o = {w}; {} print(1);", c(&format!("{{ let x = bb({v}); q = &raw const x; }}"), &format!("let x = bb({v}); q = &raw const x;"))), "unsafe { print(*q); }".into()),
        4 => ("".into(), format!("unsafe {{ let q = allocate({}, 16) as *mut {tn}; *q = {v}; print(*q); let r = q;", n * 16), format!("{} print(*r); deallocate(r as *mut u8, {}, 16); }}", c(&format!("deallocate(q as *mut u8, {}, 16);", n * 16), ""), n * 16)),
        5 => ("".into(), format!("unsafe {{ let q = allocate({}, 16);", n * 8), format!("deallocate(q{}, {}, {}); }}", if ub && n % 3 == 0 { ".add(1)" } else { "" }, if ub && n % 3 == 1 { n * 8 + 8 } else { n * 8 }, if ub && n % 3 == 2 { 8 } else { 16 })),
        6 => ("".into(), "unsafe { let q = allocate(8, 8);".into(), format!("deallocate(q, 8, 8); {} }}", c("deallocate(q, 8, 8);", ""))),
        7 => ("#[repr(align(16))] struct Ab([u8; 48]);".into(), format!("let b = Ab([1; 48]); let q = &raw const b as *const u8; unsafe {{ let r = q.add({}) as *const {mt};", c(&(2 * n - 1).to_string(), "16")), "print(*r); }".into()),
        8 => ("#[repr(align(16))] struct Ab([u8; 48]);".into(), format!("let b = Ab([1; 48]); let q = &raw const b as *const u8; unsafe {{ let r = q.add({}) as *const {mt};", c("1", "16")), "let s = &*r; print(bb(*s)); }".into()),
        9 => ("".into(), format!("let q = std::ptr::null::<{tn}>(); let x = {v};"), format!("unsafe {{ let r = {}; print(*r); }}", c("q", "&raw const x"))),
        10 => ("".into(), "let b: u8 = bb(".to_string() + &c("2", "1") + "); ", "let x: bool = unsafe { transmute(b) }; print(x);".into()),
        11 => ("".into(), "let b: u8 = bb(".to_string() + &c("2", "1") + "); let q = &raw const b as *const bool;", "let x = unsafe { *q }; print(x);".into()),
        12 => ("#[derive(Clone, Copy)] #[repr(u8)] enum E { A = 3, B = 5, C = 200 }".into(), format!("let b: u8 = bb({});", c(&["0", "4", "6", "199", "255"][n - 1], &["3", "5", "200", "3", "5"][n - 1])), "let e: E = unsafe { transmute(b) }; match e { E::A => print(1), E::B => print(2), E::C => print(3) }".into()),
        13 => ("#[derive(Clone, Copy)] enum E { A(bool), B, C(u8) }".into(), format!("let b: [u8; 2] = bb([{}, 1]);", c(&["3", "9", "255", "200", "7"][n - 1], &["0", "1", "2", "0", "1"][n - 1])), "let q = &raw const b as *const E; match unsafe { &*q } { E::A(x) => print(*x), E::B => print(2), E::C(y) => print(*y) }".into()),
        14 => ("".into(), format!("let b: u8 = bb({});", c(&["3", "4", "255", "100", "77"][n - 1], &["0", "1", "2", "0", "1"][n - 1])), "let e: Option<bool> = unsafe { transmute(b) }; e.show();".into()),
        15 => ("".into(), format!("let b: usize = bb({});", c("0", "16")), "let r: &() = unsafe { transmute(b) }; print(size_of_val(r));".into()),
        16 => ("".into(), format!("let b: usize = bb({});", c("4", "16")), "let r: &[u64; 0] = unsafe { transmute(b) }; print(r.len());".into()),
        17 => ("".into(), format!("let x = {v}; let d: *const {tn} = &x; "), format!("let r: &{tn} = unsafe {{ transmute({}) }}; print(*r);", c("d.addr()", "d"))),
        18 => ("".into(), format!("let m = MaybeUninit::<{tn}>::{};", c("uninit()", &format!("new({v})"))), "let x = unsafe { m.assume_init() }; print(x);".into()),
        19 => ("#[derive(Clone, Copy)] #[repr(C)] struct S { a: u8, b: u32, c: u8 }".into(), "let x = bb(S { a: 1, b: 2, c: 3 }); let q = &raw const x as *const u8;".into(), format!("unsafe {{ print(*q.add({})); }}", c(&["1", "2", "3", "9", "11"][n - 1], &["0", "4", "7", "8", "5"][n - 1]))),
        20 => ("".into(), format!("let x: Option<{tn}> = bb({}); let q = &raw const x as *const u8;", c("None", &format!("Some({v})"))), format!("let y = unsafe {{ *(q.add(size_of::<Option<{tn}>>() - size_of::<{tn}>()) as *const {tn}) }}; print(y);")),
        21 => ("#[derive(Clone, Copy)] #[repr(C)] union U { a: u8, b: u32, c: (u8, u8) }".into(), format!("let u = bb({});", c("U { a: 1 }", "U { b: 7 }")), "print(unsafe { u.b });".into()),
        22 => ("".into(), format!("let k = bb({n});"), format!("match k {{ {} => print(1), _ => unsafe {{ std::hint::unreachable_unchecked() }} }}", c(&(n + 1).to_string(), &n.to_string()))),
        23 => ("".into(), format!("let k = bb({n});"), format!("unsafe {{ std::hint::assert_unchecked(k {} {n}); }} print(k);", c("!=", "=="))),
        24 => ("".into(), format!("let k: {tn} = bb({tn}::MAX);"), format!("unsafe {{ print(k.unchecked_add({})); }}", c("1", "0"))),
        25 => ("".into(), format!("let k: {tn} = bb({tn}::MIN);"), format!("unsafe {{ print(k.unchecked_sub({})); }}", c("1", "0"))),
        26 => ("".into(), format!("let k: {tn} = bb({tn}::MAX / 2 + 1);"), format!("unsafe {{ print(k.unchecked_mul({})); }}", c("2", "1"))),
        27 => ("".into(), format!("let a = [{v}; {n}]; let b = [{v}; {n}];"), format!("unsafe {{ let d = (&raw const a[{}]).offset_from(&raw const {}[0]); print(d == {}); }}", n - 1, c("b", "a"), n as i64 - 1)),
        28 => ("".into(), "let a = [1u32, 2, 3]; let q = &raw const a as *const u8;".into(), format!("unsafe {{ let d = (q.add({}) as *const u32).offset_from(q as *const u32); print(d); }}", c("6", "8"))),
        29 => ("".into(), "let a = [1u32, 2, 3]; let q = &raw const a[0];".into(), format!("unsafe {{ let d = q.add({}).offset_from_unsigned(q.add(1)); print(d); }}", c("0", "2"))),
        30 => ("".into(), format!("let k = bb({});", c("13u32", "12")), "print(unsafe { core::intrinsics::exact_div(k, 4u32) });".into()),
        31 => ("#[inline(never)] fn tf(x: i32) -> i32 { print(x); x }".into(), "let f = tf as fn(i32) -> i32 as *const ();".into(), match (ub, n) { (false, _) => "let g: fn(i32) -> i32 = unsafe { transmute(f) }; print(g(3));", (_, 1) => "let g: fn(i32, i32) -> i32 = unsafe { transmute(f) }; print(g(3, 4));", (_, 2) => "let g: fn(i64) -> i32 = unsafe { transmute(f) }; print(g(3));", (_, 3) => "let g: fn(i32) -> i64 = unsafe { transmute(f) }; print(g(3));", (_, 4) => "let g: extern \"C\" fn(i32) -> i32 = unsafe { transmute(f) }; print(g(3));", _ => "let g: fn() -> i32 = unsafe { transmute(f) }; print(g());" }.into()),
        32 => ("".into(), "let x = 5u64; let q = &raw const x as *const ();".into(), format!("let g: fn(i32) -> i32 = unsafe {{ transmute({}) }}; print(g(3));", c("q", "g1 as fn(i32) -> i32 as *const ()"))),
        33 => ("trait Tq { fn t(&self) -> i32; } impl Tq for u8 { fn t(&self) -> i32 { *self as i32 } } trait Uq { fn u(&self) -> i32; } impl Uq for u8 { fn u(&self) -> i32 { 9 } }".into(), "let x = 5u8; let a: &dyn Uq = &x; let b: &dyn Tq = &x;".into(), format!("let z: &dyn Tq = unsafe {{ transmute({}) }}; print(z.t());", c("a", "b"))),
        34 => ("".into(), format!("let a = [{v}; {n}];"), format!("let s = unsafe {{ &*std::ptr::slice_from_raw_parts(a.as_ptr(), bb({})) }}; print(s.len());", c(&(n + 1).to_string(), &n.to_string()))),
        35 => ("".into(), format!("unsafe {{ let q = allocate(16, 16) as *mut {tn}; *q = {v}; "), format!("{} let r = &*q; print(1); {} }}", c("deallocate(q as *mut u8, 16, 16);", ""), c("", "deallocate(q as *mut u8, 16, 16);"))),
        36 => ("".into(), format!("unsafe {{ let q = allocate(16, 16) as *mut {tn};"), format!("{} print(*q); deallocate(q as *mut u8, 16, 16); }}", c("", &format!("*q = {v};")))),
        37 => ("".into(), "let q = std::ptr::null::<u32>();".into(), format!("unsafe {{ let r = q.add(bb({})); print(r.is_null()); }}", c("1", "0"))),
        38 => ("".into(), "let a = [1u8, 2, 3, 4]; let q = &raw const a[2];".into(), format!("unsafe {{ print(*q.offset(bb({}))); }}", c("-3", "-2"))),
        39 => ("".into(), "let x = 5u32; let q = &raw const x;".into(), format!("let r = {}; print(unsafe {{ *r }});", c("std::ptr::without_provenance::<u32>(q.addr())", "std::ptr::without_provenance::<u32>(q.addr()).with_addr(q.addr())")).replace("std::ptr::without_provenance::<u32>(q.addr()).with_addr(q.addr())", "q.with_addr(q.addr())")),
        40 => ("".into(), format!("let n: NonZero<u16>; let k: u16 = bb({});", n), format!("let o: Option<NonZero<u16>> = unsafe {{ transmute({}) }}; o.show();", if ub { "MaybeUninit::<u16>::uninit()" } else { "bb(0u16)" })),
        41 => ("".into(), format!("let mut x = [{v}; 2]; let q = &raw mut x as *mut {tn};"), format!("unsafe {{ *q.add({}) = {w}; }} x.show();", c("2", "1"))),
        42 => ("#[inline(never)] fn dang<'a>() -> *const u32 { let x = bb(5u32); let y = &raw const x; y } static GL: u32 = 5; #[inline(never)] fn okp() -> *const u32 { &raw const GL }".into(), format!("let q = {}();", c("dang", "okp")), "print(unsafe { *q });".into()),
        43 => ("".into(), format!("let a = [{v}; 3]; let mut i = 0;"), format!("let mut q = a.as_ptr(); while i <= {} {{ print(unsafe {{ *q }}); q = unsafe {{ q.add(1) }}; i += 1 }}", c("3", "2"))),
        44 => ("".into(), "let b = ".to_string() + &c("[0xffu8, 1]", "[1u8, 1]") + "; let b = bb(b);", "let t: (bool, u8) = unsafe { transmute(b) }; print(t.0);".into()),
        // a place that is only mentioned
        45 | 46 => {
            let off = if ub { *p.pick(&[6, 7, 8]) } else { *p.pick(&[0, 1, 2]) };
            let op = *p.pick(&["let _ = (*q).c;", "match (*q).c { _ => print(5) }", "let _ = (*(q as *const Pu)).b.c;", "let _ = (*q).b[bb(1)];"]);
            ("#[repr(C)] #[derive(Clone, Copy)] struct Pm { a: u16, b: [u16; 2], c: u16 } union Pu { a: u16, b: Pm }".into(), format!("let a = [7u16; 4]; let q = unsafe {{ (a.as_ptr() as *const u8).add({off}) }} as *const Pm;"), format!("unsafe {{ {op} }}"))
        }
        _ => ("".into(), format!("let k: u32 = bb({});", c("32", "31")), "print(unsafe { core::intrinsics::unchecked_shl(1u32, k) });".into()),
    };
    p.tag(&format!("ub.{k}.{}", if ub { "bad" } else { "ok" }));
    // what the native program must not run
    let guard = if ub { "ubx(true);" } else { "" };
    // locals which the operation uses stay in scope: one body
    let body = if k == 7 && ub { // the alignment of the type decides
        format!("{pre} print(77); if (r as usize) % align_of::<{mt}>() == 0 {{ exit() }} {guard} {op} print(78);")
    } else if k == 43 && ub {
        // the first three elements are printed
        let body = op.replace("while i <= 3 {", "while i <= 3 { ubx(i == 3);");
        format!("{pre} {body} print(78);")
    } else { format!("{pre} print(77); {guard} {op} print(78);") };
    p.items.push_str(&items);
    p.body(body)
}

// ---------- aliasing (Tree Borrows) ----------
pub fn alias_prog(p: &mut P) {
    p.items.push_str("#[inline(never)] fn lau<T>(p: *const T) -> *mut T { p as *mut T }\n");
    p.tree = Some(true);
    p.items.push_str("static mut GUARD: bool = false; fn exitn() -> ! { exit(); loop {} }\n");
    if p.ch(55) { return cells_prog(p) }
    p.several(9, alias_one)
}
fn alias_one(p: &mut P) {
    let ub = p.ch(60);
    let c = |u: &str, ok: &str| if ub { u.to_string() } else { ok.to_string() };
    let (a, b) = (p.us(50), p.us(50));
    let k = p.us(22);
    // the undefined operation comes after `print(77)`
    let (items, pre, op): (String, String, String) = match k {
        0 => ("".into(), format!("let mut x = {a}; unsafe {{ let p1 = &mut x as *mut i32; let r = &mut *p1; *r = 1; let q = r as *mut i32; *q = 2; *p1 {};", c("= 5", "+ 0").replace("*p1 + 0", "")).replace("*p1 + 0;", "let z = *p1;"), c("print(*q); }", "print(*q); }")),
        1 => ("".into(), format!("let x = bb({a}); let r = &x; let q = {} as *mut i32;", c("lau(r)", "&raw const x")).replace("let x = bb", &c("let x = bb", "let mut x = bb")).replace("&raw const x", &c("&raw const x", "&raw mut x")), "unsafe { *q = 3; } print(x);".into()),
        2 => ("#[inline(never)] fn f(x: &mut i32, y: *mut i32) -> i32 { *x = 1; print(77); ubx(unsafe { GUARD }); let r = unsafe { *y }; *x += 1; r }".into(), format!("let mut x = {a}; let mut y = {b}; let q = &raw mut x; unsafe {{ GUARD = {ub}; }}"), format!("let r = f(unsafe {{ &mut *q }}, {}); print(r);", c("q", "&raw mut y"))),
        3 => ("#[inline(never)] fn f(x: &i32, y: *mut i32) -> i32 { let a = *x; print(77); ubx(unsafe { GUARD }); unsafe { *y = 9; } a + *x }".into(), format!("let mut x = {a}; let mut y = {b}; let q = &raw mut x; unsafe {{ GUARD = {ub}; }}"), format!("let r = f(unsafe {{ &*q }}, {}); print(r);", c("q", "&raw mut y"))),
        4 => ("".into(), format!("let mut x = {a}; let r = &mut x; *r = 2; let q = r as *mut i32; {}", c("x = 5;", "")), "print(unsafe { *q }); print(x);".into()),
        5 => ("".into(), format!("let mut x = {a}; let q = &raw mut x; {}", "x = 5; unsafe { *q = 6; } x += 1;"), if ub { "unsafe { let r = &mut *q; *r = 1; *q = 2; print(*r); }".into() } else { "unsafe { let r = &mut *q; *r = 1; print(*r); *q = 2; } print(x);".into() }),
        6 => ("".into(), format!("let mut x = {a}; unsafe {{ let q = &raw mut x; let r = &*q; print(*r); {}", c("*q = 4;", "let z = *q;")), "print(*r); }".into()),
        7 => ("struct V { n: usize, d: [i32; 4] } impl V { fn len(&self) -> usize { self.n } fn push(&mut self, x: usize) { self.d[self.n] = x as i32; self.n += 1 } }".into(), "let mut v = V { n: 0, d: [0; 4] }; v.push(v.len()); v.push(v.len() + 5); v.d.show(); let q = &raw mut v;".into(), if ub { "unsafe { let r = &mut *q; r.push(1); let s = &mut *q; s.push(2); r.n = 1; }".into() } else { "unsafe { let r = &mut *q; r.push(1); let s = &mut *q; s.push(2); print(v.n); }".into() }),
        8 => ("#[inline(never)] fn f(x: &Cell<i32>, y: *mut i32) -> i32 { let a = x.get(); unsafe { *y = 9; } a + x.get() } #[inline(never)] fn g(x: &(i32, Cell<i32>), y: *mut i32) -> i32 { print(77); ubx(unsafe { GUARD }); unsafe { *y = 9; } x.0 + x.1.get() }".into(), format!("let mut x = (1, Cell::new({a})); let q = &raw mut x; unsafe {{ GUARD = {ub}; print(f(&(*q).1, q.cast::<i32>().byte_add(offset_of!((i32, Cell<i32>), 1)))); }}"), format!("let r = g(unsafe {{ &*q }}, unsafe {{ &raw mut (*q).{} as *mut i32 }}); print(r);", c("0", "1"))),
        9 => ("".into(), format!("let mut x = [{a}, {b}]; unsafe {{ let (l, r) = x.split_at_mut(1); let q = &mut l[0] as *mut i32; *q = 3; r[0] = 4; *q = 5; print(x[0]); "), c("*q = 6; print(x[0]); }", "print(x[0]); print(*q); }")),
        10 => ("".into(), format!("let mut x = {a}; unsafe {{ let r = &mut x; let s = &mut *r; let t = &mut *s; *t = 1; let q = t as *mut i32; *s = 2; "), c("*q = 3; }", "*r = 3; } print(x);")),
        11 => ("".into(), format!("unsafe {{ let q = allocate(4, 4) as *mut i32; *q = {a}; let r = &mut *q; *r = 5; let s = &*q; print(*s); "), c("*r = 6; deallocate(q as *mut u8, 4, 4); }", "print(*r); deallocate(q as *mut u8, 4, 4); }")),
        12 => ("#[inline(never)] fn f(x: &mut i32, q: *mut u8) { *x = 3; print(77); ubx(unsafe { GUARD }); unsafe { if GUARD { deallocate(q, 4, 4); } } }".into(), format!("unsafe {{ GUARD = {ub}; let q = allocate(4, 4) as *mut i32; *q = {a};"), "f(&mut *q, q as *mut u8); print(*q); deallocate(q as *mut u8, 4, 4); }".into()),
        13 => ("#[inline(never)] fn f(x: &mut (u8, u8)) -> (&mut u8, &mut u8) { let (a, b) = (&mut x.0, &mut x.1); *a = 3; (a, b) }".into(), "let mut t = (1u8, 2u8); let q = &raw mut t; unsafe { let (a, b) = f(&mut *q); *a = 5; *b = 6; *a = 7; ".into(), c("(*q).0 = 9; *a = 1; }", "(*q).1 = 9; *a = 1; print(t.0); }")),
        14 => ("struct Np { x: i32, _p: std::marker::PhantomPinned } #[inline(never)] fn f(x: &mut Np, y: *mut i32) -> i32 { unsafe { *y = 8; } x.x } #[inline(never)] fn g(x: &mut (i32,), y: *mut i32) -> i32 { print(77); ubx(unsafe { GUARD }); x.0 = 1; unsafe { if GUARD { *y = 8; } } x.0 }".into(), format!("let mut n = Np {{ x: {a}, _p: std::marker::PhantomPinned }}; let q = &raw mut n; unsafe {{ GUARD = {ub}; print(f(&mut *q, q as *mut i32)); let r = &mut *q; r.x = 1; (*q).x = 2; print(r.x); r.x = 3; }} let mut m = ({b},); let q = &raw mut m; "), "print(g(unsafe { &mut *q }, q as *mut i32));".into()),
        15 => ("".into(), format!("let mut a = [{a}; 3]; unsafe {{ let q = &raw mut a as *mut i32; let r = &mut *q.add(1); *r = 1; *q = 2; *q.add(2) = 3; print(*r); "), c("*q.add(1) = 7; print(*r); }", "*q.add(0) = 7; print(*r); }")),
        16 => ("".into(), format!("let mut o = Some({a}); unsafe {{ let q = &raw mut o; let r = match &mut *q {{ Some(x) => x, None => exitn() }}; *r = 3; "), c("*q = None; *r = 4; }", "*r = 4; o.show(); }")),
        17 => ("#[inline(never)] fn f<'a>(x: &'a mut i32) -> &'a mut i32 { *x += 1; x }".into(), format!("let mut x = {a}; unsafe {{ let q = &raw mut x; let r = f(f(&mut *q)); *r = 3; let s = f(r); *s = 4; "), c("*q = 8; print(*s); }", "print(*s); *q = 8; } print(x);")),
        18 => ("".into(), format!("let mut a = [{a}u8, 2, 3]; unsafe {{ let s: &mut [u8] = &mut a; let q = s.as_mut_ptr(); *q = 4; let t = &*q.add(1); print(*t); *q.add(2) = 1; print(*t); "), c("*q.add(1) = 1; print(*t); }", "*q.add(0) = 1; print(*t); } a.show();")),
        19 => ("".into(), format!("let x = (Cell::new({a}), {b}); let r = &x; let q = r as *const (Cell<i32>, i32); unsafe {{ let w = (&raw const (*q).0) as *mut i32; *w = 4; print(x.0.get()); let z = (&raw const (*q).1) as *mut i32; print(*z);"), c("*z = 3; }", "} print(x.1);")),
        20 => ("".into(), format!("let u = UnsafeCell::new({a}); let r1 = &u; let r2 = &u; unsafe {{ *r1.get() = 1; *r2.get() = 2; let m = &mut *r1.get(); *m = 3; "), c("*r2.get() = 4; print(*m); }", "print(*m); *r2.get() = 4; print(*r1.get()); }")),
        _ => ("#[inline(never)] fn f(x: &mut i32) { *x += 1 }".into(), format!("let mut x = {a}; let r = &mut x; f(r); f(r); *r += 1; let s: &i32 = &*r; print(*s); f(&mut x); let q = &raw mut x; let t = unsafe {{ &*q }}; print(*t);"), c("unsafe { *q = 5; } print(*t);", "print(*t); unsafe { *q = 5; } print(x);")),
    };
    p.tag(&format!("alias.{k}.{}", if ub { "bad" } else { "ok" }));
    let own = items.contains("GUARD"); // the guard is in the function
    let guard = if ub && !own { "ubx(true);" } else { "" };
    let mark = if own { "" } else { "print(77);" };
    p.items.push_str(&items);
    p.body(format!("{pre} {mark} {guard} {op} print(78);"))
}

/// a type with cells somewhere; every leaf is (path, offset expression, size, inside a cell)
#[derive(Clone)]
enum Ct { Int(&'static str), CellInt(&'static str), CellOf(Box<Ct>), Arr(Box<Ct>, usize), Tup(Vec<Ct>), St(usize, Vec<Ct>), Opt(Box<Ct>), Un(usize, Vec<Ct>), Ref }
fn ct(p: &mut P, d: u32, cell: bool) -> Ct {
    const I: [&str; 6] = ["u8", "u16", "u32", "i64", "i8", "u128"];
    let i = *p.pick(&I);
    match p.us(if d == 0 { 4 } else { 12 }) {
        0 | 1 => Ct::Int(i),
        2 => if cell { Ct::CellInt(i) } else { Ct::Int(i) },
        3 => if p.ch(30) { Ct::Ref } else { Ct::CellInt(i) },
        4 if cell => Ct::CellOf(Box::new(ct(p, d - 1, true))),
        5 | 6 => { let n = p.us(3) + 1; Ct::Arr(Box::new(ct(p, d - 1, cell)), n) }
        7 => { let n = 1 + p.us(3); Ct::Tup((0..n).map(|_| ct(p, d - 1, cell)).collect()) }
        8 => Ct::Opt(Box::new(ct(p, d - 1, cell))),
        9 => { let id = p.fresh(); let n = 1 + p.us(2); Ct::Un(id, (0..n).map(|_| ct(p, d - 1, cell)).collect()) }
        _ => { let id = p.fresh(); let n = 1 + p.us(4); Ct::St(id, (0..n).map(|_| ct(p, d - 1, cell)).collect()) }
    }
}
fn ct_name(t: &Ct) -> String {
    match t { Ct::Int(i) => i.to_string(), Ct::CellInt(i) => format!("Cell<{i}>"), Ct::CellOf(t) => format!("UnsafeCell<{}>", ct_name(t)), Ct::Arr(t, n) => format!("[{}; {n}]", ct_name(t)), Ct::Tup(v) => format!("({},)", v.iter().map(ct_name).collect::<Vec<_>>().join(", ")), Ct::St(i, _) => format!("St{i}"), Ct::Opt(t) => format!("Option<{}>", ct_name(t)), Ct::Un(i, _) => format!("Un{i}"), Ct::Ref => "&'static Cell<u8>".into() }
}
fn ct_items(p: &mut P, t: &Ct) {
    match t {
        Ct::Int(_) | Ct::CellInt(_) | Ct::Ref => {}
        Ct::CellOf(t) | Ct::Arr(t, _) | Ct::Opt(t) => ct_items(p, t),
        Ct::Tup(v) => for t in v { ct_items(p, t) },
        Ct::St(_, v) | Ct::Un(_, v) => {
            for t in v { ct_items(p, t) }
            let u = matches!(t, Ct::Un(..));
            let fs: String = v.iter().enumerate().map(|(j, t)| if u { format!("f{j}: ManuallyDrop<{}>, ", ct_name(t)) } else { format!("f{j}: {}, ", ct_name(t)) }).collect();
            let repr = *p.pick(&["", "", "#[repr(C)] ", "#[repr(align(8))] "]);
            p.items.push_str(&format!("{repr}{} {} {{ {fs}}}\n", if u { "union" } else { "struct" }, ct_name(t)));
        }
    }
}
fn ct_value(t: &Ct) -> String {
    match t { Ct::Int(_) => "3".into(), Ct::CellInt(_) => "Cell::new(4)".into(), Ct::CellOf(t) => format!("UnsafeCell::new({})", ct_value(t)), Ct::Arr(t, n) => format!("[{}]", vec![ct_value(t); *n].join(", ")), Ct::Tup(v) => format!("({},)", v.iter().map(ct_value).collect::<Vec<_>>().join(", ")), Ct::St(_, v) => format!("{} {{ {} }}", ct_name(t), v.iter().enumerate().map(|(j, t)| format!("f{j}: {}", ct_value(t))).collect::<Vec<_>>().join(", ")), Ct::Opt(t) => format!("Some({})", ct_value(t)), Ct::Un(_, v) => format!("{} {{ f0: ManuallyDrop::new({}) }}", ct_name(t), ct_value(&v[0])), Ct::Ref => "unsafe { &*(&raw const GC as *const Cell<u8>) }".into() }
}
fn ct_has(t: &Ct) -> bool { match t { Ct::Int(_) | Ct::Ref => false, Ct::CellInt(_) | Ct::CellOf(_) => true, Ct::Arr(t, _) | Ct::Opt(t) => ct_has(t), Ct::Tup(v) | Ct::St(_, v) | Ct::Un(_, v) => v.iter().any(ct_has) } }
/// a random leaf: (address expression, whether it is in a cell)
fn ct_leaf(p: &mut P, t: &Ct, base: &str, cell: bool) -> (String, bool) {
    match t {
        Ct::Int(_) | Ct::Ref => (base.into(), cell),
        Ct::CellInt(_) => (base.into(), true),
        Ct::CellOf(t) => ct_leaf(p, t, base, true),
        Ct::Arr(e, n) => { let i = p.us(*n); ct_leaf(p, e, &format!("{base}.byte_add({i} * size_of::<{}>())", ct_name(e)), cell) }
        Ct::Tup(v) | Ct::St(_, v) => { let j = p.us(v.len()); let f = if matches!(t, Ct::Tup(_)) { j.to_string() } else { format!("f{j}") }; ct_leaf(p, &v[j], &format!("{base}.byte_add(offset_of!({}, {f}))", ct_name(t)), cell) }
        // all of the enum or union is one cell if there is a cell in it
        Ct::Opt(_) | Ct::Un(..) => { let c = cell || ct_has(t); (format!("{base}.byte_add({})", if p.ch(50) { "0".to_string() } else { format!("size_of::<{}>() - 1", ct_name(t)) }), c) }
    }
}
/// writing through a shared reference is allowed inside cells, and only there
fn cells_prog(p: &mut P) {
    let t = ct(p, 3, true);
    ct_items(p, &t);
    p.items.push_str("static mut GC: u8 = 0;\n");
    let n = ct_name(&t);
    let mut s = format!("let x: {n} = {}; let y: {n} = {}; ", ct_value(&t), ct_value(&t));
    // as a slice, or directly
    let slice = p.ch(30);
    if slice { s += &format!("let ar: [{n}; 2] = [x, y]; let rf: &[{n}] = &ar; let b = (rf as *const [{n}] as *const MaybeUninit<u8>).wrapping_byte_add({} * size_of::<{n}>()); let a0 = &raw const ar as *const MaybeUninit<u8>; print(rf.len()); ", p.us(2)) } else { s += &format!("let rf: &{n} = &x; let b = rf as *const {n} as *const MaybeUninit<u8>; let a0 = &raw const x as *const MaybeUninit<u8>; ") }
    // inside a function, the reference is protected
    s += "unsafe { ";
    for i in 0..10 {
        let (e, c) = ct_leaf(p, &t, "b", false);
        if c { s += &format!("{{ let w = lau({e}); let o = *w; *w = o; print({i}); }} ") }
        else { s += &format!("{{ let w = lau({e}); let o = *w; print({i}); }} "); let k = p.sel(); s += &format!("if sel({k}) {{ ubx(true); let w = lau({e}); *w = MaybeUninit::new(1); }} "); }
    }
    s += "} print(size_of_val(rf)); ";
    p.tag("cells");
    // zero-sized leaves do not write anything
    p.body(s)
}

// ---------- intrinsics and operators ----------
pub fn intrin_snippet(p: &mut P) {
    let it = p.us(12);
    let tn = INTS[it];
    let (v, w, z) = (p.ival(it), p.ival(it), p.ival(it));
    let n = 1 + p.us(4);
    let s = match p.us(12) {
        0 => { p.tag("intr.ctpop"); tpl!("print(bb(@V).count_ones()); print(bb(@W).count_zeros()); print(@T::MAX.count_ones()); print(bb(0 as @T).count_ones()); print((@V & @W).count_ones());", T = tn, V = v, W = w) }
        1 => { p.tag("intr.raweq"); tpl!("let a: [@T; @N] = bb([@V; @N]); let mut b = bb([@V; @N]); print(a == b); b[bb(@K)] = @W; print(a == b); print(a != b); print([@V, @W] == [@V, @Z]); print(bb([1u8; 0]) == []);", T = tn, N = n, K = n - 1, V = v, W = w, Z = z) }
        2 => { p.tag("intr.exactdiv"); tpl!("unsafe { print(core::intrinsics::exact_div(bb(@A), @Bu32)); print(core::intrinsics::exact_div(bb(-@A), @Bi64)); }", A = 6 * n, B = n) }
        3 => { p.tag("intr.wrapoff"); tpl!("let a = [@V, @W, @Z]; let q = a.as_ptr(); let k = bb(@K); print(q.wrapping_add(k).wrapping_sub(k) == q); print(unsafe { *q.wrapping_add(k).wrapping_add(1).wrapping_sub(k) }); print(q.wrapping_offset(k as isize).addr().wrapping_sub(q.addr())); print(q.wrapping_byte_add(k).addr().wrapping_sub(q.addr()));", V = v, W = w, Z = z, K = p.pick(&["usize::MAX", "usize::MAX / 2", "isize::MAX as usize", "1usize << 62", "7usize", "0usize", "usize::MAX / 3"])) }
        4 => { p.tag("intr.cmp"); tpl!("fn o(x: std::cmp::Ordering) -> i8 { x as i8 } print(o(bb(@V).cmp(&@W))); print(o(bb(@W).cmp(&@W))); print(bb(@V).partial_cmp(&@W).is_some()); print(bb(@V).max(@W)); print(bb(@V).min(@W)); print(o((@V, @W).cmp(&(@V, @Z)))); print((1u8, @V) < (1u8, @W)); print(o(true.cmp(&false))); print(o('a'.cmp(&'b'))); print(Some(@V) > None); print(Some(@V) <= Some(@W)); print(o(bb(@V).cmp(&@W).reverse())); match bb(@V).cmp(&@Z) { std::cmp::Ordering::Less => print(1), std::cmp::Ordering::Equal => print(2), _ => print(3) }", V = v, W = w, Z = z) }
        5 => { p.tag("intr.bool"); tpl!("let (a, b) = (bb(@A), bb(@B)); print(a & b); print(a | b); print(a ^ b); print(!a); print(a == b); print(a < b); print(a >= b); print(a != b); let mut c = a; c &= b; print(c); c |= a; print(c); c ^= true; print(c); print(a as @T); print(b as u8 + 3); print((a as u8 as char) as u32); print(a && { print(9); b }); print(a || { print(8); b });", A = n % 2 == 0, B = p.ch(50), T = tn) }
        6 => { p.tag("intr.char"); tpl!("let c = bb(@C); print(c as u32); print(c as u8); print(c as u64); print(c == 'x'); print(c < 'x'); print(bb(@Bu8) as char as u32); print(unsafe { char::from_u32_unchecked(bb(0x61)) } as u32); print(('a'..='e').contains(&c)); print(size_of_val(&c)); match bb(c) as u32 { 0x61 => print(1), 0x10000.. => print(2), _ => print(3) } print(matches!(c as u32, 97..=122 | 48..=57));", C = p.pick(&["'a'", "'x'", "'\\u{e9}'", "'\\u{1f600}'", "'\\0'", "'\\u{10ffff}'"]), B = 40 * n) }
        7 => { p.tag("intr.sizeofval"); tpl!("let a: [@T; @N] = [@V; @N]; let s: &[@T] = &a; print(size_of_val(s)); print(align_of_val(s)); let d: &dyn Dy = &Dy1(1); print(size_of_val(d)); print(align_of_val(d)); print(size_of_val(\"abc\")); print(size_of_val(&a)); print(size_of_val(&s[@K..])); trait X {} impl X for @T {} impl X for (u8, @T) {} impl X for [u16; 3] {} let xs: [&dyn X; 3] = [&@V, &(1u8, @V), &[1u16; 3]]; let mut i = 0; while i < 3 { print(size_of_val(xs[i])); print(align_of_val(xs[i])); i += 1 } print(size_of::<&dyn X>()); print(size_of::<Option<&[@T]>>()); print(needs_drop::<@T>()); print(align_of::<(u8, @T)>());", T = tn, V = v, N = n, K = n - 1) }
        8 => { p.tag("intr.unchecked"); tpl!("unsafe { print(bb(@Au16).unchecked_add(@Bu16)); print(bb(@Ai32).unchecked_mul(@Ni32)); print(bb(@Bi64).unchecked_sub(@Ai64)); print(core::intrinsics::unchecked_shl(bb(@V), bb(@Nu8))); print(core::intrinsics::unchecked_shr(bb(@W), bb(@Nu64))); } print(bb(@V).wrapping_shl(@S)); print(bb(@W).wrapping_shr(@S)); print(bb(@V).wrapping_neg()); bb(@V).overflowing_add(@W).show(); bb(@V).overflowing_sub(@W).show(); bb(@V).overflowing_mul(@W).show(); bb(@V).checked_add(@W).show(); bb(@V).checked_sub(@W).show(); bb(@V).checked_mul(@W).show();", A = 30 * n, B = 7 * n, N = n, V = v, W = w, S = p.us(200)) }
        9 => { p.tag("intr.atomics"); tpl!("unsafe { let mut a = bb(@Au32); let q = &raw mut a; print(atomic_load(q)); atomic_store(q, @B); print(a); print(atomic_fetch_add(q, 5)); print(atomic_fetch_sub(q, 2)); print(a); print(compare_exchange(q, @B + 3, 9)); print(a); print(compare_exchange(q, @B, 10)); print(a); let h = allocate(8, 4) as *mut u32; atomic_store(h.add(1), u32::MAX); print(atomic_load(h.add(1))); print(compare_exchange(h.add(1), u32::MAX, 0)); print(*h.add(1)); deallocate(h as *mut u8, 8, 4); let l = create_lock(); let m = create_lock(); print(l != m); acquire(m); acquire(l); release(m); release(l); acquire(m); release(m); }", A = 20 * n, B = 9 * n) }
        10 => { p.tag("intr.assume"); tpl!("let k = bb(@N); unsafe { std::hint::assert_unchecked(k < 100); } print(k); let m: MaybeUninit<@T> = MaybeUninit::new(@V); print(unsafe { m.assume_init() }); match k { 1..=9 => print(1), _ => unsafe { std::hint::unreachable_unchecked() } } let o = Some(@V); print(unsafe { o.unwrap_unchecked() }); let a = [@V, @W]; print(unsafe { *a.get_unchecked(1) }); let mut b = a; unsafe { *b.get_unchecked_mut(0) = @Z; } b.show();", N = n, T = tn, V = v, W = w, Z = z) }
        _ => { p.tag("intr.discr"); tpl!("#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)] #[repr(@R)] enum E { A = @X, B, C = @Y } let es = [E::A, E::B, E::C]; let e = es[bb(@K)]; print(e as @R); print(e as @T); print(e == E::B); print(e < E::C); print((e as @R) < (E::B as @R)); print(std::mem::discriminant(&e) == std::mem::discriminant(&E::C)); print(o(e.cmp(&E::B))); fn o(x: std::cmp::Ordering) -> i8 { x as i8 } let b: @R = unsafe { transmute(e) }; print(b); let f: E = unsafe { transmute(bb(E::C as @R)) }; print(f == E::C); #[derive(PartialEq, PartialOrd, Clone, Copy)] enum F { A(@T), B { x: u8, y: @T }, C } let fs = [F::C, F::A(@V), F::B { x: 1, y: @W }, F::A(@W)]; let g = fs[bb(@K)]; print(g == fs[3]); print(g < fs[1]); print(g >= fs[2]);", R = p.pick(&["u8", "i8", "i16", "u32", "i64", "usize", "u16"]), T = tn, X = p.us(40), Y = 60 + p.us(60), K = p.us(3), V = v, W = w) }
    };
    p.body(s)
}
