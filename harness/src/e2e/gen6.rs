//! Random Rust programs, as source text: functions written in MIR itself, for what `rustc` does not generate from
//! ordinary code, or not in all its forms.
use super::gen_rs::*;
use super::types::*;

const ITEMS: &str = r#"
use core::intrinsics::mir::*;
struct Dm(u32);
impl Drop for Dm { fn drop(&mut self) { print(self.0); if self.0 % 7 == 0 { unsafe { ubx(FATAL) } panic!() } } }
struct Dp(Dm, u8, Dm);
static mut CAUGHT: u32 = 0; static mut FATAL: bool = false;
fn catch_it(d: *mut u8, p: *mut u8) { unsafe { CAUGHT += 1; } }
fn try_it(d: *mut u8) { let f = unsafe { *(d as *mut fn()) }; f() }
#[inline(never)] fn cu(mut f: fn()) -> bool {
    #[cfg(native)] { return std::panic::catch_unwind(f).is_err() }
    #[cfg(not(native))] { unsafe { let p = &raw mut f as *mut u8; let r = core::intrinsics::catch_unwind(try_it, p, catch_it); r != 0 } }
}
#[inline(never)] fn may(x: u32) -> u32 { print(x); if x & 1 == 1 { unsafe { ubx(FATAL) } panic!() } x + 1 }
#[inline(never)] fn may2(x: u32, y: Dm) -> u32 { print(x); if x & 1 == 1 { unsafe { ubx(FATAL) } panic!() } y.0 }
#[inline(never)] fn note(x: u32) { print(x) }
"#;
const CM: &str = "#[custom_mir(dialect = \"runtime\", phase = \"optimized\")] #[inline(never)]";

pub fn mir_prog(p: &mut P) {
    p.items.push_str(ITEMS);
    for _ in 0..9 {
        match p.us(25) {
            22 | 23 => spread(p),
            24 => catches(p),
            0..=3 => arith(p),
            4 | 5 => shift(p),
            6 | 7 => switch(p),
            8..=11 => discr(p),
            12..=14 => unwind(p),
            15 | 16 => storage(p),
            17 => offset(p),
            18 => aggr(p),
            19 | 20 => moves(p),
            _ => ptrs(p),
        }
    }
}

/// raw operators, which wrap, at pairs of values
fn arith(p: &mut P) {
    let i = p.us(12);
    let t = INTS[i];
    let id = p.fresh();
    let mut s = String::new();
    let vals: Vec<String> = (0..6).map(|_| p.ival(i)).collect();
    p.tag("mir.arith");
    match p.us(7) {
        0 | 1 => {
            let op = *p.pick(&["+", "-", "*"]);
            p.items.push_str(&format!("{CM} fn m{id}(a: {t}, b: {t}) -> ({t}, bool) {{ mir! {{ {{ RET = Checked(a {op} b); Return() }} }} }}\n"));
            for (k, v) in vals.iter().enumerate() { s += &format!("m{id}({v}, {}).show(); ", vals[(k + 1) % 6]) }
        }
        2 | 3 => {
            let op = *p.pick(&["+", "-", "*", "&", "|", "^"]);
            p.items.push_str(&format!("{CM} fn m{id}(a: {t}, b: {t}) -> {t} {{ mir! {{ {{ RET = a {op} b; Return() }} }} }}\n"));
            for (k, v) in vals.iter().enumerate() { s += &format!("m{id}({v}, {}).show(); ", vals[(k + 1) % 6]) }
        }
        4 => {
            let op = *p.pick(&["/", "%"]);
            p.items.push_str(&format!("{CM} fn m{id}(a: {t}, b: {t}) -> {t} {{ mir! {{ {{ RET = a {op} b; Return() }} }} }}\n"));
            let bad = if signed(i) { format!("b == 0 || (a == {t}::MIN && b == -1)") } else { "b == 0".into() };
            for (k, v) in vals.iter().enumerate() { let n = p.sel(); s += &format!("{{ let (a, b): ({t}, {t}) = ({v}, {}); if {bad} {{ if sel({n}) {{ ubx(true); m{id}(a, b).show(); }} }} else {{ m{id}(a, b).show(); }} }} ", vals[(k + 1) % 6]) }
        }
        5 => {
            let neg = if signed(i) { "x = -a;" } else { "x = a;" };
            let u = *p.pick(&INTS);
            let u = if u == t { INTS[(i + 5) % 12] } else { u };
            p.items.push_str(&format!("{CM} fn m{id}(a: {t}) -> ({t}, {t}, {u}) {{ mir! {{ let x: {t}; let y: {t}; let z: {u}; {{ {neg} y = !a; z = a as {u}; RET = (x, y, z); Return() }} }} }}\n"));
            for v in &vals { s += &format!("m{id}({v}).show(); ") }
        }
        _ => {
            // comparisons of everything that can be compared
            let (ty, vs): (&str, Vec<String>) = match p.us(4) { 0 => ("bool", vec!["true".into(), "false".into()]), 1 => ("char", ["'a'", "'\\u{d7ff}'", "'\\u{e000}'", "'\\0'", "'\\u{10ffff}'"].iter().map(|s| s.to_string()).collect()), 2 => ("*const u16", (0..4).map(|_| format!("(&raw const ARR{id} as *const u16).wrapping_add({})", p.us(5))).collect()), _ => (t, vals) };
            p.items.push_str(&format!("static ARR{id}: [u16; 3] = [5; 3];\n{CM} fn m{id}(a: {ty}, b: {ty}) -> [bool; 6] {{ mir! {{ let x: bool; let y: bool; let z: bool; let u: bool; let v: bool; let w: bool; {{ x = a < b; y = a <= b; z = a > b; u = a >= b; v = a == b; w = a != b; RET = [x, y, z, u, v, w]; Return() }} }} }}\n"));
            for a in &vs { for b in &vs { s += &format!("m{id}({a}, {b}).show(); ") } }
            if ty == "bool" {
                p.items.push_str(&format!("{CM} fn n{id}(a: bool, b: bool) -> [bool; 4] {{ mir! {{ let x: bool; let y: bool; let z: bool; let u: bool; {{ x = a & b; y = a | b; z = a ^ b; u = !a; RET = [x, y, z, u]; Return() }} }} }}\n"));
                s += "let mut k = 0; while k < 4 { n@(k & 1 == 1, k & 2 == 2).show(); k += 1 } ".replace('@', &id.to_string()).as_str();
            }
        }
    }
    p.body(s)
}
/// shifts by amounts of any type
fn shift(p: &mut P) {
    p.tag("mir.shift");
    let (i, j) = (p.us(12), p.us(12));
    let (t, u) = (INTS[i], INTS[j]);
    let id = p.fresh();
    let op = *p.pick(&["<<", ">>"]);
    p.items.push_str(&format!("{CM} fn m{id}(a: {t}, b: {u}) -> {t} {{ mir! {{ {{ RET = a {op} b; Return() }} }} }}\n"));
    let mut s = String::new();
    for _ in 0..8 { let (a, b) = (p.ival(i), if p.ch(50) { let w = bits(i) as i128; let k = [0, 1, w - 1, w, w + 1, 7, 31, 63][p.us(8)]; int_lit(j, k.min(127)) } else { p.ival(j) }); s += &format!("m{id}({a}, {b}).show(); ") }
    p.body(s)
}
fn switch(p: &mut P) {
    p.tag("mir.switch");
    let i = p.us(13);
    let id = p.fresh();
    if i == 12 {
        let tf = p.ch(50); p.items.push_str(&format!("{CM} fn m{id}(a: bool) -> u8 {{ mir! {{ {{ match a {{ {} => bb1, _ => bb2 }} }} bb1 = {{ RET = 1_u8; Return() }} bb2 = {{ RET = 2_u8; Return() }} }} }}\n", tf));
        return p.body(format!("m{id}(true).show(); m{id}(bb(false)).show();"));
    }
    let t = INTS[i];
    let n = 1 + p.us(5);
    let mut vs: Vec<i128> = (0..n).map(|_| int_val(&mut p.r, i)).collect();
    vs.sort(); vs.dedup();
    for k in (1..vs.len()).rev() { let j = p.us(k + 1); vs.swap(k, j) }
    let lit = |v: i128| int_lit(i, v).trim_matches(|c| c == '(' || c == ')').to_string();
    let un = p.ch(40);
    let arms: String = vs.iter().enumerate().map(|(k, v)| format!("{} => a{k}, ", lit(*v))).collect();
    let blocks: String = (0..vs.len()).map(|k| if k > 0 && p.ch(25) { format!("a{k} = {{ Goto(a{}) }} ", p.us(k)) } else { format!("a{k} = {{ RET = {k}_u8; Return() }} ") }).collect();
    let other = if un { "Unreachable()" } else { "RET = 99_u8; Return()" };
    p.items.push_str(&format!("{CM} fn m{id}(a: {t}) -> u8 {{ mir! {{ {{ match a {{ {arms}_ => other }} }} {blocks}other = {{ {other} }} }} }}\n"));
    let mut s: String = vs.iter().map(|v| format!("m{id}({}).show(); ", int_lit(i, *v))).collect();
    for _ in 0..4 {
        let v = if p.ch(50) { let near = vs[p.us(vs.len())]; let w = bits(i); let x = near ^ (1i128 << p.us(w as usize)); if w == 128 { x } else if signed(i) { ((x as u128) << (128 - w)) as i128 >> (128 - w) } else { x & ((1i128 << w) - 1) } } else { int_val(&mut p.r, i) };
        let l = int_lit(i, v);
        if vs.contains(&v) || !un { s += &format!("m{id}({l}).show(); ") } else { let n = p.sel(); s += &format!("if sel({n}) {{ ubx(true); m{id}({l}).show(); }} ") }
    }
    p.body(s)
}
/// discriminants written and read directly
fn discr(p: &mut P) {
    p.tag("mir.discr");
    let id = p.fresh();
    // (the type, its fields by variant, the type of its discriminant, a first value)
    let nv = 2 + p.us(4);
    let fts = ["u8", "u16", "u32", "u64", "u128", "bool", "char", "fn(i32) -> i32", "NonZero<u16>", "[u8; 3]", "(u8, u32)", "Option<bool>", "()"];
    let val = |p: &mut P, t: &str| -> String { let k = p.us(250); match t { "bool" => (k % 2 == 0).to_string(), "char" => "'x'".into(), "fn(i32) -> i32" => "g0".into(), "NonZero<u16>" => format!("NonZero::<u16>::new({}).unwrap()", k + 1), "[u8; 3]" => format!("[{k}, 2, 3]"), "(u8, u32)" => format!("({k}, 7)"), "Option<bool>" => ["None", "Some(true)", "Some(false)"][k % 3].into(), "()" => "()".into(), t => format!("{k}{t}") } };
    let tag = if p.ch(60) { Some(p.us(12)).filter(|i| bits(*i) < 128) } else { None };
    let dt = tag.map_or("isize", |t| INTS[t]);
    // if at most one of the variants has fields, there may be a niche
    let one = p.ch(50);
    let big = p.us(nv);
    let mut vars: Vec<Vec<&str>> = vec![];
    for k in 0..nv { let n = if one && k != big { 0 } else { [0, 1, 1, 2][p.us(4)] }; vars.push((0..n).map(|_| *p.pick(&fts)).collect()) }
    let mut ds: Vec<i128> = vec![];
    let explicit = tag.is_some() && p.ch(70);
    for k in 0..nv { loop { let i = tag.unwrap_or(5); let v = if explicit { int_val(&mut p.r, i) } else { k as i128 }; if !ds.contains(&v) { ds.push(v); break } } }
    let mut def = format!("{}enum E{id} {{ ", tag.map_or(String::new(), |t| format!("#[repr({})] ", INTS[t])));
    for k in 0..nv {
        let fields = if vars[k].is_empty() { String::new() } else { format!("({})", vars[k].join(", ")) };
        def += &format!("V{k}{fields}{}, ", if explicit { format!(" = {}", int_lit(tag.unwrap(), ds[k]).trim_matches(|c| c == '(' || c == ')')) } else { String::new() });
    }
    def += "}\n";
    let mut show = format!("impl Show for E{id} {{ fn show(&self) {{ match self {{ ");
    for k in 0..nv { let xs: Vec<String> = (0..vars[k].len()).map(|i| format!("x{i}")).collect(); show += &format!("E{id}::V{k}{} => {{ print({k}u8); {} }} ", if xs.is_empty() { String::new() } else { format!("({})", xs.join(", ")) }, xs.iter().map(|x| format!("{x}.show(); ")).collect::<String>()) }
    show += "} } }\n";
    let mut f = String::new();
    for k in 0..nv {
        let params: String = vars[k].iter().enumerate().map(|(i, t)| format!(", x{i}: {t}")).collect();
        let mut st: Vec<String> = vars[k].iter().enumerate().map(|(i, t)| format!("place!(Field::<{t}>(Variant(*e, {k}), {i})) = x{i}; ")).collect();
        // (tags do not overlap with the fields)
        if p.ch(50) || vars[k].is_empty() { st.push(format!("SetDiscriminant(*e, {k}); ")) } else { st.insert(0, format!("SetDiscriminant(*e, {k}); ")) }
        f += &format!("{CM} fn s{id}_{k}(e: *mut E{id}{params}) -> {dt} {{ mir! {{ {{ {} RET = Discriminant(*e); Return() }} }} }}\n", st.concat());
    }
    p.items.push_str(&format!("{def}{show}{f}{CM} fn d{id}(e: *const E{id}) -> {dt} {{ mir! {{ {{ RET = Discriminant(*e); Return() }} }} }}\n"));
    let call = |p: &mut P, k: usize| { let a: String = vars[k].iter().map(|t| format!(", {}", val(p, t))).collect(); format!("print(s{id}_{k}(q{a})); ") };
    let mut s = format!("unsafe {{ let mut m = MaybeUninit::<E{id}>::uninit(); let q = m.as_mut_ptr(); ");
    // the variant which a niche lies in is what an uninitialized enum does not hold
    for _ in 0..6 { let k = p.us(nv); s += &call(p, k); s += &format!("(*q).show(); print(d{id}(q)); ") }
    if p.ch(30) { let n = p.sel(); s += &format!("if sel({n}) {{ let m = MaybeUninit::<E{id}>::uninit(); if size_of::<E{id}>() > 0 {{ ubx(true); print(d{id}(m.as_ptr())); }} }} ") }
    s += "}";
    p.body(s)
}
/// calls and drops with every way of unwinding
fn unwind(p: &mut P) {
    p.tag("mir.unwind");
    let id = p.fresh();
    let x = p.us(20) as u32;
    let y = 1 + p.us(20) as u32;
    let panics = x & 1 == 1;
    // what happens if it unwinds
    let how = p.us(5);
    let (arg, extra) = match how {
        0 => ("UnwindContinue()".to_string(), String::new()),
        1 => ("UnwindUnreachable()".into(), String::new()),
        2 => ("UnwindTerminate(ReasonAbi)".into(), String::new()),
        3 => ("UnwindCleanup(cl)".into(), format!("cl (cleanup) = {{ Call(u = note({y}_u32), ReturnTo(cl2), UnwindTerminate(ReasonInCleanup)) }} cl2 (cleanup) = {{ {} }}", p.pick(&["UnwindResume()", "UnwindResume()", "Goto(cl3)"]).to_string())),
        _ => ("UnwindCleanup(cl)".into(), "cl (cleanup) = { Drop(d, ReturnTo(cl2), UnwindTerminate(ReasonInCleanup)) } cl2 (cleanup) = { UnwindResume() }".into()),
    };
    let extra = if extra.contains("Goto(cl3)") { format!("{extra} cl3 (cleanup) = {{ Call(u = note({}_u32), ReturnTo(cl4), UnwindTerminate(ReasonInCleanup)) }} cl4 (cleanup) = {{ UnwindResume() }}", y + 1) } else { extra };
    // which call it is, and whether it panics
    let dv = 1 + p.us(30) as u32;
    let (call, fails, after) = match p.us(4) {
        0 => (format!("Call(t = may({x}_u32), ReturnTo(ok), {arg})"), panics, ""),
        1 => (format!("Call(t = may2({x}_u32, Move(d)), ReturnTo(ok), {arg})"), panics || dv % 7 == 0, "moved"),
        2 => (format!("Drop(d, ReturnTo(ok), {arg})"), dv % 7 == 0, "moved"),
        _ => (format!("Call((*q) = may({x}_u32), ReturnTo(ok), {arg})"), panics, ""),
    };
    // (a value which is gone is not dropped again)
    if (how == 4 && after == "moved") || (panics && dv % 7 == 0) || (how == 1 && panics && call.contains("may2")) { return unwind(p) }
    let last = if after.is_empty() { "fin = { Drop(d, ReturnTo(fin2), UnwindContinue()) } fin2 = { Return() }" } else { "fin = { Return() }" };
    p.items.push_str(&format!("{CM} fn m{id}(d: Dm, q: *mut u32) -> u32 {{ mir! {{ let t: u32; let u: (); {{ t = 4_u32; {call} }} ok = {{ RET = t; Goto(fin) }} {last} {extra} }} }}\n"));
    p.items.push_str(&format!("fn t{id}() {{ let mut z = 3u32; print(m{id}(Dm({dv}), &raw mut z)); print(z); }}\n"));
    let s = format!("print(cu(t{id}));");
    if fails && how == 1 { let n = p.sel(); p.body(format!("if sel({n}) {{ unsafe {{ FATAL = true; }} {s} }}")) }
    else if dv % 7 == 0 && how == 4 && fails { let n = p.sel(); p.body(format!("if sel({n}) {{ {s} }}")) }
    else if fails && how == 2 { let n = p.sel(); p.body(format!("if sel({n}) {{ {s} }}")) }
    else { p.body(s) }
}
/// locals whose storage is live only in parts of a function
fn storage(p: &mut P) {
    p.tag("mir.storage");
    let id = p.fresh();
    let t = *p.pick(&["u8", "u32", "u64", "(u8, u16)", "[u8; 5]", "bool"]);
    let v = match t { "(u8, u16)" => "(3, 4)", "[u8; 5]" => "[9; 5]", "bool" => "true", _ => "77" };
    let mut st = String::new();
    // a random sequence of what can be done with two locals; what is undefined leaves it
    #[derive(Clone, Copy, PartialEq)] enum S { Dead, Un, Init }
    let (mut a, mut ub) = ([S::Dead; 2], false);
    let mut taken: [Option<bool>; 2] = [None; 2];
    for _ in 0..4 + p.us(10) {
        let k = p.us(2);
        match p.us(8) {
            0 | 1 => { st += &format!("StorageLive(x{k}); "); a[k] = S::Un; taken[k] = taken[k].map(|_| false) }
            2 if p.ch(60) => { st += &format!("StorageDead(x{k}); "); a[k] = S::Dead; taken[k] = taken[k].map(|_| false) }
            3 | 4 => { if a[k] == S::Dead { if p.ch(70) { continue } ub = true } st += &format!("x{k} = v; "); a[k] = S::Init; if ub { break } }
            5 => { if a[k] != S::Init { if p.ch(70) { continue } ub = true } st += &format!("RET = x{k}; "); if ub { break } }
            6 => { if a[k] == S::Dead { continue } st += &format!("p{k} = &raw mut x{k}; "); taken[k] = Some(true) }
            _ => { let Some(live) = taken[k] else { continue }; let good = live && a[k] == S::Init; if !good { if p.ch(70) { continue } ub = true } st += &format!("RET = *p{k}; "); if ub { break } }
        }
    }
    p.items.push_str(&format!("{CM} fn m{id}(v: {t}) -> {t} {{ mir! {{ let x0: {t}; let x1: {t}; let p0: *mut {t}; let p1: *mut {t}; {{ RET = v; StorageDead(x0); StorageDead(x1); {st} Return() }} }} }}\n"));
    if ub { let n = p.sel(); p.body(format!("if sel({n}) {{ ubx(true); m{id}({v}).show(); }}")) } else { p.body(format!("m{id}({v}).show(); m{id}(bb({v})).show();")) }
}
fn offset(p: &mut P) {
    p.tag("mir.offset");
    let id = p.fresh();
    let (t, size, v) = *p.pick(&[("u8", 1i64, "3"), ("u16", 2, "300"), ("u64", 8, "5"), ("(u8, u32)", 8, "(1, 2)"), ("[u8; 3]", 3, "[1, 2, 3]"), ("()", 0, "()"), ("u128", 16, "7")]);
    let u = *p.pick(&["isize", "usize"]);
    let n = 1 + p.us(5) as i64;
    p.items.push_str(&format!("{CM} fn m{id}(a: *const {t}, k: {u}) -> *const {t} {{ mir! {{ {{ RET = Offset(a, k); Return() }} }} }}\n"));
    let mut s = format!("let arr: [{t}; {n}] = [{v}; {n}]; let a = &raw const arr as *const {t}; unsafe {{ ");
    for _ in 0..4 {
        let start = p.us(n as usize + 1) as i64;
        let k = if u == "usize" { p.us(n as usize + 2) as i64 } else { p.us(2 * n as usize + 3) as i64 - n - 1 };
        let end = start + k;
        let ok = size == 0 || (0..=n).contains(&end);
        let e = format!("print(m{id}(a.wrapping_add({start}), {k}).addr().wrapping_sub(a.addr())); ");
        if ok { s += &e; if (0..n).contains(&end) || size == 0 { s += &format!("(*m{id}(a.wrapping_add({start}), {k})).show(); ") } } else { let n = p.sel(); s += &format!("if sel({n}) {{ ubx(true); {e}}} ") }
    }
    if size > 0 { let n = p.sel(); let huge = if u == "usize" { *p.pick(&["usize::MAX", "1 << 63", "(1 << 63) - 1", "1 << 60"]) } else { *p.pick(&["isize::MAX", "isize::MIN", "1 << 60", "-(1 << 61)"]) }; s += &format!("if sel({n}) {{ ubx(true); print(m{id}(a, {huge}).addr()); }} ") }
    p.body(s + "}")
}
/// aggregates, repeated values, metadata and elements
fn aggr(p: &mut P) {
    p.tag("mir.aggr");
    let id = p.fresh();
    let n = p.us(6);
    let (x, y) = (p.us(256), p.us(65536));
    let i = p.us(8);
    p.items.push_str(&format!("#[derive(Clone, Copy)] struct S{id} {{ b: u8, a: u32 }} #[derive(Clone, Copy)] union U{id} {{ b: [u16; 2], a: u8 }} #[derive(Clone, Copy)] enum E{id} {{ A, B {{ y: u8, x: u32 }}, C(bool, u16) }}\n{CM} fn m{id}(a: u8, b: u32) -> (S{id}, U{id}, [u8; {n}], (u32, (u8, u32)), E{id}, E{id}, Option<u8>) {{ mir! {{ let s: S{id}; let u: U{id}; let r: [u8; {n}]; let t: (u8, u32); let w: (u32, (u8, u32)); let c: bool; let d: u16; let e: E{id}; let f: E{id}; let o: Option<u8>; {{ s = S{id} {{ b: a, a: b }}; u = U{id} {{ a: a }}; r = [a; {n}]; t = (a, b); w = (b, t); c = a > 9_u8; d = a as u16; e = E{id}::B {{ y: a, x: b }}; f = E{id}::C(c, d); o = Some(a); RET = (s, u, r, w, e, f, o); Return() }} }} }}\nimpl Show for E{id} {{ fn show(&self) {{ match self {{ E{id}::A => print(0u8), E{id}::B {{ x, y }} => {{ print(1u8); x.show(); y.show() }} E{id}::C(x, y) => {{ print(2u8); x.show(); y.show() }} }} }} }}\n{CM} fn i{id}(a: *const [u16], i: usize) -> (u16, usize) {{ mir! {{ let n: usize; let x: u16; {{ n = PtrMetadata(a); x = (*a)[i]; RET = (x, n); Return() }} }} }}\n{CM} fn j{id}(a: &[u16; {n}], i: usize) -> (u16, usize, usize) {{ mir! {{ let n: usize; let x: u16; let q: &[u16]; let p: *const [u16]; let m: usize; {{ x = (*a)[i]; q = CastUnsize(a); p = &raw const *q; n = PtrMetadata(p); m = core::mem::SizedTypeProperties::ALIGN; RET = (x, n, n); Return() }} }} }}\n").replace("let m: usize; ", "").replace("m = core::mem::SizedTypeProperties::ALIGN; ", ""));
    let mut s = format!("let r = m{id}({x}, {y}); r.0.a.show(); r.0.b.show(); unsafe {{ r.1.a.show(); }} r.2.show(); r.3.show(); r.4.show(); r.5.show(); r.6.show(); let a: [u16; {n}] = [{y} as u16; {n}]; ");
    for i in [i, p.us(8)] {
        let e = format!("i{id}(&a as &[u16], {i}).show(); j{id}(&a, {i}).show(); ");
        if i < n { s += &e } else { let n = p.sel(); s += &format!("if sel({n}) {{ ubx(true); {} }} ", if p.ch(50) { format!("i{id}(&a as &[u16], {i}).show();") } else { format!("j{id}(&a, {i}).show();") }) }
    }
    p.body(s)
}
/// arguments which are moved, and what is returned
fn moves(p: &mut P) {
    p.tag("mir.moves");
    let id = p.fresh();
    let (t, v, w) = *p.pick(&[("u8", "3", "9"), ("u32", "70000", "1"), ("(u8, u16)", "(1, 2)", "(3, 4)"), ("[u32; 3]", "[4, 5, 6]", "[7, 8, 9]"), ("Option<u16>", "Some(4)", "None"), ("&'static u8", "&4", "&9")]);
    p.items.push_str(&format!("#[inline(never)] fn two{id}(a: {t}, b: {t}) -> {t} {{ bb(a); b }}\n#[inline(never)] fn wr{id}(a: {t}, q: *mut {t}) -> {t} {{ unsafe {{ *q = a; }} a }}\n#[inline(never)] fn rd{id}(a: {t}, q: *mut {t}) -> {t} {{ unsafe {{ *q }} }}\n"));
    let (body, ub) = match p.us(12) {
        0 => ("Call(RET = two@(x, x), ReturnTo(r), UnwindContinue())", false),
        1 => ("Call(RET = two@(Move(x), Move(y)), ReturnTo(r), UnwindContinue())", false),
        2 => ("Call(RET = two@(Move(y), x), ReturnTo(r), UnwindContinue())", false),
        // an argument moved twice
        3 => ("Call(RET = two@(Move(x), Move(x)), ReturnTo(r), UnwindContinue())", true),
        // used after it was moved
        4 => ("Call(z = two@(Move(x), y), ReturnTo(r2), UnwindContinue())", true),
        // returned into what was moved
        5 => ("Call(x = two@(Move(x), y), ReturnTo(r2), UnwindContinue())", true),
        // (a copied argument and the place for the result do not overlap in what `rustc` generates)
        6 => ("z = x; Call(x = two@(z, y), ReturnTo(r2), UnwindContinue())", false),
        // read while it is passed in place
        7 => ("q = &raw mut x; Call(z = rd@(Move(x), q), ReturnTo(r3), UnwindContinue())", true),
        8 => ("q = &raw mut x; Call(z = wr@(x, q), ReturnTo(r2), UnwindContinue())", false),
        // read while it is the place for the result
        9 => ("z = x; q = &raw mut z; Call(z = rd@(x, q), ReturnTo(r3), UnwindContinue())", true),
        10 => ("z = Move(x); x = Move(y); Goto(r2)", false),
        _ => ("q = &raw mut x; Call((*q) = two@(y, Move(y)), ReturnTo(r2), UnwindContinue())", false),
    };
    let body = body.replace('@', &id.to_string());
    let blocks = match () { _ if body.contains("(r2)") => "r2 = { RET = x; Return() }", _ if body.contains("(r3)") => "r3 = { RET = z; Return() }", _ => "r = { Return() }" };
    p.items.push_str(&format!("{CM} fn m{id}(x: {t}, y: {t}) -> {t} {{ mir! {{ let z: {t}; let q: *mut {t}; {{ {body} }} {blocks} }} }}\n"));
    let call = format!("m{id}({v}, {w}).show();");
    if ub { let n = p.sel(); p.body(format!("if sel({n}) {{ ubx(true); {call} }}")) } else { p.body(call) }
}
fn ptrs(p: &mut P) {
    p.tag("mir.ptrs");
    let id = p.fresh();
    match p.us(7) {
        0 => { p.items.push_str(&format!("static mut G{id}: u32 = 7; static H{id}: [u16; 3] = [1, 2, 3];\n{CM} fn m{id}(x: u32) -> (u32, u16, &'static [u16; 3]) {{ mir! {{ let q: *mut u32; let h: &'static [u16; 3]; let a: u32; let i: usize; let b: u16; {{ q = StaticMut(G{id}); h = Static(H{id}); a = *q; *q = x; i = 1_usize; b = (*h)[i]; RET = (a, b, h); Return() }} }} }}\n")); p.body(format!("m{id}(4).show(); m{id}(5).show(); unsafe {{ print(G{id}); }}")) }
        1 => { p.items.push_str(&format!("{CM} fn m{id}(x: *const [u32]) -> (*const u8, [usize; 2], *mut ()) {{ mir! {{ let a: *const u8; let b: [usize; 2]; let c: *mut (); let d: *mut [u32]; {{ a = CastPtrToPtr(x); b = CastTransmute(x); d = CastPtrToPtr(x); c = CastPtrToPtr(d); RET = (a, b, c); Return() }} }} }}\n")); { let b = format!("let v = [1u32, 2, 3]; let n = bb({}usize); let r = m{id}(&v[..n]); print(r.0.addr() == (&raw const v).addr()); print(r.1[1]); print(r.1[0] == r.0.addr()); print(r.2.addr() == r.0.addr()); unsafe {{ print(*(r.0 as *const u32)); }}", p.us(4)); p.body(b) } }
        2 => { let c = p.ch(50); let n = if c { 0 } else { p.sel() }; p.items.push_str(&format!("{CM} fn m{id}(x: bool) -> u8 {{ mir! {{ {{ Assume(x); RET = 6_u8; Return() }} }} }}\n")); p.body(if c { format!("m{id}(bb(true)).show();") } else { format!("if sel({n}) {{ ubx(true); m{id}(bb(false)).show(); }}") }) }
        // nothing was returned
        3 => { let t = *p.pick(&["u8", "bool", "(u8, u16)", "[u16; 2]", "&'static u8", "fn()"]); let n = p.sel(); p.items.push_str(&format!("{CM} fn m{id}() -> {t} {{ mir! {{ {{ Return() }} }} }}\n{CM} fn k{id}() -> (MaybeUninit<{t}>, ()) {{ mir! {{ {{ Return() }} }} }}\n")); p.body(format!("k{id}().1.show(); if sel({n}) {{ ubx(true); m{id}(); }}")) }
        4 => { p.items.push_str(&format!("{CM} fn m{id}(x: u32) -> u32 {{ mir! {{ let i: u32; let c: bool; {{ RET = 0_u32; i = x; Goto(h) }} h = {{ c = i == 0_u32; match c {{ true => e, _ => l }} }} l = {{ RET = RET + i; RET = RET * 3_u32; i = i - 1_u32; Goto(h) }} e = {{ Return() }} }} }}\n")); { let b = format!("m{id}({}).show();", p.us(30)); p.body(b) } }
        5 => { p.items.push_str(&format!("{CM} fn m{id}(x: &mut (u8, [u32; 2])) -> u32 {{ mir! {{ let a: &mut u32; let b: *mut u32; let c: &u32; let i: usize; {{ i = 1_usize; a = &mut (*x).1[i]; Retag(a); b = &raw mut *a; *b = 8_u32; c = &*b; RET = *c; (*x).1[i] = RET + 1_u32; Return() }} }} }}\n")); p.body(format!("let mut v = (1u8, [2u32, 3]); m{id}(&mut v).show(); v.show();")) }
        _ => { p.items.push_str(&format!("#[inline(never)] fn i{id}(x: u16, y: u8) -> u16 {{ x + y as u16 }}\n{CM} fn m{id}(f: fn(u16, u8) -> u16, x: u16) -> u16 {{ mir! {{ let g: *const (); let h: fn(u16, u8) -> u16; {{ g = CastTransmute(f); h = CastTransmute(g); Call(RET = h(x, 3_u8), ReturnTo(r), UnwindUnreachable()) }} r = {{ Return() }} }} }}\n")); { let b = format!("m{id}(i{id}, {}).show();", p.us(1000)); p.body(b) } }
    }
}

// ---------- dropping values of any type ----------
const DROPS: &str = r#"
static mut TICKS: u32 = 0; static mut LIMIT: u32 = 99999; static mut NUM: u32 = 0; static mut CAUGHT: u32 = 0; static mut CN: u32 = 0;
#[inline(never)] fn tick() { unsafe { TICKS += 1; if TICKS % LIMIT == 0 { print(7777); panic!() } } }
#[inline(never)] fn cond() -> bool { unsafe { CN = CN.wrapping_mul(5) + 3; CN & 4 == 0 } }
trait Dr { fn go(&self) { print(4000); tick(); } fn id(&self) -> u32 { 1 } }
struct D(u32); impl Drop for D { fn drop(&mut self) { print(self.0); tick(); } }
#[inline(never)] fn d() -> D { unsafe { NUM += 1; tick(); D(NUM) } }
impl Dr for D { fn id(&self) -> u32 { self.0 } }
impl Dr for u8 {} impl Dr for () {} impl<T: Dr> Dr for Option<T> { fn go(&self) { match self { None => print(1), Some(x) => x.go() } } }
impl<A: Dr, B: Dr> Dr for (A, B) { fn go(&self) { self.1.go(); self.0.go() } }
impl<A: Dr, const N: usize> Dr for [A; N] { fn go(&self) { let mut i = 0; while i < N { self[i].go(); i += 1 } } fn id(&self) -> u32 { N as u32 } }
impl<A: Dr> Dr for ManuallyDrop<A> { fn id(&self) -> u32 { 8 } }
fn catch_it(d: *mut u8, p: *mut u8) { unsafe { CAUGHT += 1; } }
fn try_it(d: *mut u8) { let f = unsafe { *(d as *mut fn()) }; f() }
#[inline(never)] fn cu(mut f: fn()) -> bool {
    #[cfg(native)] { return std::panic::catch_unwind(f).is_err() }
    #[cfg(not(native))] { unsafe { let p = &raw mut f as *mut u8; let r = core::intrinsics::catch_unwind(try_it, p, catch_it); r != 0 } }
}
#[inline(never)] fn ge<T: Dr>(t: T) -> u32 { t.go(); let r = t.id(); tick(); r }
#[inline(never)] fn giv<T>(t: T) -> T { tick(); t }
#[inline(never)] fn two<A, B>(a: A, b: B) -> A { tick(); let _c = b; a }
#[inline(never)] fn once<R>(f: impl FnOnce() -> R) -> R { tick(); f() }
"#;
struct Dt { n: usize, defs: Vec<String> }
/// a type, and an expression for a value
fn dty(p: &mut P, t: &mut Dt, depth: u32) -> (String, String) {
    if depth == 0 { return if p.ch(80) { ("D".into(), "d()".into()) } else if p.ch(80) { ("u8".into(), "3u8".into()) } else { ("()".into(), "()".into()) } }
    let k = t.n;
    match p.us(12) {
        0 => dty(p, t, 0),
        1 => { let (a, v) = dty(p, t, depth - 1); let n = p.us(4); let vs = vec![v; n]; let e = if n == 0 { format!("{{ let e: [{a}; 0] = []; e }}") } else { format!("[{}]", vs.join(", ")) }; (format!("[{a}; {n}]"), e) }
        2 => { let ((a, v), (b, w)) = (dty(p, t, depth - 1), dty(p, t, depth - 1)); (format!("({a}, {b})"), format!("({v}, {w})")) }
        3 => { let (a, v) = dty(p, t, depth - 1); (format!("Option<{a}>"), if p.ch(70) { format!("Some({v})") } else { format!("None::<{a}>") }) }
        4 => { let (a, v) = dty(p, t, depth - 1); (format!("ManuallyDrop<{a}>"), format!("ManuallyDrop::new({v})")) }
        5 | 6 => {
            // an enum, maybe with a destructor of its own
            t.n += 1;
            let n = 1 + p.us(3);
            let vs: Vec<Vec<(String, String)>> = (0..n).map(|_| (0..p.us(3)).map(|_| dty(p, t, depth - 1)).collect()).collect();
            let fields = |x: &Vec<(String, String)>, i: usize| if x.is_empty() { String::new() } else { format!("({})", x.iter().map(|y| if i == 0 { y.0.clone() } else { y.1.clone() }).collect::<Vec<_>>().join(", ")) };
            let s: String = vs.iter().enumerate().map(|(i, x)| format!("V{i}{}, ", fields(x, 0))).collect();
            let own = if p.ch(40) { format!("impl Drop for Y{k} {{ fn drop(&mut self) {{ print(3{k:02}); tick(); }} }} ") } else { String::new() };
            t.defs.push(format!("enum Y{k} {{ {s} }} {own}impl Dr for Y{k} {{ fn id(&self) -> u32 {{ {k} }} }}\n"));
            let i = p.us(n);
            (format!("Y{k}"), format!("Y{k}::V{i}{}", fields(&vs[i], 1)))
        }
        _ => {
            t.n += 1;
            let n = p.us(4);
            let fs: Vec<(String, String)> = (0..n).map(|_| dty(p, t, depth - 1)).collect();
            let own = if p.ch(50) { format!("impl Drop for X{k} {{ fn drop(&mut self) {{ print(2{k:02}); {} }} }} ", p.pick(&["tick();", "tick();", "", "let _x = d(); tick();"])) } else { String::new() };
            let repr = *p.pick(&["", "", "#[repr(C)] ", "#[repr(align(16))] "]);
            t.defs.push(format!("{repr}struct X{k} {{ {} }} {own}impl Dr for X{k} {{ fn id(&self) -> u32 {{ {k} }} {} }}\n", fs.iter().enumerate().map(|(i, f)| format!("f{i}: {}, ", f.0)).collect::<String>(), if p.ch(50) { format!("fn go(&self) {{ {} print({k}); tick() }}", (0..n).map(|i| format!("self.f{i}.go(); ")).collect::<String>()) } else { String::new() }));
            // fields in any order of evaluation
            let mut order: Vec<usize> = (0..n).collect();
            if p.ch(30) { order.reverse() }
            (format!("X{k}"), format!("X{k} {{ {} }}", order.iter().map(|i| format!("f{i}: {}, ", fs[*i].1)).collect::<String>()))
        }
    }
}
pub fn drops_prog(p: &mut P) {
    p.tag("drops");
    p.items.push_str(DROPS);
    let mut t = Dt { n: 0, defs: vec![] };
    let n = 3 + p.us(3);
    let mut calls = String::new();
    for f in 0..n {
        let (a, v) = dty(p, &mut t, 2);
        let w = if v == "None" { v.clone() } else { v.clone() };
        let mut s = String::new();
        let k = p.us(21);
        s += &match k {
            0 => format!("let x: {a} = {v}; tick();"),
            1 => format!("let mut m: ManuallyDrop<{a}> = ManuallyDrop::new({v}); tick(); unsafe {{ core::ptr::drop_in_place(&raw mut *m); }}"),
            2 | 3 => format!("let mut m: ManuallyDrop<{a}> = ManuallyDrop::new({v}); let p: *mut {a} = &mut *m; let q: *mut dyn Dr = p; unsafe {{ (*q).go(); print((*q).id()); print(size_of_val(&*q)); print(align_of_val(&*q)); core::ptr::drop_in_place(q); }}"),
            4 | 5 => { let n = p.us(4); let c = p.us(n + 1); let vs = vec![v.clone(); n].join(", "); format!("let mut m: ManuallyDrop<[{a}; {n}]> = ManuallyDrop::new([{vs}]); let p: *mut [{a}; {n}] = &mut *m; let q: *mut [{a}] = p; unsafe {{ print(size_of_val(&*q)); {} }}", if p.ch(50) { "core::ptr::drop_in_place(q);".to_string() } else { format!("core::ptr::drop_in_place(std::ptr::slice_from_raw_parts_mut(p as *mut {a}, {c}));") }) }
            6 => format!("let mut x: {a} = {v}; tick(); x = {w}; tick();"),
            7 => format!("let mut o: Option<{a}> = Some({v}); tick(); if cond() {{ o = None; }} tick(); if let Some(y) = o {{ tick(); }} print(5);"),
            8 => format!("let m: MaybeUninit<{a}> = MaybeUninit::new({v}); tick(); unsafe {{ let x = m.assume_init(); tick(); }}"),
            9 => format!("unsafe {{ let mut m = MaybeUninit::<{a}>::uninit(); let p = m.as_mut_ptr(); p.write({v}); tick(); *p = {w}; tick(); core::ptr::drop_in_place(p); }}"),
            10 => format!("let x: {a} = {v}; let c = move || {{ tick(); print(x.id()); tick(); }}; if cond() {{ c(); }} tick(); drop(c);"),
            11 => format!("let x: {a} = {v}; let y = d(); let r = once(move || {{ let z = x; tick(); drop(y); z }}); print(r.id());"),
            12 => format!("let x: {a} = giv({v}); let y = two(x, {w}); if cond() {{ print(ge(y)); tick(); }} else {{ let z = giv(y); }} tick();"),
            13 => format!("let t: ({a}, D, {a}) = ({v}, d(), {w}); if cond() {{ let y = t.0; tick(); }} tick(); let z = t.2; tick();"),
            14 => format!("let mut x: {a} = {v}; tick(); let o = replace(&mut x, {w}); tick(); print(o.id()); drop(x); tick();"),
            15 => format!("print(ge({v})); let x: {a} = {w}; match (x, d()) {{ (y, e) if cond() => {{ tick(); }} (y, _) => {{ drop(y); tick(); }} }}"),
            16 => format!("union U {{ a: ManuallyDrop<{a}>, b: u8 }} let mut u = U {{ a: ManuallyDrop::new({v}) }}; tick(); unsafe {{ ManuallyDrop::drop(&mut u.a); }} u.a = ManuallyDrop::new({w}); unsafe {{ print(u.a.id()); }}"),
            17 => format!("let x: {a} = {v}; tick(); if cond() {{ forget(x); }} else {{ tick(); }}"),
            18 => format!("let mut i = 0; let mut last: Option<{a}> = None; while i < 3 {{ i += 1; let x: {a} = {v}; if cond() {{ continue }} last = Some(x); if cond() {{ break }} tick(); }} print(last.is_some());"),
            19 => format!("let x: {a}; let y: {a}; if cond() {{ x = {v}; tick(); }} else {{ y = {w}; tick(); print(y.id()); }} tick();"),
            _ => format!("let _ = {v}; let _x: {a} = {v}; let ({}) = ({v}, {w}); tick();", p.pick(&["_, _", "y, _", "_, ref y", "y, z"])),
        };
        t.defs.push(format!("#[inline(never)] fn w{f}() {{ {s} }}\n"));
        calls += &match p.us(6) { 0 if f > 0 => format!("fn ww{f}() {{ let _e = d(); w{}(); let _f = d(); w{f}(); }} print(cu(ww{f})); ", f - 1), _ => format!("print(cu(w{f})); ") };
    }
    p.items.push_str(&t.defs.concat());
    let mut s = "unsafe { ".to_string();
    // panics at every so many ticks
    for l in 1..=12u32 { let k = p.sel(); s += &format!("if sel({k}) {{ LIMIT = {}; }} ", [1, 2, 3, 4, 5, 6, 7, 9, 11, 14, 18, 23][l as usize - 1]) }
    let cn = p.us(100);
    p.body(format!("{s} CN = {cn}; }} {calls} print(unsafe {{ TICKS }});"));
    if p.ch(30) { p.flags = vec!["-Coverflow-checks=on", *p.pick(&["-Zmir-opt-level=0", "-Cdebug-assertions=off", "-Coverflow-checks=off"])] }
}

/// calls whose last argument is a tuple which is spread, and which may be used again if it is copied
fn spread(p: &mut P) {
    let id = p.fresh();
    const TYS: [(&str, &str, &str); 9] = [("u8", "200", "a as u32"), ("i64", "-5", "a as u32"), ("bool", "true", "a as u32"), ("(u8, u32)", "(3, 9)", "a.1"), ("[u16; 3]", "[4, 5, 6]", "a[1] as u32"), ("&'static str", "\"ab\"", "a.len() as u32"), ("()", "()", "1"), ("Option<u16>", "Some(7)", "a.is_some() as u32"), ("u128", "1 << 90", "(a >> 88) as u32")];
    let n = p.us(4);
    let ts: Vec<_> = (0..n).map(|_| *p.pick(&TYS)).collect();
    let tup = format!("({})", ts.iter().map(|t| format!("{}, ", t.0)).collect::<String>());
    let list = ts.iter().map(|t| t.0).collect::<Vec<_>>().join(", ");
    let val = format!("({})", ts.iter().map(|t| format!("{}, ", t.1)).collect::<String>());
    let params = ts.iter().enumerate().map(|(k, t)| format!("x{k}: {}", t.0)).collect::<Vec<_>>().join(", ");
    let body: String = ts.iter().enumerate().map(|(k, t)| format!("x{k}.show(); r = r.wrapping_mul(3) ^ {{ let a = x{k}; {} }}; ", t.2)).collect();
    let moves = p.ch(30);
    // where the tuple is
    let (place, pre) = *p.pick(&[("t", ""), ("t", ""), ("(*q)", "q = &raw mut t;"), ("s.1", "s = (1, t);"), ("v[1_usize]", "v = [t, t];"), ("v[i]", "v = [t, t]; i = 1_usize;")]);
    let place = if place == "v[1_usize]" { "v[i]" } else { place };
    let pre = if pre == "v = [t, t];" { "v = [t, t]; i = 0_usize;" } else { pre };
    let arg = if moves { format!("Move({place})") } else { place.to_string() };
    let after = if moves { "t2".to_string() } else { place.to_string() };
    let k = 1 + p.us(9);
    let decl = format!("let r: u32; let q: *mut {tup}; let s: (u8, {tup}); let v: [{tup}; 2]; let i: usize; let t2: {tup};");
    let end = |c: &str| format!("{{ t2 = t; {pre} {c} }} b1 = {{ RET = (r, {after}); Return() }}");
    let inner = format!("let mut r = k; {body} r");
    let how = p.us(6);
    p.tag("mir.spread");
    let (item, call) = match how {
        0 => (format!("fn m{id}<F: Fn({list}) -> u32>(f: &F, t: {tup}) -> (u32, {tup}) {{ mir! {{ {decl} {} }} }}", end(&format!("Call(r = <F as Fn<{tup}>>::call(f, {arg}), ReturnTo(b1), UnwindContinue())"))), format!("m{id}(&move |{params}| -> u32 {{ {inner} }}, {val})")),
        1 => (format!("fn m{id}<F: FnMut({list}) -> u32>(f: &mut F, t: {tup}) -> (u32, {tup}) {{ mir! {{ {decl} {} }} }}", end(&format!("Call(r = <F as FnMut<{tup}>>::call_mut(Move(f), {arg}), ReturnTo(b1), UnwindContinue())"))), format!("m{id}(&mut |{params}| -> u32 {{ {inner} }}, {val})")),
        2 => (format!("fn m{id}<F: FnOnce({list}) -> u32>(f: F, t: {tup}) -> (u32, {tup}) {{ mir! {{ {decl} {} }} }}", end(&format!("Call(r = <F as FnOnce<{tup}>>::call_once(Move(f), {arg}), ReturnTo(b1), UnwindContinue())"))), format!("m{id}(move |{params}| -> u32 {{ {inner} }}, {val})")),
        3 => (format!("fn m{id}(f: &dyn Fn({list}) -> u32, t: {tup}) -> (u32, {tup}) {{ mir! {{ {decl} {} }} }}", end(&format!("Call(r = <dyn Fn({list}) -> u32 as Fn<{tup}>>::call(f, {arg}), ReturnTo(b1), UnwindContinue())"))), format!("m{id}(&|{params}| -> u32 {{ {inner} }}, {val})")),
        4 => (format!("fn m{id}(f: &mut dyn FnMut({list}) -> u32, t: {tup}) -> (u32, {tup}) {{ mir! {{ {decl} {} }} }}", end(&format!("Call(r = <dyn FnMut({list}) -> u32 as FnMut<{tup}>>::call_mut(Move(f), {arg}), ReturnTo(b1), UnwindContinue())"))), format!("m{id}(&mut |{params}| -> u32 {{ {inner} }}, {val})")),
        _ => {
            p.items.push_str(&format!("#[inline(never)] fn gs{id}({params}) -> u32 {{ let k = {k}u32; {inner} }}\n"));
            (format!("fn m{id}<F: Fn({list}) -> u32>(f: &F, t: {tup}) -> (u32, {tup}) {{ mir! {{ {decl} {} }} }}", end(&format!("Call(r = <F as Fn<{tup}>>::call(f, {arg}), ReturnTo(b1), UnwindContinue())"))), format!("m{id}(&gs{id}, {val})"))
        }
    };
    p.items.push_str(&format!("{CM} {item}\n"));
    p.body(format!("let k = bb({k}u32); let r = {call}; r.show();"));
}
/// the place of the result of a catch is the one before the call, whatever runs in between
fn catches(p: &mut P) {
    p.tag("mir.catch");
    let id = p.fresh();
    let (i, j, k) = (p.us(3), p.us(3), p.us(3));
    let bad = p.ch(60);
    p.items.push_str(&format!("fn tr{id}(d: *mut u8) {{ unsafe {{ print(*(d as *mut usize)); *(d as *mut usize) = {j}; }} {} print(40u8) }}\n", if bad { "note(5); if bb(true) { panic!() }" } else { "" }));
    p.items.push_str(&format!("fn ca{id}(d: *mut u8, e: *mut u8) {{ unsafe {{ print(*(d as *mut usize)); *(d as *mut usize) = {k}; }} }}\n"));
    let deref = p.ch(40);
    let (place, pre) = if deref { ("(*r)", "r = &raw mut a[i];") } else { ("a[i]", "") };
    p.items.push_str(&format!("{CM} fn m{id}(f: fn(*mut u8), g: fn(*mut u8, *mut u8)) -> ([i32; 3], usize) {{ mir! {{ let a: [i32; 3]; let i: usize; let p: *mut usize; let q: *mut u8; let r: *mut i32; {{ a = [7_i32, 8_i32, 9_i32]; i = {i}_usize; {pre} p = &raw mut i; q = p as *mut u8; Call({place} = core::intrinsics::catch_unwind(f, q, g), ReturnTo(b1), UnwindContinue()) }} b1 = {{ RET = (a, i); Return() }} }} }}\n"));
    p.body(format!("let r = m{id}(tr{id}, ca{id}); r.0.show(); print(r.1); print(unsafe {{ m{id}(tr{id}, ca{id}).1 }});"));
}

/// Enums some of whose variants (or all of them) can never exist.
pub fn void_snippet(p: &mut P) {
    let id = p.fresh();
    let v = format!("Vv{id}");
    let kind = p.us(4);
    p.items.push_str(&match kind { 0 => format!("#[derive(Clone, Copy)] enum {v} {{}}\n"), 1 => format!("#[derive(Clone, Copy)] struct {v}(!);\n"), 2 => format!("#[derive(Clone, Copy)] struct {v} {{ a: u16, b: ! }}\n"), _ => format!("#[derive(Clone, Copy)] enum {v} {{ A(!), B((), !) }}\n") });
    // types (name, how values look like; none for those without values)
    let mut tys: Vec<(String, Vec<String>)> = vec![
        (v.clone(), vec![]), (v.clone(), vec![]), ("!".into(), vec![]), (format!("(u8, {v})"), vec![]), (format!("[{v}; 2]"), vec![]), ("std::convert::Infallible".into(), vec![]),
        (format!("[{v}; 0]"), vec!["[]".into()]), ("[u64; 0]".into(), vec!["[]".into()]), ("()".into(), vec!["()".into()]), (format!("Option<{v}>"), vec!["None".into()]), (format!("Result<u8, {v}>"), vec!["Ok(9)".into(), "Ok(bb(200))".into()]), (format!("Result<{v}, u16>"), vec!["Err(9)".into(), "Err(bb(60000))".into()]),
        ("u8".into(), vec!["7".into(), "255".into(), "bb(0)".into()]), ("u64".into(), vec!["77".into(), "bb(!0)".into()]), ("bool".into(), vec!["true".into(), "false".into()]), ("char".into(), vec!["'c'".into()]), ("&'static i16".into(), vec!["&-5".into()]),
    ];
    let mut s = String::new();
    let n = 1 + p.us(4);
    for k in 0..n {
        let e = format!("Ve{id}_{k}");
        let m = 1 + p.us(4);
        let empty = p.ch(25);
        let mut decl = vec![]; let mut arms = vec![]; let mut vals = vec![];
        for j in 0..m {
            let f = p.us(4);
            let fs: Vec<_> = (0..f).map(|_| p.pick(&tys).clone()).collect();
            let mut fs = fs;
            if (empty || p.ch(25)) && fs.iter().all(|f| !f.1.is_empty()) { let at = p.us(fs.len() + 1); let t = { let a = p.us(6); tys[a].clone() }; fs.insert(at, t) }
            // (zero-sized ones go first: see the known finding zstorder)
            fs.sort_by_key(|f| match f.0.as_str() { "u8" | "u64" | "bool" | "char" | "&'static i16" => 3, t if t.starts_with("Result") || t.starts_with("(u8") => 2, t if t.starts_with("Ve") => 1, _ => 0 });
            let named = p.ch(25);
            decl.push(if fs.is_empty() { format!("W{j}") } else if named { format!("W{j} {{ {} }}", fs.iter().enumerate().map(|(i, f)| format!("f{i}: {}", f.0)).collect::<Vec<_>>().join(", ")) } else { format!("W{j}({})", fs.iter().map(|f| f.0.clone()).collect::<Vec<_>>().join(", ")) });
            arms.push(format!("{e}::W{j} {{ .. }} => {}u8, ", 10 * k + j));
            if fs.iter().all(|f| !f.1.is_empty()) { for _ in 0..2 { let v: Vec<String> = fs.iter().map(|f| p.pick(&f.1).clone()).collect(); vals.push(if fs.is_empty() { format!("{e}::W{j}") } else if named { format!("{e}::W{j} {{ {} }}", v.iter().enumerate().map(|(i, v)| format!("f{i}: {v}")).collect::<Vec<_>>().join(", ")) } else { format!("{e}::W{j}({})", v.join(", ")) }) } }
        }
        p.tag(&format!("enum.void.{}", if vals.is_empty() { "empty" } else { "some" }));
        p.items.push_str(&format!("#[derive(Clone, Copy)] enum {e} {{ {} }} #[inline(never)] fn vt{id}_{k}(e: &{e}) -> u8 {{ match *e {{ {} }} }}\n", decl.join(", "), arms.join("")));
        s += &format!("print(size_of::<{e}>()); print(align_of::<{e}>()); print(size_of::<Option<{e}>>()); print(size_of::<Result<{e}, u8>>()); let o: Option<{e}> = bb(None); print(o.is_none()); if let Some(x) = &o {{ print(vt{id}_{k}(x)) }} let r: Result<{e}, u8> = bb(Err(4)); match &r {{ Ok(x) => print(vt{id}_{k}(x)), Err(y) => print(*y) }} ");
        for v in &vals { s += &match p.us(5) {
            0 => format!("print(vt{id}_{k}(&bb({v}))); "),
            1 => format!("let o = bb(Some({v})); match &o {{ Some(x) => print(vt{id}_{k}(x)), None => print(1000) }} "),
            2 => format!("let r: Result<{e}, {}> = bb(Ok({v})); match &r {{ Ok(x) => print(vt{id}_{k}(x)), Err(_) => print(1000) }} ", tys[{ p.us(tys.len()) }].0),
            3 => { let w = p.pick(&vals).clone(); format!("let mut a = [{v}; 2]; a[bb(1)] = {w}; print(vt{id}_{k}(&a[bb(0)])); print(vt{id}_{k}(&a[bb(1)])); ") }
            _ => { let w = p.pick(&vals).clone(); format!("let mut x = ({v}, 5u8); print(vt{id}_{k}(&x.0)); x.0 = {w}; print(vt{id}_{k}(&x.0)); print(x.1); ") }
        } }
        if p.ch(40) {
            // errors that cannot happen
            let (x, y) = (p.pick(&["u8", "u16", "i32"]).to_string(), v.clone());
            p.items.push_str(&format!("#[inline(never)] fn vi{id}_{k}(x: {x}) -> Result<{x}, {y}> {{ Ok(x) }} #[inline(never)] fn vq{id}_{k}(x: {x}) -> Result<u64, {y}> {{ let a = vi{id}_{k}(x)?; let b = vi{id}_{k}(a / 2)?; Ok(a as u64 * 1000 + b as u64) }} #[inline(never)] fn vo{id}_{k}(x: Option<{x}>) -> Option<{y}> {{ x?; loop {{ if x? == 3 {{ return None }} return None }} }}\n"));
            s += &format!("match vq{id}_{k}({}) {{ Ok(x) => print(x), Err(_) => print(5) }} print(vo{id}_{k}(Some(3)).is_some()); print(vo{id}_{k}(None).is_none()); ", p.us(100));
        }
        tys.push((e.clone(), vals.clone()));
        if vals.is_empty() { tys.insert(6, (e, vals)); }
    }
    p.body(s)
}

/// Chains of iterators: much generic code, closures in closures, options of everything.
pub fn iters_snippet(p: &mut P) {
    let k = |p: &mut P| p.us(7) as i64 - 2;
    // an iterator over i64; whether it knows its end, and whether it is short
    fn source(p: &mut P, d: u32) -> (String, bool) {
        match p.us(if d > 0 { 9 } else { 7 }) {
            0 => { let (a, n) = (p.us(9) as i64 - 4, p.us(7) as i64); (format!("({a}..{}i64)", a + n), true) }
            1 => { let (a, n) = (p.us(9) as i64 - 4, p.us(6) as i64); (format!("({a}..={}i64)", a + n), true) }
            2 => { let n = p.us(6); let v: Vec<String> = (0..n).map(|_| format!("{}", p.us(40) as i64 - 9)).collect(); (format!("bb::<&[i64]>(&[{}]).iter().{}", v.join(", "), p.pick(&["copied()", "map(|x| *x)", "map(|&x| x + 1)"])), true) }
            3 => { let (a, n) = (p.us(9), p.us(5)); (format!("std::iter::repeat({a}i64).take({n})"), false) }
            4 => { let a = 1 + p.us(5); (format!("std::iter::successors(Some({a}i64), |x| if *x < 90 {{ Some(x * 3 - 1) }} else {{ None }})"), false) }
            5 => { let a = p.us(50); (format!("It({a}, {})", p.us(8)), false) }
            6 => { let a = p.us(9); (p.pick(&[format!("Some({a}i64).into_iter()"), format!("std::iter::once({a}i64)"), "std::iter::empty::<i64>()".to_string()]).clone(), true) }
            _ => chain(p, d - 1),
        }
    }
    fn chain(p: &mut P, d: u32) -> (String, bool) {
        let (mut s, mut back) = source(p, d);
        for _ in 0..p.us(4) {
            let k = p.us(7) as i64 - 2;
            let n = p.us(4);
            let (t, b) = match p.us(17) {
                0 | 1 => (format!(".map(|x| x.wrapping_mul(3) + {k})"), true),
                2 => (format!(".map(move |x| x - cap + {k})"), true),
                3 => (format!(".filter(|x| *x % 3 != {n})"), true),
                4 if back => (".rev()".into(), true),
                5 => (format!(".enumerate().map(|(i, x)| i as i64 * {} + x)", k + 3), false),
                6 => (format!(".skip({n})"), false),
                7 => (format!(".take({n})"), false),
                8 => (format!(".step_by({})", n + 1), false),
                9 => { let (o, b) = source(p, d); (format!(".chain({o})"), b) }
                10 => { let (o, _) = source(p, d); (format!(".zip({o}).map(|(a, b)| a * 2 - b)"), false) }
                11 => (format!(".take_while(|x| *x < {})", 10 * k), false),
                12 => (format!(".skip_while(|x| *x < {k})"), false),
                13 => (format!(".scan({k}i64, |s, x| {{ *s += x; if *s > 60 {{ None }} else {{ Some(*s) }} }})"), false),
                14 => (format!(".filter_map(|x| if x > {k} {{ Some(x - {n}) }} else {{ None }})"), true),
                15 => (format!(".flat_map(|x| x..x + {n})"), true),
                _ => (format!(".inspect(|x| {{ if *x == {k} {{ print(*x) }} }})"), true),
            };
            s += &t; back = back && b;
        }
        (s, back)
    }
    let (c, back) = chain(p, 2);
    p.tag("iters");
    let n = k(p);
    let use_ = match p.us(16) {
        0 => "print(it.sum::<i64>());".to_string(),
        1 => "print(it.count());".into(),
        2 => "it.last().show();".into(),
        3 => "it.max().show();".into(),
        4 => "it.min_by_key(|x| (x - 5) * (x - 5)).show();".into(),
        5 => format!("print(it.all(|x| x != {n}));"),
        6 => format!("print(it.any(|x| x == {n}));"),
        7 => format!("it.find(|x| *x > {n}).show();"),
        8 => format!("it.position(|x| x == {n}).show();"),
        9 => format!("print(it.fold({n}i64, |a, x| a.wrapping_mul(7) ^ x));"),
        10 => "it.reduce(|a, x| a.wrapping_mul(5) - x).show();".into(),
        11 => format!("let mut i = 0; while let Some(x) = it.next() {{ print(x); i += 1; if i > {} {{ break }} }} it.next().show();", n + 4),
        12 => format!("it.nth({}).show(); it.next().show();", n + 2),
        13 if back => "it.next_back().show(); it.next().show(); it.next_back().show(); for x in it { print(x) }".into(),
        14 => "let mut it = it.peekable(); while let Some(x) = it.next() { if let Some(y) = it.peek() { print(x - *y) } else { print(x) } }".into(),
        15 => format!("let r = it.try_fold({n}i64, |a, x| if x > 40 {{ None }} else {{ Some(a + x) }}); r.show();"),
        _ => "for x in it { print(x) }".into(),
    };
    if !p.items.contains("struct It(") { p.items.push_str("#[derive(Clone, Copy)] struct It(i64, u8); impl Iterator for It { type Item = i64; fn next(&mut self) -> Option<i64> { if self.1 == 0 { return None } self.1 -= 1; self.0 = (self.0 * 5 + 3) % 37; Some(self.0) } }\n") }
    let cap = p.us(5);
    p.body(format!("let cap = bb({cap}i64); let mut it = {c}; {use_}"))
}
