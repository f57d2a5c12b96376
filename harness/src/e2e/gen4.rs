//! Random Rust programs, as source text: grids of operations whose outcome (value, panic or undefined
//! behaviour) the native program computes itself. `ubx(c)` ends the native program with a note that the
//! translated one must be undefined behaviour at this point if `c` holds.
use super::gen_rs::*;
use super::types::*;

macro_rules! body { ($p:expr, ($($a:tt)*)) => {{ let s = format!($($a)*); $p.body(s) }} }

/// values at the corners of an integer type, as literals
fn corners(p: &mut P, i: usize, n: usize) -> Vec<String> {
    let w = bits(i);
    let (min, max) = (format!("{}::MIN", INTS[i]), format!("{}::MAX", INTS[i]));
    let mut v = vec![min.clone(), max.clone(), int_lit(i, 0), int_lit(i, 1)];
    v.push(if signed(i) { int_lit(i, -1) } else { format!("{max} - 1") });
    while v.len() < n.max(5) {
        v.push(match p.us(9) { 0 => format!("{min} + 1"), 1 => format!("{max} - 1"), 2 => int_lit(i, 2), 3 => format!("1 << {}", p.us(w as usize)), 4 => format!("{max} / 2 + {}", p.us(2)), 5 => format!("{max} >> {}", p.us(w as usize)), _ => p.ival(i) });
    }
    // a random choice
    while v.len() > n { let k = p.us(v.len()); v.remove(k); }
    v
}
const SHS: [&str; 15] = ["0", "1", "7", "8", "9", "15", "16", "31", "32", "33", "63", "64", "65", "127", "128"];
pub fn grid_prog(p: &mut P) {
    let i = p.us(12);
    let t = INTS[i];
    let n = 4;
    let vs = corners(p, i, n);
    p.tag(&format!("grid.{t}"));
    if p.ch(30) {
        // casts
        let mut s = String::new();
        for u in INTS { s += &format!("print(v as {u}); ") }
        s += "print(v as u8 as char as u32); print((v == 0) as i8); print((v as u8 != 0) as u128); ";
        let vs = corners(p, i, 10).join(", ");
        body!(p, ("let vs: [{t}; 10] = [{vs}]; let mut i = 0; while i < 10 {{ let v = vs[i]; {s} i += 1 }} let cs = ['\\0', '\\u{{7f}}', '\\u{{ff}}', '\\u{{100}}', '\\u{{ffff}}', '\\u{{10ffff}}']; let mut i = 0; while i < 6 {{ let c = cs[i]; print(c as {t}); print(c as u8 as char == c); print(bb(i % 2 == 0) as {t}); i += 1 }}"));
        return
    }
    let mut ops: Vec<String> = vec![];
    for o in ["wrapping_add", "wrapping_sub", "wrapping_mul"] { ops.push(format!("print(a.{o}(b));")) }
    for o in ["overflowing_add", "overflowing_sub", "overflowing_mul", "checked_add", "checked_sub", "checked_mul", "checked_div", "checked_rem"] { ops.push(format!("a.{o}(b).show();")) }
    ops.push("print(a & b); print(a | b); print(a ^ b); print(!a);".into());
    ops.push("print((a < b) as u8 | ((a <= b) as u8) << 1 | ((a > b) as u8) << 2 | ((a >= b) as u8) << 3 | ((a == b) as u8) << 4 | ((a != b) as u8) << 5); print(match a.cmp(&b) { std::cmp::Ordering::Less => -1i8, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1 }); print(a.max(b)); print(a.min(b));".into());
    ops.push(format!("print(a.wrapping_shl(b as u32)); print(a.wrapping_shr(b as u32)); a.checked_shl(b as u32).show(); a.checked_shr(b as u32).show(); a.overflowing_shl(b as u32).show();"));
    ops.push("print(a.abs_diff(b)); print(a.count_ones()); print(b.count_zeros()); ".into());
    if signed(i) { ops.push("print(a.wrapping_neg()); a.checked_neg().show(); a.overflowing_neg().show(); print(a.wrapping_abs()); print(b.signum()); print(a.unsigned_abs()); print(a.is_negative());".into()) } else { ops.push("print(a.wrapping_neg()); a.checked_neg().show(); print(a.is_power_of_two());".into()) }
    ops.push("if b != 0 && !(b == !0 && a != 0) { print(a / b); print(a % b); print(a.rem_euclid(b)); print(a.div_euclid(b)) }".into());
    let mut s = String::new();
    for _ in 0..4 { let k = p.us(ops.len()); s += &ops.remove(k) }
    let vs = vs.join(", ");
    body!(p, ("let vs: [{t}; {n}] = [{vs}]; let mut i = 0; while i < {n} {{ let mut j = 0; while j < {n} {{ let a = vs[i]; let b = vs[j]; {s} j += 1 }} i += 1 }}"));
    // shifts: by every amount, of any type
    let w = bits(i) as usize;
    let u = INTS[p.us(12)];
    let am: Vec<&str> = SHS.iter().copied().filter(|x| x.parse::<usize>().unwrap() < w).collect();
    let vs = corners(p, i, 3).join(", ");
    body!(p, ("let vs: [{t}; 3] = [{vs}]; let ks: [u8; {}] = [{}]; let mut i = 0; while i < 3 {{ let mut j = 0; while j < {} {{ let a = vs[i]; let k = ks[j] as {u}; if k >= (0 as {u}) {{ print(a << k); print(a >> k); }} j += 1 }} i += 1 }} let ks: [u32; 15] = [{}]; let mut j = 0; while j < 15 {{ print(vs[0].wrapping_shl(ks[j])); print(vs[1].wrapping_shr(ks[j])); vs[2].overflowing_shr(ks[j]).show(); j += 1 }}", am.len(), am.join(", "), am.len(), SHS.join(", ")));
}

/// unchecked operations
pub fn ubgrid_prog(p: &mut P) {
    let i = p.us(12);
    let t = INTS[i];
    p.tag(&format!("ubgrid.{t}"));
    p.items.push_str("#[repr(u8)] enum Ebv { A = 7, B = 5, C = 6 }\n");
    let mut s = String::new();
    for _ in 0..12 {
        let near = p.ch(70);
        let (mut a, mut b) = { let mut v = corners(p, i, 2); (v.pop().unwrap(), v.pop().unwrap()) };
        if near { b = int_lit(i, p.us(4) as i128); if p.ch(40) { std::mem::swap(&mut a, &mut b) } }
        s += &format!("let a: {t} = bb({a}); let b: {t} = bb({b}); ");
        let u = INTS[p.us(12)];
        let sh = if p.ch(60) { p.us(bits(i) as usize) } else { bits(i) as usize + p.us(70) }.min(127);
        let wild = p.ch(15);
        let x: String = match p.us(13) {
            0 => "ubx(a.checked_add(b).is_none()); print(unsafe { a.unchecked_add(b) }); ".into(),
            1 => "ubx(a.checked_sub(b).is_none()); print(unsafe { a.unchecked_sub(b) }); ".into(),
            2 => "ubx(a.checked_mul(b).is_none()); print(unsafe { a.unchecked_mul(b) }); ".into(),
            3 => format!("let k: {u} = bb({sh}); ubx((k as u128) >= {}); print(unsafe {{ core::intrinsics::unchecked_shl(a, k) }}); ", bits(i)),
            4 => format!("let k: {u} = bb({sh}); ubx((k as u128) >= {}); print(unsafe {{ core::intrinsics::unchecked_shr(a, k) }}); ", bits(i)),
            5 => format!("let k: i32 = bb({}); ubx(k < 0 || k >= {}); print(unsafe {{ core::intrinsics::unchecked_shr(a, k) }}); ", sh as i64 - 1 - p.us(2) as i64, bits(i)),
            6 | 7 => "ubx(match a.checked_rem(b) { Some(0) => a.checked_div(b).is_none(), _ => true }); print(unsafe { core::intrinsics::exact_div(a, b) }); ".into(),
            8 => "ubx(a.checked_div(b).is_none()); print(unsafe { core::intrinsics::unchecked_div(a, b) }); ".into(),
            9 => "ubx(a.checked_rem(b).is_none()); print(unsafe { core::intrinsics::unchecked_rem(a, b) }); ".into(),
            10 => { let o = *p.pick(&["<", "<=", "==", "!=", ">", ">="]); format!("ubx(!(a {o} b)); unsafe {{ std::hint::assert_unchecked(a {o} b) }}; print(a); ") }
            11 => format!("let z: u8 = bb({}); ubx(z > 1); let z: bool = unsafe {{ transmute(z) }}; print(z); ", [0, 1, 0, 1, 2, 3, 128, 255][p.us(8)]),
            _ => format!("let z: u8 = bb({}); ubx(z < 5 || z > 7); let z: Ebv = unsafe {{ transmute(z) }}; print(z as u8); ", [5, 6, 7, 4, 8, 0, 255][p.us(7)]),
        };
        // the operation is skipped where it is undefined behaviour, most of the time
        let i0 = x.find("ubx(").unwrap();
        let (pre, rest) = x.split_at(i0);
        let (cond, op) = rest[4..].split_once("); ").unwrap();
        let k = p.sel();
        s += &if wild && p.ch(20) { x.clone() } else { format!("{pre}let cx = {cond}; if !cx || sel({k}) {{ ubx(cx); {op}}} ") };
    }
    p.body(s)
}

const CATCH: &str = r#"
fn catch_it(d: *mut u8, p: *mut u8) {}
fn try_it(d: *mut u8) { let f = unsafe { *(d as *mut fn()) }; f() }
#[inline(never)] fn cu(mut f: fn()) -> bool {
    #[cfg(native)] { return std::panic::catch_unwind(f).is_err() }
    #[cfg(not(native))] { unsafe { let p = &raw mut f as *mut u8; let r = core::intrinsics::catch_unwind(try_it, p, catch_it); r != 0 } }
}
struct G(u8); impl Drop for G { fn drop(&mut self) { print(200u8) } }
fn a3(k: usize) -> u8 { [1, 2, 3][k] }
static mut K: usize = 0; static mut L: usize = 0;
"#;
/// checked operations: what panics and what does not
pub fn panicgrid_prog(p: &mut P) {
    let i = p.us(12);
    let t = INTS[i];
    p.tag(&format!("panicgrid.{t}"));
    p.items.push_str(CATCH);
    let off = p.ch(20);
    if off { p.flags.push("-Coverflow-checks=off") }
    p.items.push_str(&format!("static mut A: {t} = 0; static mut B: {t} = 0;\n"));
    let u = INTS[p.us(12)];
    let g = if p.ch(40) { "let _g = G(1); " } else { "" };
    let mut ops: Vec<String> = vec!["A + B".into(), "A - B".into(), "A * B".into(), "A / B".into(), "A % B".into(), format!("A << (B as {u})"), format!("A >> (B as {u})"), "A.rem_euclid(B)".into(), "A.div_euclid(B)".into(), "NonZero::new(A).unwrap().get()".into(), "{ let mut x = A; x += B; x }".into(), "{ let mut x = A; x -= B; x }".into(), "{ let mut x = A; x <<= B; x }".into()];
    if signed(i) { ops.push("-A".into()); ops.push("A.abs()".into()) }
    for o in ["{ let mut r = A..; r.next(); r.next().unwrap() }", "{ let mut r = A..B; r.next(); r.next().unwrap() }", "{ let mut r = A..=B; r.next(); r.next_back().unwrap() }"] { ops.push(o.into()) }
    let k = 2 + p.us(2);
    let mut names = vec![];
    for j in 0..k { let o = p.us(ops.len()); let o = ops.remove(o); p.items.push_str(&format!("fn o{j}() {{ unsafe {{ {g}print({o}); }} }}\n")); names.push(format!("print(cu(o{j}));")) }
    let n = 4;
    let vs = corners(p, i, n).join(", ");
    body!(p, ("let vs: [{t}; {n}] = [{vs}]; let mut i = 0; while i < {n} {{ let mut j = 0; while j < {n} {{ unsafe {{ A = vs[i]; B = vs[j]; }} {} j += 1 }} i += 1 }}", names.concat()));
    let mut idx: Vec<&str> = vec!["let a = [5u8, 6, 7]; print(a[K]);", "let a = [5u16, 6, 7]; let s: &[u16] = &a[1..]; print(s[K]); print(s[L]);", "let a = [5u8, 6, 7]; (&a[K..L]).show();", "let a = [5u8, 6, 7]; (&a[K..]).show();", "let a = [5u8, 6, 7]; (&a[..K]).show();", "let a = [5u8, 6, 7]; (&a[K..=L]).show();", "let mut a = [5i64, 6, 7]; a[K] = a[L]; a.show();", "let a = [[1u8, 2], [3, 4], [5, 6]]; print(a[K][L]);", "let a: [(); 2] = [(); 2]; a[K].show(); print(1);", "let a: [u8; 0] = []; print(a[K]);", "let a = [5u8, 6, 7]; a.get(K).is_some().show(); (if K < L { Some(K) } else { None }).unwrap().show();", "let a = [5u8, 6, 7]; (&(&a[K..])[L..]).show();", "let x = if K == L { Ok(K) } else { Err(3u8) }; x.is_ok().show(); match x { Ok(k) => print(a3(k)), Err(_) => panic!() }", "let mut a = [5u8, 6, 7]; let r = &mut a[K..]; r[L] = 3; a.show();", "assert!(K <= L); print(K); if K == 3 { unreachable!() }",
        "let s = \"ab\\u{e9}\"; (&s[K..L]).show();", "let s = \"ab\\u{e9}\"; (&s[K..]).show();", "let s = \"ab\\u{e9}\"; (&s[..L]).show();", "let s = \"ab\\u{e9}\"; (&s[K..=L]).show();", "let s = \"ab\\u{e9}\"; s.get(K..L).is_some().show();", "let a = [5u8, 6, 7]; let (x, y) = a.split_at(K); x.show(); y.show();", "let mut a = [5u8, 6, 7]; let (x, y) = a.split_at_mut(K); x[L] = 1; a.show();", "let a = [5u8, 6, 7]; for c in a.chunks(K) { c.show(); }", "let a = [5u8, 6, 7]; a[..K].iter().nth(L).unwrap().show();", "let v: Result<u8, u16> = if K < L { Ok(3) } else { Err(4) }; v.ok().unwrap().show();", "let s = \"ab\\u{e9}\"; let (x, y) = s.split_at(K); x.show(); y.show();", "let a = [5u8, 6, 7]; for c in a.chunks_exact(K) { c.show(); }", "let a = [5u8, 6, 7]; for c in (0..L as u8).take(9).step_by(K) { c.show(); }", "print(char::from_u32(0xd7ff + (K as u8) as u32).unwrap() as u32);", "print(char::from_digit(K as u8 as u32, L as u8 as u32).unwrap() as u32);", "print(K.div_ceil(L));", "print(NonZero::new(K).unwrap().get());", "print((K as u8).rem_euclid(L as u8)); print((K as i8).div_euclid(L as i8));"];
    let mut names = vec![];
    for j in 0..4 { let o = p.us(idx.len()); let o = idx.remove(o); p.items.push_str(&format!("fn x{j}() {{ unsafe {{ {g}{o} }} }}\n")); names.push(format!("print(cu(x{j}));")) }
    let kl: Vec<String> = (0..8).map(|_| { const V: [&str; 9] = ["0", "1", "2", "3", "4", "!0", "0", "1", "2"]; let a = *p.pick(&V); let b = if p.ch(30) { a } else { *p.pick(&V) }; format!("({a}, {b})") }).collect();
    body!(p, ("let ks: [(usize, usize); 8] = [{}]; let mut i = 0; while i < 8 {{ unsafe {{ K = ks[i].0; L = ks[i].1; }} {} i += 1 }}", kl.join(", "), names.concat()));
}

/// patterns over integers and what is inside of other types
pub fn match_snippet(p: &mut P) {
    let id = p.fresh();
    let i = p.us(12);
    let t = INTS[i];
    p.tag(&format!("match.{t}"));
    // sorted points, so that ranges make sense
    let mut pts: Vec<i128> = (0..8).map(|_| int_val(&mut p.r, i)).collect();
    for k in 0..3 { let d = pts[k].wrapping_add(p.us(5) as i128 - 2); let (lo, hi) = lim(i); if le(i, lo, d) && le(i, d, hi) { pts.push(d) } }
    // two values that agree in their low bits
    if bits(i) > 8 { let s = [8, 16, 32, 64].into_iter().filter(|s| *s < bits(i)).last().unwrap(); let x = pts[0] ^ (1i128 << s); let (lo, hi) = lim(i); if le(i, lo, x) && le(i, x, hi) { pts.push(x) } }
    pts.sort_by(|a, b| if a == b { std::cmp::Ordering::Equal } else if le(i, *a, *b) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater });
    pts.dedup();
    let l = |v: i128| int_lit(i, v).replace("(", "").replace(")", "");
    let mut arms = String::new();
    let n = 1 + p.us(6);
    for k in 0..n {
        let a = p.us(pts.len());
        let b = (a + p.us(3)).min(pts.len() - 1);
        let (a, b) = (pts[a], pts[b]);
        let c = *p.pick(&pts.clone());
        arms += &match p.us(10) {
            0 | 1 | 2 | 3 => format!("{} => {k}, ", l(a)),
            4 | 5 => format!("{}..={} => {k}, ", l(a), l(b)),
            6 => format!("{} | {} => {k}, ", l(a), l(c)),
            7 => format!("y @ {}..={} if y != {} => {k}, ", l(a), l(b), l(c)),
            8 => format!("y if y == {} => {k}, ", l(a)),
            _ => if p.ch(50) { format!("{}.. => {k}, ", l(b)) } else { format!("..={} => {k}, ", l(a)) },
        };
    }
    let (lo, hi) = lim(i);
    let mut vs: Vec<String> = pts.iter().map(|v| int_lit(i, *v)).collect();
    for v in pts.iter() { if *v != hi && p.ch(50) { vs.push(int_lit(i, v.wrapping_add(1))) } if *v != lo && p.ch(50) { vs.push(int_lit(i, v.wrapping_sub(1))) } }
    vs.push(int_lit(i, lo)); vs.push(int_lit(i, hi)); vs.push(int_lit(i, 0));
    p.items.push_str(&format!("#[inline(never)] fn m{id}(x: {t}) -> u32 {{ match x {{ {arms}_ => 99 }} }}\n"));
    let nv = vs.len();
    let mut s = format!("let vs: [{t}; {nv}] = [{}]; let mut i = 0; while i < {nv} {{ print(m{id}(vs[i])); ", vs.join(", "));
    // inside of something
    if p.ch(60) {
        let (a, b) = (*p.pick(&pts.clone()), *p.pick(&pts.clone()));
        let (pa, pb) = (l(a), l(b));
        let x = match p.us(6) {
            0 => format!("match (vs[i], i % 3) {{ ({pa}, 1) => print(1), ({pb}, k) if k != 1 => print(2), (_, 0) => print(3), (z, _) => print(z) }} "),
            1 => format!("match Some(vs[i]) {{ Some({pa}) => print(1), Some({pb}) => print(2), Some(z) => print(z), None => print(3) }} "),
            2 => format!("match &(&vs[i], bb(true)) {{ (&{pa}, false) => print(1), (&{pb}, true) => print(2), (z, _) => print(**z) }} "),
            3 => format!("let o = if i % 2 == 0 {{ Ok(vs[i]) }} else {{ Err((vs[i], i as u8)) }}; match o {{ Ok({pa}) | Err(({pa}, _)) => print(1), Err((_, 3 | 5)) => print(2), Ok({pb}) => print(3), Err((ref z, k)) if k > 4 => print(*z), _ => print(4) }} "),
            4 => format!("if let {pa} | {pb} = vs[i] {{ print(1) }} else if matches!(vs[i], {pb}) {{ print(2) }} else {{ print(3) }} let r = &vs[i]; let &q = r; print(q); if let z @ {pb} = *r {{ print(z) }} "),
            _ => format!("let mut c = vs[i]; let mut n = 0; while let {pa} | {pb} = c {{ c = c.wrapping_add(1); n += 1; if n > 3 {{ break }} }} print(n); print(loop {{ match c {{ {pb} => break 1, {pa} => {{ c = {pb}; continue }} _ => break 2 }} }}); "),
        };
        s += &x;
    }
    s += "i += 1 }";
    p.body(s)
}
fn lim(i: usize) -> (i128, i128) { let w = bits(i); if w == 128 { if signed(i) { (i128::MIN, i128::MAX) } else { (0, -1) } } else if signed(i) { (-(1 << (w - 1)), (1 << (w - 1)) - 1) } else { (0, (1i128 << w) - 1) } }
/// comparison of bit patterns
fn le(i: usize, a: i128, b: i128) -> bool { if bits(i) == 128 && !signed(i) { a as u128 <= b as u128 } else { a <= b } }

/// enums at the bits of their tag: every value that is not one of the type is undefined behaviour
pub fn tags_prog(p: &mut P) { for _ in 0..4 { tags_snippet(p) } }
fn tags_snippet(p: &mut P) {
    let id = p.fresh();
    let (e, o, nb) = (format!("Te{id}"), format!("To{id}"), format!("tnb{id}"));
    let i = *p.pick(&[6, 6, 6, 0, 0, 1, 7, 2, 8, 3, 9]);
    let it = INTS[i];
    let (lo, hi) = lim(i);
    // the fieldless enum at the bottom
    let n = 1 + p.us(5).max(p.us(5));
    let contiguous = p.ch(70);
    let mut ds: Vec<i128> = vec![];
    // (often around the ends of the values, taken as unsigned ones)
    let start = match p.us(10) { 0 => lo, 1 => hi - n as i128 + 1, 2 | 3 => hi - p.us(n) as i128, 4 => 0, 5 => int_val(&mut p.r, i), _ => if lo < 0 { -(p.us(n) as i128) } else { hi - p.us(n) as i128 } };
    let wrap = |x: i128| { let m = hi - lo + 1; let y = (x - lo) % m; lo + if y < 0 { y + m } else { y } };
    for k in 0..n { let d = if contiguous { wrap(start + k as i128) } else { wrap(start + (0..=k).map(|_| 1 + p.us(3) as i128).sum::<i128>()) }; if !ds.contains(&d) { ds.push(d) } }
    if p.ch(40) { ds.reverse() }
    let n = ds.len();
    let vs: Vec<String> = ds.iter().enumerate().map(|(k, d)| format!("V{k} = {d}")).collect();
    p.items.push_str(&format!("#[repr({it})] #[derive(Clone, Copy)] enum {e} {{ {} }}\n", vs.join(", ")));
    // (type, values, arms of a match that looks at tags only)
    let mut ty = e.clone();
    let mut vals: Vec<String> = (0..n).map(|k| format!("{e}::V{k}")).collect();
    let mut arms: Vec<String> = vals.clone();
    let mut depth = 0;
    let mut payload_contiguous = true;
    match p.us(6) {
        0 => {}
        1 | 2 | 3 => {
            depth = 1 + p.us(3);
            for _ in 0..depth { ty = format!("Option<{ty}>"); vals = std::iter::once(format!("None")).chain(vals.iter().map(|v| format!("Some({v})"))).collect() }
            // the outermost tag is looked at
            arms = vec!["None".into(), "Some(_)".into()];
            payload_contiguous = contiguous;
        }
        _ => {
            // in a variant of another enum, with others around
            let m = 1 + p.us(4);
            let at = p.us(m + 1);
            let d: Vec<String> = (0..=m).map(|k| if k == at { format!("X({e})") } else { format!("W{k}") }).collect();
            p.items.push_str(&format!("#[derive(Clone, Copy)] enum {o} {{ {} }}\n", d.join(", ")));
            ty = o.clone();
            vals = vals.iter().map(|v| format!("{o}::X({v})")).collect();
            arms = vec![format!("{o}::X(_)")];
            for k in 0..=m { if k != at { vals.push(format!("{o}::W{k}")); arms.push(format!("{o}::W{k}")) } }
            depth = 1;
            payload_contiguous = contiguous;
            if p.ch(30) { payload_contiguous = contiguous && (at == 0 || at == m); ty = format!("Option<{o}>"); vals = std::iter::once("None".to_string()).chain(vals.iter().map(|v| format!("Some({v})"))).collect(); arms = vec!["None".into(), "Some(_)".into()] }
        }
    }
    // (a single value has no tag to look at)
    let tagonly = payload_contiguous && (n > 1 || depth > 0) && p.ch(65);
    p.tag(&format!("tags.{it}.{depth}.{}", if tagonly { "match" } else { "load" }));
    let nv = vals.len();
    let mut s = format!("let all: [{ty}; {nv}] = [{}]; if size_of::<{ty}>() != size_of::<{it}>() {{ print(0); return }} let mut tags = [0 as {it}; {nv}]; let mut i = 0; while i < {nv} {{ tags[i] = conv(all[i]); print(tags[i]); i += 1 }} ", vals.join(", "));
    // all the valid ones first
    let arms: String = arms.iter().enumerate().map(|(k, a)| format!("{a} => print({k}u8), ")).collect();
    s += &format!("let mut i = 0; while i < {nv} {{ let m = tags[i]; unsafe {{ match *(&raw const m as *const {ty}) {{ {arms} }} }} i += 1 }} ");
    // candidates: anything, and the closest values that are not valid
    p.items.push_str(&format!("#[inline(never)] fn {nb}(tags: &[{it}; {nv}], k: usize, up: bool) -> {it} {{ let mut c = tags[k]; let mut n = 0; while n < 20 {{ c = if up {{ c.wrapping_add(1) }} else {{ c.wrapping_sub(1) }}; let mut ok = false; let mut i = 0; while i < {nv} {{ if tags[i] == c {{ ok = true }} i += 1 }} if !ok {{ return c }} n += 1 }} c }}\n"));
    let mut cands: Vec<(usize, bool)> = (0..nv).flat_map(|k| [(k, false), (k, true)]).collect();
    for _ in 0..9 {
        let k = p.sel();
        let near = !cands.is_empty() && p.ch(75);
        let c = if near { let (k, up) = cands.remove({ let n = cands.len(); p.us(n) }); format!("{nb}(&tags, {k}, {up})") } else { match p.us(5) { 0 => int_lit(i, int_val(&mut p.r, i)), 1 => format!("{it}::MAX"), 2 => format!("{it}::MIN"), _ => { let k = p.us(nv); let d = 1 + p.us(3); format!("tags[{k}].{}({d})", p.pick(&["wrapping_add", "wrapping_sub"])) } } };
        s += &format!("if {}sel({k}) {{ let c: {it} = bb({c}); let mut ok = false; let mut i = 0; while i < {nv} {{ if tags[i] == c {{ ok = true }} i += 1 }} if ok || sel({k}) {{ ubx(!ok); let q = &raw const c as *const {ty}; ", if near { "" } else { "true || " });
        s += &if tagonly { format!("unsafe {{ match *q {{ {arms} }} }} ") } else if p.ch(50) { format!("let x = unsafe {{ *q }}; match x {{ {arms} }} ") } else { format!("let x: {ty} = {}; match x {{ {arms} }} ", if depth == 0 { "unsafe { transmute(c) }" } else { "conv(c)" }) };
        s += "} } ";
    }
    p.body(s)
}

/// pointer arithmetic, with the bounds computed natively
pub fn offs_prog(p: &mut P) {
    let t = *p.pick(&["u8", "u16", "u32", "u64", "i128", "[u8; 3]", "(u8, u32)", "()", "[u64; 0]", "char", "[u16; 5]"]);
    let n = p.us(6);
    p.tag("offs");
    p.items.push_str("#[repr(C, align(16))] struct Al([u8; 100]);\nstatic STA: Al = Al([7; 100]);\n");
    let kind = p.us(5);
    let (pre, base, len, post) = match kind {
        0 => (format!("let ar = Al([1; 100]); let ar = &raw const ar.0;"), format!("(ar as *const {t})"), "100usize".to_string(), String::new()),
        1 => (String::new(), format!("(&raw const STA as *const {t})"), "112usize".into(), String::new()),
        2 => { let k = 8 * (1 + n); (format!("let h = unsafe {{ allocate({k}, 16) }};"), format!("(h as *const {t})"), format!("{k}usize"), format!("unsafe {{ deallocate(h, {k}, 16); }}")) }
        3 => (format!("let ar = [MaybeUninit::<{t}>::uninit(); {n}];"), format!("((&raw const ar) as *const {t})"), format!("({n}usize * size_of::<{t}>())"), String::new()),
        _ => (String::new(), format!("std::ptr::without_provenance::<{t}>({})", p.pick(&["0", "16", "4096"])), "0usize".into(), String::new()),
    };
    // the size of the local with the arena is 112 (alignment), only a[0..100] is reached through the field
    let len = if kind == 0 { "112usize".to_string() } else { len };
    let mut s = format!("{pre} let b: *const {t} = bb({base}); let len = {len} as i128; let sz = size_of::<{t}>() as i128; let off = |q: *const {t}| (q.addr() as i128) - (b.addr() as i128); let inb = |o: i128| o >= 0 && o <= len; let mut q = b; ");
    let huge = ["1usize << 63", "1usize << 62", "1usize << 61", "1usize << 60", "(1usize << 62) + 1", "(1usize << 63) + 1", "usize::MAX", "usize::MAX / 2", "usize::MAX / 2 + 1", "usize::MAX / 3 + 1", "usize::MAX / 4 + 2"];
    for _ in 0..12 {
        // what may be undefined behaviour is done only if selected
        let wild = p.ch(60);
        if wild { let k = p.sel(); s += &format!("if sel({k}) ") }
        let gd = |c: &str| if wild { "true".to_string() } else { c.to_string() };
        let k = if !wild { format!("{} % ((len - off(q)).max(0) / sz.max(1) + 1) as usize", p.us(6)) } else { match p.us(4) { 0 | 1 => p.pick(&huge).to_string(), 2 => format!("(len / sz.max(1)) as usize + {}", p.us(3)), _ => p.us(4).to_string() } };
        let ki = if !wild { format!("({} % (len / sz.max(1) + 1) - off(q) / sz.max(1)) as isize", p.us(9)) } else { match p.us(3) { 0 => format!("({}) as isize", p.pick(&huge)), 1 => format!("-({}isize)", p.us(4)), _ => format!("{}isize", p.us(5)) } };
        s += &match p.us(11) {
            0 | 1 | 2 => format!("{{ let k: usize = bb({k}); let d = (k as i128) * sz; ubx(d != 0 && !(inb(off(q)) && inb(off(q) + d))); q = unsafe {{ q.add(k) }}; print(off(q)); }} "),
            3 => format!("{{ let k: usize = bb({}); let d = (k as isize as i128) * sz; ubx(k as isize == isize::MIN && sz > 0 || d != 0 && !(inb(off(q)) && inb(off(q) - d))); q = unsafe {{ q.sub(k) }}; print(off(q)); }} ", if !wild { format!("{} % (off(q).max(0) / sz.max(1) + 1) as usize", p.us(6)) } else { k.clone() }),
            4 => format!("{{ let k: isize = bb({ki}); let d = (k as i128) * sz; ubx(d != 0 && !(inb(off(q)) && inb(off(q) + d))); q = unsafe {{ q.offset(k) }}; print(off(q)); }} "),
            5 => format!("{{ let k: usize = bb({k}); let d = k as i128; ubx(d != 0 && !(inb(off(q)) && inb(off(q) + d))); let r = unsafe {{ q.byte_add(k) }}; print(off(r)); }} "),
            6 => format!("{{ let k: isize = bb({ki}); let r = q.wrapping_offset(k); print(off(r) as i64); print(r.addr().wrapping_sub(q.addr()) == (k as usize).wrapping_mul(sz as usize)); }} "),
            7 => format!("{{ let k: usize = bb({k}); let r = q.wrapping_add(k); print(r.wrapping_sub(k) == q); print(r.addr().wrapping_sub(b.addr())); }} "),
            8 if t != "()" && t != "[u64; 0]" => format!("{{ let r = b.wrapping_byte_offset(bb({})); let (x, y) = (off(q), off(r)); if {} {{ ubx(x != y && !(inb(x) && inb(y) && (x - y) % sz == 0)); print(unsafe {{ q.offset_from(r) }}); }} }} ", p.us(40) as i64 - 8, gd("x == y || inb(x) && inb(y) && (x - y) % sz == 0")),
            9 if t != "()" && t != "[u64; 0]" => format!("{{ let r = b.wrapping_byte_add(bb({})); let (x, y) = (off(q), off(r)); if {} {{ ubx(x != y && !(inb(x) && inb(y) && (x - y) % sz == 0) || y < x); print(unsafe {{ r.offset_from_unsigned(q) }}); }} }} ", p.us(40), gd("x == y || inb(x) && inb(y) && (x - y) % sz == 0 && y >= x")),
            _ => format!("{{ let r = b.wrapping_byte_offset(bb({})); let (x, y) = (off(q), off(r)); if {} {{ ubx(x != y && !(inb(x) && inb(y))); print(unsafe {{ q.byte_offset_from(r) }}); }} }} ", p.us(40) as i64 - 8, gd("x == y || inb(x) && inb(y)")),
        }
    }
    s += &post;
    p.body(s)
}

/// typed reads and writes of an array of bytes: bounds, alignment, initialization
pub fn mem_prog(p: &mut P) {
    p.tag("mem");
    let n = 1 + p.us(24);
    let kind = p.us(6);
    let mut init = vec![kind == 1 || kind == 4; n];
    let ro = kind == 4;
    p.items.push_str(&format!("#[repr(C, align(16))] struct Al<const N: usize>([MaybeUninit<u8>; N]);\nstatic mut STM: Al<{n}> = Al([MaybeUninit::new(9); {n}]); static STI: Al<{n}> = Al([MaybeUninit::new(9); {n}]); static mut STU: Al<{n}> = Al([MaybeUninit::uninit(); {n}]);\n"));
    // the allocation may be longer than the array
    let total = if kind == 2 || kind == 5 { n } else { n.div_ceil(16) * 16 };
    let (pre, base, post) = match kind {
        0 => (format!("let mut ar = Al::<{n}>([MaybeUninit::uninit(); {n}]);"), "&raw mut ar as *mut u8", String::new()),
        1 => (String::new(), "&raw mut STM as *mut u8", String::new()),
        3 => (String::new(), "&raw mut STU as *mut u8", String::new()),
        4 => (String::new(), "&raw const STI as *mut u8", String::new()),
        _ => (format!("let h = unsafe {{ allocate({n}, 16) }};"), "h", format!("deallocate(h, {n}, 16);")),
    };
    init.resize(total, false);
    const T: [(&str, usize, usize); 8] = [("u8", 1, 1), ("u16", 2, 2), ("u32", 4, 4), ("u64", 8, 8), ("i128", 16, 16), ("[u8; 3]", 3, 1), ("(u8, [u16; 2])", 6, 2), ("MaybeUninit<u32>", 4, 4)];
    let mut s = format!("{pre} unsafe {{ let b: *mut u8 = bb({base}); ");
    let ops = 24;
    for o in 0..ops {
        let bad = p.ch(50);
        let (t, sz, al) = *p.pick(&T);
        let off = if bad { p.us(total + 3) as i64 - 1 } else { let m = total.saturating_sub(sz) / al + 1; (p.us(m) * al) as i64 };
        let inb = off >= 0 && off as usize + sz <= total && off % al as i64 == 0;
        let wr = p.ch(55);
        let mu = t.starts_with("Maybe");
        if wr {
            if ro { continue }
            let ub = !inb;
            let v = match t { "[u8; 3]" => format!("[1, {o}, 3]"), "(u8, [u16; 2])" => format!("({o}, [5, 600])"), "MaybeUninit<u32>" => if p.ch(50) { "MaybeUninit::uninit()".into() } else { "MaybeUninit::new(0x01020304)".into() }, _ => format!("{}", 100 + o) };
            if ub { let k = p.sel(); s += &format!("if sel({k}) {{ ubx(true); *(b.wrapping_byte_offset({off}) as *mut {t}) = {v}; }} "); continue }
            s += &format!("*(b.wrapping_byte_offset({off}) as *mut {t}) = {v}; ");
            for k in 0..sz { init[off as usize + k] = !v.contains("uninit") }
            if t.starts_with('(') {
                // where the padding is is for the compiler to say; give up on these bytes
                for k in 0..sz { if off as usize + k < total { s += &format!("*b.add({}) = {}; ", off as usize + k, k + 1); init[off as usize + k] = true } }
            }
        } else if t.starts_with('(') {
            continue
        } else {
            let ok = inb && (mu || (0..sz).all(|k| init[off as usize + k]));
            let ub = !ok;
            if ub { let k = p.sel(); s += &format!("if sel({k}) {{ ") }
            s += &match p.us(4) { 0 if !mu => format!("ubx({ub}); let x: {t} = (b.wrapping_byte_offset({off}) as *const {t}).read(); x.show(); "), 1 if !mu && !ub => format!("let x: &{t} = &*(b.wrapping_byte_offset({off}) as *const {t}); x.show(); "), _ => format!("ubx({ub}); let x: {t} = *(b.wrapping_byte_offset({off}) as *const {t}); {} ", if mu { "bb(x);" } else { "x.show();" }) };
            if ub { s += "} " }
        }
    }
    { for k in 0..total { if init[k] { s += &format!("print(*b.add({k})); ") } } }
    s += &format!("{post} }}");
    // the padding of the local is not a part of it
    p.body(s)
}

/// padding of values at different places is uninitialized
pub fn pads_prog(p: &mut P) {
    p.tag("pads");
    let id = p.fresh();
    let n = 1 + p.us(4);
    let leaf: Vec<(String, usize)> = (0..n).map(|_| { let t = *p.pick(&["u8", "u16", "u32", "u64", "u128", "bool", "[u8; 3]", "i16", "()", "char", "&'static u8", "&'static str", "Option<&'static u16>", "&'static [u16]"]); (t.to_string(), 0) }).collect();
    let repr = *p.pick(&["#[repr(C)]", "", "#[repr(C, align(8))]", "#[repr(align(32))]", "#[repr(C, packed(2))]", "#[repr(C, packed)]"]);
    let val = |p: &mut P, t: &str| match t { "bool" => "true".to_string(), "[u8; 3]" => "[1, 2, 3]".into(), "()" => "()".into(), "char" => "'x'".into(), "&'static u8" => "&7".into(), "&'static str" => "\"ab\"".into(), "Option<&'static u16>" => if p.ch(50) { "Some(&9)".into() } else { "None".into() }, "&'static [u16]" => "&[1, 2]".into(), "u8" => p.us(256).to_string(), _ => p.us(30000).to_string() };
    let fs: String = leaf.iter().enumerate().map(|(k, (t, _))| format!("f{k}: {t}, ")).collect();
    p.items.push_str(&format!("{repr} #[derive(Clone, Copy)] struct S{id} {{ {fs}}}\n"));
    let v = format!("S{id} {{ {} }}", leaf.iter().enumerate().map(|(k, (t, _))| format!("f{k}: {}", val(p, t))).collect::<Vec<_>>().join(", "));
    // around it
    let (ty, v, path) = match p.us(6) {
        0 => (format!("[S{id}; 2]"), format!("[{v}; 2]"), vec![0, 1]),
        1 => (format!("(u8, S{id})"), format!("(5u8, {v})"), vec![]),
        2 => (format!("Wp"), format!("Wp {{ a: 3, s: {v}, b: 4 }}"), vec![]),
        _ => (format!("S{id}"), v, vec![]),
    };
    p.items.push_str(&format!("#[derive(Clone, Copy)] struct Wp {{ a: u8, s: S{id}, b: u16 }}\n"));
    // which bytes belong to fields
    let mut cov = String::new();
    let inner = |base: &str| (0..n).map(|k| format!("mk({base} + offset_of!(S{id}, f{k}), size_of::<{}>(), {}); ", leaf[k].0, if leaf[k].0.contains('&') { 2 } else { 1 })).collect::<String>();
    if ty.starts_with('[') { for k in path { cov += &inner(&format!("{k} * size_of::<S{id}>()")) } } else if ty.starts_with('(') { cov += "mk(offset_of!(Ty, 0), 1, 1); "; cov += &inner("offset_of!(Ty, 1)") } else if ty == "Wp" { cov += "mk(offset_of!(Ty, a), 1, 1); mk(offset_of!(Ty, b), 2, 1); "; cov += &inner("offset_of!(Ty, s)") } else { cov += &inner("0") }
    p.items.push_str(&format!("type Ty = {ty};\nstatic ST: Ty = {v}; static mut SM: Ty = {v}; const CO: Ty = {v}; static RF: &Ty = &{v}; static OP: Option<&Ty> = Some(&CO); static NE: (u8, &[Ty]) = (1, &[CO]);\n#[inline(never)] fn pass(x: Ty) -> Ty {{ x }}\n"));
    let place = match p.us(11) { 0 => "let q = &raw const ST;", 1 => "let q = &raw const SM;", 2 => "let x = CO; let q = &raw const x;", 3 => "let q: *const Ty = RF;", 4 => "let r: &'static Ty = &CO; let q: *const Ty = r;", 5 => "let x = pass(ST); let q = &raw const x;", 6 => "let q: *const Ty = match OP { Some(r) => r, None => return };", 7 => "let q: *const Ty = &NE.1[0];", 8 => "let mut x = ST; x = CO; let x = bb(x); let q = &raw const x;", 9 => "let h = unsafe { allocate(size_of::<Ty>().max(1), 32) } as *mut Ty; unsafe { *h = CO; } let q = h as *const Ty;", _ => "let y = (1u8, CO); let q = &raw const y.1;" };
    let heap = place.contains("allocate");
    let mut s = format!("{place} const N: usize = size_of::<Ty>(); let mut cv = [0u8; N]; {{ let mut mk = |o: usize, n: usize, k: u8| {{ let mut i = 0; while i < n {{ cv[o + i] = k; i += 1 }} }}; {cov} }} let b = q as *const u8; let mut i = 0; while i < N {{ print(cv[i]); if cv[i] == 1 {{ print(unsafe {{ *b.add(i) }}) }} else if cv[i] == 2 {{ bb(unsafe {{ *b.add(i) }}); }} i += 1 }} ");
    for _ in 0..10 { let (k, c) = (p.sel(), p.us(64)); s += &format!("if N > 0 && sel({k}) {{ let mut k = bb({c}) % N; let mut n = 0; while n < N && cv[k] != 0 {{ k = (k + 1) % N; n += 1 }} ubx(cv[k] == 0); let y = bb(unsafe {{ *b.add(k) }}); if cv[k] == 1 {{ print(y) }} }} ") }
    if heap { s += "unsafe { deallocate(h as *mut u8, size_of::<Ty>().max(1), 32); }" }
    p.body(s)
}

/// what the bytes of captured cells, and of the value behind a trait object, allow
pub fn clocells_prog(p: &mut P) {
    p.tag("clocells");
    let n = 1 + p.us(4);
    let mut decl = String::new();
    let mut arms = String::new();
    let mut cell = vec![];
    for k in 0..n {
        let t = *p.pick(&["u8", "u16", "u32", "u64"]);
        let c = p.ch(55);
        let (ty, v) = match (c, p.us(3)) { (true, 0) => (format!("Cell<{t}>"), format!("Cell::new(bb({k}))")), (true, 1) => (format!("(Cell<{t}>,)"), format!("(Cell::new(bb({k})),)")), (true, _) => (format!("[Cell<{t}>; 2]"), format!("[Cell::new(bb({k})), Cell::new(1)]")), (false, 0) => (format!("[{t}; 2]"), format!("[bb({k}), 4]")), (false, _) => (t.to_string(), format!("bb({k})")) };
        decl += &format!("let c{k}: {ty} = {v}; ");
        arms += &format!("{k} => &raw const c{k} as *const u8 as usize, ");
        cell.push(c);
    }
    let mode = p.us(4);
    // whole structs are captured by using them as a whole
    let f = format!("move |i: u8| -> usize {{ match i {{ {arms}_ => 0 }} }}");
    let mut s = decl;
    s += &match mode {
        0 => format!("let f = {f}; let rf = &f; let base = rf as *const _ as *const u8; "),
        1 => format!("let f = {f}; let rf: &dyn Fn(u8) -> usize = &f; let base = rf as *const dyn Fn(u8) -> usize as *const u8; "),
        2 => format!("let f = (3u8, {f}); let rg = &f; let base = rg as *const _ as *const u8; let rf = &rg.1; "),
        _ => format!("let f0 = {f}; let f = move |i: u8| -> usize {{ f0(i) }}; let rf = &f; let base = rf as *const _ as *const u8; "),
    };
    p.items.push_str("#[inline(never)] fn adr(f: &dyn Fn(u8) -> usize, i: u8) -> usize { f(i) }\n");
    s += "unsafe { ";
    for k in 0..n {
        let read = format!("let d = rf({k}) - base.addr(); let w = lau(base.byte_add(d)) as *mut MaybeUninit<u8>; let o = *w; ");
        if cell[k] { s += &format!("{{ {read} *w = o; print({k}); }} ") } else { s += &format!("{{ {read} print({k}); }} ") }
    }
    for k in 0..n { if cell[k] { continue } let m = p.sel(); s += &format!("if sel({m}) {{ let d = rf({k}) - base.addr(); let w = lau(base.byte_add(d)) as *mut MaybeUninit<u8>; let o = *w; ubx(true); *w = o; }} ") }
    s += "} print(rf(0) != 0);";
    p.body(s)
}

/// behind a trait object
pub fn dyncells_prog(p: &mut P) {
    p.tag("dyncells");
    p.items.push_str("trait Dt { fn at(&self, i: u8) -> usize; fn set(&self) {} }\n");
    let m = 1 + p.us(3);
    let mut s = String::new();
    let mut cells = vec![];
    for j in 0..m {
        let n = 1 + p.us(3);
        let (mut fs, mut arms, mut v, mut set) = (String::new(), String::new(), String::new(), String::new());
        let mut c = vec![];
        for k in 0..n {
            let cell = p.ch(50);
            let t = *p.pick(&["u8", "u16", "u32", "u64"]);
            fs += &if cell { format!("f{k}: Cell<{t}>, ") } else { format!("f{k}: {t}, ") };
            v += &if cell { format!("f{k}: Cell::new({k}), ") } else { format!("f{k}: {k}, ") };
            arms += &format!("{k} => &raw const self.f{k} as *const u8 as usize, ");
            if cell { set += &format!("self.f{k}.set(self.f{k}.get() + 1); print(self.f{k}.get()); ") }
            c.push(cell);
        }
        p.items.push_str(&format!("struct D{j} {{ {fs} }} impl Dt for D{j} {{ fn at(&self, i: u8) -> usize {{ match i {{ {arms}_ => 0 }} }} fn set(&self) {{ {set} }} }}\n"));
        s += &format!("let x{j} = D{j} {{ {v} }}; ");
        cells.push(c);
    }
    s += &format!("let ds: [&dyn Dt; {m}] = [{}]; let mut i = 0; while i < {m} {{ ds[i].set(); i += 1 }} unsafe {{ ", (0..m).map(|j| format!("&x{j}")).collect::<Vec<_>>().join(", "));
    for _ in 0..10 {
        let j = p.us(m);
        let k = p.us(cells[j].len());
        let bad = !cells[j][k];
        if bad { let k = p.sel(); s += &format!("if sel({k}) ") }
        s += &format!("{{ let d = ds[bb({j})]; let base = d as *const dyn Dt as *const u8; let w = lau(base.byte_add(d.at({k}) - base.addr())) as *mut MaybeUninit<u8>; let o = *w; ubx({bad}); *w = o; print({k}); }} ");
    }
    s += &format!("}} let mut i = 0; while i < {m} {{ ds[i].set(); print(size_of_val(ds[i])); i += 1 }}");
    p.body(s)
}

/// assertions about types
pub fn asserts_snippet(p: &mut P) {
    p.tag("intr.asserts");
    let types = ["u8", "bool", "char", "&'static u8", "NonZero<u32>", "Option<&'static u8>", "fn()", "[u16; 3]", "()", "Nev", "!", "(u8, !)", "(u8, Nev)", "Option<Nev>", "MaybeUninit<bool>", "*const u8", "[&'static u8; 0]", "Option<bool>", "Result<u8, Nev>", "Result<!, u16>", "u128", "&'static [u8]"];
    let mut s = String::new();
    for _ in 0..12 {
        let (f, bias) = *p.pick(&[("assert_inhabited", true), ("assert_zero_valid", false), ("assert_mem_uninitialized_valid", false)]);
        let t = if p.ch(50) && !bias { *p.pick(&["u8", "Option<&'static u8>", "()", "MaybeUninit<bool>", "*const u8", "[u16; 3]"]) } else { *p.pick(&types) };
        let k = p.sel();
        s += &format!("if sel({k}) {{ print(5); core::intrinsics::{f}::<{t}>(); print(6); }} ");
    }
    p.body(s)
}
