//! Random Rust programs, as source text: control flow, calls, pointers, constants, unwinding, threads.
use super::gen_rs::*;
use super::types::*;

/// `@NAME` in the template is replaced by the value
pub fn sub(t: &str, kv: &[(&str, String)]) -> String {
    let mut s = t.to_string();
    let mut kv: Vec<_> = kv.iter().collect();
    kv.sort_by_key(|(k, _)| std::cmp::Reverse(k.len()));
    for (k, v) in kv { s = s.replace(&format!("@{k}"), v) }
    s
}
macro_rules! tpl { ($p:expr, $t:expr $(, $k:ident = $v:expr)* $(,)?) => {{ let kv: Vec<(&str, String)> = vec![$((stringify!($k), ($v).to_string())),*]; sub($t, &kv) }} }

// ---------- control flow ----------
struct Fl { vars: Vec<(String, usize)>, labels: Vec<(String, Option<usize>)>, n: usize, ret: Option<usize>, size: i32, loops: u32 }
const FT: [usize; 5] = [2, 6, 9, 1, 11];
fn fexpr(p: &mut P, f: &Fl, t: usize, d: u32) -> String {
    let vs: Vec<String> = f.vars.iter().filter(|v| v.1 == t).map(|v| v.0.clone()).collect();
    if d == 0 || p.ch(25) { return if !vs.is_empty() && p.ch(75) { p.pick(&vs).clone() } else { let k = p.us(12) as i128; int_lit(t, k) } }
    let a = fexpr(p, f, t, d - 1);
    match p.us(12) {
        0 => format!("({a}).wrapping_add({})", fexpr(p, f, t, d - 1)),
        1 => format!("({a}).wrapping_sub({})", fexpr(p, f, t, d - 1)),
        2 => format!("({a}).wrapping_mul({})", fexpr(p, f, t, d - 1)),
        3 => { let op = *p.pick(&["&", "|", "^"]); format!("(({a}) {op} ({}))", fexpr(p, f, t, d - 1)) }
        4 => { let c = fcond(p, f, d - 1); format!("(if {c} {{ {a} }} else {{ {} }})", fexpr(p, f, t, d - 1)) }
        5 => { let u = *p.pick(&FT); let b = fexpr(p, f, u, d - 1); format!("(({b}) as {})", INTS[t]) }
        6 => { let b = fexpr(p, f, t, d - 1); let k = p.us(5); format!("(match {a} {{ {} => {b}, x => x ^ {} }})", int_lit(t, k as i128), int_lit(t, 3)) }
        7 => { let k = 1 + p.us(7); format!("(({a}) % {})", int_lit(t, k as i128)) }
        8 => { let k = p.us(7); format!("(({a}) >> {k}u32)") }
        9 if t == 2 => format!("g{}({a})", p.us(3)),
        10 => { let b = fexpr(p, f, t, d - 1); format!("{{ let t = {a}; if t > {b} {{ t }} else {{ {b} }} }}") }
        _ => a,
    }
}
fn fcond(p: &mut P, f: &Fl, d: u32) -> String {
    let t = *p.pick(&FT);
    match p.us(if d == 0 { 2 } else { 8 }) {
        0 | 1 | 2 => { let (a, b) = (fexpr(p, f, t, d.min(1)), fexpr(p, f, t, d.min(1))); let op = *p.pick(&["<", "<=", "==", "!=", ">", ">="]); format!("{a} {op} {b}").replace("as i32 <", "as i32) <").replace("((", "((") }
        3 => { let (a, b) = (fcond(p, f, d - 1), fcond(p, f, d - 1)); format!("({a}) && ({b})") }
        4 => { let (a, b) = (fcond(p, f, d - 1), fcond(p, f, d - 1)); format!("({a}) || ({b})") }
        5 => { let a = fcond(p, f, d - 1); format!("!({a})") }
        6 => { let a = fexpr(p, f, t, d - 1); let k = p.us(9); format!("matches!({a}, {}..={} | {})", int_lit(t, k as i128), int_lit(t, k as i128 + 5), int_lit(t, 40)) }
        _ => { let a = fcond(p, f, d - 1); format!("({a}) == bb(true)") }
    }
}
fn fblock(p: &mut P, f: &mut Fl, d: u32) -> String {
    let (nv, n) = (f.vars.len(), 1 + p.us(3));
    let mut s = String::new();
    for _ in 0..n { s += &fstmt(p, f, d); }
    f.vars.truncate(nv);
    s
}
fn fresh(f: &mut Fl) -> usize { f.n += 1; f.n }
fn fstmt(p: &mut P, f: &mut Fl, d: u32) -> String {
    f.size -= 1;
    let t = *p.pick(&FT);
    let k = if d == 0 || f.size < 0 { p.us(4) } else { p.us(20) };
    match k {
        0 => { let e = fexpr(p, f, t, 3); let n = fresh(f); f.vars.push((format!("v{n}"), t)); format!("let mut v{n}: {} = {e};\n", INTS[t]) }
        1 | 2 => { let i = p.us(f.vars.len()); let (v, t) = f.vars[i].clone(); let e = fexpr(p, f, t, 3); format!("{v} = {e};\n") }
        3 => { let i = p.us(f.vars.len()); format!("print({});\n", f.vars[i].0) }
        4 | 5 => { let c = fcond(p, f, 2); let a = fblock(p, f, d - 1); if p.ch(60) { let b = fblock(p, f, d - 1); if p.ch(30) { let c2 = fcond(p, f, 2); let e = fblock(p, f, d - 1); format!("if {c} {{ {a} }} else if {c2} {{ {b} }} else {{ {e} }}\n") } else { format!("if {c} {{ {a} }} else {{ {b} }}\n") } } else { format!("if {c} {{ {a} }}\n") } }
        6 | 7 | 8 if f.loops < 2 => {
            f.loops += 1;
            let n = fresh(f);
            let lim = 1 + p.us(4);
            f.labels.push((format!("'l{n}"), None));
            let b = fblock(p, f, d - 1);
            let c = fcond(p, f, 1);
            let out = match p.us(4) {
                0 => format!("'l{n}: for i{n} in 0..{lim}i32 {{ print(i{n}); {b} }}\n"),
                1 => format!("'l{n}: for i{n} in (0..={lim}u8).rev() {{ print(i{n}); {b} }}\n"),
                2 => format!("{{ let mut c{n} = 0; 'l{n}: while c{n} < {lim} && ({c}) {{ c{n} += 1; {b} }} print(c{n}); }}\n"),
                _ => format!("{{ let mut c{n} = 0; 'l{n}: loop {{ c{n} += 1; if c{n} > {lim} || {c} {{ break }} {b} }} print(c{n}); }}\n"),
            };
            f.labels.pop();
            f.loops -= 1;
            out
        }
        9 if !f.labels.is_empty() => { let i = p.us(f.labels.len()); let (l, v) = f.labels[i].clone(); let c = fcond(p, f, 1); match v { Some(t) => { let e = fexpr(p, f, t, 2); format!("if {c} {{ break {l} {e} }}\n") } None => format!("if {c} {{ {} {l} }}\n", p.pick(&["break", "continue"])) } }
        10 => { let n = fresh(f); f.labels.push((format!("'b{n}"), Some(t))); let b = fblock(p, f, d - 1); let e = fexpr(p, f, t, 2); f.labels.pop(); f.vars.push((format!("v{n}"), t)); format!("let mut v{n}: {} = 'b{n}: {{ {b} {e} }};\n", INTS[t]) }
        11 | 12 => {
            let e = fexpr(p, f, t, 2);
            let mut s = format!("match {e} {{ ");
            let mut at = 0i128;
            for _ in 0..p.us(4) {
                let (lo, hi) = (at + p.us(3) as i128, at + 3 + p.us(4) as i128);
                at = hi + 1;
                let b = fblock(p, f, d - 1);
                s += &match p.us(5) { 0 => format!("{} => {{ {b} }} ", int_lit(t, lo)), 1 => format!("{}..={} => {{ {b} }} ", int_lit(t, lo), int_lit(t, hi)), 2 => format!("{} | {} => {{ {b} }} ", int_lit(t, lo), int_lit(t, hi)), 3 => { let c = fcond(p, f, 1); format!("x @ {}..={} if {c} => {{ print(x); {b} }} ", int_lit(t, lo), int_lit(t, hi)) } _ => format!("x if x > {} => {{ print(x); {b} }} ", int_lit(t, hi + 9)) };
            }
            let b = fblock(p, f, d - 1);
            s + &format!("_ => {{ {b} }} }}\n")
        }
        13 => { let (a, b) = (fcond(p, f, 1), fexpr(p, f, t, 2)); let (x, y, z) = (fblock(p, f, d - 1), fblock(p, f, d - 1), fblock(p, f, d - 1)); let k = int_lit(t, p.us(4) as i128); format!("match ({a}, {b}) {{ (true, {k}) => {{ {x} }} (false, x) if x < {k} => {{ print(x); {y} }} (q, _) => {{ print(q); {z} }} }}\n") }
        14 => { let (c, e) = (fcond(p, f, 1), fexpr(p, f, t, 2)); let (x, y) = (fblock(p, f, d - 1), fblock(p, f, d - 1)); format!("if let Some(x) = (if {c} {{ Some({e}) }} else {{ None }}) {{ print(x); {x} }} else {{ {y} }}\n") }
        15 => { let Some(r) = f.ret else { return String::new() }; let (c, e) = (fcond(p, f, 2), fexpr(p, f, r, 2)); format!("if {c} {{ return {e} }}\n") }
        16 => { let n = fresh(f); let vs: Vec<String> = (0..4).map(|_| fexpr(p, f, t, 1)).collect(); let e = fexpr(p, f, 9, 2); let g = fexpr(p, f, t, 2); f.vars.push((format!("v{n}"), t)); format!("let mut a{n}: [{}; 4] = [{}]; a{n}[(({e}) & 3) as usize] = {g}; for x in a{n}.iter() {{ print(*x) }} let mut v{n} = a{n}[(({e}) % 4) as usize];\n", INTS[t], vs.join(", ")) }
        17 => { let n = fresh(f); let (c, e, g) = (fcond(p, f, 1), fexpr(p, f, t, 2), fexpr(p, f, t, 1)); f.vars.push((format!("v{n}"), t)); format!("let Some(mut v{n}) = ('k{n}: {{ if {c} {{ break 'k{n} Some::<{}>({e}) }} Some({g}) }}) else {{ panic!() }};\n", INTS[t]) }
        18 => { let n = fresh(f); let (c, e, g) = (fcond(p, f, 1), fexpr(p, f, t, 1), fexpr(p, f, t, 2)); f.vars.push((format!("v{n}"), t)); format!("let mut v{n}: {}; if {c} {{ v{n} = {e} }} else {{ v{n} = {g} }}\n", INTS[t]) }
        _ => { let b = fblock(p, f, d - 1); format!("{{ {b} }}\n") }
    }
}
pub fn flow_snippet(p: &mut P) {
    p.tag("flow");
    let id = p.fresh();
    let (t, a, b) = (*p.pick(&FT), *p.pick(&FT), *p.pick(&FT));
    let mut f = Fl { vars: vec![("a".into(), a), ("b".into(), b)], labels: vec![], n: 0, ret: Some(t), size: 14, loops: 0 };
    let mut s = String::new();
    for _ in 0..4 { s += &fstmt(p, &mut f, 3) }
    let e = fexpr(p, &f, t, 3);
    p.items.push_str(&format!("#[inline(never)] fn w{id}(mut a: {}, mut b: {}) -> {} {{\n{s}{e}\n}}\n", INTS[a], INTS[b], INTS[t]));
    let mut s = String::new();
    for _ in 0..2 { let (x, y) = (p.us(9) as i128, p.us(30) as i128); s += &format!("print(w{id}({}, {})); ", int_lit(a, x), int_lit(b, y)) }
    p.body(s)
}

// ---------- calls, generics, closures, trait objects ----------
pub fn call_snippet(p: &mut P) {
    let id = p.fresh();
    let n = |p: &mut P| p.us(40).to_string();
    let (a, b, c) = (n(p), n(p), n(p));
    let s = match p.us(22) {
        0 => {
            p.tag("call.many");
            let k = 1 + p.us(5);
            let mut ts = vec![];
            while ts.len() < k { let t = p.ty(2, true); if p.t.inhabited(&t) { ts.push(t) } }
            let r = p.us(k);
            let ps: Vec<String> = ts.iter().enumerate().map(|(i, t)| format!("{}x{i}: {}", if p.ch(30) { "mut " } else { "" }, p.name(t))).collect();
            let ext = *p.pick(&["", "", "extern \"C\" "]);
            p.items.push_str(&format!("#[inline(never)] {ext}fn q{id}({}) -> ({}, u8) {{ {} (x{r}, {k}) }}\n", ps.join(", "), p.name(&ts[r]), (0..k).map(|i| format!("x{i}.show(); ")).collect::<String>()));
            let vs: Vec<String> = ts.iter().map(|t| p.val(t)).collect();
            let ws: Vec<String> = ts.iter().map(|t| p.val(t)).collect();
            let tys: Vec<String> = ts.iter().map(|t| p.name(t)).collect();
            format!("let r = q{id}({}); r.show(); let f: {ext}fn({}) -> ({}, u8) = q{id}; bb(f)({}).show(); let t = [f, f]; t[bb(1)]({}).show();", vs.join(", "), tys.join(", "), tys[r], ws.join(", "), vs.join(", "))
        }
        1 => { p.tag("call.recursion"); tpl!(p, "fn fib(n: u32) -> u32 { if n < 2 { n } else { fib(n - 1) + fib(n - 2) } } fn ev(n: u32) -> bool { n == 0 || od(n - 1) } fn od(n: u32) -> bool { n != 0 && ev(n - 1) } fn ack(m: u32, n: u32) -> u32 { match (m, n) { (0, n) => n + 1, (m, 0) => ack(m - 1, 1), (m, n) => ack(m - 1, ack(m, n - 1)) } } fn sum(x: [u8; 5], i: usize) -> u32 { if i == 5 { 0 } else { x[i] as u32 + sum(x, i + 1) } } print(fib(@A)); print(ev(@B)); print(ack(1, @C)); print(sum([1, 2, @A, @B, 5], @C));", A = p.us(8), B = p.us(9), C = p.us(4)) }
        2 => { p.tag("call.closure"); tpl!(p, "let mut t = @A; let k = @B; let f = |x: i32| x.wrapping_mul(k) + 1; print(f(3)); let g = move |x: i32, (y, z): (i32, u8)| x - y + z as i32 + k; print(g(1, (2, 3))); let mut h = |x: i32| { t += x; t }; print(h(2)); print(h(5)); print(t); let s = [f(1), f(2)]; let o = move || s[0] ^ s[1]; print(o()); fn ap(f: impl Fn(i32) -> i32, n: i32) -> i32 { f(f(7) + n) } print(ap(f, @C)); print(ap(|x| ap(f, x), 2)); fn am(f: &mut impl FnMut(i32)) { f(1); f(20) } let mut u = 0; am(&mut |x| u += x * k); print(u); fn ao<R>(f: impl FnOnce() -> R) -> R { f() } print(ao(|| { u += 1; u })); print(u); let e = || (); ao(e); print(ao(move || k));", A = a, B = b, C = p.us(3)) }
        3 => { p.tag("call.dynfn"); tpl!(p, "let k = @A; let f = |x: i32| x + k; let mut c = 0; let fp = g1 as fn(i32) -> i32; let sq = |x: i32| x.wrapping_mul(x); let fs: [&dyn Fn(i32) -> i32; 4] = [&f, &sq, &g0, &fp]; let mut i = 0; while i < 4 { print(fs[i](@B)); print(fs[(i + 1) % 4](fs[i](2))); i += 1 } let m: &mut dyn FnMut(u8) -> u32 = &mut |x| { c += x as u32; c }; print(m(3)); print(m(@C)); fn deep(f: &dyn Fn(&dyn Fn(i32) -> i32) -> i32) -> i32 { f(&|x| x + 100) } print(deep(&|g| g(g(k))));", A = a, B = b, C = c) }
        4 => { p.tag("call.generic"); tpl!(p, "trait A { const N: usize; type T: Show; fn mk(&self) -> Self::T; fn d(&self) -> usize { Self::N * 2 } fn st(x: u8) -> u8 { x + 1 } } struct X(u8); struct Y<T>(T); impl A for X { const N: usize = @A; type T = u8; fn mk(&self) -> u8 { self.0 } } impl<T: Show + Copy> A for Y<T> { const N: usize = size_of::<T>(); type T = (T, i64); fn mk(&self) -> (T, i64) { (self.0, -9) } fn d(&self) -> usize { 1 } fn st(x: u8) -> u8 { x * 2 } } fn g<Q: A>(q: &Q) -> (usize, Q::T, u8) { (q.d() + Q::N, q.mk(), Q::st(7)) } g(&X(@B)).show(); g(&Y(@Cu16)).show(); g(&Y(Some('x'))).show(); fn cg<const N: usize, T: Copy>(x: [T; N]) -> (usize, [T; N]) { (N, x) } cg([@A, @B]).show(); cg([true; 5]).show(); cg::<0, u8>([]).0.show(); fn wh<T, U>(t: T) -> U where U: From<T> { U::from(t) } print(wh::<u8, i64>(@C)); print(wh::<u16, u32>(9));", A = a, B = b, C = c) }
        5 => { p.tag("call.ops"); tpl!(p, "use std::ops::*; #[derive(Clone, Copy, PartialEq, PartialOrd, Default)] struct V(i32, i32); impl Add for V { type Output = V; fn add(self, o: V) -> V { V(self.0 + o.0, self.1 + o.1) } } impl Sub<i32> for V { type Output = i32; fn sub(self, o: i32) -> i32 { self.0 - o } } impl Neg for V { type Output = V; fn neg(self) -> V { V(-self.0, -self.1) } } impl Not for V { type Output = bool; fn not(self) -> bool { self.0 == 0 } } impl Index<usize> for V { type Output = i32; fn index(&self, i: usize) -> &i32 { if i == 0 { &self.0 } else { &self.1 } } } impl IndexMut<usize> for V { fn index_mut(&mut self, i: usize) -> &mut i32 { if i == 0 { &mut self.0 } else { &mut self.1 } } } impl AddAssign<i32> for V { fn add_assign(&mut self, o: i32) { self.0 += o } } impl Deref for V { type Target = i32; fn deref(&self) -> &i32 { &self.1 } } impl DerefMut for V { fn deref_mut(&mut self) -> &mut i32 { &mut self.1 } } let mut v = V(@A, 2) + -V(5, @B); v[0] = 10; v += @C; v[1] -= 3; print(v[0]); print(v[1]); print(*v); *v = 8; print(v.1); print(!v); print(v - 2); print(v == v); print(v < V(@C, 3)); print(V::default() >= v); print(v.clone() != V(1, 8));", A = a, B = b, C = c) }
        6 => {
            p.tag("call.iter");
            let parts = ["print(a.iter().sum::<i32>()); print(a.iter().map(|x| x * 2).filter(|x| *x > @A).count()); print(*a.iter().max().unwrap()); print(*a.iter().min().unwrap());",
                "print(a.iter().fold(0i32, |s, x| s.wrapping_mul(3) ^ x)); print(a.iter().any(|x| *x == @B)); print(a.iter().all(|x| *x > @A)); a.iter().position(|x| *x == 7).show();",
                "for (i, x) in a.iter().enumerate() { print(i); print(*x) } for (x, y) in a.iter().zip(a.iter().rev()) { print(x - y) }",
                "for x in a.iter().skip(1).take(2) { print(*x) } for x in a[..2].iter().chain(a[3..].iter()) { print(*x) } for x in (0..10).step_by(3) { print(x) }",
                "struct It(u32); impl Iterator for It { type Item = u32; fn next(&mut self) -> Option<u32> { if self.0 == 0 { None } else { self.0 -= 1; Some(self.0) } } } for x in It(4) { print(x) } print(It(5).map(|x| x * x).sum::<u32>()); let mut q = It(3).peekable(); print(*q.peek().unwrap()); print(q.next().unwrap());"];
            let t = parts[p.us(parts.len())];
            tpl!(p, &format!("let a = [@A, @B, @C, 7i32]; {t}"), A = a, B = b, C = c)
        }
        7 | 8 => {
            // trait objects with supertraits, default methods, generics and state
            p.tag("call.dyn");
            let m = 1 + p.us(3);
            let mut s = String::new();
            for i in 0..m { s += &format!("trait B{i} {{ fn b{i}(&self, x: i32) -> i32 {{ x + {} }} fn only{i}<T>(&self, t: T) -> T where Self: Sized {{ t }} fn c{i}(&self) -> u8; }} ", p.us(50)) }
            let sup = match p.us(3) { 0 => (0..m).map(|i| format!("B{i}")).collect::<Vec<_>>().join(" + "), 1 => "B0".into(), _ => String::new() };
            s += &format!("trait D{} {{ fn d(&self) -> i32; fn e(&mut self, x: i32) {{ }} fn f(&self) -> i32 {{ self.d() * 2 }} }} ", if sup.is_empty() { String::new() } else { format!(": {sup}") });
            let gn = p.ch(30);
            if gn { s += "trait G<T>: D { fn g(&self, t: T) -> T; } " }
            let tys = ["X(i32)", "Y([u8; 3])", "Z"];
            let vals = [format!("X({a})"), format!("Y([1, {b}, 3])"), "Z".to_string()];
            for (k, t) in tys.iter().enumerate() {
                let t = &t[..1];
                s += &format!("struct {};", tys[k]);
                for i in 0..m { s += &format!(" impl B{i} for {t} {{ {} fn c{i}(&self) -> u8 {{ {} }} }}", if p.ch(40) { format!("fn b{i}(&self, x: i32) -> i32 {{ x * {} }}", p.us(9)) } else { String::new() }, p.us(200)) }
                s += &format!(" impl D for {t} {{ fn d(&self) -> i32 {{ {} }} {} }} ", match k { 0 => "self.0", 1 => "self.0[1] as i32", _ => "-4" }, match k { 0 => "fn e(&mut self, x: i32) { self.0 += x }", 1 => "fn e(&mut self, x: i32) { self.0[1] = x as u8 } fn f(&self) -> i32 { 55 }", _ => "" });
                if gn { s += &format!("impl G<u16> for {t} {{ fn g(&self, t: u16) -> u16 {{ t ^ {} }} }} impl G<bool> for {t} {{ fn g(&self, t: bool) -> bool {{ !t }} }} ", p.us(99)) }
                if p.ch(50) { s += &format!("impl Drop for {t} {{ fn drop(&mut self) {{ print({}u16) }} }} ", 900 + k) }
            }
            let calls: String = match sup.as_str() { "" => String::new(), "B0" => "print(d.b0(5)); print(d.c0());".into(), _ => (0..m).map(|i| format!("print(d.b{i}(5)); print(d.c{i}()); ")).collect() };
            s += &format!("fn run(d: &mut dyn D) {{ print(d.d()); {calls} d.e(3); print(d.d()); print(d.f()); print(size_of_val(d)); print(align_of_val(d)); }} ");
            if gn { s += "fn run2(g: &dyn G<u16>, h: &dyn G<bool>) { print(g.g(5)); print(h.g(true)); print(g.d()); print(h.f()); } " }
            for i in 0..m { s += &format!("fn rb{i}(b: &dyn B{i}) {{ print(b.b{i}(1)); print(b.c{i}()); }} ") }
            for v in &vals { s += &format!("{{ let mut x = {v}; run(&mut x); "); for i in 0..m { s += &format!("rb{i}(&x); print(x.only{i}(7)); ") } if gn { s += "run2(&x, &x); " } s += "} " }
            s += &format!("let (mut x, mut y, mut z) = ({}, {}, {}); let mut a: [&mut dyn D; 3] = [&mut z, &mut y, &mut x]; let mut i = 0; while i < 3 {{ a[i].e(9); print(a[i].d()); i += 1 }} let r: &dyn D = &*a[bb(1)]; print(r.f());", vals[0], vals[1], vals[2]);
            s
        }
        9 => { p.tag("call.dynparam"); tpl!(p, "trait V { fn big(&self, a: [u64; 4], b: u8) -> ([u64; 4], u8, bool); fn s(&self, x: &str) -> usize; fn o(&self, x: Option<&dyn V>) -> u8; fn un(&self) {} } struct A(u8); impl V for A { fn big(&self, a: [u64; 4], b: u8) -> ([u64; 4], u8, bool) { (a, b + self.0, true) } fn s(&self, x: &str) -> usize { x.len() } fn o(&self, x: Option<&dyn V>) -> u8 { match x { None => self.0, Some(v) => v.o(None) + 1 } } } impl V for () { fn big(&self, a: [u64; 4], b: u8) -> ([u64; 4], u8, bool) { ([b as u64, a[0], a[1], a[2]], 0, false) } fn s(&self, x: &str) -> usize { 77 } fn o(&self, x: Option<&dyn V>) -> u8 { 3 } fn un(&self) { print(5) } } let vs: [&dyn V; 3] = [&A(@A), &(), &A(2)]; let mut i = 0; while i < 3 { let v = vs[i]; v.big([1, @B, 3, 4], @C).show(); print(v.s(\"abc\")); print(v.o(Some(vs[2]))); print(v.o(Some(vs[1]))); print(v.o(None)); v.un(); i += 1 }", A = a, B = b, C = c) }
        10 => { p.tag("call.option"); tpl!(p, "print(Some(@A).map(|x| x + 1).unwrap_or(0)); print(None::<i32>.unwrap_or_else(|| 4)); Some(3).and_then(|x| if x > @B { Some(1) } else { None }).show(); print(Ok::<i32, ()>(3).ok().unwrap()); fn q(x: Option<i32>) -> Option<i32> { let y = x?; Some(y + 1) } q(Some(@C)).show(); q(None).show(); fn r(x: Result<i32, u8>) -> Result<i32, u16> { let y = x?; Ok(y + 1) } r(Err(@A)).show(); r(Ok(@B)).show(); Some(4).filter(|x| *x == @A).show(); Some(1).or(Some(2)).show(); Some(1).xor(None).show(); Some(1).zip(Some(2)).show(); print(Err::<u8, i32>(@C).unwrap_or_default()); let e: Result<u8, (i32, char)> = Err((3, 'x')); e.map_err(|x| x.0).show(); print(e.is_err()); Some(5).ok_or(3u8).show();", A = a, B = b, C = c) }
        11 => { p.tag("call.result"); tpl!(p, "#[derive(Clone, Copy)] enum E { A(u8), B { x: i64 } } impl From<u8> for E { fn from(x: u8) -> E { E::A(x) } } impl Show for E { fn show(&self) { match self { E::A(x) => print(*x), E::B { x } => print(*x) } } } fn f(x: i32) -> Result<i32, u8> { if x > @A { Err(9) } else { Ok(x * 2) } } fn g(x: i32) -> Result<[i32; 3], E> { let a = f(x)?; let b = f(a)?; if b == @B { return Err(E::B { x: -1 }) } Ok([x, a, b]) } let mut i = 0; while i < 12 { g(i).show(); i += 1 + (@C & 3) } ", A = a, B = 4 * p.us(10), C = c) }
        12 => { p.tag("call.never"); tpl!(p, "fn st(x: u8) -> u8 { if x == 200 { dv(x) } else { x } } fn dv(x: u8) -> ! { print(x); exit(); loop {} } print(st(@A)); let y: u8 = match bb(@B) { 255 => dv(1), k => k }; print(y); fn nothing() {} let f = nothing; f(); print(size_of_val(&f)); fn pick(b: bool) -> fn(i32) -> i32 { if b { g0 as fn(i32) -> i32 } else { g2 as fn(i32) -> i32 } } print(pick(@C > 20)(8)); print((pick(true) as usize) == (g0 as usize)); print((if bb(true) { g1 as fn(i32) -> i32 } else { g2 as fn(i32) -> i32 })(9));", A = a, B = b, C = c) }
        13 => { p.tag("call.self"); tpl!(p, "#[derive(Clone, Copy)] struct S { a: u16, b: [i8; 3] } impl S { const K: u16 = @A; fn new(a: u16) -> Self { S { a, b: [1, 2, -3] } } fn by_val(self) -> u16 { self.a + Self::K } fn by_ref(&self, i: usize) -> i8 { self.b[i] } fn by_mut(&mut self) -> &mut i8 { self.a += 1; &mut self.b[1] } fn chain(mut self, x: u16) -> Self { self.a ^= x; self } } let mut s = S::new(@B); print(s.by_val()); print(s.by_ref(2)); *s.by_mut() = 50; print(s.b[1]); print(s.chain(3).chain(@C).by_val()); print(S { a: 9, ..s }.by_val()); let f: fn(S) -> u16 = S::by_val; print(f(s)); let m: fn(&S, usize) -> i8 = S::by_ref; print(m(&s, 0)); let S { a, b: [x, .., ] } = s else { return }; print(a); ", A = a, B = b, C = c).replace("let S { a, b: [x, .., ] } = s else { return }; print(a); ", "let S { a, b } = s; print(a); b.show();") }
        14 => { p.tag("call.inplace"); let t = p.ty(2, true); if !p.t.inhabited(&t) { return } let tn = p.name(&t); let v = p.val(&t); let w = p.val(&t); p.items.push_str(&format!("#[inline(never)] fn i{id}(mut x: ({tn}, [u8; 9]), y: {tn}) -> (({tn}, [u8; 9]), {tn}) {{ x.1[3] = 9; x.0.show(); x.0 = y; (x, y) }}\n")); format!("let a = ({v}, [1u8; 9]); let b = i{id}(a, {w}); a.show(); b.show(); let c = i{id}(b.0, b.1); c.0.1.show(); let mut d = a; d = i{id}(d, d.0).0; d.show();") }
        15 | 16 => {
            // the traits of callable things, implemented by hand or called as such
            p.tag("call.fntraits");
            tpl!(p, "struct S(u32); impl FnOnce<(u8, u16)> for S { type Output = u32; extern \"rust-call\" fn call_once(self, a: (u8, u16)) -> u32 { a.0 as u32 * 1000 + a.1 as u32 + self.0 } } impl FnMut<(u8, u16)> for S { extern \"rust-call\" fn call_mut(&mut self, a: (u8, u16)) -> u32 { self.0 += @A; a.show(); a.0 as u32 * 1000 + a.1 as u32 + self.0 } } impl Fn<(u8, u16)> for S { extern \"rust-call\" fn call(&self, a: (u8, u16)) -> u32 { a.0 as u32 * 1000 + a.1 as u32 + self.0 } }
struct Z; impl FnOnce<()> for Z { type Output = u8; extern \"rust-call\" fn call_once(self, a: ()) -> u8 { @B } } struct W<'a>(&'a dyn Fn(i32) -> i32); impl<'a> FnOnce<(i32,)> for W<'a> { type Output = i32; extern \"rust-call\" fn call_once(self, a: (i32,)) -> i32 { self.0.call(a) + self.0(a.0) } }
fn ap(f: impl Fn(u8, u16) -> u32) -> u32 { f(1, @C) } fn am(f: &mut impl FnMut(u8, u16) -> u32) -> u32 { f(2, @B) + f(3, 1) } fn ao(f: impl FnOnce(u8, u16) -> u32) -> u32 { f(4, @A) }
fn gp<F: Fn(u8, u16) -> u32>(f: &F) -> u32 { let g: extern \"rust-call\" fn(&F, (u8, u16)) -> u32 = <F as Fn<(u8, u16)>>::call; bb(g)(f, (1, @B)) + g(f, bb((@A, 2))) } fn gz<F: FnOnce() -> u8>(f: F) -> u8 { let g: extern \"rust-call\" fn(F, ()) -> u8 = F::call_once; bb(g)(f, ()) }
#[inline(never)] fn again<F: Fn(u32, u64, bool) -> u64>(f: &F, t: (u32, u64, bool)) -> u64 { let r = f.call(t); t.show(); let u = f.call(t); r + u * 3 + t.1 } #[inline(never)] fn againm<F: FnMut(u32, u64, bool) -> u64>(f: &mut F, t: &(u32, u64, bool)) -> u64 { let u = *t; let r = f.call_mut(u); u.show(); r + u.1 + f.call_mut(*t) }
let mut s = S(@C); print(s(3, 4)); print(s.call_mut((3, 4))); print(am(&mut s)); print(ap(&s)); let d: &dyn Fn(u8, u16) -> u32 = &s; print(d(7, 8)); print(d.call((1, 2))); print(gp(&s)); { let m: &mut dyn FnMut(u8, u16) -> u32 = &mut s; print(m(1, 1)); print(m.call_mut((9, 9))); } print(ao(&mut s)); print(s.0); print(s.call_once((1, 1))); print(gz(Z)); print(Z()); print(W(&|x| x * 2 + @A)(@B)); print(W(&g1)(4));
let k = @B as u64; print(again(&|a, b, c| if c { a as u64 + k } else { b * k }, (@A, @B, bb(true)))); let mut n = 0; print(againm(&mut |a, b, c| { n += a; n as u64 + b }, &(@A, 5, false))); print(n); print(gp(&|a: u8, b: u16| a as u32 * b as u32 + k as u32)); print(gz(|| k as u8)); print(gz(move || 1 + k as u8));", A = a, B = b, C = c)
        }
        17 => {
            // trait objects of auto traits, and methods which only some objects have
            p.tag("call.dynauto");
            tpl!(p, "struct D(u8, [u16; @K]); impl Drop for D { fn drop(&mut self) { print(self.0) } } trait T: Send { fn a(&self) -> u8 { 1 } fn b(&self, x: u8) -> u8 where Self: Sync { x + 2 } fn c(&self) -> u8; fn z(&self, x: u32) -> u32 where Self: Sized { x } fn e(&self) -> u8 where Self: Unpin { self.c() * 2 } fn l(&self) -> u8 { 77 } }
struct X; impl T for X { fn c(&self) -> u8 { 3 } fn l(&self) -> u8 { 78 } } struct Y(Cell<u8>); impl T for Y { fn c(&self) -> u8 { self.0.get() } } struct Z(u32); impl T for Z { fn b(&self, x: u8) -> u8 where Self: Sync { x + self.0 as u8 } fn c(&self) -> u8 { 9 } } impl Drop for Z { fn drop(&mut self) { print(self.0) } }
fn drp<T: ?Sized>(p: *mut T) { unsafe { print(size_of_val(&*p)); print(align_of_val(&*p)); std::ptr::drop_in_place(p) } } fn go(t: &(dyn T + Sync)) { print(t.a()); print(t.b(@A)); print(t.c()); print(t.l()); print(t.z2()); } trait T2 { fn z2(&self) -> u8; } impl<'a> T2 for dyn T + Sync + 'a { fn z2(&self) -> u8 { self.c() + 1 } } fn gu(t: &(dyn T + Unpin)) { print(t.e()); print(t.l()) }
let mut d = ManuallyDrop::new(D(@A, [1; @K])); let q = &raw mut *d as *mut D; if bb(true) { drp::<dyn Send>(q as *mut dyn Send) } else { drp::<dyn Sync + Send>(q) } let mut x = @Bu32; drp::<dyn Unpin>(&raw mut x); let mut a = ManuallyDrop::new([D(1, [0; @K]), D(2, [2; @K])]); drp::<dyn Send + Unpin>(&raw mut *a as *mut [D; 2]); let mut o = ManuallyDrop::new((D(5, [0; @K]), 7u64)); drp::<dyn std::panic::UnwindSafe>(&raw mut *o as *mut (D, u64)); drp::<dyn Send>(&raw mut *bb(&mut ()));
let y = Y(Cell::new(@B)); let z = Z(@C); let t: [&dyn T; 3] = [&X, &y, &z]; let mut i = 0; while i < 3 { print(t[i].a()); print(t[i].c()); print(t[i].l()); print(size_of_val(t[i])); i += 1 } go(&X); go(&z); gu(&y); gu(&z); print(X.b(1)); print(z.z(4)); let s: &dyn Send = &@Bu64; print(size_of_val(s)); let r: &(dyn Send + Sync) = bb(&[1u16; 3]); print(size_of_val(r)); let mut m = ManuallyDrop::new(Z(@A)); drp::<dyn T>(&raw mut *m); let mut m = ManuallyDrop::new(Z(@B)); drp::<dyn T + Sync>(&raw mut *m);", A = a, B = b, C = c, K = 1 + c.len())
        }
        18 | 19 => {
            // methods (of trait objects, too) as values, and the discriminants of anything
            p.tag("call.methods");
            tpl!(p, "trait V { fn m(&self) -> u8; fn k(&mut self, x: u8) -> u16 { x as u16 + self.m() as u16 } #[track_caller] fn t(&self, a: [u16; 3], b: u8) -> u64 { a[b as usize % 3] as u64 + self.m() as u64 } fn w(&self) -> (u8, u64) { (1, @A) } } trait U: V { fn u(&self) -> u8 { self.m() ^ 3 } }
struct A(u8); impl V for A { fn m(&self) -> u8 { self.0 } fn k(&mut self, x: u8) -> u16 { self.0 = x; 1000 } } struct B<T>([T; 3], u16); impl<T: Copy> V for B<T> { fn m(&self) -> u8 { @B } #[track_caller] fn t(&self, a: [u16; 3], b: u8) -> u64 { a[0] as u64 * 7 + self.1 as u64 } fn w(&self) -> (u8, u64) { (2, size_of::<T>() as u64) } } impl U for A {} impl<T: Copy> U for B<T> { fn u(&self) -> u8 { 91 } } impl V for u16 { fn m(&self) -> u8 { 77 } } impl<T: V + ?Sized> V for &T { fn m(&self) -> u8 { (**self).m() ^ 128 } fn w(&self) -> (u8, u64) { (**self).w() } }
type O = dyn V + 'static; type OU = dyn U + 'static; #[inline(never)] fn ap<X: ?Sized, R>(x: &X, f: impl Fn(&X) -> R) -> R { f(x) } #[inline(never)] fn fp<X: ?Sized, R>(x: &X, f: fn(&X) -> R) -> R { f(x) } fn st<T: V + 'static>(x: &T) -> [fn(&T) -> u8; 2] { [T::m, <T as V>::m] } #[track_caller] fn tc(x: u8) -> u16 { x as u16 + @C } fn di<T>(x: &T, y: &T) -> bool { discriminant(x) == discriminant(y) }
let mut a = A(@A); let b = B([@Bu32; 3], @C); let bs: [&O; 4] = [&a, &b, &B([true; 3], 5), &9u16]; let f: fn(&O) -> u8 = <O as V>::m; let t: fn(&O, [u16; 3], u8) -> u64 = <O as V>::t; let w: fn(&O) -> (u8, u64) = O::w; let mut i = 0; while i < 4 { print(f(bs[i])); print(bb(f)(bs[i])); print(t(bs[i], [1, @B, 3], i as u8)); w(bs[i]).show(); print(ap(bs[i], <O>::m)); print(fp(bs[i], <O>::m)); print(Some(bs[i]).map(O::m).unwrap_or(0)); print(ap(&bs[i], |x| x.m())); print(V::m(&bs[i])); bs[i].w().show(); i += 1 }
let k: fn(&mut O, u8) -> u16 = O::k; print(k(&mut a, @B)); print(a.0); let us: [&OU; 2] = [&a, &b]; let u: fn(&OU) -> u8 = OU::u; let m: fn(&OU) -> u8 = <OU as V>::m; let mut i = 0; while i < 2 { print(u(us[i])); print(m(us[i])); print(fp(us[i], bb(m))); print(us[i].m()); i += 1 } print(st(&a)[0](&a)); print(st(&b)[bb(1)](&b)); let g: fn(u8) -> u16 = tc; print(bb(g)(3)); print(ap(&5u8, |x| tc(*x))); let d: &dyn Fn(u8) -> u16 = if bb(@C > 20) { &tc } else { &g }; print(d(7)); let c: fn(u8) -> A = A; print(c(@A).0); print(Some(@C).map(A).map(|a| a.m()).unwrap_or(1));
print(di(&5u32, &6)); print(di(&Some(@A), &None)); print(di(&[1u8; 3], &[2; 3])); print(di(&(), &())); print(di(&a, &A(9))); print(di(&Ok::<u8, u16>(@A), &Ok(@B))); print(di(&&a, &&a)); print(di(&Err::<u8, char>('x'), &Ok(@B))); print(di(&true, &bb(false)));", A = a, B = b, C = c)
        }
        _ => { p.tag("call.moved"); tpl!(p, "struct NC { v: [u32; 3], s: &'static str } impl NC { fn eat(self) -> u32 { self.v[1] } } fn pass(x: NC) -> NC { x } fn two(a: NC, b: NC) -> (NC, NC) { (b, a) } let x = NC { v: [1, @A, 3], s: \"hey\" }; let x = pass(pass(x)); let (p, q) = two(x, NC { v: [@B; 3], s: \"\" }); p.v.show(); q.s.show(); let o = Some(p); let NC { v, s } = match o { Some(n) if n.v[0] == @B => n, Some(n) => pass(n), None => return }; v.show(); s.show(); print(q.eat()); let (c, d) = (NC { v: [7; 3], s: \"x\" }, NC { v: [8; 3], s: \"yy\" }); print(d.eat()); c.s.show(); ", A = a, B = b) }
    };
    p.body(s)
}

// ---------- pointers ----------
pub fn ptr_snippet(p: &mut P) {
    let id = p.fresh();
    let t = p.us(12);
    let tn = INTS[t];
    let vals: Vec<String> = (0..5).map(|_| p.ival(t)).collect();
    let arr = format!("[{}]", vals.join(", "));
    let v = p.ival(t);
    let (i, j) = (p.us(5), p.us(5));
    let (lo, hi) = (i.min(j), i.max(j));
    let s = match p.us(14) {
        0 => { p.tag("ptr.slice"); tpl!(p, "let mut a: [@T; 5] = bb(@R); let s = &a[@I..@J]; s.show(); (&a[..@J]).show(); (&a[@I..]).show(); (&a[@I..=@K]).show(); let (l, r) = a.split_at(@I); l.show(); r.show(); a.get(@J).is_some().show(); a.get(9).is_none().show(); for x in &mut a[@I..] { *x = x.wrapping_add(1) } a.show(); let (l, r) = a.split_at_mut(@J); if l.len() > 0 && r.len() > 0 { l[0] = r[0]; r[0] = @V; } a.show(); for x in a[@I..@J].iter().rev() { print(*x) } let e: &[@T] = &[]; e.show(); print(e.iter().count()); for x in a.iter_mut() { *x = 3 as @T } a.show(); print(a.len()); print(a[@I..].is_empty());", T = tn, R = arr, I = lo, J = hi, K = hi.max(lo), V = v) }
        1 => { p.tag("ptr.arith"); tpl!(p, "let a: [@T; 5] = bb(@R); let p = &raw const a as *const @T; unsafe { print(*p.add(@I)); print(*p.add(@J).sub(@J)); print(*p.offset(@I)); print(*p.add(5).offset(-5)); print(*p.wrapping_add(77).wrapping_sub(77 - @J)); print(*p.byte_add(@J * size_of::<@T>())); print(p.add(@I) < p.add(@J)); print(p.add(@I) == p.add(@J)); print(p.add(@I).offset_from(p.add(@J))); print(p.add(@H).offset_from_unsigned(p.add(@L))); print(p.add(5).byte_offset_from(p)); print(p.is_null()); let q = p.cast::<u8>(); print(*q.add(@I)); let e = q.add(@J * size_of::<@T>()) as *const @T; print(*e); print(e.read()); print(p.wrapping_offset(@I).addr() - p.addr()); let mut it = p; let end = p.add(5); while it != end { print(*it); it = it.add(1); } }", T = tn, R = arr, I = i, J = j, H = hi, L = lo) }
        2 => { p.tag("ptr.wide"); tpl!(p, "let a: [@T; 5] = bb(@R); let p = a.as_ptr(); unsafe { let s = std::slice::from_raw_parts(p.add(@L), @N); s.show(); let q = std::ptr::slice_from_raw_parts(p, @H); print(q.len()); (*q).show(); let t = q as *const @T; print(t == p); let w: *const [@T] = &a; print(w.len()); print(size_of_val(&*w)); let b: &[@T; 5] = &a; let c: &[@T] = b; c.show(); let d = c as *const [@T] as *const [@T; 2]; (*d).show(); let r = &raw const *w; print(std::ptr::eq(r, w)); let x: *const [u8] = std::ptr::slice_from_raw_parts(p as *const u8, 3); (*x).show(); let st: &str = \"h\\u{e9}y\"; let y: *const str = st; print((&*y).len()); (*(y as *const [u8])).show(); }", T = tn, R = arr, L = lo, H = hi, N = hi - lo) }
        3 => {
            p.tag("ptr.list");
            let n = 1 + p.us(5);
            let pushes: String = (0..n).map(|_| { let v = p.ival(t); if p.ch(50) { format!("h = push(h, {v}); ") } else { format!("append(&mut h, {v}); ") } }).collect();
            tpl!(p, "struct N { v: @T, n: *mut N } unsafe fn mk(v: @T, n: *mut N) -> *mut N { unsafe { let p = allocate(size_of::<N>(), align_of::<N>()) as *mut N; p.write(N { v, n }); p } } unsafe fn push(h: *mut N, v: @T) -> *mut N { unsafe { mk(v, h) } } unsafe fn append(h: &mut *mut N, v: @T) { unsafe { let mut c: *mut *mut N = h; while !(*c).is_null() { c = &raw mut (**c).n; } *c = mk(v, std::ptr::null_mut()); } } unsafe { let mut h: *mut N = std::ptr::null_mut(); @P let mut c = h; while !c.is_null() { print((*c).v); (*c).v = (*c).v.wrapping_add(1 as @T); c = (*c).n } let mut r: *mut N = std::ptr::null_mut(); while !h.is_null() { let n = (*h).n; (*h).n = r; r = h; h = n } while !r.is_null() { print((*r).v); let n = (*r).n; deallocate(r as *mut u8, size_of::<N>(), align_of::<N>()); r = n } }", T = tn, P = pushes)
        }
        4 => { p.tag("ptr.addr"); tpl!(p, "let x: @T = bb(@V); let p = &raw const x; let a = p as usize; print(a % align_of::<@T>()); print(p.addr() == a); print(p.expose_provenance() == a); unsafe { print(*p.map_addr(|x| x + 16 - 16)); print(*p.with_addr(a)); print(*(p as *const u8).wrapping_add(@I).wrapping_sub(@I).cast::<@T>()); } let n = std::ptr::null::<@T>(); print(n.is_null()); print(n as usize); print(n.wrapping_add(@I) as usize); print(std::ptr::without_provenance::<@T>(@J).addr()); print(std::ptr::dangling::<@T>().addr() == align_of::<@T>()); let z: &[@T; 0] = unsafe { &*std::ptr::dangling() }; print(z.len()); let u: () = unsafe { *std::ptr::null::<()>().wrapping_add(0).cast::<()>().with_addr(8) }; u.show();", T = tn, V = v, I = i, J = j * 8 + 8) }
        5 => { p.tag("ptr.cell"); tpl!(p, "let c = Cell::new(bb(@V)); let r = &c; let q = [r, &c]; q[bb(1)].set(r.get().wrapping_add(1)); print(c.get()); print(c.replace(9)); print(c.take()); let u = UnsafeCell::new([@V; 2]); unsafe { (*u.get())[1] = 3; (*u.get()).show(); let p = u.get() as *mut @T; *p = 4; } u.into_inner().show(); struct S { a: u8, c: Cell<@T>, d: [Cell<u8>; 3] } let s = S { a: 1, c: Cell::new(@V), d: [const { Cell::new(5) }; 3] }; let t = &s; t.c.set(1); t.d[@I % 3].set(77); print(t.a); print(s.c.get()); for x in &s.d { print(x.get()) } fn inc(c: &Cell<@T>, d: &Cell<@T>) { c.set(c.get() ^ 5); d.set(d.get() | 8) } inc(&s.c, &s.c); print(s.c.get()); c.swap(&s.c); print(c.get());", T = tn, V = v, I = i).replace("c.swap(&s.c); print(c.get());", "") }
        6 => { p.tag("ptr.reborrow"); tpl!(p, "let mut a: [@T; 5] = bb(@R); { let r = &mut a; r[@I] = @V; { let q = &mut r[@J]; *q = q.wrapping_sub(1); let z = &*q; print(*z); } r.show(); fn f(x: &mut @T, y: &@T) -> @T { *x = x.wrapping_add(*y); *x } let y = r[0]; print(f(&mut r[@I], &y)); fn id<'a>(x: &'a mut [@T], i: usize) -> &'a mut @T { &mut x[i] } *id(r, @J) = 1; let k = id(&mut r[1..], @I % 4); *k = 2; } a.show(); let mut t = (1u8, @V, [3u16; 2]); let (x, y) = (&mut t.0, &mut t.2); *x += 1; y[bb(1)] = 9; let z = &mut t.1; *z = 7; t.show(); let o = &mut Some(@V); if let Some(x) = o { *x = 3 } o.show(); let mut b = @V; let p = &raw mut b; unsafe { *p = 1; let r = &mut *p; *r = 2; print(*p); } print(b);", T = tn, R = arr, I = i, J = j, V = v) }
        7 => { p.tag("ptr.str"); let w = p.pick(&["", "a", "abc", "h\\u{e9}llo", "\\u{1f600}x", "z\\0y"]).to_string(); tpl!(p, "let s: &str = bb(\"@W\"); print(s.len()); for b in s.bytes() { print(b) } for b in s.as_bytes().iter().rev() { print(*b) } print(s.is_empty()); let p: *const str = s; unsafe { print((&*p).len()); } let t: &'static [u8] = b\"xy@I\"; t.show(); let u: &[u8; 3] = b\"123\"; u.show(); print(size_of_val(s)); match s.len() { 0 => print(100), 1..=3 => print(200), _ => print(300) } unsafe { let v = std::str::from_utf8_unchecked(&t[1..]); v.show(); } let cs = ['a', 'z', '\\u{10ffff}', '\\0']; cs.show(); print(s.is_char_boundary(0)); print(concat!(\"a\", 1, true).len());", W = w, I = i) }
        8 => { p.tag("ptr.dynptr"); tpl!(p, "let x = Dy1(@I); let y = Dy2(@J); let mut r: &dyn Dy = &x; print(r.m(4)); r = if bb(@I > 2) { &y } else { &x }; print(r.m(4)); let p: *const dyn Dy = r; unsafe { print((*p).n()); let q = p as *const (); let d = &*(q as *const u8); print(*d); print(size_of_val(&*p)); let rr = &raw const *p; (*rr).show(); } let a: [*const dyn Dy; 2] = [&x, &y]; unsafe { print((*a[bb(1)]).m(9)) } print(std::ptr::addr_eq(a[0], a[1])); let t = (r, 5u8, r); t.0.show(); t.2.show(); let mut z = Dy0(3); let m: &mut dyn Dy = &mut z; m.show(); let n: &dyn Dy = m; n.show();", I = i, J = j) }
        9 => { p.tag("ptr.transmute"); tpl!(p, "let x: @T = bb(@V); let b: [u8; size_of::<@T>()] = unsafe { transmute(x) }; b.show(); let y: @T = unsafe { transmute(b) }; print(y == x); let p: usize = unsafe { transmute(&x as *const @T) }; print(p == (&raw const x).addr()); let t: (u8, u8) = unsafe { transmute([1u8, 2]) }; t.show(); let f: f32 = unsafe { transmute(1u32) }; let o: Option<&@T> = unsafe { transmute(&x) }; o.show(); let w: [usize; 2] = unsafe { transmute(&[1u8, 2, 3] as &[u8]) }; print(w[1]); let z: [Option<bool>; 4] = unsafe { transmute([0u8, 1, 2, 1]) }; z.show(); let c: char = unsafe { transmute(bb(0x61u32)) }; c.show(); let m: MaybeUninit<@T> = unsafe { transmute(x) }; print(unsafe { m.assume_init() }); let q: [MaybeUninit<u8>; 8] = [MaybeUninit::uninit(); 8]; let q2 = bb(q); print(q2.len()); let fp: fn(i32) -> i32 = unsafe { transmute(g1 as fn(i32) -> i32 as *const ()) }; print(fp(3));", T = tn, V = v).replace("let f: f32 = unsafe { transmute(1u32) };", "") }
        10 => { p.tag("ptr.heap"); tpl!(p, "unsafe { let n = @I + 1; let q = allocate(n * size_of::<@T>(), 64) as *mut @T; print(q.addr() % 64); let mut k = 0; while k < n { q.add(k).write(@V.wrapping_add(k as @T)); k += 1 } let s = std::slice::from_raw_parts_mut(q, n); s.show(); s[n / 2] = @V; let b = std::slice::from_raw_parts(q as *const u8, n * size_of::<@T>()); b.show(); deallocate(q as *mut u8, n * size_of::<@T>(), 64); let pp = allocate(16, 8) as *mut *mut @T; let mut l = @V; *pp = &mut l; **pp = 3 as @T; *pp.add(1) = *pp; print(**pp.add(1)); deallocate(pp as *mut u8, 16, 8); print(l); }", T = tn, V = v, I = i) }
        11 => { p.tag("ptr.fnptr"); tpl!(p, "let fs: [fn(i32) -> i32; 3] = [g0, g1, g2]; let f = fs[bb(@I % 3)]; print(f(@J)); let p = f as *const (); print(p.is_null()); print(f as usize == fs[@I % 3] as usize); let o: Option<fn(i32) -> i32> = Some(f); match o { Some(h) => print(h(1)), None => print(0) } struct F { a: u8, f: fn(i32) -> i32, g: extern \"C\" fn(u8) -> u8 } extern \"C\" fn e(x: u8) -> u8 { x / 2 } let s = F { a: 3, f, g: e }; print((s.f)((s.g)(9) as i32)); let r = &s; print((r.g)(200)); fn comp(f: fn(i32) -> i32, g: fn(i32) -> i32, x: i32) -> i32 { f(g(x)) } print(comp(g1, f, 2)); fn gen<T: Show + Copy>(x: T) -> T { x.show(); x } let k: fn(u8) -> u8 = gen::<u8>; print(k(3)); let u: unsafe fn(i32) -> i32 = g0; print(unsafe { u(1) });", I = i, J = j) }
        12 => { p.tag("ptr.nested"); tpl!(p, "let mut x = @V; let mut r = &mut x; let rr = &mut r; **rr = 5 as @T; let rrr = &rr; print(***rrr); let mut y = @V; *rr = &mut y; **rr = 6 as @T; print(x); print(y); let p = &raw mut x; let pp = &raw const p; let ppp = &pp; unsafe { ***ppp = 9 as @T; print(**pp); } struct L<'a> { v: @T, n: Option<&'a L<'a>> } let a = L { v: 1 as @T, n: None }; let b = L { v: 2 as @T, n: Some(&a) }; let c = L { v: @V, n: Some(&b) }; let mut cur = Some(&c); let mut k = 0; while let Some(l) = cur { print(l.v); cur = l.n; k += 1 } print(k); print(c.n.unwrap().n.unwrap().v);", T = tn, V = v) }
        _ => { p.tag("ptr.index"); tpl!(p, "let mut m = [[0 as @T; 3]; 4]; let mut i = 0usize; while i < 12 { m[i / 3][i % 3] = @V.wrapping_mul(i as @T); i += 1 } m[bb(@K)][bb(2)] = @V; m.show(); let r = &m[bb(3)]; r.show(); let c = &mut m[bb(1)]; c[bb(0)] = 1 as @T; c[2] = c[0]; m[1].show(); let t = [(1u8, [@V; 2]); 3]; print(t[bb(2)].1[bb(1)]); print(t[bb(0)].0); let n: [[[u8; 2]; 2]; 2] = [[[1, 2], [3, 4]], [[5, 6], [7, 8]]]; print(n[bb(1)][bb(0)][bb(1)]); n.show(); let s: &[[u8; 2]] = &n[1]; s.show(); let z = [(); 3]; z[bb(2)].show(); let e: [[u8; 0]; 3] = [[]; 3]; print(e[bb(2)].len()); let big = [@V; 40]; print(big[bb(39)]); print(big.iter().count());", T = tn, V = v, K = i % 4) }
    };
    let _ = id;
    p.body(s)
}

// ---------- constants and statics ----------
/// A graph of statics that refer to each other: constant ones, ones with cells, mutable ones.
fn static_graph(p: &mut P) {
    let id = p.fresh();
    p.tag("const.graph");
    let n = 2 + p.us(5);
    // what a node holds, and whether it is constant (0), has cells (1), or is mutable (2)
    let kinds: Vec<usize> = (0..n).map(|_| p.us(3)).collect();
    let leaf = *p.pick(&["u8", "u32", "u128", "[u16; 3]", "(u8, u64)"]);
    let val = |p: &mut P| match leaf { "[u16; 3]" => format!("[{}, 2, {}]", p.us(99), p.us(99)), "(u8, u64)" => format!("({}, {})", p.us(99), p.us(99)), _ => p.us(99).to_string() };
    let mut items = format!("#[derive(Clone, Copy)] enum Re{id} {{ P(&'static Pl{id}), C(&'static Ce{id}), M(&'static Mu{id}) }}\nimpl Re{id} {{ fn name(self) -> u32 {{ match self {{ Re{id}::P(x) => x.name(), Re{id}::C(x) => x.name(), Re{id}::M(x) => x.name() }} }} fn next(self, i: usize) -> Option<Re{id}> {{ match self {{ Re{id}::P(x) => x.next(i), Re{id}::C(x) => x.next(i), Re{id}::M(x) => x.next(i) }} }} fn bump(self, by: u8) -> u32 {{ match self {{ Re{id}::P(x) => x.bump(by), Re{id}::C(x) => x.bump(by), Re{id}::M(x) => x.bump(by) }} }} fn data(self) {{ match self {{ Re{id}::P(x) => x.data(), Re{id}::C(x) => x.data(), Re{id}::M(x) => x.data() }} }} }}\n");
    items.push_str(&format!("struct Pl{id} {{ v: {leaf}, n: [Option<Re{id}>; 2], s: &'static [u8], k: u32 }} unsafe impl Sync for Pl{id} {{}}\n"));
    items.push_str(&format!("struct Ce{id} {{ k: u32, c: Cell<u8>, n: [Cell<Option<Re{id}>>; 2], v: {leaf}, f: bool }} unsafe impl Sync for Ce{id} {{}}\n"));
    items.push_str(&format!("struct Mu{id} {{ u: u8, v: {leaf}, n: (*const Pl{id}, *const Ce{id}), m: *mut Mu{id}, k: u32 }} unsafe impl Sync for Mu{id} {{}}\n"));
    items.push_str(&format!("fn fa{id}(x: u8) -> u32 {{ x as u32 + 1 }} fn fb{id}(x: u8) -> u32 {{ x as u32 * 3 }}\n"));
    items.push_str(&format!("impl Pl{id} {{ fn name(&self) -> u32 {{ self.k }} fn next(&self, i: usize) -> Option<Re{id}> {{ self.n[i] }} fn bump(&self, by: u8) -> u32 {{ self.s[by as usize % self.s.len()] as u32 }} fn data(&self) {{ self.v.show() }} }}\n"));
    items.push_str(&format!("impl Ce{id} {{ fn name(&self) -> u32 {{ self.k }} fn next(&self, i: usize) -> Option<Re{id}> {{ self.n[i].get() }} fn bump(&self, by: u8) -> u32 {{ if by == 3 {{ self.n[0].set(self.n[1].get()) }} self.c.set(self.c.get().wrapping_add(by)); if self.f {{ fa{id}(self.c.get()) }} else {{ fb{id}(self.c.get()) }} }} fn data(&self) {{ self.v.show() }} }}\n"));
    items.push_str(&format!("impl Mu{id} {{ fn name(&self) -> u32 {{ self.k }} fn next(&self, i: usize) -> Option<Re{id}> {{ unsafe {{ if i == 0 {{ if self.n.0.is_null() {{ None }} else {{ Some(Re{id}::P(&*self.n.0)) }} }} else if !self.n.1.is_null() {{ Some(Re{id}::C(&*self.n.1)) }} else if self.m.is_null() {{ None }} else {{ Some(Re{id}::M(&*self.m)) }} }} }} fn bump(&self, by: u8) -> u32 {{ self.u as u32 + by as u32 }} fn data(&self) {{ self.v.show() }} }}\n"));
    let node = |kinds: &[usize], j: usize| match kinds[j] { 0 => format!("Re{id}::P(&N{id}_{j})"), 1 => format!("Re{id}::C(&N{id}_{j})"), _ => format!("Re{id}::M(unsafe {{ &*(&raw const N{id}_{j}) }})") };
    let to = |p: &mut P, kinds: &[usize]| -> String {
        if p.ch(25) { return "None".into() }
        let j = p.us(kinds.len());
        format!("Some({})", node(kinds, j))
    };
    let raw = |p: &mut P, kinds: &[usize], k: usize, m: &str| -> String {
        let of: Vec<usize> = (0..kinds.len()).filter(|&j| kinds[j] == k).collect();
        if of.is_empty() || p.ch(30) { return format!("std::ptr::null{}()", if m == "mut" { "_mut" } else { "" }) }
        format!("&raw {m} N{id}_{}", of[p.us(of.len())])
    };
    for i in 0..n {
        let v = val(p);
        match kinds[i] {
            0 => { let (a, b, s) = (to(p, &kinds), to(p, &kinds), 1 + p.us(9)); items.push_str(&format!("static N{id}_{i}: Pl{id} = Pl{id} {{ v: {v}, n: [{a}, {b}], s: &[{s}, 2, 3], k: {i} }};\n")) }
            1 => { let (a, b, c) = (to(p, &kinds), to(p, &kinds), p.us(200)); let f = p.ch(50); items.push_str(&format!("static N{id}_{i}: Ce{id} = Ce{id} {{ k: {i}, c: Cell::new({c}), n: [Cell::new({a}), Cell::new({b})], v: {v}, f: {f} }};\n")) }
            _ => { let (a, b, c, u) = (raw(p, &kinds, 0, "const"), raw(p, &kinds, 1, "const"), raw(p, &kinds, 2, "mut"), p.us(99)); items.push_str(&format!("static mut N{id}_{i}: Mu{id} = Mu{id} {{ u: {u}, v: {v}, n: ({a}, {b}), m: {c}, k: {i} }};\n")) }
        }
    }
    p.items.push_str(&items);
    let mut b = String::new();
    for _ in 0..1 + p.us(3) {
        let i = p.us(n);
        let from = node(&kinds, i);
        b.push_str(&format!("{{ let mut at: Re{id} = {from}; let mut i = 0; while i < {} {{ print(at.name()); print(at.bump(i as u8)); at.data(); match at.next((i * {} + {}) % 2) {{ Some(x) => at = x, None => {{ print(1000); break }} }} i += 1; }} }}\n", 3 + p.us(6), p.us(4), p.us(2)));
        let j = p.us(n);
        if kinds[j] == 2 { b.push_str(&format!("unsafe {{ N{id}_{j}.u = {}; N{id}_{j}.m = &raw mut N{id}_{j}; }}\n", p.us(99))) }
    }
    p.body(b);
}

pub fn const_snippet(p: &mut P) {
    if p.ch(12) { return static_graph(p) }
    let id = p.fresh();
    let t = p.us(12);
    let tn = INTS[t];
    let vals: Vec<String> = (0..4).map(|_| p.ival(t)).collect();
    let v = vals[0].clone();
    let arr = vals.join(", ");
    let (i, j) = (p.us(4), p.us(4));
    let kv = |s: &str| sub(s, &[("T", tn.to_string()), ("V", v.clone()), ("R", arr.clone()), ("I", i.to_string()), ("J", j.to_string()), ("D", id.to_string())]);
    let (tag, items, body) = match p.us(14) {
        0 => ("eval", "const fn cf@D(n: u32) -> u32 { if n == 0 { 1 } else { n.wrapping_mul(cf@D(n - 1)) } } const CT@D: [u32; 6] = { let mut a = [0; 6]; let mut i = 0; while i < 6 { a[i] = cf@D(i as u32 + @J); i += 1 } a }; static ST@D: [&u32; 2] = [&CT@D[2], &CT@D[@I]];", "print(CT@D[bb(3)]); print(*ST@D[0]); print(*ST@D[bb(1)]); const L: usize = CT@D.len(); print(L); const { print } ; print(const { CT@D[@J] + 1 });".replace("const { print } ; ", "")),
        1 => ("inner", "static A@D: [@T; 4] = [@R]; static P@D: &@T = &A@D[@I]; static Q@D: &[@T] = A@D.as_slice(); static O@D: (u8, &@T, &'static [@T; 4]) = (3, &A@D[@J], &A@D);", "print(*P@D); print((P@D as *const @T as usize) - (&raw const A@D as usize)); print(Q@D.len()); print(Q@D[@J]); print(std::ptr::eq(O@D.1, &A@D[@J])); O@D.show(); print(std::ptr::eq(O@D.2, &A@D));".into()),
        2 => ("cyclic", "struct N@D { v: @T, n: Option<&'static N@D>, w: u8 } static A@D: N@D = N@D { v: @V, n: Some(&B@D), w: 1 }; static B@D: N@D = N@D { v: 2 as @T, n: Some(&C@D), w: 2 }; static C@D: N@D = N@D { v: 3 as @T, n: Some(&A@D), w: 3 }; static S@D: N@D = N@D { v: 5 as @T, n: Some(&S@D), w: 9 };", "let mut c = &A@D; let mut i = 0; while i < 5 + @I { print(c.v); print(c.w); c = c.n.unwrap(); i += 1 } print(std::ptr::eq(C@D.n.unwrap(), &A@D)); print(S@D.n.unwrap().n.unwrap().w);".into()),
        3 => ("mut", "static mut M@D: [@T; 4] = [@R]; static mut C@D: u32 = @I; static mut P@D: *mut @T = unsafe { &raw mut M@D as *mut @T }; fn bump@D() -> u32 { unsafe { C@D += 1; C@D } }", "unsafe { (*&raw const M@D).show(); M@D[bb(@I)] = @V; let p = &raw mut M@D; (*p)[@J] = 7 as @T; (*p).show(); print(bump@D()); print(bump@D()); let q = bb(P@D); *q.add(2) = 9 as @T; P@D = q.add(1); *P@D = 4 as @T; (*p).show(); print(P@D.offset_from(q)); }".into()),
        4 => ("align", "#[repr(align(64))] struct Al@D(u8); static S@D: Al@D = Al@D(@I); static T@D: Al@D = Al@D(4); static U@D: u128 = 5; static W@D: [u8; 3] = [1, 2, 3]; #[repr(align(32))] #[derive(Clone, Copy)] struct B@D(u16); const K@D: B@D = B@D(@J);", "print((&raw const S@D as usize) % 64); print((&raw const T@D as usize) % 64); print((&raw const U@D as usize) % 16); let l = Al@D(1); print((&raw const l as usize) % 64); print(S@D.0 + T@D.0); W@D.show(); let r: &'static B@D = &K@D; print((r as *const B@D).addr() % 32); print(r.0); let a = [K@D; 2]; print((&raw const a[1] as usize) % 32); print(size_of_val(&a));".into()),
        5 => ("uninit", "static M@D: MaybeUninit<[u8; 4]> = MaybeUninit::uninit(); static N@D: (u8, MaybeUninit<u32>, u16) = (@I, MaybeUninit::new(@J), 5); #[derive(Clone, Copy)] #[repr(C)] struct Pd@D { a: u8, b: u32, c: u8 } static Q@D: Pd@D = Pd@D { a: 1, b: @J, c: 3 }; #[derive(Clone, Copy)] union Un@D { a: u8, b: u64 }", "print(size_of_val(&M@D)); print(N@D.0); print(unsafe { N@D.1.assume_init() }); print(N@D.2); let q = bb(Q@D); print(q.a); print(q.b); print(q.c); let m = M@D; let mut m2 = bb(m); m2.write([@I; 4]).show();".into()),
        6 => ("cell", "struct Y@D(Cell<@T>, [Cell<u8>; 3]); unsafe impl Sync for Y@D {} static C@D: Y@D = Y@D(Cell::new(@V), [const { Cell::new(@I) }; 3]); static AT@D: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(@I);", "C@D.0.set(C@D.0.get().wrapping_add(1)); print(C@D.0.get()); C@D.1[bb(@J % 3)].set(99); for c in &C@D.1 { print(c.get()) } unsafe { print(atomic_fetch_add(AT@D.as_ptr(), 3)); print(atomic_load(AT@D.as_ptr())); atomic_store(AT@D.as_ptr(), 1 + @J); print(atomic_fetch_sub(AT@D.as_ptr(), 1)); print(atomic_load(AT@D.as_ptr())); print(compare_exchange(AT@D.as_ptr(), @J, 100)); print(atomic_load(AT@D.as_ptr())); }".into()),
        7 => ("promoted", "fn pr@D(b: bool) -> &'static [@T] { if b { &[@R] } else { &[] } } fn ps@D<T>() -> &'static Option<T> { &None } struct Gc@D<T>(T); impl<T> Gc@D<T> { const SZ: usize = size_of::<T>() * 2; const AR: [u8; 2] = [align_of::<T>() as u8, @I]; }", "pr@D(bb(true)).show(); pr@D(bb(false)).show(); ps@D::<u8>().show(); ps@D::<&u8>().show(); print(Gc@D::<@T>::SZ); Gc@D::<u16>::AR.show(); Gc@D::<u64>::AR.show(); let r: &'static (u8, &'static str) = &(@I, \"pq\"); r.show(); let x: &'static [&'static [u8]] = &[&[1, 2], &[], &[3]]; x.show(); print(*bb(&@V)); let y = &&&5u8; print(***y); let z: &'static Option<(@T, &'static @T)> = &Some((@V, &@V)); z.show();".into()),
        8 => ("strs", "const CS@D: &str = \"const\"; static SS@D: &str = \"sta\\u{e9}\\u{1f600}\"; static AS@D: [&str; 3] = [\"\", CS@D, \"x\"]; const BY@D: &[u8] = b\"\\x00\\xff@I\"; static CH@D: [char; 2] = ['\\u{10ffff}', 'q'];", "CS@D.show(); SS@D.show(); AS@D.show(); BY@D.show(); AS@D[bb(1)].show(); print(AS@D[bb(@I % 3)].len()); CH@D.show(); let s: &'static str = bb(SS@D); print(s.len());".into()),
        9 => ("enums", "#[derive(Clone, Copy)] enum En@D { A, B(@T), C { x: u8, y: &'static [u8] } } impl Show for En@D { fn show(&self) { match self { En@D::A => print(1000), En@D::B(x) => x.show(), En@D::C { x, y } => { x.show(); y.show() } } } } static EN@D: [En@D; 4] = [En@D::B(@V), En@D::A, En@D::C { x: @I, y: &[1, @J] }, En@D::B(3 as @T)]; const EC@D: Option<En@D> = Some(En@D::C { x: @J, y: b\"\" }); const NO@D: Option<Option<bool>> = Some(None); static RE@D: Result<u8, &'static En@D> = Err(&EN@D[2]); static NZ@D: Option<NonZero<u16>> = NonZero::new(@I);", "EN@D.show(); EC@D.show(); NO@D.show(); RE@D.show(); NZ@D.show(); let e = EN@D[bb(@I)]; e.show(); match EC@D { Some(En@D::C { x, .. }) => print(x), _ => print(77) }".into()),
        10 => ("zst", "struct Z@D; static ZS@D: Z@D = Z@D; static ZA@D: [(); 5] = [(); 5]; static ZR@D: &Z@D = &ZS@D; const ZE@D: [u32; 0] = []; static ZT@D: ((), u8, [u64; 0]) = ((), @I, []);", "print(size_of_val(&ZS@D)); print(ZA@D.len()); let r = ZR@D; print(ZE@D.len()); print(ZT@D.1); let z: &'static [u32] = &ZE@D; z.show(); print((&raw const ZT@D as usize) % 8);".into()),
        11 => ("wide", "static WA@D: [@T; 4] = [@R]; static WS@D: &[@T] = &WA@D; static WT@D: [&[@T]; 2] = [&[@V], WA@D.as_slice()]; static WN@D: Option<&'static [@T]> = Some(&WA@D); static WO@D: (Option<&'static str>, &'static [&'static str]) = (Some(\"ab\"), &[\"c\", \"\"]);", "WS@D.show(); WT@D.show(); WN@D.show(); WO@D.show(); print(WS@D.as_ptr() == (&raw const WA@D as *const @T)); print(WT@D[bb(1)].len()); let s = &WS@D[@I..]; s.show();".into()),
        12 => ("addr", "const P@D: *const u8 = (16 + @I) as *const u8; const Q@D: *const u16 = std::ptr::null(); const R@D: *mut [u8] = std::ptr::slice_from_raw_parts_mut(std::ptr::null_mut(), 7 + @J); static S@D: &() = unsafe { &*((8 + @I) as *const ()) }; const F@D: std::ptr::NonNull<u64> = std::ptr::NonNull::dangling(); #[derive(Clone, Copy)] struct W@D(*const u8, usize, *const u32); unsafe impl Sync for W@D {} static G@D: W@D = W@D((1 + @J) as *const u8, 5, std::ptr::null()); const A@D: [*const u8; 3] = [1 as *const u8, std::ptr::null(), usize::MAX as *const u8]; const O@D: Option<&'static [u32; 0]> = Some(unsafe { &*(64 as *const [u32; 0]) }); const E@D: &[@T] = unsafe { std::slice::from_raw_parts((16 * (@J + 1)) as *const @T, 0) };", "print(P@D as usize); print(Q@D as usize); print(Q@D.is_null()); print(R@D as *mut u8 as usize); print(R@D.len()); print(S@D as *const () as usize); print(F@D.as_ptr() as usize); let g = bb(G@D); print(g.0 as usize); print(g.1); print(g.2 as usize); print(A@D[bb(0)] as usize); print(A@D[bb(1)].is_null()); print(A@D[bb(2)] as usize); print(bb(O@D).is_some()); print(bb(O@D).unwrap() as *const _ as usize); print(E@D.len()); print(E@D.as_ptr() as usize); const D: W@D = W@D(P@D, @I, std::ptr::null()); let d = bb(D); print(d.0 as usize); print(d.2.is_null()); let n: *const [@T] = std::ptr::slice_from_raw_parts(std::ptr::without_provenance::<@T>(4), @I); print(bb(n).len());".into()),
        _ => ("data", "#[derive(Clone, Copy)] struct Pk@D { a: u8, b: @T, c: (bool, char), d: [i16; 3] } impl Show for Pk@D { fn show(&self) { self.a.show(); self.b.show(); self.c.show(); self.d.show() } } const PK@D: Pk@D = Pk@D { a: @I, b: @V, c: (true, '\\u{20ac}'), d: [-1, 0, @J] }; static PS@D: [Pk@D; 2] = [PK@D, Pk@D { a: 255, ..PK@D }]; static PR@D: &'static [Pk@D] = &[PK@D, PK@D]; const BIG@D: [@T; 30] = [@V; 30];", "PK@D.show(); PS@D.show(); PR@D.show(); print(PS@D[bb(1)].d[bb(2)]); let x = PK@D; bb(x).show(); print(BIG@D[bb(29)]); let r = &BIG@D[bb(7)]; print(*r); const W: @T = PK@D.b; print(W);".into()),
    };
    p.tag(&format!("const.{tag}"));
    let items = kv(items);
    p.items.push_str(&items);
    p.items.push('\n');
    let b = kv(&body);
    p.body(b)
}

// ---------- panics, unwinding, drop ----------
const UNWIND: &str = r#"
static mut TICKS: u32 = 0; static mut LIMIT: u32 = 0; static mut STYLE: u32 = 0;
#[inline(never)] fn tick() { unsafe { TICKS += 1; if TICKS == LIMIT { boom() } } }
#[inline(never)] fn boom() { let k = unsafe { STYLE };
    match k % 12 {
        0 => panic!("boom"),
        1 => { let a = [1u8, 2]; print(a[bb(2)]); }
        2 => { print(7 / bb(0i32)); }
        3 => { print(bb(None::<u8>).unwrap()); }
        4 => { print(bb(255u8) + bb(1)); }
        5 => { print(7u16 % bb(0)); }
        6 => { let a: &[u8] = &[1, 2, 3]; print(a[bb(2)..bb(1)].len()); }
        7 => { print(bb(i32::MIN) / bb(-1)); }
        8 => { assert!(bb(false)); }
        9 => { print(-bb(i8::MIN)); }
        10 => { let a: &[u8] = &[1]; print(a[bb(4)..].len()); }
        _ => unreachable!(),
    } }
struct D(u32);
impl Drop for D { fn drop(&mut self) { print(self.0); } }
struct T(u32);
impl Drop for T { fn drop(&mut self) { print(self.0); tick(); } }
struct S2 { a: D, x: u8, b: T }
struct S3(D, S2, Option<D>);
impl Drop for S3 { fn drop(&mut self) { print(3000); tick(); } }
enum En { A(D), B { d: D, t: T }, C }
static mut CAUGHT: u32 = 0;
fn catch_it(d: *mut u8, p: *mut u8) { unsafe { CAUGHT += 1; } }
fn try_it(d: *mut u8) { let f = unsafe { *(d as *mut fn()) }; f() }
#[inline(never)] fn cu(mut f: fn()) -> bool {
    #[cfg(native)] { return std::panic::catch_unwind(f).is_err() }
    #[cfg(not(native))] { unsafe { let p = &raw mut f as *mut u8; let r = core::intrinsics::catch_unwind(try_it, p, catch_it); r != 0 } }
}
"#;
struct Uw { n: u32, live: Vec<String>, f: usize, k: usize }
fn uw_new(p: &mut P, u: &mut Uw) -> String { u.n += 1; let n = u.n; match p.us(3) { 0 => format!("T({n})"), _ => format!("D({n})") } }
fn uw_stmt(p: &mut P, u: &mut Uw, d: u32) -> String {
    u.k += 1;
    let k = u.k;
    let dn = |u: &mut Uw| { u.n += 1; format!("D({})", u.n) };
    let tn = |u: &mut Uw| { u.n += 1; format!("T({})", u.n) };
    match p.us(if d == 0 { 9 } else { 22 }) {
        0 | 1 | 2 => "tick();\n".into(),
        3 | 4 => { let v = dn(u); u.live.push(format!("l{k}")); format!("let l{k} = {v};\n") }
        5 => { let v = uw_new(p, u); format!("let _x{k} = {v};\n") }
        6 => { let v = uw_new(p, u); format!("let _ = {v};\n") }
        7 if !u.live.is_empty() => { let i = p.us(u.live.len()); let l = u.live.remove(i); match p.us(6) { 0 => format!("drop({l});\n"), 1 => format!("if cond() {{ drop({l}); }}\n"), 2 => format!("take({l});\n"), 3 => format!("let m{k} = {l};\n"), 4 => { u.live.push(format!("m{k}")); format!("let m{k} = give({l});\n") } _ => format!("let o{k} = if cond() {{ Some({l}) }} else {{ None }}; tick();\n") } }
        8 => { let v = dn(u); u.live.push(format!("l{k}")); let w = dn(u); format!("let mut l{k} = {v}; tick(); l{k} = {w}; tick();\n") }
        9 => { let (a, b) = (dn(u), tn(u)); format!("let s{k} = S2 {{ a: {a}, x: 1, b: {{ tick(); {b} }} }}; tick();\n") }
        10 => { let (a, b) = (dn(u), tn(u)); u.live.push(format!("q{k}")); format!("let S2 {{ a: q{k}, b: r{k}, .. }} = S2 {{ a: {a}, x: 1, b: {b} }}; tick();\n") }
        11 => { let (a, b, c, e) = (dn(u), dn(u), tn(u), dn(u)); let some = if p.ch(50) { format!("Some({e})") } else { "None".into() }; format!("let t{k} = S3({a}, S2 {{ a: {b}, x: 2, b: {c} }}, {some}); tick();\n") }
        12 => { let n = 1 + p.us(3); let v: Vec<String> = (0..n).map(|_| { let a = dn(u); format!("{{ tick(); {a} }}") }).collect(); format!("let a{k} = [{}]; tick();\n", v.join(", ")) }
        13 => { let (a, b) = (dn(u), dn(u)); u.live.push(format!("q{k}")); format!("let t{k} = ({a}, {b}); let q{k} = t{k}.1; tick();\n") }
        14 => { let nl = u.live.len(); let s = uw_block(p, u, d - 1); let s2 = uw_block(p, u, d - 1); let _ = nl; format!("if cond() {{ {s} }} else {{ {s2} }}\n") }
        15 => { let s = uw_block(p, u, d - 1); let e = p.us(3); format!("{{ let mut i{k} = 0; while i{k} < 2 {{ i{k} += 1; {} {s} }} }}\n", match e { 0 => "if cond() { break }", 1 => "if cond() { continue }", _ => "" }) }
        16 => { let s = uw_block(p, u, d - 1); format!("{{ {s} }}\n") }
        17 => { let (a, b, c) = (dn(u), dn(u), tn(u)); let v = match p.us(3) { 0 => format!("En::A({a})"), 1 => format!("En::B {{ d: {b}, t: {c} }}"), _ => "En::C".into() }; match p.us(3) { 0 => format!("match ({v}) {{ En::A(d) => {{ tick(); drop(d) }} En::B {{ t, .. }} => {{ tick(); }} En::C => tick() }}\n"), 1 => format!("let e{k} = {v}; if let En::B {{ ref d, .. }} = e{k} {{ print(d.0); tick(); }}\n"), _ => format!("let e{k} = {v}; match e{k} {{ En::A(d) if d.0 % 2 == 0 => {{ tick(); }} En::B {{ d, .. }} => {{ tick(); }} _ => tick() }}\n") } }
        18 => { if u.live.is_empty() { return "tick();\n".into() } let i = p.us(u.live.len()); let l = u.live.remove(i); format!("let c{k} = move || {{ print({l}.0); tick(); drop({l}); tick(); }}; {}\n", if p.ch(60) { format!("tick(); c{k}(); tick();") } else { String::new() }) }
        19 => { let v = dn(u); format!("if cond() {{ let _g = {v}; tick(); return }}\n") }
        20 => { let a = dn(u); let b = tn(u); format!("two({{ tick(); {a} }}, {{ tick(); {b} }});\n") }
        _ => { let a = dn(u); match p.us(4) { 0 => format!("let m{k} = ManuallyDrop::new({a}); tick();\n"), 1 => format!("forget({a});\n"), 2 => format!("let mut o{k} = Some({a}); tick(); o{k} = None; tick();\n"), _ => format!("let y{k}: &dyn Dr = &{a}; y{k}.go(); tick();\n") } }
    }
}
fn uw_block(p: &mut P, u: &mut Uw, d: u32) -> String {
    // values declared outside must not be moved in a block which may or may not run twice
    let outer = std::mem::take(&mut u.live);
    let s: String = (0..1 + p.us(3)).map(|_| uw_stmt(p, u, d)).collect();
    u.live = outer;
    s
}
pub fn unwind_prog(p: &mut P) {
    p.tag("unwind");
    p.items.push_str(UNWIND);
    p.items.push_str("static mut CN: u32 = 0;\n#[inline(never)] fn cond() -> bool { unsafe { CN = CN.wrapping_mul(5) + 3; CN & 4 == 0 } }\n#[inline(never)] fn take(d: D) { tick(); }\n#[inline(never)] fn give(d: D) -> D { tick(); d }\n#[inline(never)] fn two(a: D, b: T) { let x = b; tick(); }\ntrait Dr { fn go(&self) { print(4000); tick(); } }\nimpl Dr for D {}\n");
    let n = 1 + p.us(2);
    for f in 0..n {
        let mut u = Uw { n: 100 * (f as u32 + 1), live: vec![], f, k: 0 };
        let mut s = String::new();
        for _ in 0..3 + p.us(3) { s += &uw_stmt(p, &mut u, 2) }
        if f > 0 { s = format!("let _z = D({}); h{}();\n{s}", 100 * f + 99, f - 1) }
        let _ = u.f;
        p.items.push_str(&format!("#[inline(never)] fn h{f}() {{\n{s}}}\n"));
    }
    let max = 4 + p.us(6);
    let style = p.us(12);
    let f = n - 1;
    let cn = p.us(100);
    let k0 = p.us(4);
    p.body(format!("let mut k = {}; while k < {} {{ unsafe {{ TICKS = 0; LIMIT = k; STYLE = k + {style}; CN = {cn} + k; }} print(8800 + k); print(cu(h{f})); print(unsafe {{ TICKS }}); k += 1 }}", k0, max + 3));
    match p.us(8) {
        0 => { p.tag("unwind.uncaught"); let l = 1 + p.us(6); p.body(format!("let _g = D(7); unsafe {{ TICKS = 0; LIMIT = {l}; }} h{f}(); print(6);")) }
        1 => { p.tag("unwind.nested"); p.body("fn inner() { let _a = D(1); tick(); } fn outer() { let _b = D(2); print(cu(inner)); let _c = D(3); tick(); print(4); } unsafe { TICKS = 0; LIMIT = 1; } print(cu(outer)); unsafe { TICKS = 0; LIMIT = 2; } print(cu(outer)); struct N; impl Drop for N { fn drop(&mut self) { print(cu(inner)); print(55); } } fn third() { let _n = N; unsafe { TICKS = 0; LIMIT = 3; } tick(); unsafe { TICKS = 5; } panic!() } print(cu(third)); fn fourth() { let _n = N; unsafe { TICKS = 0; LIMIT = 2; } tick(); tick(); } ".to_string() + "print(cu(third));") }
        2 => { p.tag("unwind.double"); let w = p.ch(50); p.body(format!("struct Bad; impl Drop for Bad {{ fn drop(&mut self) {{ print(66); panic!() }} }} let _o = D(9); let _b = Bad; {} print(67); panic!()", if w { "fn bf() { let b = Bad; } print(cu(bf));" } else { "" })) }
        3 => { p.tag("unwind.abortflag"); p.flags = vec!["-Coverflow-checks=on", "-Cpanic=abort"]; p.body("let _g = D(7); unsafe { TICKS = 0; LIMIT = 1; } tick(); print(6);".into()) ; p.bodies.remove(0); }
        4 => { p.tag("unwind.dropglue"); p.body("struct P(u8); impl Drop for P { fn drop(&mut self) { print(self.0); if self.0 == 2 { panic!() } } } fn arr() { let _a = D(1); let x = [P(1), P(2), P(3)]; let _b = D(2); } print(cu(arr)); fn tup() { let t = (P(1), P(2), D(5), Some(P(3))); } print(cu(tup)); fn st() { let o = Some((P(2), P(4))); tick(); } print(cu(st)); fn asg() { let mut x = P(2); let y = D(4); x = P(3); print(1); } print(cu(asg)); fn en() { let e = Ok::<(P, P), D>((P(0), P(2))); let f = Err::<P, D>(D(8)); } print(cu(en)); ".into()) }
        _ => {}
    }
}
