//! Random Rust programs, as source text: data (values, layouts, enums, unions) and integers.
use super::types::*;
use super::types::Ty::*;
use minirust_rs::libspecr::ctl::Rng;
use std::collections::BTreeMap;

macro_rules! body { ($p:expr, ($($a:tt)*)) => {{ let s = format!($($a)*); $p.body(s) }} }

#[derive(Clone, Debug, PartialEq)]
pub enum Expect {
    /// same output and same kind of end as the native program
    Native,
    /// undefined behaviour after the output of the native program (which leaves through `exit`)
    Ub,
    Deadlock,
    Leak,
}
pub struct Prog {
    pub src: String,
    pub expect: Expect,
    pub flags: Vec<&'static str>,
    pub tags: BTreeMap<String, u64>,
    /// run it under Tree Borrows only
    pub tree: Option<bool>,
    /// how many parts of it run only if selected
    pub sels: usize,
    /// how many runs, or of each selection
    pub reps: usize,
    pub expects: Vec<Expect>,
}

pub struct P {
    pub r: Rng,
    pub t: Types,
    pub items: String,
    pub k: usize,
    pub bodies: Vec<String>,
    pub tags: BTreeMap<String, u64>,
    pub expect: Expect,
    pub flags: Vec<&'static str>,
    pub tree: Option<bool>,
    pub sels: usize,
    pub reps: usize,
    /// each of the bodies runs only if selected
    pub multi: bool,
    /// how the program ends if the body is selected
    pub expects: Vec<Expect>,
}
impl P {
    pub fn new(seed: u64) -> P {
        P { r: Rng::new(seed), t: Types { dyns: 3, ..Default::default() }, items: String::new(), k: 0, bodies: vec![], tags: Default::default(), expect: Expect::Native, flags: vec![], tree: None, sels: 0, reps: 1, multi: false, expects: vec![] }
    }
    /// Several programs in one, each of which runs only if selected. Each is one body, with items of its own.
    pub fn several(&mut self, n: usize, mut f: impl FnMut(&mut P)) {
        self.multi = true;
        assert!(self.bodies.is_empty() && self.sels == 0);
        for i in 0..n {
            let items = std::mem::take(&mut self.items);
            f(self);
            let own = std::mem::replace(&mut self.items, items);
            assert!(self.bodies.len() == i + 1);
            let b = &mut self.bodies[i];
            *b = format!("{own}\n{b}");
            self.expects.push(std::mem::replace(&mut self.expect, Expect::Native));
        }
    }
    /// a new number to select (`sel(k)` in the program)
    pub fn sel(&mut self) -> usize { self.sels += 1; self.sels - 1 }
    pub fn fresh(&mut self) -> usize { self.k += 1; self.k }
    pub fn tag(&mut self, s: &str) { *self.tags.entry(format!("e2e.{s}")).or_default() += 1 }
    pub fn us(&mut self, n: usize) -> usize { us(&mut self.r, n) }
    pub fn ch(&mut self, p: u64) -> bool { chance(&mut self.r, p) }
    pub fn val(&mut self, t: &Ty) -> String { self.t.value(&mut self.r, t, false) }
    pub fn cval(&mut self, t: &Ty) -> String { self.t.value(&mut self.r, t, true) }
    pub fn name(&self, t: &Ty) -> String { self.t.name(t) }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.us(v.len()); &v[i] }
    pub fn ty(&mut self, depth: u32, runtime: bool) -> Ty { self.t.random(&mut self.r, depth, runtime) }
    pub fn body(&mut self, s: String) { self.bodies.push(s) }
    pub fn ival(&mut self, i: usize) -> String { int_lit(i, int_val(&mut self.r, i)) }

    pub fn build(mut self) -> Prog {
        let mut s = String::from(include_str!("prelude.rs.txt"));
        s.push_str(&self.t.src);
        s.push_str(&self.items);
        for (i, b) in self.bodies.iter().enumerate() { s.push_str(&format!("#[inline(never)] fn s{i}() {{\n{b}\n}}\n")) }
        s.push_str("fn main() {\n    #[cfg(native)] std::panic::set_hook(Box::new(|_| {}));\n");
        for i in 0..self.bodies.len() { let m = format!("print({}u32); s{i}();", 770000 + i); if self.multi { let k = self.sel(); s.push_str(&format!("    if sel({k}) {{ {m} }}\n")) } else { s.push_str(&format!("    {m}\n")) } }
        s.push_str("}\n");
        let mut flags = self.flags;
        if flags.is_empty() { flags.push("-Coverflow-checks=on") }
        Prog { src: s, expect: self.expect, flags, tags: self.tags, tree: self.tree, sels: self.sels, reps: self.reps, expects: self.expects }
    }
}

// ---------- values ----------
pub fn defs(p: &mut P, structs: usize, enums: usize) {
    for _ in 0..structs + enums {
        if p.us(structs + enums) < structs { p.t.new_struct(&mut p.r, 2, true); } else { p.t.new_enum(&mut p.r, 2, true); }
    }
}
fn some_ty(p: &mut P) -> Ty {
    if !p.t.defs.is_empty() && p.ch(65) {
        let t = Named(us(&mut p.r, p.t.defs.len()));
        match p.us(8) { 0 => Opt(Box::new(t)), 1 => Arr(Box::new(t), p.us(4)), 2 => Tup(vec![Bool, t]), 3 => Wrap(Box::new(t), p.us(3)), 4 => Res(Box::new(t), Box::new(Int(6))), _ => t }
    } else { p.ty(3, true) }
}
pub fn value_snippet(p: &mut P) {
    let t = some_ty(p);
    if !p.t.inhabited(&t) { return }
    let (v, n) = (p.val(&t), p.name(&t));
    let id = p.fresh();
    let v2 = p.val(&t);
    match p.us(16) {
        0 => { p.tag("val.pass"); p.items.push_str(&format!("#[inline(never)] fn f{id}(a: u8, x: {n}, b: u16) -> (u8, {n}, u16) {{ (a, x, b) }}\n")); body!(p, ("let x = f{id}(1, {v}, 2); x.show(); bb(x).show();")) }
        1 => { p.tag("val.array"); let c = 1 + p.us(3); let vs: Vec<String> = (0..c).map(|_| p.val(&t)).collect(); let i = p.us(c); body!(p, ("let mut a: [{n}; {c}] = [{}]; a.show(); a[bb({i})] = {v}; a.show(); let y = a[bb({})]; y.show();", vs.join(", "), c - 1)) }
        2 => { p.tag("val.wrap"); body!(p, ("let x: {n} = {v}; let w = Wr {{ a: x, b: [x; 2] }}; let o = Some(bb(w)); match o {{ Some(w) => {{ w.a.show(); w.b.show() }} None => print(0u8) }} let r: Result<u8, {n}> = Err(x); bb(r).show(); let t = (x, 1u8, x); bb(t).show();")) }
        3 => { p.tag("val.rawcopy"); body!(p, ("let x: {n} = {v}; let p = &raw const x; let mut y: {n} = {v2}; unsafe {{ y.show(); y = *p; y.show(); let q = &raw mut y; *q = {v2}; (*q).show(); q.write(*p); q.read().show(); }}")) }
        4 => { p.tag("val.maybeuninit"); body!(p, ("let mut m = MaybeUninit::<{n}>::uninit(); unsafe {{ m.as_mut_ptr().write({v}); let m2 = bb(m); m2.assume_init().show(); m = MaybeUninit::new({v2}); m.as_ptr().read().show(); }}")) }
        5 => { p.tag("val.bytecopy"); body!(p, ("let x: {n} = {v}; let mut m = MaybeUninit::<{n}>::uninit(); let s = &raw const x as *const MaybeUninit<u8>; let d = &raw mut m as *mut MaybeUninit<u8>; let mut i = 0; while i < size_of::<{n}>() {{ unsafe {{ *d.add(i) = *s.add(i); }} i += 1 }} unsafe {{ m.assume_init() }}.show();")) }
        6 => { p.tag("val.closure"); body!(p, ("let x: {n} = {v}; let mut y: {n} = {v2}; let c = || {{ x.show(); }}; c(); let d = move |k: u8| {{ x.show(); print(k); x }}; d(3).show(); let mut e = |z: {n}| {{ y = z; }}; e({v}); y.show();")) }
        7 if p.t.constable(&t) => {
            p.tag("val.static");
            let c = p.cval(&t); let c2 = p.cval(&t);
            p.items.push_str(&format!("static A{id}: {n} = {c}; const C{id}: {n} = {c2}; static mut M{id}: {n} = {c}; static R{id}: &{n} = &A{id};\n"));
            body!(p, ("A{id}.show(); C{id}.show(); let x = C{id}; bb(x).show(); R{id}.show(); unsafe {{ let m = &raw mut M{id}; (*m).show(); *m = C{id}; (*m).show(); }} let q: &'static {n} = &{c}; q.show();"))
        }
        8 | 9 => {
            p.tag("val.leaf");
            let mut s = format!("let mut x: {n} = {v}; ");
            for _ in 0..1 + p.us(3) {
                let Some((path, lt)) = p.t.leaf(&mut p.r, &t) else { continue };
                let w = p.val(&lt);
                let ln = p.name(&lt);
                s.push_str(&match p.us(3) { 0 => format!("x{path} = {w}; "), 1 => format!("unsafe {{ let q = &raw mut x{path}; print((q as *const u8).addr().wrapping_sub((&raw const x as *const u8).addr())); }} {{ let l: {ln} = x{path}; l.show(); }} "), _ => format!("{{ let l: {ln} = x{path}; l.show(); x{path} = {w}; let l: {ln} = x{path}; l.show(); }} ") });
            }
            s.push_str("bb(x).show();");
            p.body(s)
        }
        10 => {
            p.tag("val.layout");
            let mut offs = vec![];
            p.t.offsets(&t, "", &mut offs);
            let mut s = format!("let x: {n} = {v}; print(size_of::<{n}>()); print(align_of::<{n}>()); print(size_of_val(bb(&x))); print(align_of_val(bb(&x))); let b = (&raw const x as *const u8).addr(); print(b % align_of::<{n}>()); ");
            for (o, _) in &offs { s.push_str(&format!("print(offset_of!({n}, {o})); print((&raw const x.{o} as *const u8).addr() - b); ")) }
            s.push_str(&format!("let a: [{n}; 3] = [x; 3]; print((&raw const a[bb(2)] as *const u8).addr() - (&raw const a as *const u8).addr()); print(size_of_val(&a));"));
            p.body(s)
        }
        11 => { p.tag("val.replace"); body!(p, ("let mut x: {n} = {v}; let o = replace(&mut x, {v2}); o.show(); x.show(); let r = &mut x; *r = o; r.show(); let y = *r; y.show();")) }
        12 => { p.tag("val.slice"); let c = p.us(4); let vs: Vec<String> = (0..c).map(|_| p.val(&t)).collect(); body!(p, ("let mut a: [{n}; {c}] = [{}]; let s: &mut [{n}] = &mut a; print(s.len()); print(size_of_val(s)); print(align_of_val(s)); let mut i = 0; while i < s.len() {{ s[i].show(); if i == 1 {{ s[i] = {v}; }} i += 1 }} for e in s.iter() {{ e.show() }} (&s[bb({})..]).show(); let q = s as *const [{n}]; print(q.len()); unsafe {{ (*q).show() }}", vs.join(", "), if c > 0 { p.us(c + 1) } else { 0 })) }
        13 if p.t.eq_able(&t) => { p.tag("val.eq"); body!(p, ("let x: {n} = {v}; let y: {n} = {v2}; print(bb(x) == bb(x)); print(bb(x) == bb(y)); print(x != y);")) }
        14 => { p.tag("val.generic"); p.items.push_str(&format!("#[inline(never)] fn h{id}<A: Show + Copy, B: Show>(a: A, b: B, f: impl Fn(A) -> B) -> ([A; 2], B) {{ b.show(); ([a, a], f(a)) }}\n")); body!(p, ("let r = h{id}({v}, {v2}, |x: {n}| -> {n} {{ x.show(); bb(x) }}); r.0.show(); r.1.show();")) }
        _ => { p.tag("val.heap"); body!(p, ("unsafe {{ let q = allocate(size_of::<{n}>() + 8, 32) as *mut {n}; q.write({v}); (*q).show(); let y = *q; y.show(); *q = {v2}; q.read().show(); deallocate(q as *mut u8, size_of::<{n}>() + 8, 32); }}")) }
    }
}
pub fn enum_snippet(p: &mut P) {
    let enums: Vec<usize> = (0..p.t.defs.len()).filter(|i| matches!(p.t.defs[*i].kind, Kind::Enum(_))).collect();
    if enums.is_empty() { return }
    let e = *p.pick(&enums);
    let Kind::Enum(vs) = p.t.defs[e].kind.clone() else { return };
    let repr = p.t.defs[e].repr.clone();
    let inh: Vec<usize> = (0..vs.len()).filter(|i| vs[*i].inhabited).collect();
    let fieldless = vs.iter().all(|v| v.fields.is_empty() && !v.named);
    let id = p.fresh();
    let vv = |p: &mut P, j: usize| p.t.variant_value(&mut p.r, e, j, false);
    match p.us(7) {
        // all variants in a row through the same place
        0 => {
            p.tag("enum.overwrite");
            let mut s = String::new();
            for (k, j) in inh.iter().enumerate() { let v = vv(p, *j); s.push_str(&if k == 0 { format!("let mut x: T{e} = {v}; x.show(); let d0 = discriminant(&x); ") } else { format!("x = {v}; bb(x).show(); print(discriminant(&x) == d0); ") }) }
            s.push_str("let p = &raw const x; unsafe { (*p).show() }");
            p.body(s)
        }
        1 if fieldless && vs.iter().any(|v| v.disc.is_some()) || fieldless => {
            p.tag("enum.cast");
            let mut s = String::new();
            for j in &inh { let v = vv(p, *j); s.push_str(&format!("print(bb({v}) as i128); print(bb({v}) as {}); ", INTS[p.us(12)])) }
            p.body(s)
        }
        2 => {
            // the tag as raw memory
            let i = match repr { Repr::Int(i) | Repr::CInt(i) => i, Repr::C => 2, _ => { p.tag("enum.option"); let v = vv(p, inh[0]); body!(p, ("let o: Option<T{e}> = Some({v}); let n: Option<Option<T{e}>> = Some(o); bb(o).show(); bb(n).show(); let n: Option<Option<T{e}>> = Some(None); bb(n).show(); let n: Option<Option<T{e}>> = None; bb(n).show(); print(size_of_val(&n)); print(size_of::<Option<T{e}>>()); print(size_of::<T{e}>());")); return } };
            p.tag("enum.rawtag");
            let mut s = String::new();
            for j in &inh { let v = vv(p, *j); s.push_str(&format!("{{ let x: T{e} = {v}; print(unsafe {{ *(&raw const x as *const {}) }}); }} ", INTS[i])) }
            p.body(s)
        }
        3 if fieldless => {
            let i = match repr { Repr::Int(i) => i, Repr::C => 2, _ => return };
            p.tag("enum.fromtag");
            let mut d = 0i128;
            let mut s = String::new();
            for v in &vs { if let Some(x) = v.disc { d = x } if v.inhabited { s.push_str(&format!("{{ let x: T{e} = conv({}); x.show(); }} ", int_lit(i, d))) } d = d.wrapping_add(1) }
            p.body(s)
        }
        4 => {
            p.tag("enum.mutate");
            let c: Vec<usize> = inh.iter().copied().filter(|j| !vs[*j].fields.is_empty()).collect();
            if c.is_empty() { return }
            let j = *p.pick(&c);
            let v = vv(p, j);
            let f = p.us(vs[j].fields.len());
            let w = { let t = vs[j].fields[f].clone(); p.val(&t) };
            let pat = if vs[j].named { format!("T{e}::V{j} {{ f{f}: ref mut a, .. }}") } else { format!("T{e}::V{j}({}ref mut a, ..)", "_, ".repeat(f)) };
            body!(p, ("let mut x: T{e} = {v}; x.show(); if let {pat} = x {{ *a = {w}; print(1u8) }} else {{ print(0u8) }} bb(x).show(); match &mut x {{ {} => {{ let b = *a; b.show(); }} _ => print(9u8) }}", pat.replace("ref mut ", "")))
        }
        5 => {
            p.tag("enum.matches");
            let j = *p.pick(&inh);
            let v = vv(p, j);
            p.items.push_str(&format!("#[inline(never)] fn w{id}(x: T{e}) -> i32 {{ match x {{ "));
            let k = p.us(vs.len() + 1);
            for (q, w) in vs.iter().enumerate().take(k) { p.items.push_str(&format!("T{e}::V{q}{} => {}, ", if w.named { " { .. }" } else if w.fields.is_empty() { "" } else { "(..)" }, q * 7)) }
            p.items.push_str(" _ => -1 } }\n");
            let j2 = *p.pick(&inh);
            let v2 = vv(p, j2);
            body!(p, ("print(w{id}({v})); print(w{id}({v2})); print(w{id}(bb({v}))); let a = [{v}, {v2}]; print(w{id}(a[bb(1)]));"))
        }
        _ => niche_snippet(p),
    }
}
pub fn niche_snippet(p: &mut P) {
    p.tag("enum.niche");
    let raw = |e: &str, t: &str, i: &str| format!("{{ let x: {t} = {e}; print(conv::<{t}, {i}>(x)); bb(x).show(); }} ");
    let id = p.fresh();
    let s = match p.us(8) {
        0 => { let mut s = String::new(); for (e, t) in [("Some(true)", "Option<bool>"), ("Some(false)", "Option<bool>"), ("None", "Option<bool>"), ("Some(Some(bb(true)))", "Option<Option<bool>>"), ("Some(None)", "Option<Option<bool>>"), ("None", "Option<Option<bool>>"), ("Some(Some(None))", "Option<Option<Option<bool>>>")] { s += &raw(e, t, "u8") } s }
        1 => { let i = p.us(12); let t = INTS[i]; let v = p.val(&Nz(i)); raw("None", &format!("Option<NonZero<{t}>>"), t) + &raw(&format!("Some({v})"), &format!("Option<NonZero<{t}>>"), t) }
        2 => { let c = p.val(&Char); raw("None", "Option<char>", "u32") + &raw(&format!("Some({c})"), "Option<char>", "u32") + &raw("Some(None)", "Option<Option<char>>", "u32") + &raw("None", "Option<Option<char>>", "u32") }
        3 => format!("let n: Option<&u32> = None; print(conv::<Option<&u32>, usize>(n)); static K{id}: u32 = 5; let s = Some(&K{id}); bb(s).show(); print(conv::<Option<&u32>, usize>(s) == (&raw const K{id}).addr()); let f: Option<fn(i32) -> i32> = None; print(conv::<_, usize>(f)); bb(f).show(); let f: Option<fn(i32) -> i32> = Some(g1); bb(f).show(); let w: Option<&[u8]> = None; bb(w).show(); let w: Option<&[u8]> = Some(&[1, 2]); bb(w).show(); let d: Option<&dyn Dy> = None; print(d.is_none()); let d: Option<&dyn Dy> = Some(&Dy1(3)); bb(d).show();"),
        4 => {
            // many variants around a niche
            let n = 2 + p.us(30);
            let inner = *p.pick(&["bool", "char", "NonZero<u8>", "NonZero<i16>", "Option<bool>", "&'static u8", "Ordering8"]);
            let n = if matches!(inner, "NonZero<u8>" | "NonZero<i16>" | "&'static u8") { 1 } else { n };
            let pos = p.us(n + 1);
            p.items.push_str(&format!("#[derive(Clone, Copy)] enum Ordering8_{id} {{ A = -1, B, C }} impl Show for Ordering8_{id} {{ fn show(&self) {{ print(*self as i8) }} }}\n"));
            let inner = inner.replace("Ordering8", &format!("Ordering8_{id}"));
            let iv = if inner == "bool" { "true".to_string() } else if inner == "char" { "'x'".into() } else if inner.starts_with("NonZero") { "NonZero::new(77).unwrap()".into() } else if inner == "Option<bool>" { "Some(false)".into() } else if inner.starts_with('&') { "&9u8".into() } else { format!("Ordering8_{id}::C") };
            let mut d = format!("#[derive(Clone, Copy)] enum N{id} {{ ");
            for k in 0..=n { d += &if k == pos { format!("X({inner}), ") } else { format!("V{k}, ") } }
            d += &format!("}} impl Show for N{id} {{ fn show(&self) {{ match *self {{ N{id}::X(a) => {{ print(100u8); a.show() }} ");
            for k in 0..=n { if k != pos { d += &format!("N{id}::V{k} => print({k}u8), ") } }
            d += "} } }\n";
            p.items.push_str(&d);
            let mut s = format!("print(size_of::<N{id}>()); let x = N{id}::X({iv}); bb(x).show(); print(size_of::<Option<N{id}>>()); bb(Some(x)).show(); bb(None::<N{id}>).show(); ");
            for k in 0..=n { if k != pos && (k < 4 || p.ch(20)) { s += &format!("let x = N{id}::V{k}; bb(x).show(); bb(Some(x)).show(); ") } }
            s
        }
        5 => raw("None", "Option<Result<bool, ()>>", "u8") + &raw("Some(Ok(bb(true)))", "Option<Result<bool, ()>>", "u8") + &raw("Some(Err(()))", "Option<Result<bool, ()>>", "u8") + &raw("Ok(5)", "Result<u8, Nev>", "u8") + &raw("Err(7)", "Result<Nev, i16>", "i16") + &raw("Ok(5)", "Result<u16, !>", "u16"),
        6 => {
            // niche not at offset zero, with payload fields around
            let a = *p.pick(&["u32", "u64", "u8"]);
            p.items.push_str(&format!("#[derive(Clone, Copy)] enum Q{id} {{ A({a}, bool), B({a}), C, D(u8) }} impl Show for Q{id} {{ fn show(&self) {{ match *self {{ Q{id}::A(x, y) => {{ print(1u8); x.show(); y.show() }} Q{id}::B(x) => {{ print(2u8); x.show() }} Q{id}::C => print(3u8), Q{id}::D(x) => {{ print(4u8); x.show() }} }} }} }}\n"));
            format!("print(size_of::<Q{id}>()); let a = [Q{id}::A(3, true), Q{id}::B(4), Q{id}::C, Q{id}::D(7)]; let mut i = 0; while i < 4 {{ bb(a[i]).show(); i += 1 }} bb(Some(a[bb(2)])).show(); bb((a[0], a[1])).show();")
        }
        _ => {
            let n = if p.ch(80) { 20 + p.us(20) } else { 129 + p.us(50) };
            p.items.push_str(&format!("#[derive(Clone, Copy)] enum B{id} {{ {} }} impl Show for B{id} {{ fn show(&self) {{ print(*self as u32) }} }}\n", (0..n).map(|k| format!("V{k}")).collect::<Vec<_>>().join(", ")));
            let mut s = format!("print(size_of::<Option<B{id}>>()); print(conv::<_, u8>(None::<B{id}>)); ");
            for k in [0, 1, 126, 127, 128, n - 1].into_iter().filter(|k| *k < n) { s += &raw(&format!("Some(B{id}::V{k})"), &format!("Option<B{id}>"), "u8") }
            s
        }
    };
    p.body(s)
}
pub fn union_snippet(p: &mut P) {
    p.tag("union");
    let id = p.fresh();
    let n = 1 + p.us(3);
    let mut f: Vec<Ty> = vec![];
    while f.len() < n { let t = if p.ch(50) { some_ty(p) } else { p.ty(2, true) }; if p.t.inhabited(&t) { f.push(t) } }
    let repr = *p.pick(&["", "", "#[repr(C)]", "#[repr(align(16))]"]);
    let ns: Vec<String> = f.iter().map(|t| p.name(t)).collect();
    p.items.push_str(&format!("#[derive(Clone, Copy)] {repr} union U{id} {{ {} }}\n", ns.iter().enumerate().map(|(i, n)| format!("f{i}: {n}")).collect::<Vec<_>>().join(", ")));
    p.items.push_str(&format!("#[inline(never)] fn u{id}(a: u8, u: U{id}) -> U{id} {{ let v = u; v }}\n"));
    let mut s = String::new();
    for (i, t) in f.iter().enumerate() {
        let v = p.val(t);
        s += &format!("{{ let u = U{id} {{ f{i}: {v} }}; unsafe {{ let w = u{id}(0, u); let a = w.f{i}; a.show(); let o = Some(w); match bb(o) {{ Some(w) => {{ let a = w.f{i}; a.show() }} None => print(0u8) }} let q = (1u8, [w, w], 2u8); let q = bb(q); let a = q.1[bb(1)].f{i}; a.show(); print(q.2); ");
        if p.ch(50) { let j = p.us(f.len()); let t = f[j].clone(); let v = p.val(&t); s += &format!("let mut w = w; w.f{j} = {v}; let w = bb(w); let a = w.f{j}; a.show(); ") }
        s += "} } ";
    }
    s += &format!("print(size_of::<U{id}>()); print(align_of::<U{id}>());");
    p.body(s)
}

// ---------- integers ----------
fn int_expr(p: &mut P, i: usize, vars: &[String], d: u32) -> String {
    if d == 0 || p.ch(15) { return if !vars.is_empty() && p.ch(60) { p.pick(vars).clone() } else { p.ival(i) } }
    let a = int_expr(p, i, vars, d - 1);
    let t = INTS[i];
    match p.us(20) {
        0 => format!("({a}).wrapping_add({})", int_expr(p, i, vars, d - 1)),
        1 => format!("({a}).wrapping_sub({})", int_expr(p, i, vars, d - 1)),
        2 => format!("({a}).wrapping_mul({})", int_expr(p, i, vars, d - 1)),
        3 => format!("(({a}) & ({}))", int_expr(p, i, vars, d - 1)),
        4 => format!("(({a}) | ({}))", int_expr(p, i, vars, d - 1)),
        5 => format!("(({a}) ^ ({}))", int_expr(p, i, vars, d - 1)),
        6 => format!("(!({a}))"),
        7 => format!("({a}).wrapping_neg()"),
        8 => format!("({a}).wrapping_shl({} as u32)", { let j = p.us(12); p.ival(j) }),
        9 => format!("({a}).wrapping_shr({} as u32)", { let j = p.us(12); p.ival(j) }),
        10 => format!("(({a}) << {}u8)", p.us(bits(i) as usize)),
        11 => format!("(({a}) >> {}i64)", p.us(bits(i) as usize)),
        12 => { let o = int_expr(p, i, vars, d - 1); format!("(match ({a}).checked_div({o}) {{ Some(x) => x, None => {} }})", p.ival(i)) }
        13 => { let o = int_expr(p, i, vars, d - 1); format!("(match ({a}).checked_rem({o}) {{ Some(x) => x, None => {} }})", p.ival(i)) }
        14 => { let j = p.us(12); let b = int_expr(p, j, &[], d - 1); format!("(({b}) as {t})") }
        15 => { let j = p.us(12); format!("((({a}) as {}) as {t})", INTS[j]) }
        16 => { let op = *p.pick(&["<", "<=", ">", ">=", "==", "!="]); let o = int_expr(p, i, vars, d - 1); format!("((({a}) {op} ({o})) as {t})") }
        17 => { let o = int_expr(p, i, vars, d - 1); let op = *p.pick(&["overflowing_add", "overflowing_sub", "overflowing_mul"]); format!("{{ let (x, y) = ({a}).{op}({o}); if y {{ !x }} else {{ x }} }}") }
        18 => { let o = int_expr(p, i, vars, d - 1); let op = *p.pick(&["checked_add", "checked_sub", "checked_mul"]); format!("(match ({a}).{op}({o}) {{ Some(x) => x, None => {} }})", p.ival(i)) }
        _ => format!("(({a}).count_ones() as {t})"),
    }
}
pub fn int_snippet(p: &mut P) {
    let i = p.us(12);
    let t = INTS[i];
    match p.us(6) {
        0 | 1 => {
            p.tag("int.expr");
            let nv = 1 + p.us(3);
            let mut s = String::new();
            let mut vars = vec![];
            for k in 0..nv { let v = p.ival(i); s += &format!("let v{k}: {t} = bb({v}); "); vars.push(format!("v{k}")) }
            for _ in 0..3 { let e = int_expr(p, i, &vars, 4); s += &format!("{{ let e: {t} = {e}; print(e); }} ") }
            p.body(s)
        }
        2 => {
            p.tag("int.ops");
            let (a, b) = (p.ival(i), p.ival(i));
            let mut s = format!("let a: {t} = bb({a}); let b: {t} = bb({b}); print(a.wrapping_add(b)); print(a.wrapping_sub(b)); print(a.wrapping_mul(b)); print(a & b); print(a | b); print(a ^ b); print(!a); print(a == b); print(a != b); print(a < b); print(a <= b); print(a > b); print(a >= b); a.checked_div(b).show(); a.checked_rem(b).show(); a.checked_add(b).show(); a.checked_sub(b).show(); a.checked_mul(b).show(); a.overflowing_add(b).show(); a.overflowing_sub(b).show(); a.overflowing_mul(b).show(); print(a.wrapping_shl(b as u32)); print(a.wrapping_shr(b as u32)); a.checked_shl(b as u32).show(); a.checked_shr(b as u32).show(); print(a.count_ones()); print(a.count_zeros()); print(a.abs_diff(b)); print(match a.cmp(&b) {{ std::cmp::Ordering::Less => -1i8, std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Greater => 1 }}); a.partial_cmp(&b).is_some().show(); ");
            if signed(i) { s += "print(a.wrapping_neg()); print(a.signum()); a.checked_neg().show(); print(a.is_negative()); print(a.wrapping_abs()); print(a.unsigned_abs()); if a != a.wrapping_neg() || a == 0 { print(a.abs()); print((-a).abs()) } " }
            s += "if b != 0 && !(b == !0 && a != 0) { print(a / b); print(a % b); print(a.rem_euclid(b)); print(a.div_euclid(b)) }";
            p.body(s)
        }
        3 => {
            p.tag("int.casts");
            let a = p.ival(i);
            let mut s = format!("let a: {t} = bb({a}); ");
            for n in INTS { s += &format!("print(a as {n}); ") }
            s += &format!("let c = bb({}); print(c as u32); ", p.val(&Char));
            for n in ["u8", "i8", "u16", "i128", "usize"] { s += &format!("print(c as {n}); print(bb(true) as {n}); ") }
            s += "print(bb(a as u8) as char as u32); ";
            if bits(i) > 8 { s += "a.to_le_bytes().show(); a.to_ne_bytes().show(); " }
            p.body(s)
        }
        4 => {
            p.tag("int.unchecked");
            let w = bits(i);
            let sh = p.us(w as usize);
            let a = int_val(&mut p.r, i);
            let lo = if signed(i) { a >> 1 } else { ((a as u128) >> 1) as i128 };
            let b = p.us(60);
            body!(p, ("let a: {t} = bb({}); let b: {t} = bb({}); unsafe {{ print(a.unchecked_shl({sh}u32)); print(a.unchecked_shr({sh}u32)); print(b.unchecked_add(b)); print(b.unchecked_sub(b)); let c: {t} = bb({}); print(c.unchecked_mul(2)); print(c.unchecked_sub(1)); print(c.unchecked_add(3)); std::hint::assert_unchecked(c == {}); }}", int_lit(i, a), int_lit(i, lo), b.max(1), b.max(1)))
        }
        _ => {
            p.tag("int.bool");
            let (a, b, c) = (p.ch(50), p.ch(50), p.ch(50));
            body!(p, ("let a = bb({a}); let b = bb({b}); let c = bb({c}); print(a & b); print(a | b); print(a ^ b); print(!a); print(a && b || c); print(a == b); print(a != c); print(a < b); print(a <= b); print(a > b); print(a >= c); print((a & !b) as i32); let mut d = a; d &= c; d |= b; d ^= a; print(d); print('a' < 'b'); print(bb('z') == bb('y')); print(bb({}) >= bb({})); print(() == ());", p.val(&Char), p.val(&Char)))
        }
    }
}
