//! Random Rust types and values, as source text.
use minirust_rs::libspecr::ctl::Rng;
use std::fmt::Write;

pub const INTS: [&str; 12] = ["i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"];
pub fn bits(i: usize) -> u32 { [8, 16, 32, 64, 128, 64][i % 6] }
pub fn signed(i: usize) -> bool { i < 6 }

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int(usize), Bool, Char, Unit, Tup(Vec<Ty>), Arr(Box<Ty>, usize), Named(usize), Opt(Box<Ty>), Res(Box<Ty>, Box<Ty>),
    Ref(Box<Ty>), Slice(Box<Ty>), Str, Nz(usize), Fn, Ptr(Box<Ty>), Wrap(Box<Ty>, usize), Never, Dyn, MaybeU(Box<Ty>),
}
use Ty::*;

#[derive(Clone, Debug)]
pub enum Repr { Rust, C, Packed(u32), Align(u32), Int(usize), CInt(usize), Transparent }
#[derive(Clone, Debug)]
pub struct Variant { pub disc: Option<i128>, pub fields: Vec<Ty>, pub named: bool, pub inhabited: bool }
#[derive(Clone, Debug)]
pub enum Kind { Struct(Vec<Ty>), Enum(Vec<Variant>) }
#[derive(Clone, Debug)]
pub struct Def { pub repr: Repr, pub kind: Kind, pub derive_eq: bool, pub derive_ord: bool, pub constable: bool, pub packed: bool, pub size_hint: u32 }

pub fn b(r: &mut Rng, n: u64) -> u64 { r.below(n as u128) as u64 }
pub fn us(r: &mut Rng, n: usize) -> usize { r.below(n as u128) as usize }
pub fn chance(r: &mut Rng, pct: u64) -> bool { b(r, 100) < pct }

/// a random value of an integer type, biased to the corners
pub fn int_val(r: &mut Rng, i: usize) -> i128 {
    let w = bits(i);
    let raw: u128 = match us(r, 8) {
        0 => 0, 1 => 1, 2 => u128::MAX, 3 => 1u128 << (w - 1), 4 => (1u128 << (w - 1)) - 1, 5 => b(r, 16) as u128, 6 => (b(r, 16) as u128).wrapping_neg(),
        _ => ((r.next() as u128) << 64 | r.next() as u128) >> us(r, w as usize),
    };
    if w == 128 { raw as i128 } else if signed(i) { ((raw << (128 - w)) as i128) >> (128 - w) } else { (raw & ((1u128 << w) - 1)) as i128 }
}
/// bit pattern `v` as a literal of type `i`
pub fn int_lit(i: usize, v: i128) -> String {
    let t = INTS[i];
    if signed(i) {
        if bits(i) == 128 && v == i128::MIN { return "i128::MIN".into() }
        let min = -(1i128 << (bits(i) - 1).min(126));
        if bits(i) < 128 && v == min { return format!("{t}::MIN") }
        if v < 0 { format!("(-{}{t})", -v) } else { format!("{v}{t}") }
    } else if bits(i) == 128 { format!("{}{t}", v as u128) } else { format!("{v}{t}") }
}

#[derive(Default, Clone)]
pub struct Types { pub defs: Vec<Def>, pub src: String, pub dyns: usize }

impl Types {
    pub fn name(&self, t: &Ty) -> String {
        match t {
            Int(i) => INTS[*i].into(), Bool => "bool".into(), Char => "char".into(), Unit => "()".into(),
            Tup(v) if v.is_empty() => "()".into(),
            Tup(v) => format!("({},)", v.iter().map(|t| self.name(t)).collect::<Vec<_>>().join(", ")),
            Arr(t, n) => format!("[{}; {n}]", self.name(t)),
            Named(i) => format!("T{i}"),
            Opt(t) => format!("Option<{}>", self.name(t)),
            Res(a, b) => format!("Result<{}, {}>", self.name(a), self.name(b)),
            Ref(t) => format!("&'static {}", self.name(t)),
            Slice(t) => format!("&'static [{}]", self.name(t)),
            Str => "&'static str".into(),
            Nz(i) => format!("NonZero<{}>", INTS[*i]),
            Fn => "fn(i32) -> i32".into(),
            Ptr(t) => format!("*const {}", self.name(t)),
            Wrap(t, n) => format!("Wr<{}, {n}>", self.name(t)),
            Never => "!".into(),
            Dyn => "&'static dyn Dy".into(),
            MaybeU(t) => format!("MaybeUninit<{}>", self.name(t)),
        }
    }
    /// can a value of this type be built by a promotable / const expression that minimize accepts?
    pub fn constable(&self, t: &Ty) -> bool {
        match t {
            Fn | Dyn | Never | MaybeU(_) | Ptr(_) => false,
            Tup(v) => v.iter().all(|t| self.constable(t)),
            Arr(t, _) | Opt(t) | Ref(t) | Slice(t) | Wrap(t, _) => self.constable(t),
            Res(a, b) => self.constable(a) && self.constable(b),
            Named(i) => self.defs[*i].constable,
            Nz(_) => false,
            _ => true,
        }
    }
    pub fn eq_able(&self, t: &Ty) -> bool {
        match t {
            Int(_) | Bool | Char | Unit => true,
            Tup(v) => v.iter().all(|t| self.eq_able(t)),
            Arr(t, n) => *n > 0 && self.eq_able(t) && !matches!(**t, Int(6) | Int(0) | Bool),
            Opt(t) => self.eq_able(t),
            Named(i) => self.defs[*i].derive_eq,
            _ => false,
        }
    }
    pub fn inhabited(&self, t: &Ty) -> bool {
        match t { Never => false, Tup(v) => v.iter().all(|t| self.inhabited(t)), Arr(t, n) => *n == 0 || self.inhabited(t), _ => true }
    }
    pub fn random(&self, r: &mut Rng, depth: u32, runtime: bool) -> Ty {
        let k = if depth == 0 { us(r, 8) } else { us(r, 26) };
        let d = depth.saturating_sub(1);
        match k {
            0 | 1 | 2 => Int(us(r, 12)),
            3 => Int([2, 6, 8][us(r, 3)]),
            4 => Bool,
            5 => Char,
            6 => if chance(r, 10) { Unit } else { Int(us(r, 12)) },
            7 => if runtime { Nz(us(r, 12)) } else { Int(us(r, 12)) },
            8 | 9 => { let n = if chance(r, 4) { 0 } else { 1 + us(r, 3) }; Tup((0..n).map(|_| self.random(r, d, runtime)).collect()) }
            10 | 11 => Arr(Box::new(self.random(r, d, runtime)), if chance(r, 6) { 0 } else { 1 + us(r, 4) }),
            12 | 13 => Opt(Box::new(self.random(r, d, runtime))),
            14 => Res(Box::new(self.random(r, d, runtime)), Box::new(self.random(r, d, runtime))),
            15 => { let t = self.random(r, d, false); if self.constable(&t) { Ref(Box::new(t)) } else { Str } }
            16 => { let t = self.random(r, d, false); if self.constable(&t) { Slice(Box::new(t)) } else { Str } }
            17 => Str,
            18 => if runtime { Fn } else { Bool },
            19 => Wrap(Box::new(self.random(r, d, runtime)), us(r, 3)),
            20 => if runtime && self.dyns > 0 { Dyn } else { Char },
            _ => if self.defs.is_empty() { Int(us(r, 12)) } else { let i = us(r, self.defs.len()); if runtime || self.defs[i].constable { Named(i) } else { Bool } },
        }
    }
    pub fn new_struct(&mut self, r: &mut Rng, depth: u32, runtime: bool) -> usize {
        let n = if chance(r, 5) { 0 } else { 1 + us(r, 4) };
        let fields: Vec<Ty> = (0..n).map(|_| self.random(r, depth, runtime)).collect();
        let repr = match us(r, 10) { 0..=3 => Repr::Rust, 4..=6 => Repr::C, 7 => Repr::Packed([1, 2, 4][us(r, 3)]), 8 => Repr::Align([2, 8, 16, 32][us(r, 4)]), _ => if n == 1 { Repr::Transparent } else { Repr::Rust } };
        self.add(repr, Kind::Struct(fields))
    }
    pub fn new_enum(&mut self, r: &mut Rng, depth: u32, runtime: bool) -> usize {
        let n = 1 + us(r, 6);
        let style = us(r, 5);
        let ri = us(r, 12);
        let mut repr = match us(r, 6) { 0 | 1 | 2 => Repr::Rust, 3 | 4 => Repr::Int(if bits(ri) == 128 { ri - ri % 6 + 1 } else { ri }), _ => Repr::C };
        let mut vs: Vec<Variant> = vec![];
        for _ in 0..n {
            let k = match style { 0 => 0, 1 => us(r, 3), 2 => 1 + us(r, 2), _ => us(r, 3) };
            let fields: Vec<Ty> = if k == 0 { vec![] } else { let c = us(r, 4); (0..c).map(|_| self.random(r, depth, runtime)).collect() };
            vs.push(Variant { disc: None, fields, named: k == 2, inhabited: true });
        }
        // some variants cannot exist
        if vs.len() > 1 && chance(r, 20) {
            let i = us(r, vs.len());
            vs[i].fields.push(Never);
            vs[i].inhabited = false;
        }
        let fieldless = vs.iter().all(|v| v.fields.is_empty() && !v.named);
        if fieldless && chance(r, 70) || matches!(repr, Repr::Int(_)) && chance(r, 60) {
            let i = match repr { Repr::Int(i) => i, Repr::C => 2, _ => [5, 2][us(r, 2)] };
            let lim = if matches!(repr, Repr::Int(_)) { i } else { 2 };
            let mut used = vec![];
            let mut next = 0i128;
            for v in vs.iter_mut() {
                if chance(r, 60) {
                    let x = match us(r, 3) { 0 => int_val(r, lim), _ => b(r, 40) as i128 - if signed(lim) { 20 } else { 0 } };
                    if !used.contains(&x) { v.disc = Some(x); next = x; }
                }
                let (min, max) = if signed(lim) { (-(1i128 << (bits(lim) - 1)), (1i128 << (bits(lim) - 1)) - 1) } else { (0, (1i128 << bits(lim)) - 1) };
                while used.contains(&next) || next > max { next = if next >= max { min } else { next + 1 }; v.disc = Some(next) }
                used.push(next);
                next += 1;
            }
        }
        if !fieldless && vs.iter().any(|v| v.disc.is_some()) && matches!(repr, Repr::Rust | Repr::C) { repr = Repr::Int(4 - 2) }
        if let (Repr::Int(i), false, true) = (&repr, fieldless, chance(r, 25)) { repr = Repr::CInt(*i) }
        self.add(repr, Kind::Enum(vs))
    }
    fn add(&mut self, repr: Repr, kind: Kind) -> usize {
        let fields: Vec<Ty> = match &kind { Kind::Struct(f) => f.clone(), Kind::Enum(v) => v.iter().flat_map(|v| v.fields.clone()).collect() };
        let inh = match &kind { Kind::Struct(_) => true, Kind::Enum(v) => v.iter().any(|v| v.inhabited) };
        assert!(inh);
        let packed_field = fields.iter().any(|t| self.has_align(t));
        let repr = match repr { Repr::Packed(_) if packed_field => Repr::C, x => x };
        let packed = matches!(repr, Repr::Packed(_));
        let eq = !packed && fields.iter().all(|t| self.eq_able(t));
        let constable = fields.iter().all(|t| self.constable(t) || *t == Never);
        let id = self.defs.len();
        self.defs.push(Def { repr, kind, derive_eq: eq, derive_ord: eq, constable, packed, size_hint: 0 });
        let s = self.def_src(id);
        self.src.push_str(&s);
        id
    }
    /// contains a type with an explicit alignment (not allowed inside packed)
    fn has_align(&self, t: &Ty) -> bool {
        match t {
            Tup(v) => v.iter().any(|t| self.has_align(t)),
            Arr(t, _) | Opt(t) | Wrap(t, _) | MaybeU(t) => self.has_align(t),
            Res(a, b) => self.has_align(a) || self.has_align(b),
            Named(i) => matches!(self.defs[*i].repr, Repr::Align(_)) || match &self.defs[*i].kind { Kind::Struct(f) => f.iter().any(|t| self.has_align(t)), Kind::Enum(v) => v.iter().any(|v| v.fields.iter().any(|t| self.has_align(t))) },
            _ => false,
        }
    }
    fn def_src(&self, id: usize) -> String {
        let d = &self.defs[id];
        let mut s = String::new();
        let repr = match &d.repr { Repr::Rust => String::new(), Repr::C => "#[repr(C)]".into(), Repr::Packed(n) => format!("#[repr(C, packed({n}))]"), Repr::Align(n) => format!("#[repr(align({n}))]"), Repr::Int(i) => format!("#[repr({})]", INTS[*i]), Repr::CInt(i) => format!("#[repr(C, {})]", INTS[*i]), Repr::Transparent => "#[repr(transparent)]".into() };
        let der = if d.derive_eq { ", PartialEq, PartialOrd" } else { "" };
        writeln!(s, "#[derive(Clone, Copy{der})] {repr}").unwrap();
        match &d.kind {
            Kind::Struct(f) => {
                writeln!(s, "struct T{id} {{ {} }}", f.iter().enumerate().map(|(i, t)| format!("f{i}: {}", self.name(t))).collect::<Vec<_>>().join(", ")).unwrap();
                write!(s, "impl Show for T{id} {{ fn show(&self) {{ ").unwrap();
                for i in 0..f.len() { write!(s, "let t = self.f{i}; t.show(); ").unwrap() }
                writeln!(s, "}} }}").unwrap();
            }
            Kind::Enum(vs) => {
                write!(s, "enum T{id} {{ ").unwrap();
                for (i, v) in vs.iter().enumerate() {
                    write!(s, "V{i}").unwrap();
                    if v.named { write!(s, " {{ {} }}", v.fields.iter().enumerate().map(|(i, t)| format!("f{i}: {}", self.name(t))).collect::<Vec<_>>().join(", ")).unwrap() }
                    else if !v.fields.is_empty() { write!(s, "({})", v.fields.iter().map(|t| self.name(t)).collect::<Vec<_>>().join(", ")).unwrap() }
                    if let Some(x) = v.disc { write!(s, " = {x}").unwrap() }
                    write!(s, ", ").unwrap();
                }
                writeln!(s, "}}").unwrap();
                write!(s, "impl Show for T{id} {{ fn show(&self) {{ match *self {{ ").unwrap();
                for (i, v) in vs.iter().enumerate() {
                    let n = v.fields.len();
                    if v.named { write!(s, "T{id}::V{i} {{ {} }}", (0..n).map(|i| format!("f{i}")).collect::<Vec<_>>().join(", ")).unwrap() }
                    else if n > 0 { write!(s, "T{id}::V{i}({})", (0..n).map(|i| format!("f{i}")).collect::<Vec<_>>().join(", ")).unwrap() }
                    else { write!(s, "T{id}::V{i}").unwrap() }
                    write!(s, " => {{ print({i}i32); {} }} ", v.fields.iter().enumerate().map(|(i, t)| if *t == Never { format!("match f{i} {{}}") } else { format!("f{i}.show();") }).collect::<Vec<_>>().join(" ")).unwrap();
                }
                writeln!(s, "}} }} }}").unwrap();
            }
        }
        s
    }
    /// a random value; `c`: it must be a constant expression
    pub fn value(&self, r: &mut Rng, t: &Ty, c: bool) -> String {
        match t {
            Int(i) => int_lit(*i, int_val(r, *i)),
            Bool => if chance(r, 50) { "true".into() } else { "false".into() },
            Char => { let x = match us(r, 4) { 0 => 0, 1 => 0x10FFFF, 2 => 0xE000 + us(r, 4) as u32, _ => us(r, 0xD7FF) as u32 }; format!("'\\u{{{x:x}}}'") }
            Unit => "()".into(),
            Tup(v) => format!("({})", v.iter().map(|t| self.value(r, t, c) + ",").collect::<Vec<_>>().join(" ")),
            Arr(t, n) => if *n > 0 && chance(r, 25) { format!("[{}; {n}]", self.value(r, t, c)) } else { format!("[{}]", (0..*n).map(|_| self.value(r, t, c)).collect::<Vec<_>>().join(", ")) },
            Named(i) => self.named_value(r, *i, c),
            Opt(t) => if self.inhabited(t) && chance(r, 65) { format!("Some({})", self.value(r, t, c)) } else { format!("None::<{}>", self.name(t)) },
            Res(a, e) => if chance(r, 50) { format!("Ok::<{}, {}>({})", self.name(a), self.name(e), self.value(r, a, c)) } else { format!("Err::<{}, {}>({})", self.name(a), self.name(e), self.value(r, e, c)) },
            Ref(t) => format!("&{}", self.value(r, t, true)),
            Slice(t) => { let n = us(r, 4); if n == 0 { format!("(&[] as &'static [{}])", self.name(t)) } else { format!("(&[{}] as &'static [_])", (0..n).map(|_| self.value(r, t, true)).collect::<Vec<_>>().join(", ")) } }
            Str => format!("\"{}\"", ["", "a", "xyz", "é✓", "\\u{0}\\n", "hello, world"][us(r, 6)]),
            Nz(i) => { let v = int_val(r, *i); format!("NonZero::new({}).unwrap()", int_lit(*i, if v == 0 { 5 } else { v })) }
            Fn => format!("g{} as fn(i32) -> i32", us(r, 3)),
            Ptr(t) => format!("&raw const *&{}", self.value(r, t, true)),
            Wrap(t, n) => format!("Wr {{ b: [{}], a: {} }}", (0..*n).map(|_| self.value(r, t, c)).collect::<Vec<_>>().join(", "), self.value(r, t, c)),
            Dyn => { let i = us(r, self.dyns); format!("&Dy{i}({}) as &'static dyn Dy", b(r, 200)) }
            Never => "unreachable!()".into(),
            MaybeU(t) => format!("MaybeUninit::new({})", self.value(r, t, c)),
        }
    }
    pub fn named_value(&self, r: &mut Rng, i: usize, c: bool) -> String {
        match &self.defs[i].kind {
            Kind::Struct(f) => {
                let mut v: Vec<usize> = (0..f.len()).collect();
                if chance(r, 30) { v.reverse() }
                format!("T{i} {{ {} }}", v.iter().map(|j| format!("f{j}: {}", self.value(r, &f[*j], c))).collect::<Vec<_>>().join(", "))
            }
            Kind::Enum(vs) => {
                let j = loop { let j = us(r, vs.len()); if vs[j].inhabited { break j } };
                self.variant_value(r, i, j, c)
            }
        }
    }
    pub fn variant_value(&self, r: &mut Rng, i: usize, j: usize, c: bool) -> String {
        let Kind::Enum(vs) = &self.defs[i].kind else { unreachable!() };
        let v = &vs[j];
        if v.named { format!("T{i}::V{j} {{ {} }}", v.fields.iter().enumerate().map(|(k, t)| format!("f{k}: {}", self.value(r, t, c))).collect::<Vec<_>>().join(", ")) }
        else if v.fields.is_empty() { format!("T{i}::V{j}") }
        else { format!("T{i}::V{j}({})", v.fields.iter().map(|t| self.value(r, t, c)).collect::<Vec<_>>().join(", ")) }
    }
    /// paths from a place of type `t` to a scalar inside (not through references), with its type
    pub fn leaf(&self, r: &mut Rng, t: &Ty) -> Option<(String, Ty)> {
        let mut path = String::new();
        let mut t = t.clone();
        loop {
            let next = match &t {
                Tup(v) if !v.is_empty() => { let i = us(r, v.len()); write!(path, ".{i}").unwrap(); v[i].clone() }
                Arr(e, n) if *n > 0 => { let i = us(r, *n); if chance(r, 50) { write!(path, "[{i}]").unwrap() } else { write!(path, "[bb({i})]").unwrap() } (**e).clone() }
                Wrap(e, n) => { if *n > 0 && chance(r, 50) { write!(path, ".b[bb({})]", us(r, *n)).unwrap() } else { path += ".a" } (**e).clone() }
                Named(i) => match &self.defs[*i].kind { Kind::Struct(f) if !f.is_empty() => { let i = us(r, f.len()); write!(path, ".f{i}").unwrap(); f[i].clone() } _ => break },
                _ => break,
            };
            t = next;
            if chance(r, 25) { break }
        }
        if path.is_empty() || !self.inhabited(&t) { None } else { Some((path, t)) }
    }
    /// all constant field paths usable in `offset_of!`, with types, up to a limit
    pub fn offsets(&self, t: &Ty, prefix: &str, out: &mut Vec<(String, Ty)>) {
        if out.len() > 10 { return }
        let f: Vec<(String, Ty)> = match t {
            Tup(v) => v.iter().enumerate().map(|(i, t)| (i.to_string(), t.clone())).collect(),
            Named(i) => match &self.defs[*i].kind { Kind::Struct(f) => f.iter().enumerate().map(|(i, t)| (format!("f{i}"), t.clone())).collect(), _ => vec![] },
            Wrap(e, n) => vec![("a".into(), (**e).clone()), ("b".into(), Arr(e.clone(), *n))],
            _ => vec![],
        };
        for (p, t) in f {
            let q = if prefix.is_empty() { p } else { format!("{prefix}.{p}") };
            out.push((q.clone(), t.clone()));
            self.offsets(&t, &q, out);
        }
    }
    /// no references or function pointers inside: every initialized byte is plain data
    pub fn plain(&self, t: &Ty) -> bool {
        match t {
            Int(_) | Bool | Char | Unit | Nz(_) => true,
            Tup(v) => v.iter().all(|t| self.plain(t)),
            Arr(t, _) | Opt(t) | Wrap(t, _) | MaybeU(t) => self.plain(t),
            Res(a, b) => self.plain(a) && self.plain(b),
            Named(i) => match &self.defs[*i].kind { Kind::Struct(f) => f.iter().all(|t| self.plain(t)), Kind::Enum(v) => v.iter().all(|v| v.fields.iter().all(|t| self.plain(t))) },
            _ => false,
        }
    }
}
