//! Random Rust programs, as source text: borrows of every kind of type, with the outcome of every
//! access given by the reference of Tree Borrows (rf::mem); unions and which of their bytes survive a copy.
use super::gen_rs::*;
use crate::rf::mem::*;

/// what a reborrow at a type does, as far as the language defines it
#[derive(Clone)]
struct Bt { name: &'static str, size: usize, align: usize, cells: &'static [(usize, usize)], unpin: bool, freeze: bool, wide: Option<&'static str> }
const fn bt(name: &'static str, size: usize, align: usize, cells: &'static [(usize, usize)], unpin: bool) -> Bt { Bt { name, size, align, cells, unpin, freeze: cells.is_empty(), wide: None } }
/// a type with cells, but none of its bytes in one
const fn nf(name: &'static str, size: usize, align: usize, unpin: bool) -> Bt { Bt { name, size, align, cells: &[], unpin, freeze: false, wide: None } }
const ITEMS: &str = r#"
use core::intrinsics::mir::*;
#[inline(never)] fn lau<T: ?Sized>(p: *const T) -> *mut T { p as *mut T }
#[repr(C)] struct Cs { a: u8, c: Cell<u8>, b: [u8; 2] }
#[repr(C)] struct Cw { c: (Cell<u16>,), d: [u16; 3], e: UnsafeCell<[u8; 2]>, f: [u8; 2] }
#[repr(C)] struct Np { a: [u8; 3], _p: std::marker::PhantomPinned }
#[repr(C)] struct Nc { a: u8, c: Cell<u8>, _p: std::marker::PhantomPinned }
#[repr(C)] struct Ns { x: u8, n: Np }
#[repr(C)] struct Sp { a: u8, b: u16 }
#[repr(C)] struct Ge<A, B> { a: A, b: B }
#[repr(u8)] enum Ec { A, B(Cell<u8>, u8) }
#[repr(u8)] enum Ep { A, B(Np) }
union Uc { a: ManuallyDrop<Cell<u8>>, b: [u8; 3] }
union Uf { a: u16, b: [u8; 4] }
trait Tr { fn m(&self) {} }
impl Tr for u8 {} impl Tr for Cs {} impl Tr for Np {} impl Tr for [Cell<u8>; 2] {} impl Tr for Ge<u8, [Cell<u8>; 2]> {} impl Tr for () {} impl Tr for u32 {}
static mut PS: [*mut u8; 64] = [std::ptr::null_mut(); 64];
"#;
const TYPES: [Bt; 36] = [
    nf("Ge<u16, [Cell<u8>; 0]>", 2, 2, true), nf("[[Cell<u8>; 0]; 2]", 0, 1, true), bt("Ge<u8, std::marker::PhantomData<Cell<u32>>>", 1, 1, &[], true), bt("Ge<u8, [Np; 0]>", 1, 1, &[], false), bt("std::marker::PhantomPinned", 0, 1, &[], false),
    bt("Ec", 3, 1, &[(0, 3)], true), bt("Ep", 4, 1, &[], false), bt("[[Cs; 2]; 2]", 16, 1, &[(1, 1), (5, 1), (9, 1), (13, 1)], true), nf("Ge<Ge<[Cell<u32>; 0], u32>, [u8; 4]>", 8, 4, true), bt("Option<Np>", 4, 1, &[], false),
    bt("u8", 1, 1, &[], true), bt("u16", 2, 2, &[], true), bt("u32", 4, 4, &[], true), bt("u64", 8, 8, &[], true), bt("[u8; 3]", 3, 1, &[], true), bt("()", 0, 1, &[], true),
    bt("Cell<u8>", 1, 1, &[(0, 1)], true), bt("UnsafeCell<[u8; 2]>", 2, 1, &[(0, 2)], true), bt("Cell<u32>", 4, 4, &[(0, 4)], true),
    bt("Cs", 4, 1, &[(1, 1)], true), bt("Cw", 12, 2, &[(0, 2), (8, 2)], true), bt("[Cs; 2]", 8, 1, &[(1, 1), (5, 1)], true),
    bt("Np", 3, 1, &[], false), bt("Nc", 2, 1, &[(1, 1)], false), bt("Ns", 4, 1, &[], false), bt("[Np; 2]", 6, 1, &[], false), bt("Sp", 4, 2, &[], true),
    bt("Ge<u8, Cell<u8>>", 2, 1, &[(1, 1)], true), bt("Ge<Ge<Cell<u8>, u8>, Cs>", 6, 1, &[(0, 1), (3, 1)], true), bt("Ge<u8, Np>", 4, 1, &[], false),
    bt("Uc", 3, 1, &[(0, 3)], true), bt("Uf", 4, 2, &[], true), bt("Option<Cell<u8>>", 2, 1, &[(0, 2)], true), bt("MaybeUninit<u16>", 2, 2, &[], true), bt("[Cell<u16>; 3]", 6, 2, &[(0, 2), (2, 2), (4, 2)], true), bt("ManuallyDrop<Ge<Cell<u8>, [u8; 4]>>", 5, 1, &[(0, 1)], true),
];
const WIDE: [Bt; 12] = [nf("Ge<u8, [Cell<u8>; 0]>", 1, 1, true), nf("[Cell<u16>; 0]", 0, 2, true), bt("Ec", 3, 1, &[(0, 3)], true), bt("Ep", 4, 1, &[], false), bt("[Cs; 2]", 8, 1, &[(1, 1), (5, 1)], true), bt("u8", 1, 1, &[], true), bt("u16", 2, 2, &[], true), bt("Cs", 4, 1, &[(1, 1)], true), bt("Np", 3, 1, &[], false), bt("Cell<u8>", 1, 1, &[(0, 1)], true), bt("Ge<u8, Cell<u8>>", 2, 1, &[(1, 1)], true), bt("()", 0, 1, &[], true)];
const DYNS: [Bt; 7] = [bt("u8", 1, 1, &[], true), bt("Cs", 4, 1, &[(1, 1)], true), bt("Np", 3, 1, &[], false), bt("[Cell<u8>; 2]", 2, 1, &[(0, 1), (1, 1)], true), bt("Ge<u8, [Cell<u8>; 2]>", 3, 1, &[(1, 2)], true), bt("()", 0, 1, &[], true), bt("u32", 4, 4, &[], true)];

/// a type to borrow at: its name, an expression for the pointer (with @ for the raw one), size, alignment
struct Pick { name: String, ptr: String, size: usize, align: usize, inside: Vec<bool>, unpin: bool, freeze: bool }
fn pick(p: &mut P, max: usize) -> Pick {
    let mask = |b: &Bt| { let mut v = vec![false; b.size]; for (o, l) in b.cells { for k in *o..o + l { v[k] = true } } v };
    loop {
        let r = p.us(100);
        let t = if r < 60 {
            let b = p.pick(&TYPES).clone();
            Pick { name: b.name.into(), ptr: format!("@ as *mut {}", b.name), size: b.size, align: b.align, inside: mask(&b), unpin: b.unpin, freeze: b.freeze }
        } else if r < 85 {
            let b = p.pick(&WIDE).clone();
            let n = p.us(5);
            Pick { name: format!("[{}]", b.name), ptr: format!("std::ptr::slice_from_raw_parts_mut(@ as *mut {}, {n})", b.name), size: b.size * n, align: b.align, inside: (0..n).flat_map(|_| mask(&b)).collect(), unpin: b.unpin, freeze: b.freeze }
        } else if r < 95 {
            let b = p.pick(&DYNS).clone();
            // a trait object is neither `Freeze` nor `Unpin`
            Pick { name: "dyn Tr".into(), ptr: format!("@ as *mut {} as *mut dyn Tr", b.name), size: b.size, align: b.align, inside: mask(&b), unpin: false, freeze: false }
        } else {
            let (n, e, fr) = *p.pick(&[("[Cell<u8>; 0]", 1, false), ("[u8; 0]", 1, true), ("str", 1, true)]);
            if n == "str" { let k = p.us(4); Pick { name: n.into(), ptr: format!("std::ptr::slice_from_raw_parts_mut(@, {k}) as *mut str"), size: k, align: 1, inside: vec![false; k], unpin: true, freeze: true } }
            else { Pick { name: n.into(), ptr: format!("@ as *mut {n}"), size: 0, align: e, inside: vec![], unpin: true, freeze: fr } }
        };
        if t.size <= max { return t }
    }
}

#[derive(Clone, Copy)]
struct Ptr { prov: Prov, off: usize, obj: usize }
struct B<'a> { p: &'a mut P, m: RMem, ptrs: Vec<Ptr>, sizes: Vec<usize>, ub: bool, nf: usize, depth: usize, budget: usize, close: bool, heap: Vec<bool> }
const BASE: i128 = 1 << 20;

impl B<'_> {
    fn at(&self, k: usize, d: i64) -> Thin { let q = self.ptrs[k]; let a = &self.m.allocs[q.prov.alloc]; Thin { addr: a.base + q.off as i128 + d as i128, prov: Some(q.prov) } }
    /// Attempts `f` on the reference. Says whether the operation goes to the program, and what goes before it.
    fn attempt<T>(&mut self, f: impl FnOnce(&mut RMem) -> R<T>) -> Option<(String, Option<T>)> {
        let mut m = self.m.clone();
        match f(&mut m) {
            Ok(x) => { self.m = m; Some((String::new(), Some(x))) }
            // only if selected, and then it is the end
            Err(Stop::Ub(_)) => if self.ub && self.p.ch(70) { self.close = true; let k = self.p.sel(); Some((format!("if sel({k}) {{ ubx(true); "), None)) } else { None },
            Err(e) => panic!("{e:?}"),
        }
    }
    fn reb(m: &mut RMem, t: &Pick, q: Thin, shared: bool, prot: bool) -> R<(Thin, Option<Prov>)> {
        if !shared && !t.unpin { m.check_access(q, t.size as i128)?; return Ok((q, None)) }
        let (no, ce) = if shared { (St::Froz, St::Cell) } else { (St::Res, if prot { St::Res } else { St::ResIm }) };
        let inside: Vec<St> = t.inside.iter().map(|c| if *c { ce } else { no }).collect();
        m.reborrow(q, &inside, if t.freeze { no } else { ce }, if prot { Protector::Strong } else { Protector::None })
    }
    /// a pointer and an offset which fits a type
    fn source(&mut self) -> (usize, usize, Pick) {
        loop {
            let k = if self.p.ch(40) { self.ptrs.len() - 1 - self.p.us(self.ptrs.len().min(3)) } else { self.p.us(self.ptrs.len()) };
            let q = self.ptrs[k];
            let room = self.sizes[q.obj] - q.off;
            let t = pick(self.p, room);
            let o = if self.p.ch(60) { 0 } else { self.p.us((room - t.size).min(6) + 1) };
            if (q.off + o) % t.align == 0 { return (k, o, t) }
        }
    }
    fn new_ptr(&mut self, x: Thin, obj: usize) -> usize {
        let prov = x.prov.unwrap();
        self.ptrs.push(Ptr { prov, off: (x.addr - self.m.allocs[prov.alloc].base) as usize, obj });
        self.ptrs.len() - 1
    }
    fn ops(&mut self, n: usize) -> String {
        let mut s = String::new();
        for _ in 0..n {
            if self.budget == 0 || self.ptrs.len() > 55 { break }
            self.budget -= 1;
            s += &self.op();
            if std::mem::take(&mut self.close) { s += "} " }
        }
        s
    }
    fn ref_expr(t: &Pick, k: usize, o: usize, shared: bool) -> String {
        let raw = format!("PS[{k}].add({o})");
        format!("&{}*({})", if shared { "" } else { "mut " }, t.ptr.replace("@", &raw))
    }
    fn op(&mut self) -> String {
        match self.p.us(22) {
            0..=4 => {
                // reads and writes of bytes
                let k = if self.p.ch(50) { self.ptrs.len() - 1 - self.p.us(self.ptrs.len().min(4)) } else { self.p.us(self.ptrs.len()) };
                let q = self.ptrs[k];
                let d = self.p.us(self.sizes[q.obj]) as i64 - q.off as i64;
                let d = if self.p.ch(60) { (self.p.us(4) as i64).min(self.sizes[q.obj] as i64 - q.off as i64 - 1) } else { d };
                let at = self.at(k, d);
                let len = if q.off as i64 + d + 3 <= self.sizes[q.obj] as i64 && self.p.ch(20) { 3 } else { 1 };
                let ty = if len == 3 { "[u8; 3]" } else { "u8" };
                if self.p.ch(50) {
                    let Some((g, _)) = self.attempt(|m| m.load(at, len, 1)) else { return String::new() };
                    format!("{g}(*(PS[{k}].offset({d}) as *mut {ty})).show(); ")
                } else {
                    let Some((g, _)) = self.attempt(|m| m.store(at, &vec![AByte::Init(0, None); len as usize], 1)) else { return String::new() };
                    let v = self.p.us(256);
                    let v = if len == 3 { format!("[{v}, 1, 2]") } else { v.to_string() };
                    format!("{g}*(PS[{k}].offset({d}) as *mut {ty}) = {v}; ")
                }
            }
            5..=10 => {
                let (k, o, t) = self.source();
                let shared = self.p.ch(50);
                let at = self.at(k, o as i64);
                let Some((g, x)) = self.attempt(|m| Self::reb(m, &t, at, shared, false)) else { return String::new() };
                let obj = self.ptrs[k].obj;
                let j = match x { Some(x) => self.new_ptr(x.0, obj), None => 63 };
                let e = Self::ref_expr(&t, k, o, shared);
                self.p.tag(&format!("borrow.{}.{}", if shared { "shr" } else { "mut" }, t.name));
                if shared { format!("{g}PS[{j}] = lau({e}) as *mut u8; ") } else { format!("{g}PS[{j}] = ({e}) as *mut {} as *mut u8; ", t.name) }
            }
            11..=16 if self.depth < 3 => self.call(),
            17 => {
                // a call with a two-phase borrow of its receiver
                let (k, o, t) = self.source();
                if t.name == "dyn Tr" || t.name == "()" { return String::new() }
                let q = self.p.us(self.ptrs.len());
                let at = self.at(k, o as i64);
                let rd = self.at(q, 0);
                if self.ptrs[q].off >= self.sizes[self.ptrs[q].obj] { return String::new() }
                let wr = self.p.ch(30);
                let b = AByte::Init(0, None);
                let size = t.size;
                // the argument is evaluated between the borrow and the call; it may write to what is borrowed only through cells
                let Some((g, x)) = self.attempt(|m| { let (a, _) = Self::reb(m, &t, at, false, false)?; if wr { m.store(rd, &[b], 1)?; } else { m.load(rd, 1, 1)?; } let (c, pr) = Self::reb(m, &t, a, false, true)?; if size > 0 && t.unpin { m.store(c, &vec![b; 1], 1)?; } if let Some(pr) = pr { m.release(pr)? } Ok(()) }) else { return String::new() };
                let id = self.nf; self.nf += 1;
                let body = if size > 0 && t.unpin { "*(self as *mut Self as *mut u8) = v;" } else { "print(v);" };
                self.p.items.push_str(&format!("trait Tp{id} {{ unsafe fn tp{id}(&mut self, v: u8); }} impl Tp{id} for {} {{ #[inline(never)] unsafe fn tp{id}(&mut self, v: u8) {{ {body} }} }}\n", t.name));
                self.p.tag(&format!("borrow.twophase.{}", t.name));
                let _ = x;
                let raw = format!("PS[{k}].add({o})");
                let arg = if wr { format!("{{ *PS[{q}] = 9; 7 }}") } else { format!("*PS[{q}]") };
                format!("{g}(*({})).tp{id}({arg}); ", t.ptr.replace("@", &raw))
            }
            18 => {
                // direct use of a place behind a chain of references
                let (k, o, t) = self.source();
                if t.size == 0 || !t.unpin { return String::new() }
                let at = self.at(k, o as i64);
                let b = AByte::Init(0, None);
                let w = self.p.ch(50);
                // (it prints in the middle, so the place of undefined behaviour would not be clear)
                let ub = std::mem::replace(&mut self.ub, false);
                let r = self.attempt(|m| { let (a, _) = Self::reb(m, &t, at, false, false)?; let (c, _) = Self::reb(m, &t, a, true, false)?; m.load(c, 1, 1)?; if w { m.store(a, &[b], 1)? } else { m.load(a, 1, 1)?; } Ok(()) });
                self.ub = ub;
                let Some((g, _)) = r else { return String::new() };
                let e = Self::ref_expr(&t, k, o, false);
                format!("{g}{{ let r = {e}; let s = &*r; print(*(s as *const {} as *const u8)); {} }} ", t.name, if w { format!("*(r as *mut {} as *mut u8) = 3;", t.name) } else { format!("print(*(r as *mut {} as *mut u8));", t.name) })
            }
            19 => self.free(),
            20 if self.depth < 3 => self.boxed(),
            _ => String::new(),
        }
    }
    /// the program frees all of its memory here, and exits
    fn free(&mut self) -> String {
        let objs: Vec<usize> = (0..self.heap.len()).filter(|o| self.heap[*o]).collect();
        if objs.is_empty() || self.ptrs.len() > 60 { return String::new() }
        let mut by = vec![];
        for o in objs { let c: Vec<usize> = (0..self.ptrs.len()).filter(|k| self.ptrs[*k].obj == o && self.ptrs[*k].off == 0).collect(); let k = if self.p.ch(40) { c[0] } else { *self.p.pick(&c) }; by.push((k, o)) }
        let mut m = self.m.clone();
        let mut go = || -> R { for (k, o) in &by { let q = self.at(*k, 0); m.dealloc(q, Kind::Heap, self.sizes[*o] as i128, 16)? } Ok(()) };
        let ok = match go() { Ok(()) => true, Err(Stop::Ub(_)) => false, Err(e) => panic!("{e:?}") };
        if !ok && !self.ub { return String::new() }
        self.p.tag(if ok { "borrow.free" } else { "borrow.badfree" });
        let n = self.p.sel();
        format!("if sel({n}) {{ {} {} {} }} ", if ok { "" } else { "ubx(true);" }, by.iter().map(|(k, o)| format!("deallocate(PS[{k}], {}, 16); ", self.sizes[*o])).collect::<String>(), if ok { "print(99); exit();" } else { "" })
    }
    /// a call with a box as its argument: in MIR, so that nothing drops it
    fn boxed(&mut self) -> String {
        let (k, o, t) = self.source();
        let at = self.at(k, o as i64);
        let before = (self.m.clone(), self.ptrs.len());
        let inside: Vec<St> = t.inside.iter().map(|_| St::Res).collect();
        let Some((g, x)) = self.attempt(|m| m.reborrow(at, &inside, St::Res, Protector::Weak)) else { return String::new() };
        let id = self.nf; self.nf += 1;
        self.p.tag(&format!("borrow.box.{}", t.name));
        let obj = self.ptrs[k].obj;
        let j = match &x { Some(x) => self.new_ptr(x.0, obj), None => 62 };
        let body = if x.is_some() { self.depth += 1; let k = 2 + self.p.us(4); let b = self.ops(k); self.depth -= 1; b } else { String::new() };
        let mut end = "";
        if let Some((_, Some(pr))) = x {
            let mut m = self.m.clone();
            match m.release(pr) { Ok(()) => self.m = m, Err(Stop::Ub(_)) => end = "ubx(true);", Err(e) => panic!("{e:?}") }
        }
        let g = if !end.is_empty() { let k = self.p.sel(); self.m = before.0; self.ptrs.truncate(before.1); self.close = true; format!("if sel({k}) {{ ") } else { g };
        // the pointer, by a copy of the box that is not retagged
        let ty = &t.name;
        let wide = if t.ptr.ends_with("dyn Tr") || ty.starts_with('[') && !ty.contains(';') || ty == "str" { "a = CastPtrToPtr(r);" } else { "a = CastPtrToPtr(r);" };
        self.p.items.push_str(&format!("#[custom_mir(dialect = \"analysis\", phase = \"post-cleanup\")] #[inline(never)] fn hb{id}(b: Box<{ty}>) {{ mir! {{ let r: *mut {ty}; let a: *mut u8; {{ r = CastTransmute(b); {wide} Call(RET = hc{id}(a), ReturnTo(z), UnwindContinue()) }} z = {{ Return() }} }} }}\n#[custom_mir(dialect = \"runtime\", phase = \"optimized\")] #[inline(never)] fn hd{id}(p: *mut {ty}) {{ mir! {{ let b: Box<{ty}>; {{ b = CastTransmute(p); Call(RET = hb{id}(Move(b)), ReturnTo(z), UnwindContinue()) }} z = {{ Return() }} }} }}\n#[inline(never)] fn hc{id}(a: *mut u8) {{ unsafe {{ PS[{j}] = a; {body} {end} }} }}\n"));
        format!("{g}hd{id}({}); ", t.ptr.replace("@", &format!("PS[{k}].add({o})")))
    }
    /// a function call, with references to up to two places among its arguments
    fn call(&mut self) -> String {
        let n = 1 + self.p.us(2);
        let form = self.p.us(5);
        let mut args = vec![];
        for _ in 0..n { let (k, o, t) = self.source(); let sh = self.p.ch(50); args.push((k, o, t, sh)) }
        let ats: Vec<Thin> = args.iter().map(|a| self.at(a.0, a.1 as i64)).collect();
        // the borrows of the caller, then those of the callee
        let before = (self.m.clone(), self.ptrs.len());
        let r = { let args = &args; self.attempt(|m| {
            let mut v = vec![];
            for (a, at) in args.iter().zip(ats) { v.push(Self::reb(m, &a.2, at, a.3, false)?.0) }
            let mut w = vec![];
            for (a, at) in args.iter().zip(v) { w.push(Self::reb(m, &a.2, at, a.3, true)?) }
            Ok(w)
        }) };
        let Some((g, x)) = r else { return String::new() };
        let id = self.nf; self.nf += 1;
        let mut inits = String::new();
        let mut prots = vec![];
        let mut js = vec![];
        for (i, a) in args.iter().enumerate() {
            let j = match &x { Some(x) => { if let Some(pr) = x[i].1 { prots.push(pr) } self.new_ptr(x[i].0, self.ptrs[a.0].obj) } None => 60 + i };
            js.push(j);
            let (ty, m) = (&a.2.name, if a.3 { "const" } else { "mut" });
            inits += &if form == 4 { format!("PS[{j}] = match x{i} {{ Some(x) => x as *{m} {ty} as *mut u8, None => PS[63] }}; ") } else { format!("PS[{j}] = x{i} as *{m} {ty} as *mut u8; ") };
        }
        let ty = |a: &(usize, usize, Pick, bool)| format!("&{}{}", if a.3 { "" } else { "mut " }, a.2.name);
        let tys: Vec<String> = args.iter().map(ty).collect();
        let es: Vec<String> = args.iter().map(|a| Self::ref_expr(&a.2, a.0, a.1, a.3)).collect();
        for a in &args { self.p.tag(&format!("borrow.arg.{}.{}", if a.3 { "shr" } else { "mut" }, a.2.name)) }
        self.p.tag(&format!("borrow.call{form}"));
        let (params, actual, unpack) = match form {
            // one by one, in a tuple, in a struct, in arrays of one, in options
            0 | 1 => (tys.iter().enumerate().map(|(i, t)| format!("x{i}: {t}, ")).collect::<String>(), es.join(", "), String::new()),
            2 => (format!("x: (u8, {})", tys.iter().map(|t| format!("{t}, ")).collect::<String>()), format!("(1u8, {},)", es.join(", ")), (0..n).map(|i| format!("let x{i} = x.{}; ", i + 1)).collect()),
            3 => { (tys.iter().enumerate().map(|(i, t)| format!("Wr {{ a: x{i}, b: _ }}: Wr<{t}, 1>, ")).collect::<String>().replace("Wr<&", "Wr<&'static ").replace("&'static mut", "&'static mut"), String::new(), String::new()) }
            _ => (tys.iter().enumerate().map(|(i, t)| format!("x{i}: Option<{t}>, ")).collect::<String>(), es.iter().map(|e| format!("Some({e}), ")).collect(), String::new()),
        };
        let (params, actual) = if form == 3 {
            // in a struct of our own
            self.p.items.push_str(&format!("struct Ar{id}<'a> {{ {} k: u8 }}\n", tys.iter().enumerate().map(|(i, t)| format!("x{i}: {}, ", t.replace("&", "&'a "))).collect::<String>()));
            (format!("Ar{id} {{ {} k }}: Ar{id}", (0..n).map(|i| format!("x{i}, ")).collect::<String>()), format!("Ar{id} {{ {} k: 1 }}", es.iter().enumerate().map(|(i, e)| format!("x{i}: {e}, ")).collect::<String>()))
        } else { (params, actual) };
        // one of the arguments comes back
        let back = n == 1 && form == 0 && self.p.ch(50) && x.is_some();
        let body = if x.is_some() { self.depth += 1; let k = 2 + self.p.us(4); let b = self.ops(k); self.depth -= 1; b } else { String::new() };
        let mut end = String::new();
        if x.is_some() {
            let again = if back { let t = &args[0].2; let q = self.at(js[0], 0); Some((t, q)) } else { None };
            // a returned reference is used at the end of the body, and by the caller
            let sh = args[0].3;
            let mut m = self.m.clone();
            let mut go = || -> R<Option<Thin>> {
                let ret = match &again { Some((t, q)) => Some(Self::reb(&mut m, t, *q, sh, false)?.0), None => None };
                for pr in prots { m.release(pr)? }
                Ok(match (&again, ret) { (Some((t, _)), Some(q)) => Some(Self::reb(&mut m, t, q, sh, false)?.0), _ => None })
            };
            match go() {
                Ok(r) => { self.m = m; if let Some(q) = r { let obj = self.ptrs[args[0].0].obj; let j = self.new_ptr(q, obj); end = format!("PS[{j}] = ") } }
                // (a function cannot be kept from returning, so all of the call is only done if selected)
                Err(Stop::Ub(_)) => { end = "UB".into() }
                Err(e) => panic!("{e:?}"),
            }
        }
        let ubend = end == "UB";
        let g = if ubend { let k = self.p.sel(); self.m = before.0; self.ptrs.truncate(before.1); self.close = true; format!("if sel({k}) {{ ") } else { g };
        let ret = if back { format!(" -> {}", tys[0].replace("&", "&'static ")) } else { String::new() };
        let retv = if back { format!("{}*(x0 as *{} {})", if args[0].3 { "&" } else { "&mut " }, if args[0].3 { "const" } else { "mut" }, args[0].2.name) } else { String::new() };
        let params = if back { params.replace("&", "&'static ") } else { params };
        self.p.items.push_str(&format!("#[inline(never)] unsafe fn h{id}({params}){ret} {{ {unpack}{inits}{body}{} {retv} }}\n", if ubend { "ubx(true); " } else { "" }));
        let call = format!("h{id}({actual})");
        if back && !ubend && !end.is_empty() { if args[0].3 { format!("{g}{end}lau({call}) as *mut u8; ") } else { format!("{g}{end}{call} as *mut {} as *mut u8; ", args[0].2.name) } } else { format!("{g}{call}; ") }
    }
}

pub fn borrows_prog(p: &mut P) {
    p.tree = Some(true);
    p.items.push_str(ITEMS);
    let ub = p.ch(80);
    let no = 1 + p.us(2);
    let mut m = RMem::new(X86_64, Model::Tree);
    let mut s = String::new();
    let mut ptrs = vec![];
    let mut sizes = vec![];
    let (mut ends, mut heap) = (vec![], vec![]);
    for o in 0..no {
        let n = 4 + p.us(13);
        let base = BASE + o as i128 * 4096;
        let size = n.div_ceil(16) * 16;
        let kind = p.us(3);
        let t = m.alloc_at(if kind == 1 { Kind::Heap } else { Kind::Stack }, if kind == 1 { n } else { size } as i128, 16, base).ok().unwrap();
        m.store(t, &vec![AByte::Init(0, None); n], 1).ok().unwrap();
        p.items.push_str(&format!("#[repr(C, align(16))] struct Ob{o}([u8; {n}]); static mut SO{o}: Ob{o} = Ob{o}([{}; {n}]);\n", 10 + o));
        s += &match kind { 0 => format!("let mut ob{o} = Ob{o}([{}; {n}]); PS[{o}] = &raw mut ob{o} as *mut u8; ", 10 + o), 1 => format!("PS[{o}] = allocate({n}, 16); *(PS[{o}] as *mut [u8; {n}]) = [{}; {n}]; ", 10 + o), _ => format!("PS[{o}] = &raw mut SO{o} as *mut u8; ") };
        ptrs.push(Ptr { prov: t.prov.unwrap(), off: 0, obj: o });
        sizes.push(n);
        if kind == 1 { ends.push((o, n)) }
        heap.push(kind == 1);
    }
    let budget = 55;
    let mut b = B { p, m, ptrs, sizes, ub, nf: 0, depth: 0, budget, close: false, heap };
    let body = b.ops(budget);
    s += &body;
    {
        for o in 0..no { let n = b.sizes[o]; s += &format!("{{ let mut i = 0; while i < {n} {{ print(*PS[{o}].add(i)); i += 1 }} }} ") }
        for (o, n) in ends { s += &format!("deallocate(PS[{o}], {n}, 16); ") }
    }
    b.p.body(format!("unsafe {{ {s} }}"))
}

/// unions: which bytes survive a copy
pub fn unipads_prog(p: &mut P) {
    p.tag("unipads");
    p.items.push_str("trait Cov { fn mk(v: &mut [bool], at: usize); }\nmacro_rules! cov { ($($t:ty)*) => { $(impl Cov for $t { fn mk(v: &mut [bool], at: usize) { let mut i = 0; while i < size_of::<$t>() { v[at + i] = true; i += 1 } } })* } }\ncov! { u8 u16 u32 u64 u128 i8 i64 bool char usize &'static u8 &'static [u16] *const u8 fn() }\nimpl Cov for () { fn mk(v: &mut [bool], at: usize) {} }\nimpl<T: Cov, const N: usize> Cov for [T; N] { fn mk(v: &mut [bool], at: usize) { let mut i = 0; while i < N { T::mk(v, at + i * size_of::<T>()); i += 1 } } }\nimpl<A: Cov, B: Cov> Cov for (A, B) { fn mk(v: &mut [bool], at: usize) { A::mk(v, at + offset_of!((A, B), 0)); B::mk(v, at + offset_of!((A, B), 1)); } }\n");
    let mut names: Vec<String> = ["u8", "u8", "u16", "u16", "u32", "u64", "u128", "bool", "char", "&'static u8", "&'static [u16]", "fn()", "()"].iter().map(|s| s.to_string()).collect();
    let some = |p: &mut P, names: &Vec<String>| {
        let leaf = |p: &mut P| if p.ch(50) { p.pick(&names[names.len().saturating_sub(3)..]).clone() } else { p.pick(names).clone() };
        match p.us(8) { 0 => { let a = leaf(p); format!("[{a}; {}]", p.us(4)) } 1 => { let (a, b) = (leaf(p), leaf(p)); format!("({a}, {b})") } 2 => { let (a, b) = (leaf(p), leaf(p)); format!("([{a}; 2], {b})") } _ => leaf(p) }
    };
    let n = 2 + p.us(4);
    let pk = *p.pick(&["", "", "#[repr(C, packed)]", "#[repr(C, packed(2))]"]);
    let mut last = String::new();
    for k in 0..n {
        if k < n - 1 && p.ch(30) {
            // an enum with a tag of its own
            let tag = *p.pick(&["u8", "u16", "u32", "i64"]);
            let (a, b, c) = (some(p, &names), some(p, &names), some(p, &names));
            p.items.push_str(&format!("#[repr({tag})] #[derive(Clone, Copy)] enum E{k} {{ A({a}), B {{ x: {b}, y: {c} }}, C }} impl Cov for E{k} {{ fn mk(v: &mut [bool], at: usize) {{ <{tag} as Cov>::mk(v, at); <{a} as Cov>::mk(v, at + offset_of!(E{k}, A.0)); <{b} as Cov>::mk(v, at + offset_of!(E{k}, B.x)); <{c} as Cov>::mk(v, at + offset_of!(E{k}, B.y)); }} }}\n"));
            names.push(format!("E{k}"));
            continue;
        }
        let un = k == n - 1 || p.ch(50);
        let m = 1 + p.us(3);
        let fs: Vec<String> = (0..m).map(|_| some(p, &names)).collect();
        let repr = *p.pick(&["", "", "#[repr(C)]", "#[repr(C)]", pk, if pk.is_empty() { "#[repr(align(8))]" } else { "" }, pk]);
        let name = format!("{}{k}", if un { "U" } else { "S" });
        let fields: String = fs.iter().enumerate().map(|(i, f)| format!("f{i}: {f}, ")).collect();
        let mk: String = fs.iter().enumerate().map(|(i, f)| format!("<{f} as Cov>::mk(v, at + offset_of!({name}, f{i})); ")).collect();
        p.items.push_str(&format!("{repr} #[derive(Clone, Copy)] {} {name} {{ {fields} }} impl Cov for {name} {{ fn mk(v: &mut [bool], at: usize) {{ {mk} }} }}\n", if un { "union" } else { "struct" }));
        names.push(name.clone());
        last = name;
    }
    let t = match p.us(5) { 0 => format!("[{last}; 2]"), 1 => format!("({last}, u8)"), _ => last };
    // all the bytes are written, then the value is copied in some way
    let t0 = t.clone();
    p.items.push_str(&format!("type Tu = {t0};\n#[inline(never)] fn pass(k: u8, x: Tu) -> Tu {{ x }}\n"));
    let copy = match p.us(6) { 0 => "let c = pass(1, *q);", 1 => "let o = (2u8, *q); let c = o.1;", 2 => "let a = [*q, *q]; let c = a[bb(1)];", 3 => "let o = bb(Some(*q)); let c = match o { Some(x) => x, None => return };", 4 => "let mut c = MaybeUninit::<Tu>::uninit(); *(&raw mut c as *mut Tu) = *q; let c = unsafe { *(&raw const c as *const Tu) };", _ => "let c = *q;" };
    // values in structs have to be valid: only bytes of unions are arbitrary, everything else is taken from unions as well
    p.items.push_str("#[repr(C, align(16))] struct Mem<const N: usize>([u8; N]);\n");
    let only = if t.starts_with('U') || t.starts_with("[U") { "1".to_string() } else { "7".to_string() };
    let _ = only;
    let body = format!("const N: usize = size_of::<Tu>(); let mut m = Mem::<N>([1; N]); let mut i = 0; while i < N {{ m.0[i] = 1 + (i % 250) as u8; i += 1 }} let mut cv = [false; N]; <Tu as Cov>::mk(&mut cv, 0); unsafe {{ let q = &raw const m as *const Tu; {copy} let b = &raw const c as *const u8; let mut i = 0; while i < N {{ print(cv[i]); if cv[i] {{ print(*b.add(i)) }} i += 1 }} {} }}", (0..8).map(|_| { let (m, c) = (p.sel(), p.us(40)); format!("if N > 0 && sel({m}) {{ let k = bb({c}) % N; let mut j = 0; while j < N {{ let z = (k + j) % N; if !cv[z] {{ ubx(true); print(*b.add(z)); }} j += 1 }} }} ") }).collect::<String>());
    p.body(body)
}
