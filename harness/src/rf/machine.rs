//! Reference interpreter: replays the recorded choices of a real execution and says what had to happen.
use super::mem::*;
use super::ty::*;
use minirust_rs::lang as l;
use minirust_rs::libspecr::prelude as sp;
use minirust_rs::mem as m;
use num_traits::{Signed as _, Zero};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Debug)]
pub struct AllocRec { pub kind: Kind, pub size: i128, pub align: i128, pub addr: i128, pub pool: usize, pub probes: Vec<(i128, bool)> }
#[derive(Clone, Debug, Default)]
pub struct StepRec {
    pub thread: Option<usize>,
    pub thread_probes: Vec<(i128, bool)>,
    pub allocs: Vec<AllocRec>,
    pub picks: Vec<usize>,
    pub pick_probes: Vec<Vec<(i128, bool)>>,
    /// (accepted pool indices, chosen pool index)
    pub predicts: Vec<(Vec<usize>, usize)>,
    pub retags: Vec<Option<usize>>,
}
#[derive(Clone, Debug, Default)]
pub struct Trace { pub init: StepRec, pub steps: Vec<StepRec> }

#[derive(Clone, Copy, Debug)]
struct P { ptr: RPtr, aligned: bool }

#[derive(Clone)]
struct Frame {
    func: l::Function,
    locals: BTreeMap<l::LocalName, Thin>,
    back: Option<(Thin, Option<l::BbName>, Option<l::BbName>)>,
    blk: l::BbName,
    pc: usize,
    protectors: Vec<Prov>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TS { Enabled, Join(usize), Lock(usize), Done }
#[derive(Clone)]
struct Thread { frames: Vec<Frame>, st: TS, payloads: Vec<Thin> }

#[derive(Clone, Copy, Debug)]
struct Acc { lo: i128, len: i128, write: bool, atomic: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Last { No, Ub, Panic }
#[derive(Clone)]
pub struct RMach {
    pub prog: l::Program,
    pub tgt: Tgt,
    pub mem: RMem,
    threads: Vec<Thread>,
    cur: usize,
    locks: Vec<Option<usize>>,
    globals: BTreeMap<l::GlobalName, Thin>,
    fns: BTreeMap<l::FnName, Thin>,
    vts: BTreeMap<l::VTableName, Thin>,
    exposed: HashSet<Prov>,
    pub out: String,
    pub err: String,
    acc: Vec<Acc>,
    sync: HashSet<usize>,
    rec: StepRec,
    used: Vec<bool>,
    retag_i: usize,
    pub pool: BTreeMap<usize, Prov>,
    /// allocation index in the pool for each reference allocation
    pub alloc_pool: Vec<Option<usize>>,
    lenient: bool,
    /// how the real machine ended if this is its last step
    pub last: Last,
    sticky: HashSet<usize>,
    /// no allowance for recorded findings
    pub strict: bool,
    pub stats: BTreeMap<&'static str, u64>,
    pub races_checked: u64,
    pub probes: u64,
    pub guided: bool,
    pub steps: u64,
}

fn ity(t: &l::Type) -> l::IntType { match t { l::Type::Int(i) => *i, t => panic!("ref: int type expected: {t:?}") } }
fn pty(t: &l::Type) -> m::PtrType { match t { l::Type::Ptr(p) => *p, t => panic!("ref: ptr type expected: {t:?}") } }
fn raw() -> l::Type { l::Type::Ptr(m::PtrType::Raw { meta_kind: m::PointerMetaKind::None }) }

/// may a value of `a` be passed where `b` is expected?
pub fn abi(t: &Tgt, a: &l::Type, b: &l::Type) -> bool {
    use l::Type::*;
    let same_fields = |x: &l::Fields, y: &l::Fields| {
        x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| p.0 == q.0 && abi(t, &p.1, &q.1))
    };
    match (*a, *b) {
        (Int(x), Int(y)) => x.signed == y.signed && x.size == y.size,
        (Bool, Bool) => true,
        (Ptr(x), Ptr(y)) => ptr_meta(&x) == ptr_meta(&y),
        (Tuple { sized_fields: x, .. }, Tuple { sized_fields: y, .. }) => layout(t, a) == layout(t, b) && same_fields(&x, &y),
        (Array { elem: x, count: c }, Array { elem: y, count: d }) => c == d && abi(t, &x.extract(), &y.extract()),
        (Union { fields: x, chunks: c, .. }, Union { fields: y, chunks: d, .. }) => layout(t, a) == layout(t, b) && c == d && same_fields(&x, &y),
        (Enum { variants: x, discriminator: p, discriminant_ty: q, .. }, Enum { variants: y, discriminator: r, discriminant_ty: s, .. }) => {
            layout(t, a) == layout(t, b) && p == r && q == s && x.len() == y.len()
                && x.iter().all(|(k, v)| y.get(k).is_some_and(|w| v.tagger == w.tagger && abi(t, &v.ty, &w.ty)))
        }
        _ => false,
    }
}

impl RMach {
    pub fn new(prog: l::Program, tgt: Tgt, model: Model) -> RMach {
        RMach {
            prog, tgt, mem: RMem::new(tgt, model), threads: vec![], cur: 0, locks: vec![],
            globals: Default::default(), fns: Default::default(), vts: Default::default(), exposed: Default::default(),
            out: String::new(), err: String::new(), acc: vec![], sync: Default::default(), rec: Default::default(),
            used: vec![], retag_i: 0, pool: Default::default(), alloc_pool: vec![], lenient: false, last: Last::No, sticky: Default::default(), strict: false,
            stats: Default::default(), races_checked: 0, probes: 0, guided: false, steps: 0,
        }
    }
    fn note(&mut self, s: &'static str) { *self.stats.entry(s).or_default() += 1; }

    // ---------- recorded findings ----------
    /// The machine is known to panic here (instead of what follows).
    fn known_panic(&self, k: &'static str) -> R { if self.strict { return Ok(()) } if self.guided || self.last == Last::Panic { Err(Stop::Known(k)) } else { Ok(()) } }
    /// This should be UB, but is known to be noticed later, as a panic, or not at all.
    fn known_ub<T>(&self, k: &'static str, r: R<T>) -> R<T> {
        match r { Err(Stop::Ub(_)) if !self.strict && (self.guided || self.last != Last::Ub) => Err(Stop::Known(k)), r => r }
    }

    // ---------- choices ----------
    fn load_rec(&mut self, rec: &StepRec, lenient: bool) {
        self.used = vec![false; rec.allocs.len()];
        self.retag_i = 0;
        self.rec = rec.clone();
        self.lenient = lenient;
    }
    fn alloc(&mut self, kind: Kind, size: i128, align: i128) -> R<Thin> {
        self.mem.alloc_ok(size)?;
        if size > 1 << 24 { return skip("huge allocation") }
        let found = self.rec.allocs.iter().enumerate().position(|(i, a)| !self.used[i] && a.kind == kind && a.size == size && a.align == align);
        let (addr, pool) = match found {
            Some(i) => {
                if self.used[..i].iter().all(|u| *u) {
                    for (v, ok) in &self.rec.allocs[i].probes {
                        let legal = self.mem.addr_legal(*v, size, align);
                        self.probes += 1;
                        if legal.is_ok() != *ok {
                            return Err(Stop::Mismatch(format!("address {v:#x} for an allocation of size {size}, align {align}: machine {} it, expected {legal:?}", if *ok { "allows" } else { "rejects" })));
                        }
                    }
                }
                self.used[i] = true;
                (self.rec.allocs[i].addr, Some(self.rec.allocs[i].pool))
            }
            None if self.lenient => {
                // the real machine stopped in this step before allocating; any legal address will do
                let mut cands: Vec<i128> = vec![align.max(16)];
                for a in &self.mem.allocs { if a.live { cands.push(up(a.base + (a.data.len() as i128).max(1), align)) } }
                cands.sort();
                match cands.into_iter().find(|a| self.mem.addr_legal(*a, size, align).is_ok()) { Some(a) => (a, None), None => return skip("no address") }
            }
            None => return Err(Stop::Mismatch(format!("expected an allocation ({kind:?}, size {size}, align {align}) that the real machine did not make in this step"))),
        };
        let p = self.mem.alloc_at(kind, size, align, addr)?;
        self.alloc_pool.push(pool);
        if let Some(i) = pool { self.pool.insert(i, p.prov.unwrap()); }
        Ok(p)
    }

    // ---------- memory with race recording ----------
    fn ld(&mut self, p: Thin, len: i128, align: i128, atomic: bool) -> R<Vec<AByte>> {
        self.acc.push(Acc { lo: p.addr, len, write: false, atomic });
        self.mem.load(p, len, align)
    }
    fn st(&mut self, p: Thin, b: &[AByte], align: i128, atomic: bool) -> R {
        self.acc.push(Acc { lo: p.addr, len: b.len() as i128, write: true, atomic });
        self.mem.store(p, b, align)
    }
    fn tload(&mut self, p: Thin, ty: &l::Type, align: i128, atomic: bool) -> R<V> {
        let b = self.ld(p, size(&self.tgt, ty), align, atomic)?;
        let Some(v) = decode(&self.tgt, ty, &b) else { return ub("invalid representation") };
        self.check(&v, ty)?;
        Ok(v)
    }
    fn tstore(&mut self, p: Thin, v: &V, ty: &l::Type, align: i128, atomic: bool) -> R {
        let b = encode(&self.tgt, ty, v);
        self.st(p, &b, align, atomic)
    }
    fn pload(&mut self, p: P, ty: &l::Type) -> R<V> {
        if !p.aligned { return ub("load from misaligned place") }
        self.tload(p.ptr.thin, ty, 1, false)
    }
    fn pstore(&mut self, p: P, v: &V, ty: &l::Type) -> R {
        if !p.aligned { return ub("store to misaligned place") }
        self.tstore(p.ptr.thin, v, ty, 1, false)
    }

    // ---------- validity ----------
    fn vt_of(&self, p: Thin) -> Option<l::VTable> { self.vts.iter().find(|(_, q)| **q == p).map(|(k, _)| self.prog.vtables.get(*k).unwrap()) }
    fn vt_layout(&self, p: Thin) -> (i128, i128) { let v = self.vt_of(p).expect("ref: vtable"); (sz(v.size), al(v.align)) }
    fn lay(&self, ty: &l::Type, meta: Option<Meta>) -> (i128, i128) { dyn_layout(&self.tgt, ty, meta, &|p| self.vt_layout(p)) }
    fn check_vtable(&self, p: Thin, tr: m::TraitName) -> R {
        match self.vt_of(p) { Some(v) if v.trait_name == tr => Ok(()), _ => ub("bad vtable pointer") }
    }
    fn check_ptr(&self, p: RPtr, t: &m::PtrType) -> R {
        if p.thin.addr < 0 || p.thin.addr >= self.tgt.umax() { return ub("address out of range") }
        match (ptr_meta(t), p.meta) {
            (MK::None, None) => (),
            (MK::Count, Some(Meta::Count(c))) => if c < 0 || c >= self.tgt.umax() { return ub("count out of range") },
            (MK::VTable(tr), Some(Meta::VTable(q))) => self.check_vtable(q, tr)?,
            _ => return ub("metadata kind"),
        }
        if let Some(pi) = pointee(t) {
            let (s, a) = pointee_layout(&pi.layout, p.meta, &|q| self.vt_layout(q));
            if s > self.tgt.imax() { return ub("pointee too large") }
            if p.thin.addr == 0 { return ub("null reference") }
            if p.thin.addr % a != 0 { return ub("unaligned reference") }
            if !pi.inhabited { return ub("reference to uninhabited type") }
            self.mem.check_access(p.thin, s)?;
        } else if let m::PtrType::VTablePtr(tr) = t {
            self.check_vtable(p.thin, *tr)?
        }
        Ok(())
    }
    fn check(&self, v: &V, ty: &l::Type) -> R {
        use l::Type::*;
        match (v, *ty) {
            (V::Int(i), Int(it)) => if fits(&it, i) { Ok(()) } else { ub("integer out of range") },
            (V::Bool(_), Bool) => Ok(()),
            (V::Ptr(p), Ptr(t)) => self.check_ptr(*p, &t),
            (V::Tuple(vs), Tuple { sized_fields, .. }) => {
                for (v, (_, t)) in vs.iter().zip(sized_fields.iter()) { self.check(v, &t)? }
                Ok(())
            }
            (V::Tuple(vs), Array { elem, .. }) => {
                let e = elem.extract();
                for v in vs { self.check(v, &e)? }
                Ok(())
            }
            (V::Union(_), Union { .. }) => Ok(()),
            (V::Variant(d, v), Enum { variants, .. }) => match variants.iter().find(|(k, _)| big(*k) == *d) {
                Some((_, var)) => self.check(v, &var.ty),
                None => ub("no such variant"),
            },
            (v, t) => panic!("ref: check {v:?} at {t:?}"),
        }
    }

    // ---------- aliasing ----------
    fn cells(&self, s: &m::UnsafeCellStrategy, lay: &m::LayoutStrategy, meta: Option<Meta>) -> Vec<bool> {
        let fill = |v: &mut Vec<bool>, base: i128, cells: &sp::List<(sp::Size, sp::Size)>| {
            for (o, len) in cells.iter() { for i in 0..sz(len) { v[(base + sz(o) + i) as usize] = true } }
        };
        let (total, _) = pointee_layout(lay, meta, &|q| self.vt_layout(q));
        let mut v = vec![false; total as usize];
        match (*s, *lay) {
            (m::UnsafeCellStrategy::Sized { cells }, _) => fill(&mut v, 0, &cells),
            (m::UnsafeCellStrategy::Slice { element_cells }, m::LayoutStrategy::Slice(es, _)) => {
                let Some(Meta::Count(c)) = meta else { panic!("ref: count") };
                for i in 0..c { fill(&mut v, i * sz(es), &element_cells) }
            }
            (m::UnsafeCellStrategy::TraitObject, _) => {
                let Some(Meta::VTable(q)) = meta else { panic!("ref: vtable") };
                fill(&mut v, 0, &self.vt_of(q).unwrap().cells)
            }
            (m::UnsafeCellStrategy::Tuple { head_cells, tail_cells }, m::LayoutStrategy::Tuple { head, tail }) => {
                fill(&mut v, 0, &head_cells);
                let tail = tail.extract();
                let (ts, ta) = pointee_layout(&tail, meta, &|q| self.vt_layout(q));
                let (off, _, _) = dst(&head, ts, ta);
                for (i, c) in self.cells(&tail_cells.extract(), &tail, meta).into_iter().enumerate() { v[off as usize + i] |= c }
            }
            _ => panic!("ref: cells"),
        }
        v
    }
    /// an unsized tuple with padding before or after its tail?
    fn padded(&self, lay: &m::LayoutStrategy, meta: Option<Meta>) -> bool {
        let m::LayoutStrategy::Tuple { head, tail } = *lay else { return false };
        let tail = tail.extract();
        let (ts, ta) = pointee_layout(&tail, meta, &|q| self.vt_layout(q));
        let (off, full, _) = dst(&head, ts, ta);
        off != sz(head.end) || full != off + ts || self.padded(&tail, meta)
    }
    fn retag(&mut self, p: RPtr, t: &m::PtrType, fn_entry: bool) -> R<RPtr> {
        let rec = self.rec.retags.get(self.retag_i).copied().flatten();
        self.retag_i += 1;
        if self.mem.model == Model::Basic { return Ok(p) }
        let Some(pi) = pointee(t) else { return Ok(p) };
        let shared = matches!(t, m::PtrType::Ref { mutbl: sp::Mutability::Immutable, .. });
        let boxed = matches!(t, m::PtrType::Box { .. });
        if !shared && !boxed && !pi.unpin { return Ok(p) }
        let prot = match (fn_entry, boxed) { (false, _) => Protector::None, (true, true) => Protector::Weak, (true, false) => Protector::Strong };
        let (no_cell, cell) = if shared { (St::Froz, St::Cell) } else { (St::Res, if fn_entry { St::Res } else { St::ResIm }) };
        let inside: Vec<St> = self.cells(&pi.unsafe_cells, &pi.layout, p.meta).into_iter().map(|c| if c { cell } else { no_cell }).collect();
        if let (Some(pr), true) = (p.thin.prov, inside.is_empty()) { if p.thin.addr < self.mem.allocs[pr.alloc].base { self.known_panic("zstreborrow")? } }
        if !self.strict && self.padded(&pi.layout, p.meta) { return Err(Stop::Known("padding")) }
        let (thin, prov) = self.mem.reborrow(p.thin, &inside, if pi.freeze { no_cell } else { cell }, prot)?;
        if let Some(pr) = prov { self.threads[self.cur].frames.last_mut().unwrap().protectors.push(pr) }
        if let (Some(i), Some(pr)) = (rec, thin.prov) { self.pool.insert(i, pr); }
        self.note("retag");
        Ok(RPtr { thin, meta: p.meta })
    }
    fn retag_val(&mut self, v: V, ty: &l::Type, fe: bool) -> R<V> {
        use l::Type::*;
        Ok(match (v, *ty) {
            (V::Ptr(p), Ptr(t)) => V::Ptr(self.retag(p, &t, fe)?),
            (V::Tuple(vs), Tuple { sized_fields, .. }) => {
                let mut o = vec![];
                for (v, (_, t)) in vs.into_iter().zip(sized_fields.iter()) { o.push(self.retag_val(v, &t, fe)?) }
                V::Tuple(o)
            }
            (V::Tuple(vs), Array { elem, .. }) => {
                let e = elem.extract();
                let mut o = vec![];
                for v in vs { o.push(self.retag_val(v, &e, fe)?) }
                V::Tuple(o)
            }
            (V::Variant(d, v), Enum { variants, .. }) => {
                let t = variants.iter().find(|(k, _)| big(*k) == d).unwrap().1.ty;
                V::Variant(d, Box::new(self.retag_val(*v, &t, fe)?))
            }
            (v, _) => v,
        })
    }

    // ---------- expressions ----------
    fn f(&self) -> &Frame { self.threads[self.cur].frames.last().unwrap() }
    fn fm(&mut self) -> &mut Frame { self.threads[self.cur].frames.last_mut().unwrap() }

    fn inb(&self, p: Thin, off: i128) -> R<Thin> {
        self.mem.check_signed(p, off)?;
        Ok(Thin { addr: p.addr + off, prov: p.prov })
    }

    fn place(&mut self, e: &l::PlaceExpr) -> R<(P, l::Type)> {
        use l::PlaceExpr::*;
        match *e {
            Local(x) => {
                let ty = self.f().func.locals.get(x).unwrap();
                match self.f().locals.get(&x) {
                    Some(p) => Ok((P { ptr: RPtr { thin: *p, meta: None }, aligned: true }, ty)),
                    None => ub("dead local"),
                }
            }
            Deref { operand, ty } => {
                self.note("deref");
                let (v, pt) = self.value(&operand.extract())?;
                let p = v.ptr();
                if let Some(pi) = pointee(&pty(&pt)) {
                    let (s, _) = pointee_layout(&pi.layout, p.meta, &|q| self.vt_layout(q));
                    self.mem.check_access(p.thin, s)?;
                }
                let (_, a) = self.lay(&ty, p.meta);
                Ok((P { ptr: p, aligned: p.thin.addr % a == 0 }, ty))
            }
            Field { root, field } => {
                self.note("field");
                let (p, ty) = self.place(&root.extract())?;
                let i = n(field) as usize;
                let (off, fty) = match ty {
                    l::Type::Tuple { sized_fields, sized_head_layout, unsized_field } => {
                        if (i as i128) < n(sized_fields.len()) {
                            let (o, t) = sized_fields.iter().nth(i).unwrap();
                            (sz(o), t)
                        } else {
                            let t = unsized_field.extract().unwrap();
                            let (s, a) = self.lay(&t, p.ptr.meta);
                            (dst(&sized_head_layout, s, a).0, t)
                        }
                    }
                    l::Type::Union { fields, .. } => { let (o, t) = fields.iter().nth(i).unwrap(); (sz(o), t) }
                    _ => panic!("ref: field"),
                };
                let thin = self.inb(p.ptr.thin, off)?;
                let meta = if is_sized(&fty) { None } else { p.ptr.meta };
                Ok((P { ptr: RPtr { thin, meta }, aligned: p.aligned }, fty))
            }
            Index { root, index } => {
                self.note("index");
                let (p, ty) = self.place(&root.extract())?;
                let i = self.value(&index.extract())?.0.int();
                let (elem, count) = match ty {
                    l::Type::Array { elem, count } => (elem.extract(), big(count)),
                    l::Type::Slice { elem } => { let Some(Meta::Count(c)) = p.ptr.meta else { panic!("ref: count") }; (elem.extract(), BigInt::from(c)) }
                    _ => panic!("ref: index"),
                };
                if i.is_negative() || i >= count { return ub("index out of bounds") }
                let thin = self.inb(p.ptr.thin, mul(toi(&i), size(&self.tgt, &elem)))?;
                Ok((P { ptr: RPtr { thin, meta: None }, aligned: p.aligned }, elem))
            }
            Downcast { root, discriminant } => {
                let (p, ty) = self.place(&root.extract())?;
                let l::Type::Enum { variants, .. } = ty else { panic!("ref: downcast") };
                Ok((p, variants.get(discriminant).unwrap().ty))
            }
        }
    }

    fn value(&mut self, e: &l::ValueExpr) -> R<(V, l::Type)> {
        use l::ValueExpr::*;
        match *e {
            Constant(c, ty) => {
                let v = match c {
                    l::Constant::Int(i) => V::Int(big(i)),
                    l::Constant::Bool(b) => V::Bool(b),
                    l::Constant::GlobalPointer(r) => { self.note("global");
                        let g = self.globals[&r.name];
                        V::Ptr(RPtr { thin: Thin { addr: self.tgt.wrap(g.addr + sz(r.offset)), prov: g.prov }, meta: None })
                    }
                    l::Constant::FnPointer(x) => V::Ptr(RPtr { thin: self.fns[&x], meta: None }),
                    l::Constant::VTablePointer(x) => V::Ptr(RPtr { thin: self.vts[&x], meta: None }),
                    l::Constant::PointerWithoutProvenance(a) => V::Ptr(RPtr { thin: Thin { addr: n(a), prov: None }, meta: None }),
                };
                self.known_ub("const", self.check(&v, &ty))?;
                Ok((v, ty))
            }
            Tuple(es, ty) => {
                self.note("tuple");
                let mut vs = vec![];
                for e in es.iter() { vs.push(self.value(&e)?.0) }
                Ok((V::Tuple(vs), ty))
            }
            Union { field, expr, union_ty } => {
                self.note("union");
                let l::Type::Union { fields, .. } = union_ty else { panic!() };
                let (off, fty) = fields.iter().nth(n(field) as usize).unwrap();
                let (v, _) = self.value(&expr.extract())?;
                let mut b = vec![AByte::Uninit; size(&self.tgt, &union_ty) as usize];
                let fb = encode(&self.tgt, &fty, &v);
                b[sz(off) as usize..sz(off) as usize + fb.len()].copy_from_slice(&fb);
                Ok((decode(&self.tgt, &union_ty, &b).unwrap(), union_ty))
            }
            Variant { discriminant, data, enum_ty } => {
                self.note("variant");
                let (v, _) = self.value(&data.extract())?;
                Ok((V::Variant(big(discriminant), Box::new(v)), enum_ty))
            }
            GetDiscriminant { place } => {
                self.note("getdiscr");
                let (p, ty) = self.place(&place.extract())?;
                let l::Type::Enum { discriminator, discriminant_ty, .. } = ty else { panic!() };
                if !p.aligned { return ub("misaligned enum") }
                let tgt = self.tgt;
                let r = discr(&tgt, &discriminator, &mut |o, s| {
                    let q = self.inb(p.ptr.thin, o)?;
                    self.ld(q, s, 1, false)
                })?;
                match r { Some(d) => Ok((V::Int(d), l::Type::Int(discriminant_ty))), None => ub("invalid discriminant") }
            }
            Load { source } => {
                self.note("load");
                let (p, ty) = self.place(&source.extract())?;
                Ok((self.pload(p, &ty)?, ty))
            }
            AddrOf { target, ptr_ty } => {
                self.note("addrof");
                let (p, _) = self.place(&target.extract())?;
                self.check_ptr(p.ptr, &ptr_ty)?;
                Ok((V::Ptr(self.retag(p.ptr, &ptr_ty, false)?), l::Type::Ptr(ptr_ty)))
            }
            UnOp { operator, operand } => {
                let (v, ty) = self.value(&operand.extract())?;
                self.unop(operator, v, ty)
            }
            BinOp { operator, left, right } => {
                let (a, at) = self.value(&left.extract())?;
                let (b, _) = self.value(&right.extract())?;
                self.binop(operator, a, at, b)
            }
        }
    }

    fn meta_of(&self, k: MK, v: V) -> Option<Meta> {
        match k {
            MK::None => None,
            MK::Count => Some(Meta::Count(toi(&v.int()))),
            MK::VTable(_) => Some(Meta::VTable(v.ptr().thin)),
        }
    }

    fn unop(&mut self, op: l::UnOp, v: V, ty: l::Type) -> R<(V, l::Type)> {
        use l::UnOp::*;
        Ok(match op {
            Int(op) => {
                self.note("unop");
                let it = ity(&ty);
                let x = v.int();
                match op {
                    l::IntUnOp::Neg => (V::Int(wrap(&it, &(-x))), ty),
                    l::IntUnOp::BitNot => (V::Int(wrap(&it, &(-x - 1))), ty),
                    l::IntUnOp::CountOnes => {
                        let bits = (sz(it.size) * 8) as usize;
                        let u = if x.is_negative() { x + (BigInt::from(1) << bits) } else { x };
                        (V::Int(BigInt::from(u.magnitude().count_ones())), l::Type::Int(l::IntType { signed: sp::Unsigned, size: sp::Size::from_bytes(4).unwrap() }))
                    }
                }
            }
            Cast(l::CastOp::IntToInt(it)) => { self.note("int2int"); (V::Int(wrap(&it, &v.int())), l::Type::Int(it)) }
            Cast(l::CastOp::Transmute(nt)) => {
                self.note("transmute");
                if size(&self.tgt, &ty) != size(&self.tgt, &nt) { return ub("transmute size") }
                let b = encode(&self.tgt, &ty, &v);
                let Some(v) = decode(&self.tgt, &nt, &b) else { return ub("transmute validity") };
                self.check(&v, &nt)?;
                (v, nt)
            }
            GetThinPointer => { self.note("thinptr"); (V::Ptr(RPtr { thin: v.ptr().thin, meta: None }), raw()) }
            GetMetadata => {
                self.note("getmeta");
                let k = ptr_meta(&pty(&ty));
                let mv = match v.ptr().meta {
                    None => V::unit(),
                    Some(Meta::Count(c)) => V::Int(BigInt::from(c)),
                    Some(Meta::VTable(q)) => V::Ptr(RPtr { thin: q, meta: None }),
                };
                (mv, meta_ty(&self.tgt, k))
            }
            ComputeSize(t) | ComputeAlign(t) => {
                self.note("computesize");
                let meta = self.meta_of(ty_meta(&t), v);
                let (s, a) = self.lay(&t, meta);
                let r = V::Int(BigInt::from(if matches!(op, ComputeSize(_)) { s } else { a }));
                let u = usize_ty(&self.tgt);
                self.known_ub("computesize", self.check(&r, &u))?;
                (r, u)
            }
            VTableMethodLookup(mth) => {
                self.note("vtlookup");
                let vt = self.vt_of(v.ptr().thin).expect("ref: vtable value");
                let f = vt.methods.get(mth).unwrap();
                (V::Ptr(RPtr { thin: self.fns[&f], meta: None }), l::Type::Ptr(m::PtrType::FnPtr))
            }
        })
    }

    fn int_op(&self, op: l::IntBinOp, a: &BigInt, b: &BigInt, it: &l::IntType) -> R<BigInt> {
        use l::IntBinOp::*;
        let bits = sz(it.size) * 8;
        let exact = |r: BigInt| if fits(it, &r) { Ok(r) } else { ub("overflow") };
        // quotient truncated towards zero
        let quot = || -> R<(BigInt, BigInt)> {
            if b.is_zero() { return ub("division by zero") }
            let q0 = a.magnitude() / b.magnitude();
            let q = BigInt::from(q0);
            let q = if a.is_negative() != b.is_negative() { -q } else { q };
            if !fits(it, &q) { return ub("division overflow") }
            let r = a - &q * b;
            Ok((q, r))
        };
        let r = match op {
            Add => a + b,
            Sub => a - b,
            Mul => a * b,
            AddUnchecked => return exact(a + b),
            SubUnchecked => return exact(a - b),
            MulUnchecked => return exact(a * b),
            Div => return Ok(quot()?.0),
            Rem => return Ok(quot()?.1),
            DivExact => { let (q, r) = quot()?; return if r.is_zero() { Ok(q) } else { ub("inexact") } }
            Shl | Shr | ShlUnchecked | ShrUnchecked => {
                let inrange = !b.is_negative() && *b < BigInt::from(bits);
                if matches!(op, ShlUnchecked | ShrUnchecked) && !inrange { return ub("shift") }
                // bits is a power of two: masking
                let k = toi(&(((b % bits) + bits) % bits)) as usize;
                if matches!(op, Shl | ShlUnchecked) { a * (BigInt::from(1) << k) } else {
                    let d = BigInt::from(1) << k;
                    let q = a / &d;
                    if a.is_negative() && &q * &d != *a { q - 1 } else { q }
                }
            }
            BitAnd | BitOr | BitXor => {
                let m = BigInt::from(1) << bits as usize;
                let u = |x: &BigInt| if x.is_negative() { (x + &m).magnitude().clone() } else { x.magnitude().clone() };
                let (x, y) = (u(a), u(b));
                BigInt::from(match op { BitAnd => x & y, BitOr => x | y, _ => x ^ y })
            }
        };
        Ok(wrap(it, &r))
    }

    fn binop(&mut self, op: l::BinOp, a: V, at: l::Type, b: V) -> R<(V, l::Type)> {
        use l::BinOp::*;
        Ok(match op {
            Int(op) => { self.note("binop"); let it = ity(&at); (V::Int(self.int_op(op, &a.int(), &b.int(), &it)?), at) }
            IntWithOverflow(op) => {
                self.note("overflowop");
                let it = ity(&at);
                let (x, y) = (a.int(), b.int());
                let r = match op { l::IntBinOpWithOverflow::Add => x + y, l::IntBinOpWithOverflow::Sub => x - y, l::IntBinOpWithOverflow::Mul => x * y };
                let w = wrap(&it, &r);
                let o = w != r;
                (V::Tuple(vec![V::Int(w), V::Bool(o)]), overflow_ty(&self.tgt, &it))
            }
            Rel(op) => {
                self.note("relop");
                let key = |v: V| -> (BigInt, BigInt) {
                    match v {
                        V::Int(i) => (i, BigInt::zero()),
                        V::Bool(b) => (BigInt::from(b as u8), BigInt::zero()),
                        V::Ptr(p) => (BigInt::from(p.thin.addr), BigInt::from(match p.meta { None => 0, Some(Meta::Count(c)) => c, Some(Meta::VTable(q)) => q.addr })),
                        v => panic!("ref: relop {v:?}"),
                    }
                };
                let (x, y) = (key(a), key(b));
                let bo = |r| (V::Bool(r), l::Type::Bool);
                match op {
                    l::RelOp::Lt => bo(x < y),
                    l::RelOp::Gt => bo(x > y),
                    l::RelOp::Le => bo(x <= y),
                    l::RelOp::Ge => bo(x >= y),
                    l::RelOp::Eq => bo(x == y),
                    l::RelOp::Ne => bo(x != y),
                    l::RelOp::Cmp => (V::Int(BigInt::from(if x < y { -1 } else if x == y { 0 } else { 1 })), l::Type::Int(l::IntType { signed: sp::Signed, size: sp::Size::from_bytes(1).unwrap() })),
                }
            }
            PtrOffset { inbounds } => {
                self.note("ptroffset");
                let p = a.ptr().thin;
                let d = b.int();
                let thin = if inbounds { self.inb(p, toi(&d))? } else {
                    let m = BigInt::from(self.tgt.umax());
                    let r = ((BigInt::from(p.addr) + d) % &m + &m) % &m;
                    Thin { addr: toi(&r), prov: p.prov }
                };
                let v = V::Ptr(RPtr { thin, meta: None });
                self.known_ub("ptroffset", self.check(&v, &at))?;
                (v, at)
            }
            PtrOffsetFrom { inbounds, nonneg } => {
                self.note("ptrdiff");
                let (p, q) = (a.ptr().thin, b.ptr().thin);
                let d = p.addr - q.addr;
                let d = if inbounds {
                    // both pointers must be able to reach the other one
                    self.mem.check_signed(p, -d)?;
                    self.mem.check_signed(q, d)?;
                    d
                } else {
                    let w = self.tgt.wrap(d);
                    if w > self.tgt.imax() { w - self.tgt.umax() } else { w }
                };
                if nonneg && d < 0 { return ub("negative distance") }
                (V::Int(BigInt::from(d)), isize_ty(&self.tgt))
            }
            ConstructWidePointer(t) => {
                self.note("wideptr");
                let meta = self.meta_of(ptr_meta(&t), b);
                let v = V::Ptr(RPtr { thin: a.ptr().thin, meta });
                let ty = l::Type::Ptr(t);
                self.check(&v, &ty)?;
                (v, ty)
            }
        })
    }

    // ---------- statements ----------
    fn deinit(&mut self, p: Thin, len: i128, align: i128) -> R {
        if len > 1 << 24 { return skip("huge deinit") }
        self.st(p, &vec![AByte::Uninit; len as usize], align, false)
    }
    fn live(&mut self, fr: &mut Frame, x: l::LocalName) -> R {
        self.dead(fr, x)?;
        let (s, a) = layout(&self.tgt, &fr.func.locals.get(x).unwrap());
        let p = self.alloc(Kind::Stack, s, a)?;
        fr.locals.insert(x, p);
        Ok(())
    }
    fn dead(&mut self, fr: &mut Frame, x: l::LocalName) -> R {
        if let Some(p) = fr.locals.remove(&x) {
            let (s, a) = layout(&self.tgt, &fr.func.locals.get(x).unwrap());
            self.mem.dealloc(p, Kind::Stack, s, a)?;
        }
        Ok(())
    }
    fn with_frame<T>(&mut self, f: impl FnOnce(&mut Self, &mut Frame) -> R<T>) -> R<T> {
        let c = self.cur;
        let mut fr = self.threads[c].frames.pop().unwrap();
        let r = f(self, &mut fr);
        self.threads[c].frames.push(fr);
        r
    }

    fn stmt(&mut self, s: &l::Statement) -> R {
        use l::Statement::*;
        match *s {
            Assign { destination, source } => {
                self.note("assign");
                let (p, ty) = self.place(&destination)?;
                let (v, _) = self.value(&source)?;
                self.pstore(p, &v, &ty)
            }
            PlaceMention(p) => { self.note("placemention"); self.place(&p)?; Ok(()) }
            SetDiscriminant { destination, value } => {
                self.note("setdiscr");
                let (p, ty) = self.place(&destination)?;
                let l::Type::Enum { variants, .. } = ty else { panic!() };
                if !p.aligned { return ub("misaligned enum") }
                for (off, (it, v)) in variants.get(value).unwrap().tagger.iter() {
                    let q = self.inb(p.ptr.thin, sz(off))?;
                    self.tstore(q, &V::Int(big(v)), &l::Type::Int(it), 1, false)?;
                }
                Ok(())
            }
            Validate { place, fn_entry } => {
                self.note("validate");
                let (p, ty) = self.place(&place)?;
                let v = self.pload(p, &ty)?;
                let v = self.retag_val(v, &ty, fn_entry)?;
                self.pstore(p, &v, &ty)
            }
            Deinit { place } => {
                self.note("deinit");
                let (p, ty) = self.place(&place)?;
                if !p.aligned { return ub("misaligned deinit") }
                let s = size(&self.tgt, &ty);
                self.deinit(p.ptr.thin, s, 1)
            }
            StorageLive(x) => { self.note("storagelive"); self.with_frame(|m, f| m.live(f, x)) }
            StorageDead(x) => { self.note("storagedead"); self.with_frame(|m, f| m.dead(f, x)) }
        }
    }

    // ---------- calls ----------
    fn fn_of(&self, v: &V) -> R<l::Function> {
        if let V::Ptr(RPtr { thin, meta: None }) = v {
            if let Some((k, _)) = self.fns.iter().find(|(_, q)| **q == *thin) { return Ok(self.prog.functions.get(*k).unwrap()) }
        }
        ub("not a function pointer")
    }
    fn frame(&mut self, func: l::Function, back: Option<(Thin, Option<l::BbName>, Option<l::BbName>)>, cc: l::CallingConvention, ret: &l::Type, args: Vec<(V, l::Type)>) -> R<Frame> {
        let mut fr = Frame { func, locals: Default::default(), back, blk: func.start, pc: 0, protectors: vec![] };
        self.live(&mut fr, func.ret)?;
        for a in func.args.iter() { self.live(&mut fr, a)? }
        if cc != func.calling_convention { return ub("calling convention") }
        if !abi(&self.tgt, ret, &func.locals.get(func.ret).unwrap()) { return ub("return ABI") }
        if n(func.args.len()) != args.len() as i128 { return ub("argument count") }
        for (x, (v, ty)) in func.args.iter().zip(args) {
            if !abi(&self.tgt, &ty, &func.locals.get(x).unwrap()) { return ub("argument ABI") }
            self.tstore(fr.locals[&x], &v, &ty, 1, false)?;
        }
        Ok(fr)
    }
    fn spawn_thread(&mut self, func: l::Function, args: Vec<(V, l::Type)>) -> R<usize> {
        let fr = self.frame(func, None, l::CallingConvention::C, &unit_ty(), args)?;
        self.threads.push(Thread { frames: vec![fr], st: TS::Enabled, payloads: vec![] });
        Ok(self.threads.len() - 1)
    }
    fn goto(&mut self, b: l::BbName) -> R { let f = self.fm(); f.blk = b; f.pc = 0; Ok(()) }
    fn inplace(&mut self, p: P, ty: &l::Type) -> R {
        let (s, a) = layout(&self.tgt, ty);
        self.deinit(p.ptr.thin, s, a)
    }
    fn pop_frame(&mut self) -> Frame { let c = self.cur; self.threads[c].frames.pop().unwrap() }
    fn cleanup(&mut self, fr: &mut Frame) -> R {
        while let Some(x) = fr.locals.keys().next().copied() { self.dead(fr, x)? }
        for p in std::mem::take(&mut fr.protectors) { self.mem.release(p)? }
        Ok(())
    }

    fn term(&mut self, t: &l::Terminator) -> R {
        use l::Terminator::*;
        match *t {
            Goto(b) => { self.note("goto"); self.goto(b) }
            Switch { value, cases, fallback } => {
                self.note("switch");
                let v = self.value(&value)?.0.int();
                let b = cases.iter().find(|(k, _)| big(*k) == v).map(|x| x.1).unwrap_or(fallback);
                self.goto(b)
            }
            Unreachable => ub("unreachable"),
            Call { callee, calling_convention, arguments, ret, next_block, unwind_block } => {
                self.note("call");
                let (rp, rty) = self.place(&ret)?;
                self.inplace(rp, &rty)?;
                let (c, _) = self.value(&callee)?;
                let func = self.fn_of(&c)?;
                let mut args = vec![];
                for a in arguments.iter() {
                    args.push(match a {
                        l::ArgumentExpr::ByValue(e) => self.value(&e)?,
                        l::ArgumentExpr::InPlace(pe) => {
                            self.note("inplace");
                            let (p, ty) = self.place(&pe)?;
                            let v = self.pload(p, &ty)?;
                            self.inplace(p, &ty)?;
                            (v, ty)
                        }
                    })
                }
                let fr = self.frame(func, Some((rp.ptr.thin, next_block, unwind_block)), calling_convention, &rty, args)?;
                let c = self.cur;
                self.threads[c].frames.push(fr);
                Ok(())
            }
            Return => {
                self.note("return");
                let mut fr = self.pop_frame();
                let ty = fr.func.locals.get(fr.func.ret).unwrap();
                let (_, a) = layout(&self.tgt, &ty);
                let v = self.tload(fr.locals[&fr.func.ret], &ty, a, false)?;
                self.cleanup(&mut fr)?;
                match fr.back {
                    None => {
                        if self.cur == 0 { return ub("main returned") }
                        self.note("threadend");
                        let c = self.cur;
                        self.threads[c].st = TS::Done;
                        for i in 0..self.threads.len() {
                            if self.threads[i].st == TS::Join(c) { self.threads[i].st = TS::Enabled; self.sync.insert(i); }
                        }
                        Ok(())
                    }
                    Some((dst, next, _)) => {
                        // the value must still be valid now that the callee's locals are gone
                        self.known_ub("returnref", self.check(&v, &ty))?;
                        self.tstore(dst, &v, &ty, a, false)?;
                        match next { Some(b) => self.goto(b), None => ub("no return block") }
                    }
                }
            }
            StartUnwind { unwind_payload, unwind_block } => {
                self.note("startunwind");
                let p = self.value(&unwind_payload)?.0.ptr();
                let c = self.cur;
                self.threads[c].payloads.push(p.thin);
                self.goto(unwind_block)
            }
            StopUnwind(b) => {
                self.note("stopunwind");
                let c = self.cur;
                if self.threads[c].payloads.pop().is_none() { return ub("no unwind payload") }
                self.goto(b)
            }
            ResumeUnwind => {
                self.note("resumeunwind");
                let mut fr = self.pop_frame();
                self.cleanup(&mut fr)?;
                match fr.back {
                    Some((_, _, Some(b))) => self.goto(b),
                    _ => ub("nowhere to unwind to"),
                }
            }
            Intrinsic { intrinsic, arguments, ret, next_block } => {
                let (rp, rty) = self.place(&ret)?;
                let mut args = vec![];
                for a in arguments.iter() { args.push(self.value(&a)?) }
                let v = self.intrinsic(intrinsic, args, &rty)?;
                self.known_ub("intrinsicresult", self.check(&v, &rty))?;
                self.pstore(rp, &v, &rty)?;
                match next_block { Some(b) => self.goto(b), None => ub("no block after intrinsic") }
            }
        }
    }

    fn intrinsic(&mut self, op: l::IntrinsicOp, args: Vec<(V, l::Type)>, rty: &l::Type) -> R<V> {
        use l::IntrinsicOp as I;
        let want = |k: usize| if args.len() == k { Ok(()) } else { ub("argument count") };
        let unit = || if is_unit(rty) { Ok(()) } else { ub("return type") };
        let int = |i: usize| if let V::Int(x) = &args[i].0 { Ok(x.clone()) } else { ub("argument is no integer") };
        let thin = |i: usize| if let V::Ptr(RPtr { thin, meta: None }) = &args[i].0 { Ok(*thin) } else { ub("argument is no thin pointer") };
        let ret_thin = || if let l::Type::Ptr(p) = rty { if ptr_meta(p) == MK::None { Ok(()) } else { ub("wide return type") } } else { ub("return type") };
        let tgt = self.tgt;
        let atomic = |ty: &l::Type| -> R<i128> {
            let s = size(&tgt, ty);
            if s <= 0 || s & (s - 1) != 0 || s > tgt.max_atomic { ub("atomic size") } else { Ok(s) }
        };
        let szal = |i: usize| -> R<(i128, i128)> {
            let (s, a) = (int(i)?, int(i + 1)?);
            if s.is_negative() { return ub("negative size") }
            if !(a > BigInt::zero() && a.magnitude().count_ones() == 1) { return ub("bad alignment") }
            Ok((toi(&s), toi(&a)))
        };
        match op {
            I::Abort => { self.note("abort"); Err(Stop::Abort) }
            I::Exit => { self.note("exit"); Err(if self.mem.leaks() { Stop::Leak } else { Stop::Machine }) }
            I::Assume => {
                self.note("assume");
                want(1)?;
                let V::Bool(b) = args[0].0 else { return ub("assume argument") };
                unit()?;
                if b { Ok(V::unit()) } else { ub("assumption violated") }
            }
            I::PrintStdout | I::PrintStderr => {
                self.note("print");
                unit()?;
                for (v, _) in &args {
                    let s = match v { V::Int(i) => format!("{i}\n"), V::Bool(b) => format!("{b}\n"), _ => return ub("cannot print") };
                    if matches!(op, I::PrintStdout) { self.out += &s } else { self.err += &s }
                }
                Ok(V::unit())
            }
            I::Allocate => {
                self.note("allocate");
                want(2)?;
                let (s, a) = szal(0)?;
                ret_thin()?;
                Ok(V::Ptr(RPtr { thin: self.alloc(Kind::Heap, s, a)?, meta: None }))
            }
            I::Deallocate => {
                self.note("deallocate");
                want(3)?;
                let p = thin(0)?;
                let (s, a) = szal(1)?;
                unit()?;
                self.mem.dealloc(p, Kind::Heap, s, a)?;
                Ok(V::unit())
            }
            I::Spawn => {
                self.note("spawn");
                want(2)?;
                let f = self.fn_of(&args[0].0)?;
                if !matches!(args[1].1, l::Type::Ptr(_)) || !matches!(rty, l::Type::Int(_)) { return ub("spawn types") }
                let id = self.spawn_thread(f, vec![args[1].clone()])?;
                self.sync.insert(id);
                Ok(V::Int(BigInt::from(id)))
            }
            I::Join => {
                self.note("join");
                want(1)?;
                let i = int(0)?;
                unit()?;
                if i.is_negative() || i >= BigInt::from(self.threads.len()) { self.known_panic("ids")?; return ub("no such thread") }
                let i = toi(&i) as usize;
                if self.threads[i].st != TS::Done { let c = self.cur; self.threads[c].st = TS::Join(i); self.note("joinblock") }
                Ok(V::unit())
            }
            I::RawEq => {
                self.note("raweq");
                want(2)?;
                if *rty != l::Type::Bool || args[0].1 != args[1].1 { return ub("raweq types") }
                let l::Type::Ptr(m::PtrType::Ref { pointee: pi, .. }) = args[0].1 else { return ub("raweq type") };
                let m::LayoutStrategy::Sized(s, a) = pi.layout else { return ub("raweq unsized") };
                let mut d = vec![];
                for (v, _) in &args {
                    let b = self.ld(v.clone().ptr().thin, sz(s), al(a), false)?;
                    match b.iter().map(|x| x.data()).collect::<Option<Vec<u8>>>() { Some(x) => d.push(x), None => return ub("raweq uninit") }
                }
                Ok(V::Bool(d[0] == d[1]))
            }
            I::AtomicStore => {
                self.note("atomicstore");
                want(2)?;
                let p = thin(0)?;
                let (v, ty) = args[1].clone();
                let s = atomic(&ty)?;
                unit()?;
                self.tstore(p, &v, &ty, s, true)?;
                Ok(V::unit())
            }
            I::AtomicLoad => {
                self.note("atomicload");
                want(1)?;
                let p = thin(0)?;
                let s = atomic(rty)?;
                self.tload(p, rty, s, true)
            }
            I::AtomicCompareExchange => {
                self.note("atomiccas");
                want(3)?;
                let p = thin(0)?;
                if args[1].1 != *rty || args[2].1 != *rty || !matches!(rty, l::Type::Int(_)) { return ub("cas types") }
                let s = atomic(rty)?;
                let before = self.tload(p, rty, s, true)?;
                if before == args[1].0 { self.tstore(p, &args[2].0, rty, s, true)? }
                Ok(before)
            }
            I::AtomicFetchAndOp(op) => {
                self.note("atomicfetch");
                want(2)?;
                let p = thin(0)?;
                let l::Type::Int(it) = rty else { return ub("fetch type") };
                if args[1].1 != *rty { return ub("fetch types") }
                let s = atomic(rty)?;
                let before = self.tload(p, rty, s, true)?;
                let next = self.int_op(op, &before.clone().int(), &int(1)?, it)?;
                {
                    let (x, y) = (before.clone().int(), int(1)?);
                    let exact = match op { l::IntBinOp::Add => x + y, l::IntBinOp::Sub => x - y, _ => next.clone() };
                    if exact != next { self.known_panic("fetchop")? }
                }
                self.tstore(p, &V::Int(next), rty, s, true)?;
                Ok(before)
            }
            I::Lock(op) => {
                let c = self.cur;
                match op {
                    l::IntrinsicLockOp::Create => {
                        self.note("lockcreate");
                        want(0)?;
                        if !matches!(rty, l::Type::Int(_)) { return ub("lock type") }
                        self.locks.push(None);
                        return Ok(V::Int(BigInt::from(self.locks.len() - 1)));
                    }
                    _ => {}
                }
                want(1)?;
                let i = int(0)?;
                unit()?;
                if i.is_negative() || i >= BigInt::from(self.locks.len()) { self.known_panic("ids")?; return ub("no such lock") }
                let i = toi(&i) as usize;
                if matches!(op, l::IntrinsicLockOp::Acquire) {
                    match self.locks[i] {
                        None => { self.note("acquire"); self.locks[i] = Some(c) }
                        Some(_) => { self.note("acquireblock"); self.threads[c].st = TS::Lock(i) }
                    }
                } else {
                    if self.locks[i] != Some(c) { return ub("releasing foreign lock") }
                    let waiting: Vec<usize> = (0..self.threads.len()).filter(|t| self.threads[*t].st == TS::Lock(i)).collect();
                    if waiting.is_empty() { self.note("release"); self.locks[i] = None } else {
                        self.note("handover");
                        let w = match self.rec.picks.first() {
                            Some(w) if waiting.contains(w) => *w,
                            None if self.lenient => waiting[0],
                            w => return Err(Stop::Mismatch(format!("lock {i} handed to {w:?}, waiting are {waiting:?}"))),
                        };
                        if let Some(pr) = self.rec.pick_probes.first() {
                            for (v, ok) in pr {
                                if waiting.iter().any(|w| *w as i128 == *v) != *ok {
                                    return Err(Stop::Mismatch(format!("lock {i}: handing it to thread {v} is {}, but waiting are {waiting:?}", if *ok { "allowed" } else { "not allowed" })));
                                }
                            }
                        }
                        self.locks[i] = Some(w);
                        self.threads[w].st = TS::Enabled;
                        self.sync.insert(w);
                    }
                }
                Ok(V::unit())
            }
            I::PointerExposeProvenance => {
                self.note("expose");
                want(1)?;
                let p = thin(0)?;
                if *rty != usize_ty(&self.tgt) { return ub("expose type") }
                if let Some(pr) = p.prov { self.exposed.insert(pr); }
                Ok(V::Int(BigInt::from(p.addr)))
            }
            I::PointerWithExposedProvenance => {
                self.note("fromexposed");
                want(1)?;
                let a = int(0)?;
                ret_thin()?;
                let prov = match self.rec.predicts.first() {
                    None if self.guided => self.exposed.iter().copied().find(|p| { let al = &self.mem.allocs[p.alloc]; al.live && toi(&a) >= al.base && toi(&a) < al.base + al.data.len() as i128 }),
                    None => return if self.lenient { skip("no prediction recorded") } else { Err(Stop::Mismatch("no provenance was predicted".into())) },
                    Some((acc, k)) => {
                        // accepted candidates are exactly: no provenance, and the exposed ones
                        let want: HashSet<usize> = self.pool.iter().filter(|(_, p)| self.exposed.contains(p)).map(|x| *x.0).collect();
                        let got: HashSet<usize> = acc.iter().filter(|x| **x != usize::MAX).copied().collect();
                        if want != got || !acc.contains(&usize::MAX) {
                            return Err(Stop::Mismatch(format!("exposed provenance candidates: machine allows {got:?} (none allowed: {}), expected {want:?}", acc.contains(&usize::MAX))));
                        }
                        if *k == usize::MAX { None } else { Some(self.pool[k]) }
                    }
                };
                Ok(V::Ptr(RPtr { thin: Thin { addr: toi(&a), prov }, meta: None }))
            }
            I::GetUnwindPayload => {
                self.note("payload");
                want(0)?;
                ret_thin()?;
                let c = self.cur;
                match self.threads[c].payloads.last() { Some(p) => Ok(V::Ptr(RPtr { thin: *p, meta: None })), None => ub("no payload") }
            }
        }
    }

    // ---------- guided generation ----------
    /// run one statement of the current frame, outside of any recorded trace
    pub fn g_stmt(&mut self, s: &l::Statement) -> R { self.g_reset(); self.stmt(s) }
    pub fn g_term(&mut self, t: &l::Terminator) -> R { self.g_reset(); self.term(t) }
    pub fn g_value(&mut self, e: &l::ValueExpr) -> R<V> { self.g_reset(); Ok(self.value(e)?.0) }
    pub fn g_place(&mut self, e: &l::PlaceExpr) -> R<(Thin, bool)> { self.g_reset(); let (p, _) = self.place(e)?; Ok((p.ptr.thin, p.aligned)) }
    fn g_reset(&mut self) { self.load_rec(&StepRec::default(), true); self.acc.clear(); }
    pub fn g_start(&mut self) -> R { self.start(&StepRec::default(), true) }
    pub fn depth(&self) -> usize { self.threads[self.cur].frames.len() }
    pub fn nthreads(&self) -> usize { self.threads.len() }
    pub fn nlocks(&self) -> usize { self.locks.len() }
    pub fn payloads(&self) -> usize { self.threads[self.cur].payloads.len() }
    pub fn cur_thread(&self) -> usize { self.cur }
    pub fn set_thread(&mut self, t: usize) { self.cur = t }
    pub fn frame_pos(&self) -> (l::BbName, usize) { (self.f().blk, self.f().pc) }
    pub fn is_live(&self, x: l::LocalName) -> bool { self.f().locals.contains_key(&x) }
    /// one step of thread `t`, with arbitrary choices
    pub fn g_step(&mut self, t: usize) -> R { self.step(&StepRec { thread: Some(t), ..Default::default() }, true) }
    pub fn heap_live(&self) -> Vec<(Prov, i128, i128, i128)> {
        self.mem.allocs.iter().enumerate().filter(|(_, a)| a.live && a.kind == Kind::Heap).map(|(i, a)| (Prov { alloc: i, tag: 0 }, a.base, a.data.len() as i128, a.align)).collect()
    }

    // ---------- driving ----------
    pub fn start(&mut self, rec: &StepRec, lenient: bool) -> R {
        self.load_rec(rec, lenient);
        let prog = self.prog;
        for (k, g) in prog.globals.iter() {
            let p = self.alloc(Kind::Global, n(g.bytes.len()), al(g.align))?;
            self.globals.insert(k, p);
        }
        for (k, g) in prog.globals.iter() {
            let mut b: Vec<AByte> = g.bytes.iter().map(|b| match b { Some(x) => AByte::Init(x, None), None => AByte::Uninit }).collect();
            for (off, r) in g.relocations.iter() {
                let q = self.globals[&r.name];
                let e = enc_thin(&self.tgt, Thin { addr: self.tgt.wrap(q.addr + sz(r.offset)), prov: q.prov });
                b[sz(off) as usize..sz(off) as usize + e.len()].copy_from_slice(&e);
            }
            self.mem.store(self.globals[&k], &b, 1)?;
        }
        for (k, _) in prog.functions.iter() { let p = self.alloc(Kind::Function, 0, 1)?; self.fns.insert(k, p); }
        for (k, _) in prog.vtables.iter() { let p = self.alloc(Kind::VTable, 0, 1)?; self.vts.insert(k, p); }
        self.spawn_thread(prog.functions.get(prog.start).unwrap(), vec![])?;
        self.finish_rec()
    }
    fn finish_rec(&self) -> R {
        if let Some(i) = self.used.iter().position(|u| !u) {
            return Err(Stop::Mismatch(format!("the real machine made an unexpected allocation {:?}", self.rec.allocs[i])));
        }
        Ok(())
    }
    pub fn enabled(&self) -> Vec<usize> { (0..self.threads.len()).filter(|t| self.threads[*t].st == TS::Enabled).collect() }
    pub fn step(&mut self, rec: &StepRec, lenient: bool) -> R {
        self.load_rec(rec, lenient);
        let en = self.enabled();
        if en.is_empty() { return Err(Stop::Deadlock) }
        let t = match rec.thread {
            Some(t) if en.contains(&t) => t,
            t => return Err(Stop::Mismatch(format!("scheduled thread {t:?}, runnable are {en:?}"))),
        };
        for (v, ok) in &rec.thread_probes {
            if en.iter().any(|t| *t as i128 == *v) != *ok {
                return Err(Stop::Mismatch(format!("scheduling thread {v} is {}, but runnable are {en:?}", if *ok { "allowed" } else { "not allowed" })));
            }
        }
        let prev = std::mem::take(&mut self.acc);
        let psync = std::mem::take(&mut self.sync);
        let pthread = self.cur;
        self.cur = t;
        self.steps += 1;
        let (blk, pc) = (self.f().blk, self.f().pc);
        let block = self.f().func.blocks.get(blk).unwrap();
        if pc == n(block.statements.len()) as usize {
            self.term(&block.terminator)?;
        } else {
            self.stmt(&block.statements.iter().nth(pc).unwrap())?;
            self.fm().pc += 1;
        }
        let sticky = self.sticky.contains(&t);
        self.sticky.extend(self.sync.iter().copied());
        if t != pthread && !psync.contains(&t) {
            for i in 0..self.acc.len() {
                for b in &prev {
                    let a = self.acc[i];
                    self.races_checked += 1;
                    if (a.write || b.write) && !(a.atomic && b.atomic) && a.lo < b.lo + b.len && b.lo < a.lo + a.len {
                        if a.len > 0 && b.len > 0 {
                            // a thread that was synchronized once is never found to be racing again
                            if sticky && self.last != Last::Ub && !self.strict { self.note("known.sync"); continue }
                            return ub("data race");
                        } else if self.last == Last::Ub && !sticky && !self.strict {
                            // zero-sized accesses are treated as racing
                            return Err(Stop::Known("zstrace"));
                        }
                    }
                }
            }
        }
        if !lenient { self.finish_rec()? }
        Ok(())
    }
}
