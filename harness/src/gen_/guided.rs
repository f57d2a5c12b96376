//! Reference-guided random programs: every statement is tried on the reference first, so that
//! programs stay defined for long and end in a deliberately chosen way.
use super::ast::*;
use super::types::*;
use crate::rf::machine::{RMach, TS};
use crate::rf::mem::{Model, RPtr, Stop, Tgt};
use crate::rf::ty::{self as rt, BigInt, MK, V};
use minirust_rs::libspecr::ctl::Rng;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct W {
    pub ty: TyW,
    pub budget: usize,
    pub depth: u32,
    /// percent: programs which may end in an undefined step
    pub ub: u128,
    // statements
    pub assign: u32, pub mention: u32, pub setdiscr: u32, pub validate: u32, pub deinit: u32, pub live: u32, pub dead: u32,
    // terminators
    pub goto: u32, pub switch: u32, pub call: u32, pub ret: u32, pub unwind: u32, pub intr: u32,
    // intrinsics
    pub i_print: u32, pub i_alloc: u32, pub i_dealloc: u32, pub i_assume: u32, pub i_raweq: u32, pub i_atomic: u32, pub i_lock: u32, pub i_spawn: u32, pub i_join: u32, pub i_expose: u32, pub i_payload: u32,
    // values
    pub v_const: u32, pub v_load: u32, pub v_arith: u32, pub v_build: u32, pub v_addr: u32, pub v_cast: u32, pub v_transmute: u32, pub v_meta: u32, pub v_ptrop: u32, pub v_rel: u32, pub v_global: u32,
    pub deref: u128,
    pub abi_noise: u128,
    pub prebuilt_only: bool,
    /// how the program ends (percent): leave heap memory alive
    pub leak: u128,
    /// statements on pointers to the same few places
    pub nlocals: u128,
    pub ptr_locals: u128,
    pub single_target: bool,
}
impl Default for W {
    fn default() -> W {
        W {
            ty: TyW::default(), budget: 45, depth: 3, ub: 55,
            assign: 30, mention: 1, setdiscr: 3, validate: 4, deinit: 2, live: 4, dead: 2,
            goto: 2, switch: 3, call: 5, ret: 3, unwind: 2, intr: 8,
            i_print: 6, i_alloc: 4, i_dealloc: 3, i_assume: 1, i_raweq: 2, i_atomic: 3, i_lock: 2, i_spawn: 1, i_join: 1, i_expose: 2, i_payload: 1,
            v_const: 4, v_load: 6, v_arith: 6, v_build: 5, v_addr: 6, v_cast: 2, v_transmute: 1, v_meta: 1, v_ptrop: 2, v_rel: 3, v_global: 1,
            deref: 40, abi_noise: 4, prebuilt_only: false, leak: 10, nlocals: 8, ptr_locals: 4, single_target: false,
        }
    }
}

#[derive(Clone)]
struct Cand { p: PlaceExpr, ty: usize, root: usize }

pub struct G {
    pub r: Rng,
    tgt: Tgt,
    pub w: W,
    tg: TyGen,
    types: Vec<Type>,
    lay: Vec<(i128, i128, MK)>,
    rm: RMach,
    stack: Vec<(FB, Vec<Cand>)>,
    done: BTreeMap<usize, FB>,
    nfns: usize,
    base: Program,
    pub ended: Option<&'static str>,
    left: usize,
    ub_at: usize,
    pub rejected: u64,
    pub accepted: u64,
    vts: Vec<(usize, usize)>,
    traits: Vec<Vec<usize>>,
    heap_hint: Vec<usize>,
}

fn retry_err(s: &Stop) -> bool { matches!(s, Stop::Ub(_)) }

impl G {
    pub fn new(mut r: Rng, tgt: Tgt, model: Model, w: W) -> G {
        let ntraits = r.below(3) as usize;
        let tg = TyGen { tgt, w: w.ty.clone(), ntraits };
        let mut g = G {
            tgt, tg, types: vec![], lay: vec![], rm: RMach::new(program(vec![]), tgt, model), stack: vec![], done: BTreeMap::new(), nfns: 6,
            base: program(vec![]), ended: None, left: 0, ub_at: 0, rejected: 0, accepted: 0, vts: vec![], traits: vec![], heap_hint: vec![], w, r: Rng::new(0),
        };
        // common types are always there
        g.tid(&unit_t());
        for (s, b) in [(false, 1), (true, 1), (false, 4), (true, 4), (false, tgt.ptr_size), (true, tgt.ptr_size)] { g.tid(&int_t(s, b)); }
        g.tid(&Type::Bool);
        g.tid(&raw_t());
        for _ in 0..4 + r.below(4) { let t = g.tg.sized(&mut r, g.w.depth); g.tid(&t); }
        for _ in 0..1 + r.below(2) { let t = g.tg.unsized_ty(&mut r, 1); g.tid(&t); }
        // pointers to some of them
        for _ in 0..g.w.ptr_locals + 2 {
            let i = r.below(g.types.len() as u128) as usize;
            let t = g.types[i];
            if g.lay[i].0 == 0 && chance(&mut r, 2, 3) { continue }
            let p = Type::Ptr(g.tg.ptr_to(&mut r, &t));
            g.tid(&p);
        }
        // traits, vtables
        let mut nm = 0;
        for _ in 0..ntraits {
            let k = r.below(3) as usize;
            g.traits.push((nm..nm + k).collect());
            nm += k;
        }
        g.base.traits = map(g.traits.iter().enumerate().map(|(i, ms)| (tname(i), ms.iter().map(|m| mname(*m)).collect::<Set<_>>())));
        let mut vts = vec![];
        for t in 0..ntraits {
            for _ in 0..1 + r.below(2) {
                let sized: Vec<usize> = (0..g.types.len()).filter(|i| g.lay[*i].2 == MK::None).collect();
                let ty = *pick(&mut r, &sized);
                let (s, a, _) = g.lay[ty];
                let cells = if s > 0 && chance(&mut r, 1, 3) { let o = r.below(s as u128) as i128; list([(size(o), size(1 + r.below((s - o) as u128) as i128))]) } else { List::new() };
                let methods = map(g.traits[t].clone().into_iter().map(|m| (mname(m), fname(r.below(g.nfns as u128) as usize))));
                g.vts.push((t, ty));
                vts.push(VTable { trait_name: tname(t), size: size(s), align: align(a), cells, methods });
            }
        }
        g.base.vtables = map(vts.into_iter().enumerate().map(|(i, v)| (vname(i), v)));
        // globals
        let ng = r.below(4) as usize;
        let lens: Vec<i128> = (0..ng).map(|_| r.below(24) as i128).collect();
        let mut gl = vec![];
        for i in 0..ng {
            let bytes = list((0..lens[i]).map(|_| if chance(&mut r, 1, 8) { None } else if chance(&mut r, 1, 2) { Some(r.below(3) as u8) } else { Some(r.next() as u8) }));
            let mut rel = vec![];
            let mut at = 0;
            while at + tgt.ptr_size <= lens[i] {
                if chance(&mut r, 1, 2) { let j = r.below(ng as u128) as usize; rel.push((size(at), Relocation { name: gname(j), offset: size(r.below(lens[j] as u128 + 1) as i128) })); at += tgt.ptr_size } else { at += 1 + r.below(8) as i128 }
            }
            gl.push((gname(i), Global { bytes, relocations: list(rel), align: align(*pick(&mut r, &[1, 2, 4, 8, 8, 16])) }));
        }
        g.base.globals = map(gl);
        g.r = r;
        // main
        let mut fb = g.new_fb(0, vec![], 0, CallingConvention::C);
        fb.cc = CallingConvention::C;
        let placeholder = FB::new(0, vec![unit_t()], vec![], 0).build();
        g.base.functions = map((0..g.nfns).map(|i| (fname(i), placeholder)));
        g.base.functions.insert(fname(0), fb.build());
        g.base.start = fname(0);
        g.rm = RMach::new(g.base, tgt, model);
        g.rm.guided = true;
        if let Err(e) = g.rm.g_start() { panic!("ref: start {e:?}") }
        g.enter(fb);
        g
    }
    fn ch(&mut self, n: u128, d: u128) -> bool { chance(&mut self.r, n, d) }
    fn below(&mut self, n: usize) -> usize { self.r.below(n as u128) as usize }

    // ---------- types ----------
    fn tid(&mut self, t: &Type) -> usize {
        if let Some(i) = self.types.iter().position(|x| x == t) { return i }
        // parts first
        match *t {
            Type::Tuple { sized_fields, unsized_field, .. } => { for (_, f) in sized_fields.iter() { self.tid(&f); } if let Some(u) = unsized_field.extract() { self.tid(&u); } }
            Type::Array { elem, .. } | Type::Slice { elem } => { self.tid(&elem.extract()); }
            Type::Union { fields, .. } => for (_, f) in fields.iter() { self.tid(&f); },
            Type::Enum { variants, discriminant_ty, .. } => { self.tid(&Type::Int(discriminant_ty)); for v in variants.values() { self.tid(&v.ty); } }
            _ => {}
        }
        let mk = rt::ty_meta(t);
        let l = if mk == MK::None { rt::layout(&self.tgt, t) } else { (0, 1) };
        self.types.push(*t);
        self.lay.push((l.0, l.1, mk));
        self.types.len() - 1
    }
    fn sized_tid(&mut self) -> usize { loop { let i = self.below(self.types.len()); if self.lay[i].2 == MK::None { return i } } }
    fn small_tid(&mut self) -> usize { for _ in 0..6 { let i = self.sized_tid(); if self.lay[i].0 <= 48 { return i } } self.sized_tid() }
    fn tids(&self, f: impl Fn(&Type) -> bool) -> Vec<usize> { (0..self.types.len()).filter(|i| f(&self.types[*i])).collect() }

    // ---------- functions ----------
    fn new_fb(&mut self, idx: usize, args: Vec<usize>, ret: usize, cc: CallingConvention) -> FB {
        let mut ls = vec![self.types[ret]];
        for a in &args { ls.push(self.types[*a]) }
        let na = args.len();
        let k = if idx == 0 { self.w.nlocals + self.r.below(6) } else { self.r.below(5) };
        for _ in 0..k { let t = self.small_tid(); ls.push(self.types[t]) }
        let ptrs = self.tids(|t| matches!(t, Type::Ptr(_)));
        for _ in 0..if idx == 0 { self.w.ptr_locals } else { self.r.below(3) } { let t = *pick(&mut self.r, &ptrs); ls.push(self.types[t]) }
        let mut fb = FB::new(idx, ls, (1..=na).collect(), 0);
        fb.cc = cc;
        fb
    }
    fn enter(&mut self, fb: FB) {
        let mut c = vec![];
        for (i, t) in fb.locals.clone().iter().enumerate() { self.project(local(i), *t, i, 0, &mut c) }
        self.stack.push((fb, c));
    }
    fn project(&mut self, p: PlaceExpr, t: Type, root: usize, d: u32, out: &mut Vec<Cand>) {
        if out.len() > 220 { return }
        let ty = self.tid(&t);
        out.push(Cand { p, ty, root });
        if d >= 3 { return }
        match t {
            Type::Tuple { sized_fields, .. } => for (i, (_, f)) in sized_fields.iter().enumerate() { self.project(field(p, i), f, root, d + 1, out) },
            Type::Union { fields, .. } => for (i, (_, f)) in fields.iter().enumerate() { self.project(field(p, i), f, root, d + 1, out) },
            Type::Array { elem, count } => for i in 0..rt::n(count).min(3) {
                let it = int_t(self.ch(1, 2), *pick(&mut self.r, &[1, 4, 8]));
                self.project(index(p, cint(Int::from(i), it)), elem.extract(), root, d + 1, out)
            },
            Type::Enum { variants, .. } => for (k, v) in variants.iter() { self.project(downcast(p, k), v.ty, root, d + 1, out) },
            _ => {}
        }
    }
    fn fb(&mut self) -> &mut FB { &mut self.stack.last_mut().unwrap().0 }
    fn cands(&self, f: impl Fn(&Cand) -> bool) -> Vec<Cand> { self.stack.last().unwrap().1.iter().filter(|c| f(c)).cloned().collect() }
    fn live(&self, c: &Cand) -> bool { self.rm.is_live(lname(c.root)) }

    // ---------- places ----------
    fn place(&mut self, ty: usize, d: u32) -> Option<PlaceExpr> {
        if d > 0 && self.r.below(100) < self.w.deref { if let Some(p) = self.deref_place(ty, d - 1) { return Some(p) } }
        let allow_dead = self.ch(1, 60);
        let mut c = self.cands(|c| c.ty == ty);
        if !allow_dead { c.retain(|c| self.live(c)) }
        if c.is_empty() { return if d > 0 { self.deref_place(ty, d - 1) } else { None } }
        let c = pick(&mut self.r, &c).clone();
        // a variable index instead of a constant one
        if let PlaceExpr::Index { root, .. } = c.p {
            if d > 0 && self.ch(1, 3) {
                let ints = self.tids(|t| matches!(t, Type::Int(_)));
                let it = *pick(&mut self.r, &ints);
                if let Some(v) = self.value(it, d - 1) {
                    let v = if self.ch(2, 3) { binop(BinOp::Int(IntBinOp::BitAnd), v, cint(Int::from(1), self.types[it])) } else { v };
                    return Some(PlaceExpr::Index { root, index: rt::mk(v) })
                }
            }
        }
        Some(c.p)
    }
    fn peek(&mut self, p: PlaceExpr) -> Option<RPtr> {
        let mut m = self.rm.clone();
        match m.g_value(&load(p)) { Ok(V::Ptr(p)) => Some(p), _ => None }
    }
    fn fits(&self, p: &RPtr, ty: usize) -> bool {
        let (s, a, _) = self.lay[ty];
        if p.thin.addr % a != 0 { return false }
        if s == 0 { return true }
        let Some(pr) = p.thin.prov else { return false };
        let al = &self.rm.mem.allocs[pr.alloc];
        al.live && p.thin.addr >= al.base && p.thin.addr + s <= al.base + al.data.len() as i128
    }
    /// a place behind some pointer
    fn deref_place(&mut self, ty: usize, d: u32) -> Option<PlaceExpr> {
        let meta = self.lay[ty].2;
        let types = &self.types;
        let mut c = self.cands(|c| matches!(&types[c.ty], Type::Ptr(p) if rt::ptr_meta(p) == meta && !matches!(p, PtrType::FnPtr | PtrType::VTablePtr(_))));
        c.retain(|c| self.live(c));
        if c.is_empty() { return None }
        for _ in 0..3 {
            let c = pick(&mut self.r, &c).clone();
            let wild = self.ch(1, 40);
            let ok = wild || match self.peek(c.p) { Some(p) => meta != MK::None || self.fits(&p, ty), None => false };
            if ok {
                let _ = d;
                return Some(deref(load(c.p), self.types[ty]));
            }
        }
        None
    }
    /// an unsized place behind a wide pointer, projected to something sized if possible
    fn wide_place(&mut self) -> Option<(PlaceExpr, usize)> {
        let un: Vec<usize> = (0..self.types.len()).filter(|i| self.lay[*i].2 != MK::None).collect();
        if un.is_empty() { return None }
        let t = *pick(&mut self.r, &un);
        let p = self.deref_place(t, 0)?;
        self.down(p, t)
    }
    fn down(&mut self, p: PlaceExpr, t: usize) -> Option<(PlaceExpr, usize)> {
        match self.types[t] {
            Type::Slice { elem } => {
                let e = self.tid(&elem.extract());
                let i = self.r.below(3);
                Some((index(p, cint(Int::from(i as i128), int_t(false, 8))), e))
            }
            Type::Tuple { sized_fields, unsized_field, .. } => {
                let k = rt::n(sized_fields.len()) as usize;
                let i = self.below(k + 1);
                if i < k { let f = sized_fields.iter().nth(i).unwrap().1; let t = self.tid(&f); Some((field(p, i), t)) } else {
                    let u = unsized_field.extract()?;
                    let t = self.tid(&u);
                    self.down(field(p, k), t)
                }
            }
            _ => Some((p, t)),
        }
    }
    /// any place of any sized type
    fn any_place(&mut self, d: u32) -> Option<(PlaceExpr, usize)> {
        if self.r.below(100) < self.w.deref / 2 {
            if let Some(x) = self.wide_place() { if self.lay[x.1].2 == MK::None { return Some(x) } }
        }
        if self.ch(1, 5) { let t = self.small_tid(); return Some((self.place(t, d)?, t)) }
        let mut c = self.cands(|_| true);
        if !self.ch(1, 60) { c.retain(|c| self.live(c)) }
        if c.is_empty() { return None }
        let c = pick(&mut self.r, &c).clone();
        if self.r.below(100) < self.w.deref { if let Some(p) = self.place(c.ty, d) { return Some((p, c.ty)) } }
        Some((c.p, c.ty))
    }

    // ---------- values ----------
    fn value_any(&mut self, d: u32) -> Option<(ValueExpr, usize)> { let t = self.small_tid(); Some((self.value(t, d)?, t)) }
    pub fn value(&mut self, ty: usize, d: u32) -> Option<ValueExpr> {
        let t = self.types[ty];
        if d == 0 {
            if self.ch(2, 3) { if let Some(p) = self.place(ty, 0) { return Some(load(p)) } }
            return self.leaf(ty);
        }
        if self.r.below(40) < self.w.v_transmute as u128 {
            // a transmute from something of the same size
            let s = self.lay[ty].0;
            let mut o: Vec<usize> = (0..self.types.len()).filter(|i| self.lay[*i].2 == MK::None && *i != ty && self.lay[*i].0 == s).collect();
            if self.ch(1, 15) { let x = self.sized_tid(); o = vec![x] }
            if !o.is_empty() { let s = *pick(&mut self.r, &o); if let Some(v) = self.value(s, d - 1) { return Some(unop(UnOp::Cast(CastOp::Transmute(t)), v)) } }
        }
        if self.r.below(20) < self.w.v_load as u128 { if let Some(p) = self.place(ty, d) { return Some(load(p)) } }
        match t {
            Type::Int(it) => self.int_value(it, d),
            Type::Bool => self.bool_value(d),
            Type::Ptr(p) => self.ptr_value(p, d),
            Type::Tuple { sized_fields, unsized_field, .. } => {
                if unsized_field.extract().is_some() { return None }
                let mut vs = vec![];
                for (_, f) in sized_fields.iter() { let t = self.tid(&f); vs.push(self.value(t, d - 1)?) }
                Some(ValueExpr::Tuple(list(vs), t))
            }
            Type::Array { elem, count } => {
                let e = self.tid(&elem.extract());
                if rt::n(count) > 8 { return None }
                let mut vs = vec![];
                for _ in 0..rt::n(count) { vs.push(self.value(e, d - 1)?) }
                Some(ValueExpr::Tuple(list(vs), t))
            }
            Type::Union { fields, .. } => {
                let k = rt::n(fields.len()) as usize;
                let i = self.below(k);
                let f = self.tid(&fields.iter().nth(i).unwrap().1);
                let v = self.value(f, d - 1)?;
                Some(ValueExpr::Union { field: Int::from(i), expr: rt::mk(v), union_ty: t })
            }
            Type::Enum { variants, .. } => {
                let vs: Vec<(Int, Variant)> = variants.iter().collect();
                if vs.is_empty() { return None }
                let (k, v) = *pick(&mut self.r, &vs);
                let vt = self.tid(&v.ty);
                let data = self.value(vt, d - 1)?;
                Some(ValueExpr::Variant { discriminant: k, data: rt::mk(data), enum_ty: t })
            }
            _ => None,
        }
    }
    fn leaf(&mut self, ty: usize) -> Option<ValueExpr> {
        match self.types[ty] {
            Type::Int(it) => { let v = edge_int(&mut self.r, &it); Some(cbig(&v, Type::Int(it))) }
            Type::Bool => { let b = self.ch(1, 2); Some(cbool(b)) }
            Type::Ptr(p) => self.const_ptr(p),
            Type::Tuple { sized_fields, unsized_field, .. } if sized_fields.is_empty() && unsized_field.extract().is_none() => Some(ValueExpr::Tuple(List::new(), self.types[ty])),
            _ => self.value(ty, 1),
        }
    }
    fn const_ptr(&mut self, p: PtrType) -> Option<ValueExpr> {
        let t = Type::Ptr(p);
        if rt::ptr_meta(&p) != MK::None { return self.ptr_value(p, 1) }
        match p {
            PtrType::FnPtr => { let i = self.below(self.nfns); Some(cfn(i)) }
            PtrType::VTablePtr(tr) => {
                let o: Vec<usize> = (0..self.vts.len()).filter(|i| tname(self.vts[*i].0) == tr).collect();
                if o.is_empty() { return None }
                let i = *pick(&mut self.r, &o);
                Some(ValueExpr::Constant(Constant::VTablePointer(vname(i)), t))
            }
            _ => {
                let ng = rt::n(self.base.globals.len()) as usize;
                if ng > 0 && self.ch(self.w.v_global as u128, self.w.v_global as u128 + 2) {
                    let g = self.below(ng);
                    let len = rt::n(self.base.globals.get(gname(g)).unwrap().bytes.len());
                    let off = if self.ch(1, 2) { 0 } else { self.r.below(len as u128 + 1) as i128 };
                    return Some(ValueExpr::Constant(Constant::GlobalPointer(Relocation { name: gname(g), offset: size(off) }), t));
                }
                if self.ch(1, 2) { return self.ptr_value(p, 1) }
                let a = *pick(&mut self.r, &[0i128, 1, 8, 16, 4096, 1 << 12]);
                Some(ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::from(a)), t))
            }
        }
    }
    fn int_value(&mut self, it: IntType, d: u32) -> Option<ValueExpr> {
        let t = Type::Int(it);
        let ty = self.tid(&t);
        let w = self.w.clone();
        let us = t == rt::usize_ty(&self.tgt);
        let is = t == rt::isize_ty(&self.tgt);
        match weighted(&mut self.r, &[w.v_const, w.v_arith, w.v_cast, w.v_rel, w.v_meta * 2, w.v_meta * 2, 2]) {
            0 => self.leaf(ty),
            1 => {
                if self.ch(1, 6) {
                    let v = self.value(ty, d - 1)?;
                    return Some(unop(UnOp::Int(*pick(&mut self.r, &[IntUnOp::Neg, IntUnOp::BitNot])), v));
                }
                use IntBinOp::*;
                let op = *pick(&mut self.r, &[Add, Sub, Mul, AddUnchecked, SubUnchecked, MulUnchecked, Div, Rem, DivExact, Shl, Shr, ShlUnchecked, ShrUnchecked, BitAnd, BitOr, BitXor]);
                let a = self.value(ty, d - 1)?;
                let b = if matches!(op, Shl | Shr | ShlUnchecked | ShrUnchecked) {
                    let ints = self.tids(|t| matches!(t, Type::Int(_)));
                    let bt = *pick(&mut self.r, &ints);
                    if self.ch(2, 3) { let k = self.r.below(8 * rt::sz(it.size) as u128 + 2) as i128; if rt::fits(&match self.types[bt] { Type::Int(i) => i, _ => unreachable!() }, &BigInt::from(k)) { cint(Int::from(k), self.types[bt]) } else { self.value(bt, d - 1)? } } else { self.value(bt, d - 1)? }
                } else { self.value(ty, d - 1)? };
                Some(binop(BinOp::Int(op), a, b))
            }
            2 => {
                let ints = self.tids(|t| matches!(t, Type::Int(_)));
                let s = *pick(&mut self.r, &ints);
                let v = self.value(s, d - 1)?;
                Some(unop(UnOp::Cast(CastOp::IntToInt(it)), v))
            }
            3 if t == int_t(true, 1) => {
                let (a, b) = self.rel_operands(d)?;
                Some(binop(BinOp::Rel(RelOp::Cmp), a, b))
            }
            3 if t == int_t(false, 4) => {
                let ints = self.tids(|t| matches!(t, Type::Int(_)));
                let s = *pick(&mut self.r, &ints);
                let v = self.value(s, d - 1)?;
                Some(unop(UnOp::Int(IntUnOp::CountOnes), v))
            }
            4 if us => {
                let x = self.below(self.types.len());
                let ut = self.types[x];
                let op = if self.ch(1, 2) { UnOp::ComputeSize(ut) } else { UnOp::ComputeAlign(ut) };
                let meta = match self.lay[x].2 {
                    MK::None => unit_v(),
                    k => {
                        if self.ch(1, 2) {
                            let types = &self.types;
                            let mut c = self.cands(|c| matches!(&types[c.ty], Type::Ptr(p) if rt::ptr_meta(p) == k));
                            c.retain(|c| self.live(c));
                            if c.is_empty() { return None }
                            unop(UnOp::GetMetadata, load(pick(&mut self.r, &c).p))
                        } else { self.meta_value(k, d)? }
                    }
                };
                Some(unop(op, meta))
            }
            4 if is => {
                let ps = self.tids(|t| matches!(t, Type::Ptr(p) if rt::ptr_meta(p) == MK::None));
                let (a, b) = (*pick(&mut self.r, &ps), *pick(&mut self.r, &ps));
                let a = self.value(a, d - 1)?;
                let b = if self.ch(1, 2) { binop(BinOp::PtrOffset { inbounds: false }, a, cint(Int::from(self.r.below(9) as i128 - 4), int_t(true, 8))) } else { self.value(b, d - 1)? };
                Some(binop(BinOp::PtrOffsetFrom { inbounds: self.ch(3, 4), nonneg: self.ch(1, 4) }, a, b))
            }
            5 if us => {
                let types = &self.types;
                let mut c = self.cands(|c| matches!(&types[c.ty], Type::Ptr(p) if rt::ptr_meta(p) == MK::Count));
                c.retain(|c| self.live(c));
                if c.is_empty() { return self.leaf(ty) }
                Some(unop(UnOp::GetMetadata, load(pick(&mut self.r, &c).p)))
            }
            6 => {
                let types = &self.types;
                let mut c = self.cands(|c| matches!(types[c.ty], Type::Enum { discriminant_ty, .. } if discriminant_ty == it));
                c.retain(|c| self.live(c));
                if c.is_empty() { return self.leaf(ty) }
                let c = pick(&mut self.r, &c).clone();
                let p = if self.r.below(100) < self.w.deref / 2 { self.place(c.ty, d)? } else { c.p };
                Some(ValueExpr::GetDiscriminant { place: rt::mk(p) })
            }
            _ => self.leaf(ty),
        }
    }
    fn rel_operands(&mut self, d: u32) -> Option<(ValueExpr, ValueExpr)> {
        let o = self.tids(|t| matches!(t, Type::Int(_) | Type::Bool | Type::Ptr(_)));
        let t = *pick(&mut self.r, &o);
        let a = self.value(t, d - 1)?;
        let b = if self.ch(1, 4) { a } else { self.value(t, d - 1)? };
        Some((a, b))
    }
    fn bool_value(&mut self, d: u32) -> Option<ValueExpr> {
        if self.ch(1, 3) { let t = self.tid(&Type::Bool); return self.leaf(t) }
        let (a, b) = self.rel_operands(d)?;
        Some(binop(BinOp::Rel(*pick(&mut self.r, &[RelOp::Lt, RelOp::Gt, RelOp::Le, RelOp::Ge, RelOp::Eq, RelOp::Ne])), a, b))
    }
    fn meta_value(&mut self, k: MK, d: u32) -> Option<ValueExpr> {
        match k {
            MK::None => Some(unit_v()),
            MK::Count => {
                let t = rt::usize_ty(&self.tgt);
                if self.ch(4, 5) { Some(cint(Int::from(self.r.below(4) as i128), t)) } else { let i = self.tid(&t); self.value(i, d.saturating_sub(1)) }
            }
            MK::VTable(t) => self.const_ptr(PtrType::VTablePtr(t)),
        }
    }
    fn ptr_value(&mut self, p: PtrType, d: u32) -> Option<ValueExpr> {
        let w = self.w.clone();
        let k = rt::ptr_meta(&p);
        if matches!(p, PtrType::FnPtr) {
            if !self.vts.is_empty() && self.ch(1, 3) {
                let v = self.below(self.vts.len());
                let ms = self.traits[self.vts[v].0].clone();
                if !ms.is_empty() {
                    let tr = tname(self.vts[v].0);
                    let x = self.tid(&Type::Ptr(PtrType::VTablePtr(tr)));
                    let v = self.value(x, d - 1)?;
                    return Some(unop(UnOp::VTableMethodLookup(mname(*pick(&mut self.r, &ms))), v));
                }
            }
            return self.const_ptr(p);
        }
        if let PtrType::VTablePtr(_) = p {
            let types = &self.types;
            let mut c = self.cands(|c| matches!(&types[c.ty], Type::Ptr(q) if rt::ptr_meta(q) != MK::None && rt::meta_ty(&self.tgt, rt::ptr_meta(q)) == Type::Ptr(p)));
            c.retain(|c| self.live(c));
            if !c.is_empty() && self.ch(1, 2) { return Some(unop(UnOp::GetMetadata, load(pick(&mut self.r, &c).p))) }
            return self.const_ptr(p);
        }
        match weighted(&mut self.r, &[w.v_addr * 2, w.v_ptrop, w.v_meta + 1, w.v_const.min(2)]) {
            0 => {
                if k == MK::None {
                    // a place big enough for the pointee
                    let (s, a) = match rt::pointee(&p) { Some(pi) => match pi.layout { LayoutStrategy::Sized(s, a) => (rt::sz(s), rt::al(a)), _ => (0, 1) }, None => (0, 1) };
                    let wild = self.ch(1, 30);
                    for _ in 0..6 {
                        let Some((q, qt)) = self.any_place(d) else { continue };
                        if wild || (self.lay[qt].0 >= s && (s == 0 || self.lay[qt].0 == s || self.ch(1, 3)) && (a <= self.lay[qt].1 || self.ch(1, 20))) { return Some(addr_of(q, p)) }
                    }
                    None
                } else if self.ch(1, 3) {
                    let un: Vec<usize> = (0..self.types.len()).filter(|i| self.lay[*i].2 == k).collect();
                    if un.is_empty() { return None }
                    let t = *pick(&mut self.r, &un);
                    let q = self.deref_place(t, 0)?;
                    // possibly the tail of it
                    let q = match (self.types[t], self.ch(1, 2)) { (Type::Tuple { sized_fields, .. }, true) => field(q, rt::n(sized_fields.len()) as usize), _ => q };
                    Some(addr_of(q, p))
                } else { self.wide(p, d) }
            }
            1 if k == MK::None => {
                let x = self.tid(&Type::Ptr(p));
                let a = self.value(x, d - 1)?;
                let off = match self.r.below(4) {
                    0 => { let ints = self.tids(|t| matches!(t, Type::Int(_))); let i = *pick(&mut self.r, &ints); self.value(i, d - 1)? }
                    _ => cint(Int::from(self.r.below(13) as i128 - 4), int_t(true, *pick(&mut self.r, &[1, 4, 8]))),
                };
                Some(binop(BinOp::PtrOffset { inbounds: self.ch(1, 2) }, a, off))
            }
            2 if p == raw_p() => {
                let ps = self.tids(|t| matches!(t, Type::Ptr(_)));
                let x = *pick(&mut self.r, &ps);
                let a = self.value(x, d - 1)?;
                Some(unop(UnOp::GetThinPointer, a))
            }
            2 => self.wide(p, d),
            _ => if k == MK::None && d < 3 { self.const_ptr(p) } else { None },
        }
    }
    fn wide(&mut self, p: PtrType, d: u32) -> Option<ValueExpr> {
        let k = rt::ptr_meta(&p);
        let meta = self.meta_value(k, d)?;
        let thin = if k == MK::None || self.ch(1, 6) {
            let ps = self.tids(|t| matches!(t, Type::Ptr(q) if rt::ptr_meta(q) == MK::None && !matches!(q, PtrType::FnPtr | PtrType::VTablePtr(_))));
            let x = *pick(&mut self.r, &ps);
            self.value(x, d - 1)?
        } else { let (q, _) = self.any_place(d)?; addr_of(q, raw_p()) };
        Some(binop(BinOp::ConstructWidePointer(p), thin, meta))
    }

    // ---------- trying things ----------
    fn finish(&mut self, why: &'static str) { self.ended = Some(why) }
    fn try_stmt(&mut self, s: Statement) -> bool {
        let mut m = self.rm.clone();
        match m.g_stmt(&s) {
            Ok(()) => { self.rm = m; self.fb().s(s); self.accepted += 1; true }
            Err(e) if retry_err(&e) && self.accept_ub(&e) => { self.fb().s(s); self.finish("ub"); true }
            Err(_) => { self.rejected += 1; false }
        }
    }
    /// let other threads run until the current one can continue
    fn unblock(m: &mut RMach, me: usize, r: &mut Rng) -> Result<(), Stop> {
        for _ in 0..400 {
            let en = m.enabled();
            if en.contains(&me) { m.set_thread(me); return Ok(()) }
            if en.is_empty() { return Err(Stop::Deadlock) }
            let t = *pick(r, &en);
            m.g_step(t)?;
        }
        Err(Stop::Skip("long".into()))
    }
    /// returns whether it was accepted; `fresh`: function that is entered for the first time
    fn try_term(&mut self, t: Terminator, next: usize, fresh: Option<FB>) -> bool {
        let mut m = self.rm.clone();
        if let Some(f) = &fresh { m.prog.functions.insert(fname(f.idx), f.build()); }
        let d0 = m.depth();
        let me = m.cur_thread();
        let mut r2 = self.r.clone();
        self.r.next();
        let mut go = || -> Result<(), Stop> {
            m.g_term(&t)?;
            if fresh.is_none() && m.depth() > d0 {
                for _ in 0..300 { if m.depth() <= d0 { break } m.g_step(me)?; G::unblock(&mut m, me, &mut r2)?; }
                if m.depth() > d0 { return Err(Stop::Skip("long call".into())) }
            }
            G::unblock(&mut m, me, &mut r2)
        };
        match go() {
            Ok(()) => {
                self.rm = m;
                self.accepted += 1;
                self.fb().t(t);
                let d1 = self.rm.depth();
                if let Some(f) = fresh { self.enter(f); return true }
                if d1 < d0 { self.leave(); return true }
                let (b, pc) = self.rm.frame_pos();
                assert!(pc == 0, "ref: position");
                let _ = next;
                let b = b.0.get_internal() as usize;
                self.fb().cur = b;
                true
            }
            Err(e) if self.rm_end(&e) => { self.fb().t(t); if let Some(f) = fresh { self.rm.prog.functions.insert(fname(f.idx), f.build()); self.done.insert(f.idx, f); } self.finish("end"); true }
            Err(_) => { self.rejected += 1; false }
        }
    }
    fn accept_ub(&mut self, e: &Stop) -> bool {
        if self.left >= self.ub_at { return false }
        // the usual suspects would drown everything else
        let d = match e { Stop::Ub(m) if m.contains("invalid representation") || m.contains("unaligned reference") || m.contains("dead local") => 20, Stop::Deadlock => 4, _ => 2 };
        self.ch(1, d)
    }
    fn rm_end(&mut self, e: &Stop) -> bool {
        match e {
            Stop::Ub(_) | Stop::Deadlock => self.accept_ub(e),
            _ => false,
        }
    }
    fn leave(&mut self) {
        let (fb, _) = self.stack.pop().unwrap();
        self.seal(fb);
        let (b, _) = self.rm.frame_pos();
        let b = b.0.get_internal() as usize;
        self.fb().cur = b;
    }
    fn seal(&mut self, mut fb: FB) {
        let n = fb.blocks.len();
        for i in 0..n {
            if fb.blocks[i].term.is_some() { continue }
            let k = fb.blocks[i].kind;
            let t = match self.r.below(6) {
                0 if k == BbKind::Regular => Terminator::Return,
                1 if k == BbKind::Cleanup => Terminator::ResumeUnwind,
                2 | 3 => intrinsic(IntrinsicOp::Exit, vec![], unit_place(), None),
                4 => { let same: Vec<usize> = (0..n).filter(|j| fb.blocks[*j].kind == k).collect(); Terminator::Goto(bname(*pick(&mut self.r, &same))) }
                _ => Terminator::Unreachable,
            };
            fb.blocks[i].term = Some(t);
        }
        self.rm.prog.functions.insert(fname(fb.idx), fb.build());
        self.done.insert(fb.idx, fb);
    }

    // ---------- steps ----------
    fn step(&mut self) -> Option<bool> {
        let w = self.w.clone();
        let d = self.w.depth;
        let kind = { let c = self.fb().cur; self.fb().blocks[c].kind };
        let top = self.stack.len() == 1;
        let k = weighted(&mut self.r, &[w.assign, w.mention, w.setdiscr, w.validate, w.deinit, w.live, w.dead, w.goto, w.switch, w.call, w.ret, w.unwind, w.intr]);
        Some(match k {
            0 => {
                let (p, t) = self.any_place(2)?;
                let k = 1 + self.r.below(d as u128) as u32;
                let v = self.value(t, k)?;
                self.try_stmt(assign(p, v))
            }
            1 => { let (p, _) = if self.ch(1, 3) { self.wide_place()? } else { self.any_place(2)? }; self.try_stmt(Statement::PlaceMention(p)) }
            2 => {
                let e = self.tids(|t| matches!(t, Type::Enum { .. }));
                if e.is_empty() { return None }
                let e = *pick(&mut self.r, &e);
                let Type::Enum { variants, .. } = self.types[e] else { return None };
                let vs: Vec<Int> = variants.keys().collect();
                if vs.is_empty() { return None }
                let p = self.place(e, 2)?;
                let value = *pick(&mut self.r, &vs);
                self.try_stmt(Statement::SetDiscriminant { destination: p, value })
            }
            3 => { let (p, _) = self.any_place(2)?; let fn_entry = self.ch(1, 3); self.try_stmt(Statement::Validate { place: p, fn_entry }) }
            4 => { let (p, _) = self.any_place(2)?; self.try_stmt(Statement::Deinit { place: p }) }
            5 | 6 => {
                let n = self.fb().locals.len();
                let x = self.below(n);
                if k == 5 { if self.rm.is_live(lname(x)) && !self.ch(1, 12) { return None } self.try_stmt(Statement::StorageLive(lname(x))) } else {
                    if self.fb().args.contains(&x) || self.fb().ret == x { return None }
                    if !self.rm.is_live(lname(x)) && !self.ch(1, 12) { return None }
                    self.try_stmt(Statement::StorageDead(lname(x)))
                }
            }
            7 => { let b = self.fb().block(kind); self.try_term(Terminator::Goto(bname(b)), b, None) }
            8 => {
                let ints = self.tids(|t| matches!(t, Type::Int(_)));
                let t = *pick(&mut self.r, &ints);
                let Type::Int(it) = self.types[t] else { return None };
                let v = self.value(t, 2)?;
                let val = match self.rm.clone().g_value(&v) { Ok(V::Int(i)) => i, _ => BigInt::from(0) };
                let nb = self.fb().block(kind);
                let fb = if self.ch(1, 2) { nb } else { self.fb().block(kind) };
                let mut cases = vec![];
                if self.ch(2, 3) { cases.push((int_of(&val), bname(nb))) }
                for _ in 0..self.r.below(3) {
                    let x = if self.ch(1, 2) { rt::wrap(&it, &(&val + BigInt::from(self.r.below(5) as i64 - 2))) } else { edge_int(&mut self.r, &it) };
                    if x == val { continue }
                    let b = self.fb().block(kind);
                    cases.push((int_of(&x), bname(b)));
                }
                self.try_term(Terminator::Switch { value: v, cases: map(cases), fallback: bname(fb) }, nb, None)
            }
            9 => return self.call(kind),
            10 => {
                if top && !self.ch(1, 30) { return None }
                if self.ch(1, 2) { let rt = self.fb().ret; let t = self.fb().locals[rt]; let x = self.tid(&t); if let Some(v) = self.value(x, 2) { self.try_stmt(assign(local(rt), v)); if self.ended.is_some() { return Some(true) } } }
                match kind {
                    BbKind::Regular => self.try_term(Terminator::Return, 0, None),
                    BbKind::Cleanup => self.try_term(Terminator::ResumeUnwind, 0, None),
                    BbKind::Catch => { let b = self.fb().block(BbKind::Regular); self.try_term(Terminator::StopUnwind(bname(b)), b, None) }
                    BbKind::Terminate => return None,
                }
            }
            11 => match kind {
                BbKind::Regular => {
                    let raw = self.tid(&raw_t());
                    let v = self.value(raw, 2)?;
                    let bk = if self.ch(1, 2) { BbKind::Cleanup } else { BbKind::Catch };
                    let b = self.fb().block(bk);
                    self.try_term(Terminator::StartUnwind { unwind_payload: v, unwind_block: bname(b) }, b, None)
                }
                BbKind::Cleanup => self.try_term(Terminator::ResumeUnwind, 0, None),
                BbKind::Catch => { let b = self.fb().block(BbKind::Regular); self.try_term(Terminator::StopUnwind(bname(b)), b, None) }
                BbKind::Terminate => return None,
            },
            _ => return self.intr(kind),
        })
    }
    fn arg(&mut self, t: usize) -> Option<ArgumentExpr> {
        if self.ch(1, 3) {
            let p = if self.ch(1, 6) { self.place(t, 2) } else { let mut c = self.cands(|c| c.ty == t); c.retain(|c| self.live(c)); if c.is_empty() { None } else { Some(pick(&mut self.r, &c).p) } };
            if let Some(p) = p { return Some(ArgumentExpr::InPlace(p)) }
        }
        Some(ArgumentExpr::ByValue(self.value(t, 2)?))
    }
    fn call(&mut self, kind: BbKind) -> Option<bool> {
        let fresh: Vec<usize> = (1..self.nfns).filter(|i| !self.done.contains_key(i) && !self.stack.iter().any(|s| s.0.idx == *i)).collect();
        let mut old: Vec<usize> = self.done.keys().copied().collect();
        old.retain(|i| *i != 0);
        let use_fresh = old.is_empty() || (!fresh.is_empty() && self.stack.len() < 4 && self.ch(1, 2));
        let (f, args, ret, cc, fb) = if use_fresh {
            if fresh.is_empty() || self.stack.len() >= 4 { return None }
            let f = fresh[0];
            let na = self.r.below(4);
            let args: Vec<usize> = (0..na).map(|_| if self.ch(1, 2) { let ps = self.tids(|t| matches!(t, Type::Ptr(_))); *pick(&mut self.r, &ps) } else { self.small_tid() }).collect();
            let ret = if self.ch(1, 2) { self.tid(&unit_t()) } else { self.small_tid() };
            let cc = if self.ch(1, 4) { CallingConvention::C } else { CallingConvention::Rust };
            let fb = self.new_fb(f, args.clone(), ret, cc);
            (f, args, ret, cc, Some(fb))
        } else {
            let f = *pick(&mut self.r, &old);
            let fb = self.done[&f].clone();
            let args = fb.args.iter().map(|a| self.tid(&fb.locals[*a])).collect();
            let ret = self.tid(&fb.locals[fb.ret]);
            (f, args, ret, fb.cc, None)
        };
        let noise = self.r.below(100) < self.w.abi_noise;
        let mut vs = vec![];
        for a in &args {
            let a = if (noise || self.ch(1, 12)) && self.ch(1, 2) {
                // something of the same size
                let s = self.lay[*a].0;
                let o: Vec<usize> = (0..self.types.len()).filter(|i| self.lay[*i].2 == MK::None && self.lay[*i].0 == s).collect();
                *pick(&mut self.r, &o)
            } else { *a };
            vs.push(self.arg(a)?);
        }
        if noise && self.ch(1, 4) { vs.pop(); }
        let cc = if noise && self.ch(1, 3) { CallingConvention::C } else { cc };
        let rty = if noise && self.ch(1, 3) { self.small_tid() } else { ret };
        let rp = if self.types[rty] == unit_t() && self.ch(1, 2) { unit_place() } else { self.place(rty, 1)? };
        let callee = if self.ch(1, 3) {
            let x = self.tid(&Type::Ptr(PtrType::FnPtr));
            let v = self.value(x, 2)?;
            // only if it is the right function
            match (self.rm.clone().g_value(&v), self.rm.clone().g_value(&cfn(f))) { (Ok(a), Ok(b)) if a == b => v, _ => cfn(f) }
        } else { cfn(f) };
        let nb = self.fb().block(kind);
        let unwind = match kind {
            BbKind::Catch => None,
            _ if self.ch(1, 4) => None,
            BbKind::Regular => { let bk = if self.ch(1, 2) { BbKind::Cleanup } else { BbKind::Catch }; Some(self.fb().block(bk)) }
            _ => Some(self.fb().block(BbKind::Terminate)),
        };
        let next = if self.ch(1, 30) { None } else { Some(bname(nb)) };
        let t = Terminator::Call { callee, calling_convention: cc, arguments: list(vs), ret: rp, next_block: next, unwind_block: unwind.map(bname) };
        Some(self.try_term(t, nb, fb))
    }
    fn intr(&mut self, kind: BbKind) -> Option<bool> {
        let w = self.w.clone();
        let k = weighted(&mut self.r, &[w.i_print, w.i_alloc, w.i_dealloc, w.i_assume, w.i_raweq, w.i_atomic, w.i_lock, w.i_spawn, w.i_join, w.i_expose, w.i_payload]);
        use IntrinsicOp as I;
        let tgt = self.tgt;
        let us = self.tid(&rt::usize_ty(&tgt));
        let raw = self.tid(&raw_t());
        let unit = self.tid(&unit_t());
        let noisy = self.ch(1, 60);
        let (op, mut args, mut rty): (I, Vec<ValueExpr>, usize) = match k {
            0 => {
                let o = self.tids(|t| matches!(t, Type::Int(_) | Type::Bool));
                let mut v = vec![];
                for _ in 0..1 + self.r.below(2) { let t = *pick(&mut self.r, &o); v.push(self.value(t, 3)?) }
                (if self.ch(1, 5) { I::PrintStderr } else { I::PrintStdout }, v, unit)
            }
            1 => {
                let (s, a) = if self.ch(2, 3) { let t = self.small_tid(); self.heap_hint.push(t); (self.lay[t].0, self.lay[t].1) } else { (self.r.below(24) as i128, *pick(&mut self.r, &[1, 2, 4, 8, 16])) };
                let a = if self.ch(1, 25) { *pick(&mut self.r, &[0i128, 3, -1, 12]) } else { a };
                let s = if self.ch(1, 25) { *pick(&mut self.r, &[-1i128, tgt.imax(), tgt.imax() + 1]) } else { s };
                let st = if self.ch(1, 6) { int_t(true, 8) } else { int_t(false, 8) };
                let sv = rt::wrap(&match st { Type::Int(i) => i, _ => unreachable!() }, &BigInt::from(s));
                (I::Allocate, vec![cbig(&sv, st), cint(Int::from(a), int_t(true, 4))], if self.ch(1, 8) { let ps = self.tids(|t| matches!(t, Type::Ptr(_))); *pick(&mut self.r, &ps) } else { raw })
            }
            2 => {
                let types = &self.types;
                let mut c = self.cands(|c| matches!(&types[c.ty], Type::Ptr(p) if rt::ptr_meta(p) == MK::None));
                c.retain(|c| self.live(c));
                if c.is_empty() { return None }
                let mut best = None;
                for _ in 0..4 {
                    let c = pick(&mut self.r, &c).clone();
                    if let Some(p) = self.peek(c.p) {
                        if let Some(pr) = p.thin.prov { let a = &self.rm.mem.allocs[pr.alloc]; best = Some((c.p, a.data.len() as i128, a.align)); if a.kind == crate::rf::mem::Kind::Heap && a.live && a.base == p.thin.addr { break } }
                    }
                }
                let (p, s, a) = best?;
                let s = if self.ch(1, 12) { s + 1 } else { s };
                let a = if self.ch(1, 12) { 2 * a } else { a };
                (I::Deallocate, vec![load(p), cint(Int::from(s), int_t(false, 8)), cint(Int::from(a), int_t(false, 8))], unit)
            }
            3 => { let b = self.tid(&Type::Bool); (I::Assume, vec![self.value(b, 2)?], unit) }
            4 => {
                let o = self.tids(|t| matches!(t, Type::Ptr(PtrType::Ref { pointee, .. }) if matches!(pointee.layout, LayoutStrategy::Sized(..))));
                if o.is_empty() { return None }
                let t = *pick(&mut self.r, &o);
                let b = self.tid(&Type::Bool);
                (I::RawEq, vec![self.value(t, 2)?, self.value(t, 2)?], b)
            }
            5 => {
                let ints = self.tids(|t| matches!(t, Type::Int(_)));
                let t = if self.ch(2, 3) { *pick(&mut self.r, &ints) } else { let o: Vec<usize> = (0..self.types.len()).filter(|i| matches!(self.lay[*i], (1 | 2 | 4 | 8, _, MK::None))).collect(); *pick(&mut self.r, &o) };
                let p = self.place(t, 2)?;
                let ptr = addr_of(p, raw_p());
                match self.r.below(4) {
                    0 => (I::AtomicStore, vec![ptr, self.value(t, 2)?], unit),
                    1 => (I::AtomicLoad, vec![ptr], t),
                    2 => { let t = *pick(&mut self.r, &ints); let p = self.place(t, 2)?; let cur = if self.ch(1, 2) { load(p) } else { self.value(t, 1)? }; (I::AtomicCompareExchange, vec![addr_of(p, raw_p()), cur, self.value(t, 1)?], t) }
                    _ => { let t = *pick(&mut self.r, &ints); let p = self.place(t, 2)?; (I::AtomicFetchAndOp(if self.ch(1, 2) { IntBinOp::Add } else { IntBinOp::Sub }), vec![addr_of(p, raw_p()), self.value(t, 1)?], t) }
                }
            }
            6 => {
                let ints = self.tids(|t| matches!(t, Type::Int(_)));
                let it = *pick(&mut self.r, &ints);
                match self.r.below(3) {
                    0 => (I::Lock(IntrinsicLockOp::Create), vec![], it),
                    x => {
                        let n = self.rm.nlocks() as u128 + if self.ch(1, 10) { 1 } else { 0 };
                        if n == 0 { return None }
                        let v = if self.ch(1, 20) { cint(Int::from(-1), int_t(true, 4)) } else { cint(Int::from(self.r.below(n) as i128), int_t(false, 4)) };
                        (I::Lock(if x == 1 { IntrinsicLockOp::Acquire } else { IntrinsicLockOp::Release }), vec![v], unit)
                    }
                }
            }
            7 => {
                if self.rm.nthreads() > 3 { return None }
                let fs: Vec<usize> = self.done.iter().filter(|(_, f)| f.idx != 0 && f.args.len() == 1 && f.locals[f.ret] == unit_t() && matches!(f.locals[f.args[0]], Type::Ptr(p) if rt::ptr_meta(&p) == MK::None)).map(|x| *x.0).collect();
                if fs.is_empty() { return None }
                let f = *pick(&mut self.r, &fs);
                let at = { let fb = &self.done[&f]; fb.locals[fb.args[0]] };
                let at = self.tid(&at);
                let ints = self.tids(|t| matches!(t, Type::Int(_)));
                let v = self.value(at, 2)?;
                (I::Spawn, vec![cfn(f), v], *pick(&mut self.r, &ints))
            }
            8 => {
                let n = self.rm.nthreads() as u128 + if self.ch(1, 10) { 1 } else { 0 };
                let v = if self.ch(1, 20) { cint(Int::from(-1), int_t(true, 4)) } else { cint(Int::from(self.r.below(n) as i128), int_t(false, 1)) };
                (I::Join, vec![v], unit)
            }
            9 => {
                let ps = self.tids(|t| matches!(t, Type::Ptr(p) if rt::ptr_meta(p) == MK::None));
                let t = *pick(&mut self.r, &ps);
                if self.ch(1, 2) {
                    (I::PointerExposeProvenance, vec![self.value(t, 2)?], us)
                } else {
                    // the address comes from a pointer in the program
                    let v = self.value(t, 2)?;
                    (I::PointerWithExposedProvenance, vec![unop(UnOp::Cast(CastOp::Transmute(self.types[us])), v)], if self.ch(1, 6) { t } else { raw })
                }
            }
            _ => (I::GetUnwindPayload, vec![], if self.ch(1, 6) { let ps = self.tids(|t| matches!(t, Type::Ptr(_))); *pick(&mut self.r, &ps) } else { raw }),
        };
        if noisy {
            match self.r.below(3) {
                0 => { args.pop(); }
                1 => { let x = self.value_any(1)?.0; args.push(x) }
                _ => rty = self.small_tid(),
            }
        }
        let rp = if rty == unit && self.ch(2, 3) { unit_place() } else { self.place(rty, 1)? };
        let nb = self.fb().block(kind);
        let next = if self.ch(1, 60) { None } else { Some(nb) };
        Some(self.try_term(intrinsic(op, args, rp, next), nb, None))
    }

    pub fn run(mut self) -> (Program, u64, u64) {
        // make most locals live and initialised first
        let mut budget = self.w.budget;
        self.left = budget;
        if self.r.below(100) < self.w.ub { self.ub_at = self.below(budget + 1) }
        self.warm();
        while budget > 0 && self.ended.is_none() {
            budget -= 1;
            self.left = budget;
            let depth = self.stack.len();
            for _ in 0..6 { if let Some(true) = self.step() { break } }
            if self.ended.is_none() && self.stack.len() > depth { self.warm() }
        }
        if self.ended.is_none() {
            // clean up the heap most of the time
            if self.r.below(100) >= self.w.leak { self.free_all() }
            if self.ended.is_none() {
                let t = if self.ch(1, 25) { intrinsic(IntrinsicOp::Abort, vec![], unit_place(), None) } else { intrinsic(IntrinsicOp::Exit, vec![], unit_place(), None) };
                self.fb().t(t);
            }
        }
        while let Some((fb, _)) = self.stack.pop() { self.seal(fb) }
        let mut p = self.base;
        for (i, f) in &self.done { p.functions.insert(fname(*i), f.build()); }
        (p, self.accepted, self.rejected)
    }
    fn warm(&mut self) {
        let n = self.fb().locals.len();
        let (args, ret) = { let f = self.fb(); (f.args.clone(), f.ret) };
        for x in 0..n {
            if args.contains(&x) || x == ret {
                if args.contains(&x) && self.ch(1, 2) { self.try_stmt(Statement::Validate { place: local(x), fn_entry: true }); }
            } else if self.ch(9, 10) && !self.rm.is_live(lname(x)) { self.try_stmt(Statement::StorageLive(lname(x))); }
            if self.ended.is_some() { return }
        }
        for x in 0..n {
            if args.contains(&x) || !self.rm.is_live(lname(x)) { continue }
            if self.ch(4, 5) {
                let t = self.fb().locals[x];
                let t = self.tid(&t);
                for _ in 0..3 { if let Some(v) = self.value(t, 2) { if self.try_stmt(assign(local(x), v)) { break } } }
                if self.ended.is_some() { return }
            }
        }
    }
    fn free_all(&mut self) {
        // only what is still reachable through a pointer variable of this function
        for _ in 0..6 {
            let live = self.rm.heap_live();
            if live.is_empty() { return }
            let types = &self.types;
            let mut c = self.cands(|c| matches!(&types[c.ty], Type::Ptr(p) if rt::ptr_meta(p) == MK::None));
            c.retain(|c| self.live(c));
            let mut found = None;
            for c in c { if let Some(p) = self.peek(c.p) { if let Some(pr) = p.thin.prov { if let Some(h) = live.iter().find(|h| h.0.alloc == pr.alloc && h.1 == p.thin.addr) { found = Some((c.p, h.2, h.3)); break } } } }
            let Some((p, s, a)) = found else { return };
            let k = { let c = self.fb().cur; self.fb().blocks[c].kind };
            let nb = self.fb().block(k);
            self.try_term(intrinsic(IntrinsicOp::Deallocate, vec![load(p), cint(Int::from(s), int_t(false, 8)), cint(Int::from(a), int_t(false, 8))], unit_place(), Some(nb)), nb, None);
            if self.ended.is_some() { return }
        }
    }
}
#[allow(unused)]
fn _u(_: TS) {}
