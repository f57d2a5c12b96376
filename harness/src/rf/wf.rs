//! Reference well-formedness: which programs a machine must accept.
use super::mem::*;
use super::ty::*;
use minirust_rs::lang as l;
use minirust_rs::libspecr::prelude as sp;
use minirust_rs::mem as m;

pub type W<T = ()> = Result<T, String>;
fn no<T>(s: &str) -> W<T> { Err(s.into()) }
fn must(b: bool, s: &str) -> W { if b { Ok(()) } else { no(s) } }

/// `relaxed`: without the checks which the code is known not to make (known-findings.txt)
pub struct Wf { pub p: l::Program, pub t: Tgt, pub relaxed: bool }
struct Fx<'a> { w: &'a Wf, f: l::Function }

thread_local! { pub static ZST_ANYWHERE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn check(p: l::Program, t: Tgt, relaxed: bool) -> W { Wf { p, t, relaxed }.program() }

fn pow2(x: i128) -> bool { x > 0 && x & (x - 1) == 0 }

impl Wf {
    fn valid_size(&self, s: i128) -> bool { s >= 0 && s <= self.t.imax() }
    fn int(&self, i: &l::IntType) -> W { must(pow2(sz(i.size)), "int size") }
    fn tr(&self, t: m::TraitName) -> W { must(self.p.traits.contains_key(t), "no such trait") }
    fn meta(&self, k: m::PointerMetaKind) -> W { if let m::PointerMetaKind::VTablePointer(t) = k { self.tr(t) } else { Ok(()) } }
    fn head(&self, h: &m::TupleHeadLayout) -> W {
        must(self.valid_size(sz(h.end)), "head end")?;
        if let Some(p) = h.packed_align { must(al(h.align) <= al(p), "packed align")? }
        Ok(())
    }
    fn lay(&self, lay: &m::LayoutStrategy) -> W {
        match *lay {
            m::LayoutStrategy::Sized(s, _) | m::LayoutStrategy::Slice(s, _) => must(self.valid_size(sz(s)), "size"),
            m::LayoutStrategy::TraitObject(t) => self.tr(t),
            m::LayoutStrategy::Tuple { head, tail } => {
                self.head(&head)?;
                let tail = tail.extract();
                self.lay(&tail)?;
                must(lay_meta(&tail) != MK::None, "sized tail")
            }
        }
    }
    fn cells(&self, c: &sp::List<(sp::Size, sp::Size)>, size: i128) -> W {
        let mut end = 0;
        for (o, s) in c.iter() {
            must(sz(o) >= end, "cells order")?;
            end = sz(o) + sz(s);
        }
        must(end <= size, "cells size")
    }
    fn cell_strategy(&self, c: &m::UnsafeCellStrategy, lay: &m::LayoutStrategy) -> W {
        use m::{LayoutStrategy as L, UnsafeCellStrategy as C};
        match (*c, *lay) {
            (C::Sized { cells }, L::Sized(s, _)) => self.cells(&cells, sz(s)),
            (C::Slice { element_cells }, L::Slice(s, _)) => self.cells(&element_cells, sz(s)),
            (C::TraitObject, L::TraitObject(_)) => Ok(()),
            (C::Tuple { head_cells, tail_cells }, L::Tuple { head, tail }) => {
                self.cells(&head_cells, sz(head.end))?;
                self.cell_strategy(&tail_cells.extract(), &tail.extract())
            }
            _ => no("cell strategy kind"),
        }
    }
    pub fn ptr(&self, p: &m::PtrType) -> W {
        match *p {
            m::PtrType::Ref { pointee, .. } | m::PtrType::Box { pointee } => { self.lay(&pointee.layout)?; self.cell_strategy(&pointee.unsafe_cells, &pointee.layout) }
            m::PtrType::Raw { meta_kind } => if self.relaxed { Ok(()) } else { self.meta(meta_kind) },
            m::PtrType::FnPtr => Ok(()),
            m::PtrType::VTablePtr(t) => self.tr(t),
        }
    }
    /// size and alignment, for sized types
    fn sized(&self, t: &l::Type) -> W<(i128, i128)> { if is_sized(t) { Ok(layout(&self.t, t)) } else { no("unsized type") } }
    pub fn ty(&self, t: &l::Type) -> W {
        use l::Type::*;
        match *t {
            Int(i) => { self.int(&i)?; must(self.valid_size(sz(i.size)), "int too large")?; }
            Bool => (),
            Ptr(p) => self.ptr(&p)?,
            Tuple { sized_fields, sized_head_layout: h, unsized_field } => {
                let mut fs = vec![];
                for (o, f) in sized_fields.iter() {
                    self.ty(&f)?;
                    fs.push((sz(o), self.sized(&f)?.0));
                }
                // no two fields share a byte, and empty fields do not lie inside of others
                if ZST_ANYWHERE.with(|x| x.get()) { fs.retain(|x| x.1 > 0) }
                fs.sort_by_key(|x| x.0);
                let mut end = 0;
                for (o, s) in fs { must(o >= end, "overlap")?; end = o + s; }
                if let Some(u) = unsized_field.extract() {
                    self.ty(&u)?;
                    must(!is_sized(&u), "sized tail")?;
                } else { must(h.packed_align.is_none(), "packed sized tuple")? }
                self.head(&h)?;
                must(sz(h.end) >= end, "head end")?;
                if unsized_field.extract().is_none() { must(self.valid_size(layout(&self.t, t).0), "size")? }
            }
            Array { elem, count } => {
                let e = elem.extract();
                self.ty(&e)?;
                let (s, a) = self.sized(&e)?;
                must(n(count) >= 0, "negative count")?;
                let total = mul(s, n(count));
                must(self.valid_size(total) && total % a == 0, "array size")?;
            }
            Slice { elem } => {
                let e = elem.extract();
                self.ty(&e)?;
                let (s, a) = self.sized(&e)?;
                must(s % a == 0, "slice elem")?;
            }
            Union { fields, chunks, size, align } => {
                for (o, f) in fields.iter() {
                    self.ty(&f)?;
                    must(sz(o) + self.sized(&f)?.0 <= sz(size), "union field")?;
                }
                let mut end = 0;
                for (o, s) in chunks.iter() { must(sz(o) >= end, "chunk order")?; end = sz(o) + sz(s); }
                must(end <= sz(size), "chunks")?;
                must(self.valid_size(sz(size)) && sz(size) % al(align) == 0, "union size")?;
            }
            Enum { variants, discriminant_ty, discriminator, size, align } => {
                if !self.relaxed { self.int(&discriminant_ty)?; }
                for (d, v) in variants.iter() {
                    must(fits(&discriminant_ty, &big(d)), "discriminant value")?;
                    self.ty(&v.ty)?;
                    let (s, a) = self.sized(&v.ty)?;
                    must(s == sz(size), "variant size")?;
                    must(a <= al(align), "variant align")?;
                    for (o, (it, val)) in v.tagger.iter() {
                        self.int(&it)?;
                        must(fits(&it, &big(val)), "tag value")?;
                        must(sz(o) + sz(it.size) <= sz(size), "tag range")?;
                    }
                }
                self.discriminator(&discriminator, sz(size), &variants)?;
                must(self.valid_size(sz(size)) && sz(size) % al(align) == 0, "enum size")?;
            }
            TraitObject(t) => self.tr(t)?,
        }
        Ok(())
    }
    fn discriminator(&self, d: &l::Discriminator, size: i128, vs: &sp::Map<sp::Int, l::Variant>) -> W {
        match *d {
            l::Discriminator::Known(k) => must(vs.iter().any(|(x, _)| x == k), "unknown discriminant"),
            l::Discriminator::Invalid => Ok(()),
            l::Discriminator::Branch { offset, value_type, fallback, children } => {
                self.int(&value_type)?;
                must(sz(offset) + sz(value_type.size) <= size, "branch range")?;
                self.discriminator(&fallback.extract(), size, vs)?;
                let ks: Vec<_> = children.iter().collect();
                for (i, ((s, e), d)) in ks.iter().enumerate() {
                    let (s, e) = (big(*s), big(*e));
                    must(fits(&value_type, &s) && fits(&value_type, &(&e - 1)) && s < e, "branch bounds")?;
                    for (j, ((s2, e2), _)) in ks.iter().enumerate() {
                        must(i == j || big(*e2) <= s || big(*s2) >= e, "branch overlap")?;
                    }
                    self.discriminator(d, size, vs)?;
                }
                Ok(())
            }
        }
    }
    fn reloc(&self, r: &l::Relocation) -> W {
        let Some(g) = self.p.globals.get(r.name) else { return no("no such global") };
        must(sz(r.offset) <= n(g.bytes.len()), "relocation offset")
    }

    fn program(&self) -> W {
        let p = self.p;
        for (_, v) in p.vtables.iter() {
            must(self.relaxed || self.valid_size(sz(v.size)) && sz(v.size) % al(v.align) == 0, "vtable size")?;
            self.cells(&v.cells, sz(v.size))?;
            let Some(tr) = p.traits.get(v.trait_name) else { return no("vtable for unknown trait") };
            must(v.methods.keys().count() == tr.iter().count() && v.methods.keys().all(|m| tr.contains(m)), "vtable methods")?;
            for f in v.methods.values() { must(self.relaxed || p.functions.contains_key(f), "vtable method function")? }
        }
        for f in p.functions.values() { Fx { w: self, f }.function()? }
        let Some(s) = p.functions.get(p.start) else { return no("no start function") };
        must(s.calling_convention == l::CallingConvention::C, "start convention")?;
        must(layout(&self.t, &s.locals.get(s.ret).unwrap()) == (0, 1), "start return")?;
        must(s.args.iter().count() == 0, "start args")?;
        for g in p.globals.values() {
            for (o, r) in g.relocations.iter() {
                must(sz(o) + self.t.ptr_size <= n(g.bytes.len()), "relocation position")?;
                self.reloc(&r)?;
            }
        }
        Ok(())
    }
}

impl Fx<'_> {
    fn function(&self) -> W {
        let f = self.f;
        for t in f.locals.values() { self.w.ty(&t)?; self.w.sized(&t)?; }
        let mut seen = std::collections::BTreeSet::new();
        for a in f.args.iter().chain(std::iter::once(f.ret)) {
            must(f.locals.contains_key(a), "no such argument/return local")?;
            must(seen.insert(a), "duplicate argument/return local")?;
        }
        match f.blocks.get(f.start) { _ if self.w.relaxed => (), None => return no("no start block"), Some(b) => must(b.kind == l::BbKind::Regular, "start block kind")? }
        for b in f.blocks.values() {
            for s in b.statements.iter() { self.stmt(&s)? }
            self.term(&b.terminator, b.kind)?;
        }
        Ok(())
    }
    fn sz_place(&self, p: &l::PlaceExpr) -> W<l::Type> { let t = self.place(p)?; self.w.sized(&t)?; Ok(t) }
    fn stmt(&self, s: &l::Statement) -> W {
        use l::Statement::*;
        match s {
            Assign { destination, source } => {
                let a = self.place(destination)?;
                let b = self.value(source)?;
                must(a == b, "assign types")
            }
            PlaceMention(p) => self.place(p).map(|_| ()),
            SetDiscriminant { destination, value } => match self.place(destination)? {
                l::Type::Enum { variants, .. } => must(variants.iter().any(|(k, _)| k == *value), "no such variant"),
                _ => no("not an enum"),
            },
            Validate { place, .. } | Deinit { place } => self.sz_place(place).map(|_| ()),
            StorageLive(x) => must(self.f.locals.contains_key(*x), "no such local"),
            StorageDead(x) => {
                must(self.f.locals.contains_key(*x), "no such local")?;
                must(*x != self.f.ret && !self.f.args.iter().any(|a| a == *x), "argument marked dead")
            }
        }
    }
    fn target(&self, b: l::BbName, kinds: &[l::BbKind]) -> W {
        match self.f.blocks.get(b) { None => no("no such block"), Some(x) => must(kinds.contains(&x.kind), "block kind") }
    }
    fn unwind(&self, b: l::BbName, from: l::BbKind) -> W {
        use l::BbKind::*;
        match from {
            Regular => self.target(b, &[Cleanup, Catch]),
            Cleanup | Terminate => self.target(b, &[Terminate]),
            Catch => no("unwinding in catch block"),
        }
    }
    fn term(&self, t: &l::Terminator, k: l::BbKind) -> W {
        use l::Terminator::*;
        match *t {
            Goto(b) => self.target(b, &[k]),
            Switch { value, cases, fallback } => {
                let l::Type::Int(it) = self.value(&value)? else { return no("switch type") };
                for (v, b) in cases.iter() { must(fits(&it, &big(v)), "switch case")?; self.target(b, &[k])? }
                self.target(fallback, &[k])
            }
            Unreachable => Ok(()),
            Intrinsic { intrinsic, arguments, ret, next_block } => {
                self.sz_place(&ret)?;
                for a in arguments.iter() { self.value(&a)?; }
                if let l::IntrinsicOp::AtomicFetchAndOp(op) = intrinsic { must(matches!(op, l::IntBinOp::Add | l::IntBinOp::Sub), "atomic op")? }
                if let Some(b) = next_block { self.target(b, &[k])? }
                Ok(())
            }
            Call { callee, arguments, ret, next_block, unwind_block, .. } => {
                must(self.value(&callee)? == l::Type::Ptr(m::PtrType::FnPtr), "callee type")?;
                self.sz_place(&ret)?;
                for a in arguments.iter() {
                    match a { l::ArgumentExpr::ByValue(e) => { self.value(&e)?; } l::ArgumentExpr::InPlace(p) => { self.sz_place(&p)?; } }
                }
                if let Some(b) = next_block { self.target(b, &[k])? }
                if let Some(b) = unwind_block { self.unwind(b, k)? }
                Ok(())
            }
            Return => must(k == l::BbKind::Regular, "return"),
            StartUnwind { unwind_payload, unwind_block } => {
                must(self.value(&unwind_payload)? == l::Type::Ptr(m::PtrType::Raw { meta_kind: m::PointerMetaKind::None }), "payload type")?;
                must(k == l::BbKind::Regular, "start unwind")?;
                self.unwind(unwind_block, k)
            }
            StopUnwind(b) => { must(k == l::BbKind::Catch, "stop unwind")?; self.target(b, &[l::BbKind::Regular]) }
            ResumeUnwind => must(k == l::BbKind::Cleanup, "resume unwind"),
        }
    }
    fn place(&self, p: &l::PlaceExpr) -> W<l::Type> {
        use l::PlaceExpr::*;
        Ok(match *p {
            Local(x) => match self.f.locals.get(x) { Some(t) => t, None => return no("no such local") },
            Deref { operand, ty } => {
                self.w.ty(&ty)?;
                let l::Type::Ptr(pt) = self.value(&operand.extract())? else { return no("deref") };
                must(ptr_meta(&pt) == ty_meta(&ty), "deref metadata")?;
                ty
            }
            Field { root, field } => {
                let i = n(field);
                if i < 0 { self.place(&root.extract())?; return no("negative field") }
                match self.place(&root.extract())? {
                    l::Type::Tuple { sized_fields, unsized_field, .. } => match sized_fields.iter().nth(i as usize) {
                        Some((_, t)) => t,
                        None => match unsized_field.extract() { Some(t) if i == n(sized_fields.len()) => t, _ => return no("no such field") },
                    },
                    l::Type::Union { fields, .. } => match fields.iter().nth(i as usize) { Some((_, t)) => t, None => return no("no such field") },
                    _ => return no("no fields"),
                }
            }
            Index { root, index } => {
                let t = self.place(&root.extract())?;
                must(matches!(self.value(&index.extract())?, l::Type::Int(_)), "index type")?;
                match t { l::Type::Array { elem, .. } | l::Type::Slice { elem } => elem.extract(), _ => return no("not indexable") }
            }
            Downcast { root, discriminant } => match self.place(&root.extract())? {
                l::Type::Enum { variants, .. } => match variants.iter().find(|(k, _)| *k == discriminant) { Some((_, v)) => v.ty, None => return no("no such variant") },
                _ => return no("downcast"),
            },
        })
    }
    fn value(&self, e: &l::ValueExpr) -> W<l::Type> {
        use l::ValueExpr::*;
        Ok(match *e {
            Constant(c, ty) => {
                self.w.ty(&ty)?;
                match (c, ty) {
                    (l::Constant::Int(i), l::Type::Int(it)) => must(fits(&it, &big(i)), "constant range")?,
                    (l::Constant::Bool(_), l::Type::Bool) => (),
                    (l::Constant::GlobalPointer(r), l::Type::Ptr(_)) => self.w.reloc(&r)?,
                    (l::Constant::FnPointer(f), l::Type::Ptr(m::PtrType::FnPtr)) => must(self.w.p.functions.contains_key(f), "no such function")?,
                    (l::Constant::VTablePointer(v), l::Type::Ptr(m::PtrType::VTablePtr(t))) => must(self.w.p.vtables.get(v).is_some_and(|v| v.trait_name == t), "vtable constant")?,
                    (l::Constant::PointerWithoutProvenance(a), l::Type::Ptr(_)) => must(n(a) >= 0 && n(a) < self.w.t.umax(), "address")?,
                    _ => return no("constant type"),
                }
                ty
            }
            Tuple(es, ty) => {
                self.w.ty(&ty)?;
                let want: Vec<l::Type> = match ty {
                    l::Type::Tuple { sized_fields, unsized_field, .. } => {
                        must(unsized_field.extract().is_none(), "unsized tuple value")?;
                        sized_fields.iter().map(|f| f.1).collect()
                    }
                    l::Type::Array { elem, count } => {
                        must(n(es.len()) == n(count), "element count")?;
                        es.iter().map(|_| elem.extract()).collect()
                    }
                    _ => return no("tuple type"),
                };
                must(n(es.len()) == want.len() as i128, "field count")?;
                for (e, t) in es.iter().zip(want) { must(self.value(&e)? == t, "field type")? }
                ty
            }
            Union { field, expr, union_ty } => {
                self.w.ty(&union_ty)?;
                let l::Type::Union { fields, .. } = union_ty else { return no("union type") };
                must(n(field) >= 0, "negative field")?;
                let Some((_, t)) = fields.iter().nth(n(field) as usize) else { return no("no such field") };
                must(self.value(&expr.extract())? == t, "union field type")?;
                union_ty
            }
            Variant { discriminant, data, enum_ty } => {
                self.w.ty(&enum_ty)?;
                let l::Type::Enum { variants, .. } = enum_ty else { return no("enum type") };
                let Some((_, v)) = variants.iter().find(|(k, _)| *k == discriminant) else { return no("no such variant") };
                must(self.value(&data.extract())? == v.ty, "variant type")?;
                enum_ty
            }
            GetDiscriminant { place } => match self.place(&place.extract())? { l::Type::Enum { discriminant_ty, .. } => l::Type::Int(discriminant_ty), _ => return no("not an enum") },
            Load { source } => self.sz_place(&source.extract())?,
            AddrOf { target, ptr_ty } => {
                self.w.ptr(&ptr_ty)?;
                must(ty_meta(&self.place(&target.extract())?) == ptr_meta(&ptr_ty), "metadata kind")?;
                l::Type::Ptr(ptr_ty)
            }
            UnOp { operator, operand } => {
                let t = self.value(&operand.extract())?;
                match operator {
                    l::UnOp::Int(op) => match t {
                        l::Type::Int(_) => if matches!(op, l::IntUnOp::CountOnes) { l::Type::Int(l::IntType { signed: sp::Unsigned, size: sp::Size::from_bytes(4).unwrap() }) } else { t },
                        _ => return no("int op"),
                    },
                    l::UnOp::Cast(l::CastOp::IntToInt(it)) => { must(matches!(t, l::Type::Int(_)), "int cast")?; let r = l::Type::Int(it); if !self.w.relaxed { self.w.ty(&r)?; } r }
                    l::UnOp::Cast(l::CastOp::Transmute(nt)) => { if !self.w.relaxed { self.w.ty(&nt)?; } self.w.sized(&nt)?; nt }
                    l::UnOp::GetThinPointer => { must(matches!(t, l::Type::Ptr(_)), "not a pointer")?; l::Type::Ptr(m::PtrType::Raw { meta_kind: m::PointerMetaKind::None }) }
                    l::UnOp::GetMetadata => match t { l::Type::Ptr(p) => meta_ty(&self.w.t, ptr_meta(&p)), _ => return no("not a pointer") },
                    l::UnOp::ComputeSize(ty) | l::UnOp::ComputeAlign(ty) => {
                        self.w.ty(&ty)?;
                        must(t == meta_ty(&self.w.t, ty_meta(&ty)), "metadata type")?;
                        usize_ty(&self.w.t)
                    }
                    l::UnOp::VTableMethodLookup(mt) => match t {
                        l::Type::Ptr(m::PtrType::VTablePtr(tr)) => { must(self.w.p.traits.get(tr).is_some_and(|s| s.contains(mt)), "no such method")?; l::Type::Ptr(m::PtrType::FnPtr) }
                        _ => return no("not a vtable pointer"),
                    },
                }
            }
            BinOp { operator, left, right } => {
                let a = self.value(&left.extract())?;
                let b = self.value(&right.extract())?;
                let thin = |t: &l::Type| matches!(t, l::Type::Ptr(p) if ptr_meta(p) == MK::None);
                match operator {
                    l::BinOp::Int(op) => {
                        must(matches!((a, b), (l::Type::Int(_), l::Type::Int(_))), "int op")?;
                        use l::IntBinOp::*;
                        must(a == b || matches!(op, Shl | Shr | ShlUnchecked | ShrUnchecked), "int op types")?;
                        a
                    }
                    l::BinOp::IntWithOverflow(_) => { let l::Type::Int(it) = a else { return no("int op") }; must(a == b, "int op types")?; overflow_ty(&self.w.t, &it) }
                    l::BinOp::Rel(r) => {
                        must(matches!(a, l::Type::Int(_) | l::Type::Bool | l::Type::Ptr(_)) && a == b, "comparison types")?;
                        if matches!(r, l::RelOp::Cmp) { l::Type::Int(l::IntType { signed: sp::Signed, size: sp::Size::from_bytes(1).unwrap() }) } else { l::Type::Bool }
                    }
                    l::BinOp::PtrOffset { .. } => { must(thin(&a) && matches!(b, l::Type::Int(_)), "ptr offset")?; a }
                    l::BinOp::PtrOffsetFrom { .. } => { must(thin(&a) && thin(&b), "ptr distance")?; isize_ty(&self.w.t) }
                    l::BinOp::ConstructWidePointer(p) => {
                        if !self.w.relaxed { self.w.ptr(&p)?; }
                        must(thin(&a) && b == meta_ty(&self.w.t, ptr_meta(&p)), "wide pointer")?;
                        l::Type::Ptr(p)
                    }
                }
            }
        })
    }
}
