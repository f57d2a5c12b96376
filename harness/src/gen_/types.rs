//! Random well-formed types.
use super::ast::*;
use crate::rf::mem::Tgt;
use crate::rf::ty::{self as rt, big, BigInt, MK};
use minirust_rs::libspecr::ctl::Rng;

pub fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T { &v[r.below(v.len() as u128) as usize] }
pub fn chance(r: &mut Rng, num: u128, den: u128) -> bool { r.below(den) < num }
/// weighted index
pub fn weighted(r: &mut Rng, w: &[u32]) -> usize {
    let t: u32 = w.iter().sum();
    let mut x = r.below(t.max(1) as u128) as u32;
    for (i, w) in w.iter().enumerate() { if x < *w { return i } x -= w }
    w.len() - 1
}

#[derive(Clone, Debug)]
pub struct TyW { pub int: u32, pub boolean: u32, pub ptr: u32, pub tuple: u32, pub array: u32, pub union: u32, pub enm: u32, pub odd: u32, pub wide: u32, pub safe: u32, pub cells: u32 }
impl Default for TyW { fn default() -> Self { TyW { int: 10, boolean: 2, ptr: 4, tuple: 5, array: 3, union: 2, enm: 4, odd: 3, wide: 2, safe: 5, cells: 3 } } }

impl TyW {
    pub fn ints() -> TyW { TyW { int: 20, boolean: 3, ptr: 1, tuple: 2, array: 1, union: 0, enm: 1, odd: 0, wide: 0, safe: 0, cells: 0 } }
    pub fn compound(&mut self) { *self = TyW { int: 8, boolean: 4, ptr: 4, tuple: 8, array: 5, union: 7, enm: 8, odd: 6, wide: 2, safe: 3, cells: 1 } }
    pub fn enums(&mut self) { *self = TyW { int: 6, boolean: 3, ptr: 2, tuple: 4, array: 2, union: 1, enm: 16, odd: 4, wide: 1, safe: 3, cells: 1 } }
    pub fn wide(&mut self) { self.wide = 8; self.ptr = 10; self.safe = 5; self.cells = 5 }
    pub fn pointees(&mut self) { *self = TyW { int: 8, boolean: 1, ptr: 12, tuple: 8, array: 3, union: 1, enm: 1, odd: 1, wide: 3, safe: 9, cells: 6 } }
}
#[derive(Clone)]
pub struct TyGen { pub tgt: Tgt, pub w: TyW, pub ntraits: usize }

pub fn edge_int(r: &mut Rng, it: &IntType) -> BigInt {
    let (lo, hi) = rt::int_range(it);
    let v = match r.below(10) {
        0 => lo.clone(),
        1 => hi.clone(),
        2 => BigInt::from(0),
        3 => BigInt::from(1),
        4 => BigInt::from(-1),
        5 => &lo + BigInt::from(r.below(3) as i64),
        6 => &hi - BigInt::from(r.below(3) as i64),
        7 => BigInt::from(r.below(20) as i64) - 10,
        8 => BigInt::from(1) << (r.below(8 * rt::sz(it.size) as u128) as usize),
        _ => { let n = &hi - &lo + 1; (BigInt::from(r.next()) * BigInt::from(r.next()) + BigInt::from(r.next())) % n + &lo }
    };
    rt::wrap(it, &v)
}

/// Can a value of this type exist?
pub fn inhabited(t: &Type) -> bool {
    match *t {
        Type::Tuple { sized_fields, unsized_field, .. } => sized_fields.iter().all(|f| inhabited(&f.1)) && unsized_field.extract().is_none_or(|u| inhabited(&u)),
        Type::Array { elem, count } => rt::n(count) == 0 || inhabited(&elem.extract()),
        Type::Enum { variants, .. } => variants.values().any(|v| inhabited(&v.ty)),
        Type::Ptr(p) => rt::pointee(&p).is_none_or(|p| p.inhabited),
        _ => true,
    }
}

impl TyGen {
    pub fn int(&self, r: &mut Rng) -> IntType { int_ty(chance(r, 1, 2), *pick(r, &[1, 1, 2, 4, 4, 8, 8, 16])) }
    pub fn layout_strategy(&self, t: &Type) -> LayoutStrategy {
        match *t {
            Type::Slice { elem } => { let (s, a) = rt::layout(&self.tgt, &elem.extract()); LayoutStrategy::Slice(size(s), align(a)) }
            Type::TraitObject(t) => LayoutStrategy::TraitObject(t),
            Type::Tuple { unsized_field, sized_head_layout, .. } if unsized_field.extract().is_some() => LayoutStrategy::Tuple { head: sized_head_layout, tail: rt::mk(self.layout_strategy(&unsized_field.extract().unwrap())) },
            _ => { let (s, a) = rt::layout(&self.tgt, t); LayoutStrategy::Sized(size(s), align(a)) }
        }
    }
    fn some_cells(&self, r: &mut Rng, max: i128, any: &mut bool) -> List<(Size, Size)> {
        let mut v = vec![];
        if max > 0 && chance(r, self.w.cells as u128, 10) {
            let mut at = 0;
            while at < max && v.len() < 3 {
                let o = at + r.below((max - at).min(6) as u128 + 1) as i128;
                if o >= max { break }
                let s = 1 + r.below((max - o).min(8) as u128) as i128;
                if chance(r, 2, 3) { v.push((size(o), size(s))); *any = true }
                at = o + s;
            }
        }
        list(v)
    }
    fn cells_for(&self, r: &mut Rng, lay: &LayoutStrategy, any: &mut bool) -> UnsafeCellStrategy {
        match *lay {
            LayoutStrategy::Sized(s, _) => UnsafeCellStrategy::Sized { cells: self.some_cells(r, rt::sz(s), any) },
            LayoutStrategy::Slice(s, _) => UnsafeCellStrategy::Slice { element_cells: self.some_cells(r, rt::sz(s), any) },
            LayoutStrategy::TraitObject(_) => UnsafeCellStrategy::TraitObject,
            LayoutStrategy::Tuple { head, tail } => {
                let hc = self.some_cells(r, rt::sz(head.end), any);
                UnsafeCellStrategy::Tuple { head_cells: hc, tail_cells: rt::mk(self.cells_for(r, &tail.extract(), any)) }
            }
        }
    }
    pub fn pointee(&self, r: &mut Rng, t: &Type) -> PointeeInfo {
        let layout = self.layout_strategy(t);
        let mut any = false;
        let unsafe_cells = self.cells_for(r, &layout, &mut any);
        let freeze = if chance(r, 1, 20) { chance(r, 1, 2) } else { !any && !matches!(layout, LayoutStrategy::TraitObject(_)) };
        PointeeInfo { layout, inhabited: if chance(r, 1, 60) { false } else { inhabited(t) }, unsafe_cells, freeze, unpin: chance(r, 9, 10) }
    }
    pub fn safe_ptr(&self, r: &mut Rng, t: &Type) -> PtrType {
        let pointee = self.pointee(r, t);
        match r.below(5) {
            0 | 1 => PtrType::Ref { mutbl: Mutability::Mutable, pointee },
            2 | 3 => PtrType::Ref { mutbl: Mutability::Immutable, pointee },
            _ => PtrType::Box { pointee },
        }
    }
    pub fn raw_for(&self, t: &Type) -> PtrType {
        PtrType::Raw { meta_kind: match rt::ty_meta(t) { MK::None => PointerMetaKind::None, MK::Count => PointerMetaKind::ElementCount, MK::VTable(t) => PointerMetaKind::VTablePointer(t) } }
    }
    pub fn ptr_to(&self, r: &mut Rng, t: &Type) -> PtrType { if chance(r, self.w.safe as u128, 10) { self.safe_ptr(r, t) } else { self.raw_for(t) } }
    pub fn unsized_ty(&self, r: &mut Rng, d: u32) -> Type {
        let base = if self.ntraits > 0 && chance(r, 1, 3) { Type::TraitObject(tname(r.below(self.ntraits as u128) as usize)) } else { slice_t(self.sized(r, d.saturating_sub(1).min(1))) };
        if d > 0 && chance(r, 1, 3) {
            let (fields, end, al) = self.fields(r, 2, d - 1);
            let packed = if chance(r, 1, 4) { Some(*pick(r, &[1i128, 2, 4])) } else { None };
            let al = match packed { Some(p) => al.min(p), None => al };
            Type::Tuple { sized_fields: list(fields.into_iter().map(|(o, t)| (size(o), t))), sized_head_layout: TupleHeadLayout { end: size(end), align: align(al), packed_align: packed.map(align) }, unsized_field: rt::mk(Some(base)) }
        } else { base }
    }
    pub fn ptr(&self, r: &mut Rng, d: u32) -> PtrType {
        match r.below(12) {
            0 => PtrType::FnPtr,
            1 if self.ntraits > 0 => PtrType::VTablePtr(tname(r.below(self.ntraits as u128) as usize)),
            2..=4 => raw_p(),
            _ => {
                let t = if chance(r, self.w.wide as u128, 10) { self.unsized_ty(r, d.saturating_sub(1)) } else { self.sized(r, d.saturating_sub(1)) };
                self.ptr_to(r, &t)
            }
        }
    }
    /// non-overlapping fields: (offset, type), end of the last one, alignment
    pub fn fields(&self, r: &mut Rng, max: u128, d: u32) -> (Vec<(i128, Type)>, i128, i128) {
        let k = r.below(max + 1);
        let mut v = vec![];
        let (mut end, mut al) = (0, 1);
        let packed = if chance(r, self.w.odd as u128, 12) { Some(*pick(r, &[1i128, 2, 4])) } else { None };
        for _ in 0..k {
            let t = self.sized(r, d);
            let (s, a) = rt::layout(&self.tgt, &t);
            let a = packed.map_or(a, |p| a.min(p));
            let mut o = rt::up(end, a);
            if chance(r, self.w.odd as u128, 20) { o += a * r.below(3) as i128 }
            al = al.max(a);
            v.push((o, t));
            end = o + s;
        }
        if chance(r, self.w.odd as u128, 8) { for i in (1..v.len()).rev() { let j = r.below(i as u128 + 1) as usize; v.swap(i, j) } }
        // an empty field in front of another one at the same offset has to be listed first
        let mut sorted: Vec<(i128, i128)> = v.iter().map(|(o, t)| (*o, rt::size(&self.tgt, t))).collect();
        sorted.sort_by_key(|x| x.0);
        let mut e = 0;
        if sorted.iter().any(|(o, s)| { let bad = *o < e; e = o + s; bad }) { v.sort_by_key(|(o, t)| (*o, rt::size(&self.tgt, t))); }
        if chance(r, self.w.odd as u128, 25) { end += r.below(4) as i128 }
        if chance(r, self.w.odd as u128, 25) { al = al.max(*pick(r, &[2, 4, 8, 16])) }
        (v, end, al)
    }
    pub fn tuple(&self, r: &mut Rng, d: u32) -> Type { let (f, e, a) = self.fields(r, 4, d); tuple_t(f, e, a) }
    pub fn union(&self, r: &mut Rng, d: u32) -> Type {
        let k = 1 + r.below(3);
        let mut fs = vec![];
        let (mut end, mut al) = (0i128, 1i128);
        for _ in 0..k {
            let t = self.sized(r, d);
            let (s, a) = rt::layout(&self.tgt, &t);
            let o = if chance(r, 1, 4) { rt::up(r.below(5) as i128, a) } else { 0 };
            end = end.max(o + s);
            al = al.max(a);
            fs.push((size(o), t));
        }
        if chance(r, 1, 8) { al = 1 }
        let sz = rt::up(end, al);
        let mut chunks = vec![];
        match r.below(4) {
            0 | 1 => if sz > 0 { chunks.push((size(0), size(sz))) },
            2 => {
                let mut at = 0;
                while at < sz {
                    let l = 1 + r.below((sz - at).min(6) as u128) as i128;
                    if !chance(r, 1, 4) { chunks.push((size(at), size(l))) }
                    at += l;
                }
            }
            _ => if let Some((o, t)) = fs.first() { let s = rt::size(&self.tgt, t); if s > 0 { chunks.push((*o, size(s))) } },
        }
        Type::Union { fields: list(fs), chunks: list(chunks), size: size(sz), align: align(al) }
    }
    fn known(d: &BigInt) -> Discriminator { Discriminator::Known(int_of(d)) }
    pub fn enm(&self, r: &mut Rng, d: u32) -> Type {
        let dty = self.int(r);
        let mut discs: Vec<BigInt> = vec![];
        let k = 1 + r.below(4) as usize;
        while discs.len() < k { let v = if chance(r, 1, 2) { rt::wrap(&dty, &BigInt::from(discs.len())) } else { edge_int(r, &dty) }; if !discs.contains(&v) { discs.push(v) } else if chance(r, 1, 6) { break } }
        if discs.is_empty() { discs.push(BigInt::from(0)) }
        let mkv = |ty: Type, tag: Vec<(i128, IntType, BigInt)>| Variant { ty, tagger: map(tag.into_iter().map(|(o, t, v)| (size(o), (t, int_of(&v))))) };
        match r.below(12) {
            // uninhabited
            0 => Type::Enum { variants: Map::new(), discriminant_ty: dty, discriminator: Discriminator::Invalid, size: size(0), align: align(*pick(r, &[1, 1, 4])) },
            // single variant without tag
            1 => {
                let t = self.sized(r, d);
                let (s, a) = rt::layout(&self.tgt, &t);
                Type::Enum { variants: map([(int_of(&discs[0]), mkv(t, vec![]))]), discriminant_ty: dty, discriminator: Self::known(&discs[0]), size: size(s), align: align(a) }
            }
            // niche in a bool
            2..=4 => {
                let (mut f, mut end, mut al) = self.fields(r, 1, d);
                let o = end;
                f.push((o, Type::Bool));
                end += 1;
                al = al.max(1);
                let sz = rt::up(end, al);
                let u8t = int_ty(false, 1);
                let data = &discs[0];
                let mut variants = vec![(int_of(data), mkv(tuple_t(f, end, al), vec![]))];
                let mut children = vec![];
                let wild = chance(r, 1, 3);
                for (i, x) in discs.iter().enumerate().skip(1) {
                    let v = BigInt::from(2 + i);
                    variants.push((int_of(x), mkv(tuple_t(vec![], sz, 1), vec![(o, u8t, v.clone())])));
                    children.push(((int_of(&v), int_of(&(v.clone() + 1))), Self::known(x)));
                }
                let fallback = if wild { children.push(((Int::from(0), Int::from(2)), Self::known(data))); Discriminator::Invalid } else { Self::known(data) };
                Type::Enum { variants: map(variants), discriminant_ty: dty, discriminator: Discriminator::Branch { offset: size(o), value_type: u8t, fallback: rt::mk(fallback), children: map(children) }, size: size(sz), align: align(al) }
            }
            // explicit tag
            5..=8 => {
                let tt = self.int(r);
                let ts = rt::sz(tt.size);
                let ta = rt::int_align(&self.tgt, ts);
                let mut parts = vec![];
                let (mut end, mut al) = (ts, ta);
                for _ in &discs {
                    let (f, _, a) = self.fields(r, 2, d);
                    let base = rt::up(ts, a);
                    let f: Vec<_> = f.into_iter().map(|(o, t)| (o + base, t)).collect();
                    for (o, t) in &f { end = end.max(o + rt::size(&self.tgt, t)) }
                    al = al.max(a);
                    parts.push((f, a));
                }
                let sz = rt::up(end, al);
                let mut variants = vec![];
                let mut children = vec![];
                let same = rt::big(Int::from(0));
                let mut used: Vec<BigInt> = vec![];
                for (x, (f, a)) in discs.iter().zip(parts) {
                    let mut v = rt::wrap(&tt, x);
                    while used.contains(&v) { v = rt::wrap(&tt, &(&v + 1)) }
                    used.push(v.clone());
                    let _ = &same;
                    variants.push((int_of(x), mkv(tuple_t(f, sz, a), vec![(0, tt, v.clone())])));
                    children.push((v, x.clone()));
                }
                // sometimes several tag values mean the same variant
                let (_, hi) = rt::int_range(&tt);
                let mut ch = vec![];
                for (v, x) in &children {
                    let mut e = v + 1;
                    while chance(r, 1, 5) && e <= hi && !used.contains(&e) { used.push(e.clone()); e += 1 }
                    ch.push(((int_of(v), int_of(&e)), Self::known(x)));
                }
                let fb = if chance(r, 1, 6) { Self::known(&discs[0]) } else { Discriminator::Invalid };
                Type::Enum { variants: map(variants), discriminant_ty: dty, discriminator: Discriminator::Branch { offset: size(0), value_type: tt, fallback: rt::mk(fb), children: map(ch) }, size: size(sz), align: align(al) }
            }
            // two-byte tag, decoded in two stages
            9 | 10 => {
                let u8t = int_ty(chance(r, 1, 2), 1);
                let sz = 2 + r.below(4) as i128;
                let mut variants = vec![];
                let mut outer: Vec<(BigInt, Vec<(BigInt, BigInt)>)> = vec![];
                for (i, x) in discs.iter().enumerate() {
                    let (a, b): (BigInt, BigInt) = (BigInt::from(i / 2), BigInt::from(i % 2 + 5));
                    variants.push((int_of(x), mkv(tuple_t(if sz > 2 && chance(r, 1, 2) { vec![(2, Type::Bool)] } else { vec![] }, sz, 1), vec![(0, u8t, a.clone()), (1, u8t, b.clone())])));
                    match outer.iter_mut().find(|o| o.0 == a) { Some(o) => o.1.push((b, x.clone())), None => outer.push((a, vec![(b, x.clone())])) }
                }
                let one = |v: &BigInt| (int_of(v), int_of(&(v + 1)));
                let ch = map(outer.iter().map(|(a, inner)| {
                    let inner = map(inner.iter().map(|(b, x)| (one(b), Self::known(x))));
                    (one(a), Discriminator::Branch { offset: size(1), value_type: u8t, fallback: rt::mk(Discriminator::Invalid), children: inner })
                }));
                Type::Enum { variants: map(variants), discriminant_ty: dty, discriminator: Discriminator::Branch { offset: size(0), value_type: u8t, fallback: rt::mk(Discriminator::Invalid), children: ch }, size: size(sz), align: align(1) }
            }
            // null-pointer niche
            _ => {
                let t = self.sized(r, 0);
                let p = Type::Ptr(self.safe_ptr(r, &t));
                let pi = int_ty(false, self.tgt.ptr_size);
                let s = self.tgt.ptr_size;
                let some = discs[0].clone();
                let mut variants = vec![(int_of(&some), mkv(p, vec![]))];
                let mut ch = vec![];
                if let Some(none) = discs.get(1) {
                    variants.push((int_of(none), mkv(tuple_t(vec![], s, 1), vec![(0, pi, BigInt::from(0))])));
                    ch.push(((Int::from(0), Int::from(1)), Self::known(none)));
                }
                Type::Enum { variants: map(variants), discriminant_ty: dty, discriminator: Discriminator::Branch { offset: size(0), value_type: pi, fallback: rt::mk(Self::known(&some)), children: map(ch) }, size: size(s), align: align(self.tgt.ptr_align) }
            }
        }
    }
    pub fn sized(&self, r: &mut Rng, d: u32) -> Type {
        let w = &self.w;
        let k = if d == 0 { weighted(r, &[w.int, w.boolean, w.ptr.min(1)]) } else { weighted(r, &[w.int, w.boolean, w.ptr, w.tuple, w.array, w.union, w.enm]) };
        match k {
            0 => Type::Int(self.int(r)),
            1 => Type::Bool,
            2 => Type::Ptr(if d == 0 { raw_p() } else { self.ptr(r, d - 1) }),
            3 => self.tuple(r, d - 1),
            4 => { let e = self.sized(r, d - 1); array_t(e, r.below(5) as i128) }
            5 => self.union(r, d - 1),
            _ => self.enm(r, d - 1),
        }
    }
}
#[allow(unused)]
fn _u(x: Int) -> BigInt { big(x) }
