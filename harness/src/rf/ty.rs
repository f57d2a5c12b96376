//! Reference layouts, representation relation and value validity.
use super::mem::*;
use minirust_rs::lang as l;
use minirust_rs::libspecr::prelude as sp;
use minirust_rs::mem as m;
pub use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive};

/// AST integer -> big integer
pub fn big(i: sp::Int) -> BigInt { i.to_big() }
/// AST integer -> i128, saturating far outside every address space
pub fn n(i: sp::Int) -> i128 { i.to_i128().unwrap_or_else(|| if i.to_big().is_negative() { -BIG } else { BIG }).clamp(-BIG, BIG) }
pub const BIG: i128 = 1 << 110;
pub fn mul(a: i128, b: i128) -> i128 { a.saturating_mul(b).clamp(-BIG, BIG) }
pub fn sz(s: sp::Size) -> i128 { n(s.bytes()) }
pub fn al(a: sp::Align) -> i128 { n(a.bytes()) }
pub fn up(x: i128, a: i128) -> i128 { (x + a - 1) / a * a }
pub fn toi(b: &BigInt) -> i128 { b.to_i128().unwrap_or(if b.is_negative() { -BIG } else { BIG }).clamp(-BIG, BIG) }

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Int(BigInt),
    Bool(bool),
    Ptr(RPtr),
    Tuple(Vec<V>),
    Variant(BigInt, Box<V>),
    Union(Vec<Vec<AByte>>),
}
impl V {
    pub fn unit() -> V { V::Tuple(vec![]) }
    pub fn int(self) -> BigInt { match self { V::Int(i) => i, v => panic!("ref: int expected, got {v:?}") } }
    pub fn ptr(self) -> RPtr { match self { V::Ptr(p) => p, v => panic!("ref: ptr expected, got {v:?}") } }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MK { None, Count, VTable(m::TraitName) }
impl From<m::PointerMetaKind> for MK {
    fn from(k: m::PointerMetaKind) -> MK {
        match k {
            m::PointerMetaKind::None => MK::None,
            m::PointerMetaKind::ElementCount => MK::Count,
            m::PointerMetaKind::VTablePointer(t) => MK::VTable(t),
        }
    }
}

pub fn lay_meta(lay: &m::LayoutStrategy) -> MK {
    match *lay {
        m::LayoutStrategy::Sized(..) => MK::None,
        m::LayoutStrategy::Slice(..) => MK::Count,
        m::LayoutStrategy::TraitObject(t) => MK::VTable(t),
        m::LayoutStrategy::Tuple { tail, .. } => lay_meta(&tail.extract()),
    }
}
pub fn ptr_meta(p: &m::PtrType) -> MK {
    match p {
        m::PtrType::Ref { pointee, .. } | m::PtrType::Box { pointee } => lay_meta(&pointee.layout),
        m::PtrType::Raw { meta_kind } => (*meta_kind).into(),
        m::PtrType::FnPtr | m::PtrType::VTablePtr(_) => MK::None,
    }
}
pub fn ty_meta(t: &l::Type) -> MK {
    match *t {
        l::Type::Slice { .. } => MK::Count,
        l::Type::TraitObject(t) => MK::VTable(t),
        l::Type::Tuple { unsized_field, .. } => match unsized_field.extract() { Some(t) => ty_meta(&t), None => MK::None },
        _ => MK::None,
    }
}
pub fn is_sized(t: &l::Type) -> bool { ty_meta(t) == MK::None }
pub fn pointee(p: &m::PtrType) -> Option<m::PointeeInfo> {
    match p {
        m::PtrType::Ref { pointee, .. } | m::PtrType::Box { pointee } => Some(*pointee),
        _ => None,
    }
}

pub fn int_align(t: &Tgt, size: i128) -> i128 { size.min(t.int_max_align) }

/// head + tail of a dynamically sized tuple: (tail offset, size, align)
pub fn dst(h: &m::TupleHeadLayout, tsize: i128, talign: i128) -> (i128, i128, i128) {
    let ta = match h.packed_align { Some(p) => talign.min(al(p)), None => talign };
    let align = ta.max(al(h.align));
    let off = up(sz(h.end), ta);
    (off, up(off + tsize, align), align)
}

/// size and alignment of a type behind a pointer with the given metadata
pub fn dyn_layout(t: &Tgt, ty: &l::Type, meta: Option<Meta>, vt: &dyn Fn(Thin) -> (i128, i128)) -> (i128, i128) {
    use l::Type::*;
    match *ty {
        Int(it) => { let s = sz(it.size); (s, int_align(t, s)) }
        Bool => (1, 1),
        Ptr(p) => (if ptr_meta(&p) == MK::None { t.ptr_size } else { 2 * t.ptr_size }, t.ptr_align),
        Union { size, align, .. } => (sz(size), al(align)),
        Enum { size, align, .. } => (sz(size), al(align)),
        Array { elem, count } => { let (s, a) = dyn_layout(t, &elem.extract(), None, vt); (mul(s, n(count)), a) }
        Slice { elem } => {
            let Some(Meta::Count(c)) = meta else { panic!("ref: slice without count") };
            let (s, a) = dyn_layout(t, &elem.extract(), None, vt);
            (mul(s, c), a)
        }
        TraitObject(_) => { let Some(Meta::VTable(p)) = meta else { panic!("ref: dyn without vtable") }; vt(p) }
        Tuple { sized_head_layout: h, unsized_field, .. } => match unsized_field.extract() {
            None => (up(sz(h.end), al(h.align)), al(h.align)),
            Some(tail) => { let (s, a) = dyn_layout(t, &tail, meta, vt); let (_, s, a) = dst(&h, s, a); (s, a) }
        },
    }
}
pub fn layout(t: &Tgt, ty: &l::Type) -> (i128, i128) { dyn_layout(t, ty, None, &|_| unreachable!()) }
pub fn size(t: &Tgt, ty: &l::Type) -> i128 { layout(t, ty).0 }

pub fn pointee_layout(lay: &m::LayoutStrategy, meta: Option<Meta>, vt: &dyn Fn(Thin) -> (i128, i128)) -> (i128, i128) {
    match (*lay, meta) {
        (m::LayoutStrategy::Sized(s, a), _) => (sz(s), al(a)),
        (m::LayoutStrategy::Slice(s, a), Some(Meta::Count(c))) => (mul(sz(s), c), al(a)),
        (m::LayoutStrategy::TraitObject(_), Some(Meta::VTable(p))) => vt(p),
        (m::LayoutStrategy::Tuple { head, tail }, m) => {
            let (s, a) = pointee_layout(&tail.extract(), m, vt);
            let (_, s, a) = dst(&head, s, a);
            (s, a)
        }
        _ => panic!("ref: metadata does not fit layout"),
    }
}

pub fn int_range(it: &l::IntType) -> (BigInt, BigInt) {
    let bits = (sz(it.size) * 8) as usize;
    let one = BigInt::from(1);
    if it.signed == sp::Signed { (-(&one << (bits - 1)), (&one << (bits - 1)) - 1) } else { (BigInt::from(0), (&one << bits) - 1) }
}
pub fn fits(it: &l::IntType, v: &BigInt) -> bool { let (lo, hi) = int_range(it); *v >= lo && *v <= hi }
/// two's complement truncation
pub fn wrap(it: &l::IntType, v: &BigInt) -> BigInt {
    let (_, hi) = int_range(it);
    let bits = (sz(it.size) * 8) as usize;
    let m = BigInt::from(1) << bits;
    let mut r = v % &m;
    if r.is_negative() { r += &m }
    if r > hi { r -= m }
    r
}

fn int_bytes(t: &Tgt, v: &BigInt, size: i128) -> Vec<u8> {
    let m = BigInt::from(1) << (8 * size) as usize;
    let u = if v.is_negative() { v + m } else { v.clone() };
    let (_, mut le) = u.to_bytes_le();
    le.resize(size as usize, 0);
    if t.big { le.reverse() }
    le
}
fn bytes_int(t: &Tgt, b: &[u8], signed: bool) -> BigInt {
    let mut le = b.to_vec();
    if t.big { le.reverse() }
    let u = BigInt::from_bytes_le(num_bigint::Sign::Plus, &le);
    if signed && le.last().is_some_and(|x| x & 0x80 != 0) { u - (BigInt::from(1) << (8 * b.len())) } else { u }
}

pub fn enc_thin(t: &Tgt, p: Thin) -> Vec<AByte> {
    int_bytes(t, &BigInt::from(p.addr), t.ptr_size).into_iter().enumerate().map(|(i, b)| AByte::Init(b, p.prov.map(|pr| (pr, i as u8)))).collect()
}
pub fn dec_thin(t: &Tgt, b: &[AByte]) -> Option<Thin> {
    let data: Option<Vec<u8>> = b.iter().map(|x| x.data()).collect();
    let addr = toi(&bytes_int(t, &data?, false));
    let mut prov = None;
    if let AByte::Init(_, Some((p, 0))) = b[0] {
        if b.iter().enumerate().all(|(i, x)| matches!(x, AByte::Init(_, Some((q, j))) if *q == p && *j as usize == i)) { prov = Some(p) }
    }
    Some(Thin { addr, prov })
}

pub fn encode(t: &Tgt, ty: &l::Type, v: &V) -> Vec<AByte> {
    use l::Type::*;
    let mut out = vec![AByte::Uninit; size(t, ty) as usize];
    let mut put = |off: i128, b: &[AByte]| out[off as usize..off as usize + b.len()].copy_from_slice(b);
    match (*ty, v) {
        (Int(it), V::Int(i)) => put(0, &int_bytes(t, i, sz(it.size)).into_iter().map(|b| AByte::Init(b, None)).collect::<Vec<_>>()),
        (Bool, V::Bool(b)) => put(0, &[AByte::Init(*b as u8, None)]),
        (Ptr(_), V::Ptr(p)) => {
            put(0, &enc_thin(t, p.thin));
            match p.meta {
                None => (),
                Some(Meta::Count(c)) => put(t.ptr_size, &int_bytes(t, &BigInt::from(c), t.ptr_size).into_iter().map(|b| AByte::Init(b, None)).collect::<Vec<_>>()),
                Some(Meta::VTable(q)) => put(t.ptr_size, &enc_thin(t, q)),
            }
        }
        (Tuple { sized_fields, .. }, V::Tuple(vs)) => {
            for ((off, fty), v) in sized_fields.iter().zip(vs) { put(sz(off), &encode(t, &fty, v)) }
        }
        (Array { elem, .. }, V::Tuple(vs)) => {
            let e = elem.extract();
            let s = size(t, &e);
            for (i, v) in vs.iter().enumerate() { put(s * i as i128, &encode(t, &e, v)) }
        }
        (Union { chunks, .. }, V::Union(data)) => {
            for ((off, _), d) in chunks.iter().zip(data) { put(sz(off), d) }
        }
        (Enum { variants, .. }, V::Variant(d, data)) => {
            let var = variants.iter().find(|(k, _)| big(*k) == *d).unwrap().1;
            put(0, &encode(t, &var.ty, data));
            for (off, (it, val)) in var.tagger.iter() {
                put(sz(off), &int_bytes(t, &big(val), sz(it.size)).into_iter().map(|b| AByte::Init(b, None)).collect::<Vec<_>>())
            }
        }
        _ => panic!("ref: encode mismatch {v:?}"),
    }
    out
}

/// Tag decoding; `rd` loads bytes (and may fail). `Ok(None)`: no valid discriminant.
pub fn discr(t: &Tgt, d: &l::Discriminator, rd: &mut dyn FnMut(i128, i128) -> R<Vec<AByte>>) -> R<Option<BigInt>> {
    let mut d = *d;
    loop {
        match d {
            l::Discriminator::Known(k) => return Ok(Some(big(k))),
            l::Discriminator::Invalid => return Ok(None),
            l::Discriminator::Branch { offset, value_type, fallback, children } => {
                let bytes = rd(sz(offset), sz(value_type.size))?;
                let Some(data) = bytes.iter().map(|b| b.data()).collect::<Option<Vec<u8>>>() else { return Ok(None) };
                let val = bytes_int(t, &data, value_type.signed == sp::Signed);
                d = children.iter().find(|((s, e), _)| big(*s) <= val && val < big(*e)).map(|x| x.1).unwrap_or(fallback.extract());
            }
        }
    }
}

pub fn decode(t: &Tgt, ty: &l::Type, b: &[AByte]) -> Option<V> {
    use l::Type::*;
    match *ty {
        Int(it) => {
            let data = b.iter().map(|x| x.data()).collect::<Option<Vec<u8>>>()?;
            Some(V::Int(bytes_int(t, &data, it.signed == sp::Signed)))
        }
        Bool => match b[0] { AByte::Init(0, _) => Some(V::Bool(false)), AByte::Init(1, _) => Some(V::Bool(true)), _ => None },
        Ptr(p) => {
            let ps = t.ptr_size as usize;
            let thin = dec_thin(t, &b[..ps])?;
            let meta = match ptr_meta(&p) {
                MK::None => None,
                MK::Count => {
                    let data = b[ps..].iter().map(|x| x.data()).collect::<Option<Vec<u8>>>()?;
                    Some(Meta::Count(toi(&bytes_int(t, &data, false))))
                }
                MK::VTable(_) => Some(Meta::VTable(dec_thin(t, &b[ps..])?)),
            };
            Some(V::Ptr(RPtr { thin, meta }))
        }
        Tuple { sized_fields, .. } => {
            let mut vs = vec![];
            for (off, fty) in sized_fields.iter() {
                let (o, s) = (sz(off) as usize, size(t, &fty) as usize);
                vs.push(decode(t, &fty, &b[o..o + s])?);
            }
            Some(V::Tuple(vs))
        }
        Array { elem, count } => {
            let e = elem.extract();
            let s = size(t, &e) as usize;
            (0..n(count) as usize).map(|i| decode(t, &e, &b[i * s..(i + 1) * s])).collect::<Option<Vec<_>>>().map(V::Tuple)
        }
        Union { chunks, .. } => Some(V::Union(chunks.iter().map(|(o, s)| b[sz(o) as usize..(sz(o) + sz(s)) as usize].to_vec()).collect())),
        Enum { variants, discriminator, .. } => {
            let d = discr(t, &discriminator, &mut |o, s| Ok(b[o as usize..(o + s) as usize].to_vec())).ok()??;
            let var = variants.iter().find(|(k, _)| big(*k) == d)?.1;
            Some(V::Variant(d, Box::new(decode(t, &var.ty, b)?)))
        }
        Slice { .. } | TraitObject(_) => panic!("ref: decode of unsized type"),
    }
}

pub fn unit_ty() -> l::Type { l::unit_ty() }
pub fn is_unit(t: &l::Type) -> bool { *t == unit_ty() }
pub fn usize_ty(t: &Tgt) -> l::Type { l::Type::Int(l::IntType { signed: sp::Unsigned, size: sp::Size::from_bytes(t.ptr_size).unwrap() }) }
pub fn isize_ty(t: &Tgt) -> l::Type { l::Type::Int(l::IntType { signed: sp::Signed, size: sp::Size::from_bytes(t.ptr_size).unwrap() }) }
/// type of pointer metadata as a value
pub fn meta_ty(t: &Tgt, k: MK) -> l::Type {
    match k {
        MK::None => unit_ty(),
        MK::Count => usize_ty(t),
        MK::VTable(tr) => l::Type::Ptr(m::PtrType::VTablePtr(tr)),
    }
}
/// (int, overflow flag) pair
pub fn overflow_ty(t: &Tgt, it: &l::IntType) -> l::Type {
    let s = sz(it.size);
    let a = int_align(t, s);
    let mut fields = sp::List::new();
    fields.push((sp::Size::ZERO, l::Type::Int(*it)));
    fields.push((it.size, l::Type::Bool));
    l::Type::Tuple {
        sized_fields: fields,
        sized_head_layout: m::TupleHeadLayout { end: sp::Size::from_bytes(s + a).unwrap(), align: sp::Align::from_bytes(a).unwrap(), packed_align: None },
        unsized_field: mk(None),
    }
}
pub fn mk<T: minirust_rs::libspecr::hidden::Obj>(t: T) -> minirust_rs::libspecr::hidden::GcCow<T> { minirust_rs::libspecr::hidden::GcCow::new(t) }
