//! The builder helpers against the documented syntax: every helper is applied to random operands, and
//! whole programs are built by random sequences of calls while a model of the builder follows.
use super::synt::Y;
use super::{done, hash};
use crate::gen_::ast as a;
use crate::profiles::Case;
use crate::rf::ty::mk;
use minirust_rs::lang::*;
use minirust_rs::mem::*;
use minirust_rs::libspecr::Name;
use minirust_rs::prelude::{Align, Int, List, Mutability, Signed, Size, Unsigned};
use miniutil::build as b;
use miniutil::build::TypeConv;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe as Aus};

type Bad = Option<String>;
struct Ck { n: BTreeMap<String, u64>, bad: Bad, sig: u64 }
impl Ck {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, name: &str, real: T, want: T) {
        *self.n.entry(format!("build.{name}")).or_default() += 1;
        self.sig = hash(&format!("{}{name}", self.sig));
        if real != want && self.bad.is_none() { self.bad = Some(format!("{name} builds {real:?}, expected {want:?}").chars().take(1500).collect()) }
    }
    fn panics<R>(&mut self, name: &str, f: impl FnOnce() -> R) {
        *self.n.entry(format!("build.reject.{name}")).or_default() += 1;
        if catch_unwind(Aus(f)).is_ok() && self.bad.is_none() { self.bad = Some(format!("{name} is not rejected")) }
    }
}

fn i(signed: bool, n: i128) -> Type { a::int_t(signed, n) }
fn raw(k: PointerMetaKind) -> Type { Type::Ptr(PtrType::Raw { meta_kind: k }) }
fn reft(m: bool, layout: LayoutStrategy, cells: UnsafeCellStrategy) -> Type {
    Type::Ptr(PtrType::Ref { mutbl: if m { Mutability::Mutable } else { Mutability::Immutable }, pointee: PointeeInfo { layout, inhabited: true, unsafe_cells: cells, freeze: true, unpin: true } })
}
fn sized(s: i128, al: i128) -> LayoutStrategy { LayoutStrategy::Sized(a::size(s), a::align(al)) }
fn unit() -> Type { Type::Tuple { sized_fields: List::new(), sized_head_layout: TupleHeadLayout { end: Size::ZERO, align: a::align(1), packed_align: None }, unsized_field: mk(None) } }
fn none() -> UnsafeCellStrategy { UnsafeCellStrategy::Sized { cells: List::new() } }

/// the Rust types which the builder knows, with the type they mean, its size and alignment
macro_rules! types { ($m:ident) => {
    $m!(0, u8, i(false, 1), 1, 1); $m!(1, i16, i(true, 2), 2, 2); $m!(2, u32, i(false, 4), 4, 4); $m!(3, i64, i(true, 8), 8, 8); $m!(4, u128, i(false, 16), 16, 16);
    $m!(5, usize, i(false, 8), 8, 8); $m!(6, isize, i(true, 8), 8, 8); $m!(7, bool, Type::Bool, 1, 1); $m!(8, (), unit(), 0, 1);
    $m!(9, *const u8, raw(PointerMetaKind::None), 8, 8); $m!(10, *mut [u16], raw(PointerMetaKind::ElementCount), 16, 8);
    $m!(11, &u32, reft(false, sized(4, 4), none()), 8, 8); $m!(12, &mut [u16; 3], reft(true, sized(6, 2), none()), 8, 8);
    $m!(13, &[i64], reft(false, LayoutStrategy::Slice(a::size(8), a::align(8)), UnsafeCellStrategy::Slice { element_cells: List::new() }), 16, 8);
    $m!(14, &mut [u8], reft(true, LayoutStrategy::Slice(a::size(1), a::align(1)), UnsafeCellStrategy::Slice { element_cells: List::new() }), 16, 8);
    $m!(15, [u32; 5], a::array_t(i(false, 4), 5), 20, 4); $m!(16, [[bool; 2]; 3], a::array_t(a::array_t(Type::Bool, 2), 3), 6, 1);
    $m!(17, i8, i(true, 1), 1, 1); $m!(18, u16, i(false, 2), 2, 2); $m!(19, i32, i(true, 4), 4, 4); $m!(20, u64, i(false, 8), 8, 8); $m!(21, i128, i(true, 16), 16, 16);
    $m!(22, *mut &(), raw(PointerMetaKind::None), 8, 8); $m!(23, &&u8, reft(false, sized(8, 8), none()), 8, 8); $m!(24, *const *const [u8], raw(PointerMetaKind::None), 8, 8);
} }
const NT: usize = 25;

fn exprs(y: &mut Y, c: &mut Ck) {
    let (v, w) = (y.value(2), y.value(2));
    let (p, q) = (y.place(2), y.place(1));
    let t = y.sane_ty(2);
    let un = |o| ValueExpr::UnOp { operator: o, operand: mk(v) };
    let bin = |o| ValueExpr::BinOp { operator: o, left: mk(v), right: mk(w) };
    let tr = |v: ValueExpr, t: Type| ValueExpr::UnOp { operator: UnOp::Cast(CastOp::Transmute(t)), operand: mk(v) };
    let b8 = |v| tr(v, i(false, 1));
    match y.us(4) {
        0 => {
            use IntBinOp::*;
            macro_rules! bins { ($($f:ident $o:ident),*) => { $(c.eq(stringify!($f), b::$f(v, w), bin(BinOp::Int($o)));)* } }
            bins!(add Add, add_unchecked AddUnchecked, sub Sub, sub_unchecked SubUnchecked, mul Mul, mul_unchecked MulUnchecked, div Div, div_exact DivExact, rem Rem, shl Shl, shl_unchecked ShlUnchecked, shr Shr, shr_unchecked ShrUnchecked, bit_and BitAnd, bit_or BitOr, bit_xor BitXor);
            macro_rules! ovf { ($($f:ident $o:ident),*) => { $(c.eq(stringify!($f), b::$f(v, w), bin(BinOp::IntWithOverflow(IntBinOpWithOverflow::$o)));)* } }
            ovf!(overflow_add Add, overflow_sub Sub, overflow_mul Mul);
            macro_rules! rels { ($($f:ident $o:ident),*) => { $(c.eq(stringify!($f), b::$f(v, w), bin(BinOp::Rel(RelOp::$o)));)* } }
            rels!(eq Eq, ne Ne, ge Ge, gt Gt, le Le, lt Lt, cmp Cmp);
        }
        1 => {
            let bl = |o, x: ValueExpr, y: ValueExpr| tr(ValueExpr::BinOp { operator: BinOp::Int(o), left: mk(x), right: mk(y) }, Type::Bool);
            c.eq("bool_and", b::bool_and(v, w), bl(IntBinOp::BitAnd, b8(v), b8(w)));
            c.eq("bool_or", b::bool_or(v, w), bl(IntBinOp::BitOr, b8(v), b8(w)));
            c.eq("bool_xor", b::bool_xor(v, w), bl(IntBinOp::BitXor, b8(v), b8(w)));
            c.eq("not", b::not(v), bl(IntBinOp::Sub, a::cint(1u8, i(false, 1)), b8(v)));
            c.eq("bool_to_int", b::bool_to_int::<u8>(v), b8(v));
            c.eq("bool_to_int", b::bool_to_int::<i64>(v), ValueExpr::UnOp { operator: UnOp::Cast(CastOp::IntToInt(a::int_ty(true, 8))), operand: mk(b8(v)) });
            c.eq("neg", b::neg(v), un(UnOp::Int(IntUnOp::Neg)));
            c.eq("bit_not", b::bit_not(v), un(UnOp::Int(IntUnOp::BitNot)));
            c.eq("count_ones", b::count_ones(v), un(UnOp::Int(IntUnOp::CountOnes)));
            c.eq("int_cast", b::int_cast::<u16>(v), un(UnOp::Cast(CastOp::IntToInt(a::int_ty(false, 2)))));
            c.eq("int_cast", b::int_cast::<i128>(v), un(UnOp::Cast(CastOp::IntToInt(a::int_ty(true, 16)))));
            c.panics("int_cast", || b::int_cast::<bool>(v));
            for (k, m) in [(b::InBounds::Yes, true), (b::InBounds::No, false)] {
                let k2 = || if m { b::InBounds::Yes } else { b::InBounds::No };
                c.eq("ptr_offset", b::ptr_offset(v, w, k), bin(BinOp::PtrOffset { inbounds: m }));
                c.eq("ptr_offset_from", b::ptr_offset_from(v, w, k2()), bin(BinOp::PtrOffsetFrom { inbounds: m, nonneg: false }));
                c.eq("ptr_offset_from_nonneg", b::ptr_offset_from_nonneg(v, w, k2()), bin(BinOp::PtrOffsetFrom { inbounds: m, nonneg: true }));
            }
        }
        2 => {
            let pt = y.pty();
            let n = y.int();
            let k = y.us(9) as u32;
            c.eq("compute_size", b::compute_size(t, v), un(UnOp::ComputeSize(t)));
            c.eq("compute_align", b::compute_align(t, v), un(UnOp::ComputeAlign(t)));
            c.eq("transmute", b::transmute(v, t), tr(v, t));
            c.eq("ptr_addr", b::ptr_addr(v), tr(v, i(false, 8)));
            c.eq("ptr_to_ptr", b::ptr_to_ptr(v, Type::Ptr(pt)), tr(v, Type::Ptr(pt)));
            c.panics("ptr_to_ptr", || b::ptr_to_ptr(v, Type::Bool));
            c.eq("get_thin_pointer", b::get_thin_pointer(v), un(UnOp::GetThinPointer));
            c.eq("get_metadata", b::get_metadata(v), un(UnOp::GetMetadata));
            c.eq("construct_wide_pointer", b::construct_wide_pointer(v, w, Type::Ptr(pt)), bin(BinOp::ConstructWidePointer(pt)));
            c.panics("construct_wide_pointer", || b::construct_wide_pointer(v, w, Type::Bool));
            c.eq("addr_of", b::addr_of(p, Type::Ptr(pt)), ValueExpr::AddrOf { target: mk(p), ptr_ty: pt });
            c.panics("addr_of", || b::addr_of(p, Type::Bool));
            c.eq("load", b::load(p), ValueExpr::Load { source: mk(p) });
            c.eq("deref", b::deref(v, t), PlaceExpr::Deref { operand: mk(v), ty: t });
            c.eq("field", b::field(p, k as u64), PlaceExpr::Field { root: mk(p), field: Int::from(k) });
            c.eq("index", b::index(p, v), PlaceExpr::Index { root: mk(p), index: mk(v) });
            c.eq("downcast", b::downcast(p, n), PlaceExpr::Downcast { root: mk(p), discriminant: n });
            c.eq("local", b::local(k), a::local(k as usize));
            c.eq("local_by_name", b::local_by_name(a::lname(k as usize)), a::local(k as usize));
            let g = Constant::GlobalPointer(Relocation { name: a::gname(k as usize), offset: Size::ZERO });
            c.eq("global", b::global::<u16>(k), a::deref(ValueExpr::Constant(g, raw(PointerMetaKind::None)), i(false, 2)));
            c.eq("global_by_name", b::global_by_name::<[u32; 5]>(a::gname(k as usize)), a::deref(ValueExpr::Constant(g, raw(PointerMetaKind::None)), a::array_t(i(false, 4), 5)));
            c.eq("vtable_method_lookup", b::vtable_method_lookup(v, a::mname(k as usize)), un(UnOp::VTableMethodLookup(a::mname(k as usize))));
            c.eq("const_vtable", b::const_vtable(a::vname(k as usize), a::tname(3)), ValueExpr::Constant(Constant::VTablePointer(a::vname(k as usize)), Type::Ptr(PtrType::VTablePtr(a::tname(3)))));
            c.eq("get_discriminant", b::get_discriminant(q), ValueExpr::GetDiscriminant { place: mk(q) });
        }
        _ => {
            let n = y.int();
            let x = y.r.next();
            c.eq("const_int", b::const_int(x), ValueExpr::Constant(Constant::Int(Int::from(x)), i(false, 8)));
            c.eq("const_int", b::const_int(x as i16), ValueExpr::Constant(Constant::Int(Int::from(x as i16)), i(true, 2)));
            c.eq("const_int", b::const_int(x as i128 - (1 << 90)), ValueExpr::Constant(Constant::Int(Int::from(x as i128 - (1 << 90))), i(true, 16)));
            c.eq("const_int_typed", b::const_int_typed::<i32>(n), ValueExpr::Constant(Constant::Int(n), i(true, 4)));
            c.eq("const_bool", b::const_bool(x & 1 == 1), ValueExpr::Constant(Constant::Bool(x & 1 == 1), Type::Bool));
            let k = y.us(4);
            let es: Vec<ValueExpr> = (0..k).map(|_| y.value(1)).collect();
            let tt = a::tuple_t((0..k).map(|j| (j as i128 * 8, y.sane_ty(1))).collect(), 64, 8);
            c.eq("tuple", b::tuple(&es, tt), ValueExpr::Tuple(a::list(es.clone()), tt));
            c.panics("tuple", || b::tuple(&[], a::tuple_t(vec![(0, Type::Bool)], 1, 1)));
            c.panics("tuple", || b::tuple(&[], Type::Bool));
            c.eq("array", b::array(&es, t), ValueExpr::Tuple(a::list(es.clone()), a::array_t(t, k as i128)));
            c.eq("variant", b::variant(n, v, t), ValueExpr::Variant { discriminant: n, data: mk(v), enum_ty: t });
            c.eq("unit", b::unit(), ValueExpr::Tuple(List::new(), unit()));
            let ptr = |n: u64| ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::from(n)), raw(PointerMetaKind::None));
            c.eq("null", b::null(), ptr(0));
            c.eq("unit_ptr", b::unit_ptr(), ptr(1));
            c.eq("unit_place", b::unit_place(), a::deref(ptr(1), unit()));
            c.eq("by_value", b::by_value(v), ArgumentExpr::ByValue(v));
            c.eq("in_place", b::in_place(p), ArgumentExpr::InPlace(p));
            c.eq("fn_ptr", b::fn_ptr(a::fname(k)), a::cfn(k));
            c.eq("fn_ptr_internal", b::fn_ptr_internal(k as u32), a::cfn(k));
        }
    }
}

fn frozen(l: LayoutStrategy) -> UnsafeCellStrategy {
    match l {
        LayoutStrategy::Sized(..) => none(),
        LayoutStrategy::Slice(..) => UnsafeCellStrategy::Slice { element_cells: List::new() },
        LayoutStrategy::TraitObject(_) => UnsafeCellStrategy::TraitObject,
        LayoutStrategy::Tuple { tail, .. } => UnsafeCellStrategy::Tuple { head_cells: List::new(), tail_cells: mk(frozen(tail.extract())) },
    }
}

fn tys(y: &mut Y, c: &mut Ck) {
    macro_rules! one { ($n:expr, $t:ty, $want:expr, $s:expr, $al:expr) => {
        c.eq("get_type", <$t>::get_type(), $want);
        c.eq("get_size", <$t>::get_size(), a::size($s));
        c.eq("get_align", <$t>::get_align(), a::align($al));
        c.eq("get_layout", <$t>::get_layout(), sized($s, $al));
        c.eq("global_int", b::global_int::<$t>(), Global { bytes: a::list(vec![Some(0u8); $s]), relocations: List::new(), align: a::align($al) });
    } }
    types!(one);
    c.eq("get_type", <[u16]>::get_type(), a::slice_t(i(false, 2)));
    c.eq("get_layout", <[u16]>::get_layout(), LayoutStrategy::Slice(a::size(2), a::align(2)));
    c.eq("global_ptr", b::global_ptr::<u8>(), Global { bytes: a::list(vec![Some(0u8); 8]), relocations: List::new(), align: a::align(8) });
    c.eq("global_ptr", b::global_ptr::<[u8]>(), Global { bytes: a::list(vec![Some(0u8); 16]), relocations: List::new(), align: a::align(8) });
    let info = y.info();
    let l = y.layout(3);
    let t = y.sane_ty(2);
    let m = y.meta();
    let it = y.ity();
    c.eq("int_ty", b::int_ty(it.signed, it.size), Type::Int(it));
    c.eq("bool_ty", b::bool_ty(), Type::Bool);
    let rf = |m| Type::Ptr(PtrType::Ref { mutbl: m, pointee: info });
    c.eq("ref_ty", b::ref_ty(info), rf(Mutability::Immutable));
    c.eq("ref_mut_ty", b::ref_mut_ty(info), rf(Mutability::Mutable));
    c.eq("box_ty", b::box_ty(info), Type::Ptr(PtrType::Box { pointee: info }));
    c.eq("raw_ptr_ty", b::raw_ptr_ty(m), raw(m));
    c.eq("raw_void_ptr_ty", b::raw_void_ptr_ty(), raw(PointerMetaKind::None));
    c.eq("from_frozen_layout", b::from_frozen_layout(l), frozen(l));
    let tl = t.layout::<minirust_rs::prelude::x86_64>();
    c.eq("ref_ty_default_markers_for", b::ref_ty_default_markers_for(t), reft(false, tl, frozen(tl)));
    c.eq("ref_mut_ty_default_markers_for", b::ref_mut_ty_default_markers_for(t), reft(true, tl, frozen(tl)));
    let n = y.us(4);
    let fs: Vec<(Size, Type)> = (0..n).map(|_| { let o = y.size(); (o, y.sane_ty(1)) }).collect();
    let (s, al, pk) = (y.size(), y.align(), if y.ch(50) { Some(y.align()) } else { None });
    c.eq("tuple_ty", b::tuple_ty(&fs, s, al), Type::Tuple { sized_fields: a::list(fs.clone()), sized_head_layout: TupleHeadLayout { end: s, align: al, packed_align: None }, unsized_field: mk(None) });
    c.eq("unsized_tuple_ty", b::unsized_tuple_ty(&fs, t, s, al, pk), Type::Tuple { sized_fields: a::list(fs.clone()), sized_head_layout: TupleHeadLayout { end: s, align: al, packed_align: pk }, unsized_field: mk(Some(t)) });
    c.eq("union_ty", b::union_ty(&fs, s, al), Type::Union { fields: a::list(fs.clone()), size: s, align: al, chunks: a::list(vec![(Size::ZERO, s)]) });
    c.eq("array_ty", b::array_ty(t, n as u64), a::array_t(t, n as i128));
    c.eq("slice_ty", b::slice_ty(t), a::slice_t(t));
    c.eq("trait_object_ty", b::trait_object_ty(a::tname(n)), Type::TraitObject(a::tname(n)));
    let tag: Vec<(Size, (IntType, Int))> = (0..n).map(|_| { let o = y.size(); let t = y.ity(); (o, (t, y.int())) }).collect();
    let var = b::enum_variant(t, &tag);
    c.eq("enum_variant", var, Variant { ty: t, tagger: a::map(tag) });
    let d = y.discr(2);
    let (k, k2) = (y.r.next() as i16, y.r.next() as i16);
    c.eq("enum_ty", b::enum_ty(&[(k, var), (k2, var)], d, s, al), Type::Enum { variants: a::map(vec![(Int::from(k), var), (Int::from(k2), var)]), discriminant_ty: a::int_ty(true, 2), discriminator: d, size: s, align: al });
    c.eq("discriminator_invalid", b::discriminator_invalid(), Discriminator::Invalid);
    c.eq("discriminator_known", b::discriminator_known(k), Discriminator::Known(Int::from(k)));
    let d2 = y.discr(1);
    c.eq("discriminator_branch", b::discriminator_branch::<u32>(s, d, &[((3, 7), d2), ((9, 10), d)]),
        Discriminator::Branch { offset: s, value_type: a::int_ty(false, 4), fallback: mk(d), children: a::map(vec![((Int::from(3), Int::from(7)), d2), ((Int::from(9), Int::from(10)), d)]) });
    c.eq("size", b::size(n as u64), a::size(n as i128));
    c.eq("offset", b::offset(n as u64), a::size(n as i128));
    c.eq("align", b::align(1u64 << n), a::align(1 << n));
    c.panics("align", || b::align(3u64));
}

/// a terminator with what the free function builds it from
fn intr(op: IntrinsicOp, args: &[ValueExpr], ret: PlaceExpr, next: Option<usize>) -> Terminator { a::intrinsic(op, args.to_vec(), ret, next) }
fn up() -> PlaceExpr { a::deref(ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::from(1)), raw(PointerMetaKind::None)), unit()) }
fn free(y: &mut Y, c: &mut Ck) {
    use IntrinsicOp as I;
    let (v, w, x) = (y.value(2), y.value(2), y.value(1));
    let (p, n) = (y.place(2), y.us(9));
    let m = n as u32;
    let (o, bb) = (Some(n), a::bname(n));
    let args: Vec<ArgumentExpr> = (0..y.us(3)).map(|_| y.arg()).collect();
    c.eq("goto", b::goto(m), Terminator::Goto(bb));
    c.eq("unreachable", b::unreachable(), Terminator::Unreachable);
    c.eq("return_", b::return_(), Terminator::Return);
    c.eq("resume_unwind", b::resume_unwind(), Terminator::ResumeUnwind);
    c.eq("stop_unwind", b::stop_unwind(bb), Terminator::StopUnwind(bb));
    c.eq("start_unwind", b::start_unwind(v, bb), Terminator::StartUnwind { unwind_payload: v, unwind_block: bb });
    let b8 = ValueExpr::UnOp { operator: UnOp::Cast(CastOp::Transmute(i(false, 1))), operand: mk(v) };
    c.eq("if_", b::if_(v, m, m + 1), Terminator::Switch { value: b8, cases: a::map(vec![(Int::from(1), bb)]), fallback: a::bname(n + 1) });
    let (k, k2) = (y.r.next() as i32, y.r.next() as i32);
    c.eq("switch_int", b::switch_int(v, &[(k, m), (k2, 3)], 4), Terminator::Switch { value: v, cases: a::map(vec![(Int::from(k), bb), (Int::from(k2), a::bname(3))]), fallback: a::bname(4) });
    let nx = if y.ch(70) { Some(m) } else { None };
    c.eq("call", b::call(m, &args, p, nx), Terminator::Call { callee: a::cfn(n), calling_convention: CallingConvention::C, arguments: a::list(args.clone()), ret: p, next_block: nx.map(|_| bb), unwind_block: None });
    c.eq("assume", b::assume(v, m), intr(I::Assume, &[v], up(), o));
    c.eq("print", b::print(v, m), intr(I::PrintStdout, &[v], up(), o));
    c.eq("eprint", b::eprint(v, m), intr(I::PrintStderr, &[v], up(), o));
    c.eq("allocate", b::allocate(v, w, p, m), intr(I::Allocate, &[v, w], p, o));
    c.eq("deallocate", b::deallocate(v, w, x, m), intr(I::Deallocate, &[v, w, x], up(), o));
    c.eq("exit", b::exit(), intr(I::Exit, &[], up(), None));
    c.eq("abort", b::abort(), intr(I::Abort, &[], up(), None));
    c.eq("spawn", b::spawn(v, w, p, m), intr(I::Spawn, &[v, w], p, o));
    c.eq("join", b::join(v, m), intr(I::Join, &[v], up(), o));
    c.eq("raw_eq", b::raw_eq(p, v, w, m), intr(I::RawEq, &[v, w], p, o));
    c.eq("atomic_store", b::atomic_store(v, w, m), intr(I::AtomicStore, &[v, w], up(), o));
    c.eq("atomic_load", b::atomic_load(p, v, m), intr(I::AtomicLoad, &[v], p, o));
    c.eq("atomic_fetch", b::atomic_fetch(b::FetchBinOp::Add, p, v, w, m), intr(I::AtomicFetchAndOp(IntBinOp::Add), &[v, w], p, o));
    c.eq("atomic_fetch", b::atomic_fetch(b::FetchBinOp::Sub, p, v, w, m), intr(I::AtomicFetchAndOp(IntBinOp::Sub), &[v, w], p, o));
    c.eq("compare_exchange", b::compare_exchange(p, v, w, x, m), intr(I::AtomicCompareExchange, &[v, w, x], p, o));
    c.eq("expose_provenance", b::expose_provenance(p, v, m), intr(I::PointerExposeProvenance, &[v], p, o));
    c.eq("with_exposed_provenance", b::with_exposed_provenance(p, v, m), intr(I::PointerWithExposedProvenance, &[v], p, o));
    c.eq("lock_create", b::lock_create(p, m), intr(I::Lock(IntrinsicLockOp::Create), &[], p, o));
    c.eq("lock_acquire", b::lock_acquire(v, m), intr(I::Lock(IntrinsicLockOp::Acquire), &[v], up(), o));
    c.eq("lock_release", b::lock_release(v, m), intr(I::Lock(IntrinsicLockOp::Release), &[v], up(), o));
    c.eq("get_unwind_payload", b::get_unwind_payload(p, m), intr(I::GetUnwindPayload, &[], p, o));
    c.eq("assign", b::assign(p, v), Statement::Assign { destination: p, source: v });
    c.eq("place_mention", b::place_mention(p), Statement::PlaceMention(p));
    c.eq("set_discriminant", b::set_discriminant(p, k), Statement::SetDiscriminant { destination: p, value: Int::from(k) });
    for e in [true, false] { c.eq("validate", b::validate(p, e), Statement::Validate { place: p, fn_entry: e }) }
    c.eq("storage_live", b::storage_live(m), Statement::StorageLive(a::lname(n)));
    c.eq("storage_dead", b::storage_dead(m), Statement::StorageDead(a::lname(n)));
    // whole functions and programs
    let blocks: Vec<BasicBlock> = (0..1 + y.us(3)).map(|_| y.block()).collect();
    for bl in &blocks { let st: Vec<Statement> = bl.statements.iter().collect(); c.eq("block", b::block(&st, bl.terminator, bl.kind), *bl) }
    let (s1, s2, s3, t1) = (y.stmt(), y.stmt(), y.stmt(), y.term());
    let reg = |s: Vec<Statement>| BasicBlock { statements: a::list(s), terminator: t1, kind: BbKind::Regular };
    { use b::block; c.eq("block!", vec![block!(t1), block!(s1, t1), block!(s1, s2, s3, t1)], vec![reg(vec![]), reg(vec![s1]), reg(vec![s1, s2, s3])]); }
    let locals: Vec<Type> = (0..1 + y.us(4)).map(|_| y.sane_ty(1)).collect();
    let na = y.us(locals.len());
    let bm = || a::map(blocks.iter().enumerate().map(|(k, b)| (a::bname(k), *b)).collect::<Vec<_>>());
    let lm = |extra: Option<Type>| a::map(locals.iter().copied().chain(extra).enumerate().map(|(k, t)| (a::lname(k), t)).collect::<Vec<_>>());
    let fy = Function { locals: lm(None), args: a::list((0..na).map(|k| a::lname(k + 1)).collect::<Vec<_>>()), ret: a::lname(0), calling_convention: CallingConvention::C, blocks: bm(), start: a::bname(0) };
    let fnn = Function { locals: lm(Some(unit())), args: a::list((0..na).map(a::lname).collect::<Vec<_>>()), ret: a::lname(locals.len()), calling_convention: CallingConvention::C, blocks: bm(), start: a::bname(0) };
    c.eq("function", b::function(b::Ret::Yes, na, &locals, &blocks), fy);
    c.eq("function", b::function(b::Ret::No, na, &locals, &blocks), fnn);
    c.panics("function", || b::function(b::Ret::Yes, 0, &[], &blocks));
    let gs: Vec<Global> = (0..y.us(3)).map(|_| y.global()).collect();
    let pr = |fs: &[Function], gs: &[Global]| Program { functions: a::map(fs.iter().enumerate().map(|(k, f)| (a::fname(k), *f)).collect::<Vec<_>>()), start: a::fname(0), globals: a::map(gs.iter().enumerate().map(|(k, f)| (a::gname(k), *f)).collect::<Vec<_>>()), traits: a::map(vec![]), vtables: a::map(vec![]) };
    c.eq("program", b::program(&[fy, fnn]), pr(&[fy, fnn], &[]));
    c.eq("program_with_globals", b::program_with_globals(&[fnn, fy], &gs), pr(&[fnn, fy], &gs));
    let ss = [s1, s2];
    let small = Function { locals: lm(Some(unit())), args: List::new(), ret: a::lname(locals.len()), calling_convention: CallingConvention::C, start: a::bname(0),
        blocks: a::map(vec![(a::bname(0), BasicBlock { statements: a::list(ss.to_vec()), terminator: intr(I::Exit, &[], up(), None), kind: BbKind::Regular })]) };
    c.eq("small_program", b::small_program(&locals, &ss), pr(&[small], &[]));
}

// ---- the program builder

#[derive(Clone)]
struct MBlock { kind: BbKind, stmts: Vec<Statement>, term: Option<Terminator>, real: Option<BbName> }
/// what the function under construction should look like; blocks are numbered by the model, and terminators name model blocks
struct M { blocks: Vec<MBlock>, cur: Option<usize>, locals: Vec<(LocalName, Type)>, args: Vec<LocalName>, ret: Option<LocalName>, conv: CallingConvention, n: BTreeMap<String, u64>, bad: Bad }
impl M {
    fn new() -> M { M { blocks: vec![MBlock { kind: BbKind::Regular, stmts: vec![], term: None, real: None }], cur: Some(0), locals: vec![], args: vec![], ret: None, conv: CallingConvention::Rust, n: BTreeMap::new(), bad: None } }
    fn block(&mut self, kind: BbKind) -> usize { self.blocks.push(MBlock { kind, stmts: vec![], term: None, real: None }); self.blocks.len() - 1 }
    fn kind(&self) -> BbKind { self.blocks[self.cur.unwrap()].kind }
    fn s(&mut self, s: Statement) { let k = self.cur.unwrap(); self.blocks[k].stmts.push(s) }
    fn t(&mut self, t: Terminator) { let k = self.cur.take().unwrap(); self.blocks[k].term = Some(t) }
    /// intrinsic followed by a new block of the same kind
    fn i(&mut self, op: IntrinsicOp, args: &[ValueExpr], ret: PlaceExpr) { let k = self.kind(); let nb = self.block(k); self.t(intr(op, args, ret, Some(nb))); self.cur = Some(nb) }
    fn c(&mut self, s: &str) { *self.n.entry(format!("build.fb.{s}")).or_default() += 1 }
    fn fresh(&mut self, p: PlaceExpr, t: Type) -> Option<LocalName> {
        let PlaceExpr::Local(n) = p else { self.bad = Some("declaring a local does not return its place".into()); return None };
        if self.locals.iter().any(|x| x.0 == n) { self.bad = Some(format!("{n:?} is declared twice")) }
        self.locals.push((n, t));
        Some(n)
    }
}
type C<'a> = (&'a RefCell<Y>, &'a RefCell<M>);

fn ops(f: &mut b::FunctionBuilder, c: C, d: u32, fns: &[FnName]) {
    let k = { c.0.borrow_mut().us(7) };
    for _ in 0..k { if c.1.borrow().cur.is_none() { return } op(f, c, d, fns) }
}
/// leave the current block
fn last(f: &mut b::FunctionBuilder, c: C) {
    let mut y = c.0.borrow_mut();
    let mut m = c.1.borrow_mut();
    match y.us(6) {
        0 => { m.c("exit"); f.exit(); m.t(intr(IntrinsicOp::Exit, &[], up(), None)) }
        1 => { m.c("abort"); f.abort(); m.t(intr(IntrinsicOp::Abort, &[], up(), None)) }
        2 => { m.c("unreachable"); f.unreachable(); m.t(Terminator::Unreachable) }
        3 => { m.c("return"); f.return_(); m.t(Terminator::Return) }
        4 => { m.c("resume"); f.resume_unwind(); m.t(Terminator::ResumeUnwind) }
        _ => { m.c("call_noret"); let (v, p) = (y.value(1), y.place(1)); let args: Vec<_> = (0..y.us(3)).map(|_| y.arg()).collect(); f.call_noret(p, v, &args); m.t(Terminator::Call { callee: v, calling_convention: CallingConvention::Rust, arguments: a::list(args), ret: p, next_block: None, unwind_block: None }) }
    }
}
fn side(f: &mut b::FunctionBuilder, c: C, d: u32, fns: &[FnName]) -> (BbName, usize) {
    let which = { c.0.borrow_mut().us(3) };
    let kind = [BbKind::Cleanup, BbKind::Terminate, BbKind::Catch][which];
    let (old, nb) = { let mut m = c.1.borrow_mut(); m.c(&format!("{kind:?}")); let old = m.cur.take(); let nb = m.block(kind); m.cur = Some(nb); (old, nb) };
    let body = |f: &mut b::FunctionBuilder| { ops(f, c, d, fns); if c.1.borrow().cur.is_some() { last(f, c) } };
    let name = match which { 0 => f.cleanup_block(body), 1 => f.terminating_block(body), _ => f.catch_block(body) };
    let mut m = c.1.borrow_mut();
    m.blocks[nb].real = Some(name);
    m.cur = old;
    (name, nb)
}
fn op(f: &mut b::FunctionBuilder, c: C, d: u32, fns: &[FnName]) {
    let k = { let mut y = c.0.borrow_mut(); let n = if d > 0 { 34 } else { 26 }; y.us(n) };
    if k < 26 {
        let mut y = c.0.borrow_mut();
        let mut m = c.1.borrow_mut();
        let (v, w, x, p) = (y.value(2), y.value(1), y.value(1), y.place(2));
        use IntrinsicOp as I;
        match k {
            0 => { m.c("assign"); f.assign(p, v); m.s(a::assign(p, v)) }
            1 => { m.c("mention"); f.place_mention(p); m.s(Statement::PlaceMention(p)) }
            2 => { m.c("setdiscr"); let n = y.int(); f.set_discriminant(p, n); m.s(Statement::SetDiscriminant { destination: p, value: n }) }
            3 => { m.c("validate"); let e = y.ch(50); f.validate(p, e); m.s(Statement::Validate { place: p, fn_entry: e }) }
            4 => { m.c("storage_live"); let n = y.us(9); f.storage_live(b::local(n as u32)); m.s(Statement::StorageLive(a::lname(n))) }
            5 => { m.c("storage_dead"); let n = y.us(9); f.storage_dead(b::local(n as u32)); m.s(Statement::StorageDead(a::lname(n))) }
            6 => { m.c("assume"); f.assume(v); m.i(I::Assume, &[v], up()) }
            7 => { m.c("print"); f.print(v); m.i(I::PrintStdout, &[v], up()) }
            8 => { m.c("eprint"); f.eprint(v); m.i(I::PrintStderr, &[v], up()) }
            9 => { m.c("allocate"); f.allocate(v, w, p); m.i(I::Allocate, &[v, w], p) }
            10 => { m.c("deallocate"); f.deallocate(v, w, x); m.i(I::Deallocate, &[v, w, x], up()) }
            11 => { m.c("spawn"); let n = if fns.is_empty() { a::fname(77) } else { fns[y.us(fns.len())] }; f.spawn(n, v, p); m.i(I::Spawn, &[ValueExpr::Constant(Constant::FnPointer(n), Type::Ptr(PtrType::FnPtr)), v], p) }
            12 => { m.c("join"); f.join(v); m.i(I::Join, &[v], up()) }
            13 => { m.c("raw_eq"); f.raw_eq(p, v, w); m.i(I::RawEq, &[v, w], p) }
            14 => { m.c("atomic_store"); f.atomic_store(v, w); m.i(I::AtomicStore, &[v, w], up()) }
            15 => { m.c("atomic_load"); f.atomic_load(p, v); m.i(I::AtomicLoad, &[v], p) }
            16 => { m.c("atomic_fetch"); let s = y.ch(50); f.atomic_fetch(if s { b::FetchBinOp::Sub } else { b::FetchBinOp::Add }, p, v, w); m.i(I::AtomicFetchAndOp(if s { IntBinOp::Sub } else { IntBinOp::Add }), &[v, w], p) }
            17 => { m.c("compare_exchange"); f.compare_exchange(p, v, w, x); m.i(I::AtomicCompareExchange, &[v, w, x], p) }
            18 => { m.c("expose"); f.expose_provenance(p, v); m.i(I::PointerExposeProvenance, &[v], p) }
            19 => { m.c("exposed"); f.with_exposed_provenance(p, v); m.i(I::PointerWithExposedProvenance, &[v], p) }
            20 => { m.c("lock_create"); f.lock_create(p); m.i(I::Lock(IntrinsicLockOp::Create), &[], p) }
            21 => { m.c("lock_acquire"); f.lock_acquire(v); m.i(I::Lock(IntrinsicLockOp::Acquire), &[v], up()) }
            22 => { m.c("lock_release"); f.lock_release(v); m.i(I::Lock(IntrinsicLockOp::Release), &[v], up()) }
            23 => { m.c("payload"); f.get_unwind_payload(p); m.i(I::GetUnwindPayload, &[], p) }
            _ => {
                let which = y.us(5);
                if which == 4 {
                    // locals may be declared at any time
                    m.c("local"); 
                    let n = y.us(NT + 2);
                    if n >= NT { let t = y.sane_ty(2); let p = if n == NT { f.declare_local_with_ty(t) } else { f.declare_arg_with_ty(t) }; if let Some(l) = m.fresh(p, t) { if n != NT { m.args.push(l) } } return }
                    let arg = y.ch(30);
                    let ret = m.ret.is_none() && y.ch(20);
                    macro_rules! decl { ($n:expr, $t:ty, $want:expr, $s:expr, $al:expr) => { if n == $n {
                        let p = if ret { f.declare_ret::<$t>() } else if arg { f.declare_arg::<$t>() } else { f.declare_local::<$t>() };
                        if let Some(l) = m.fresh(p, $want) { if ret { m.ret = Some(l) } else if arg { m.args.push(l) } }
                    } } }
                    types!(decl);
                    if ret { drop(m); drop(y); if catch_unwind(Aus(|| f.declare_ret::<u8>())).is_ok() { c.1.borrow_mut().bad = Some("a second return place is not rejected".into()) } }
                    return;
                }
                let args: Vec<_> = (0..y.us(4)).map(|_| y.arg()).collect();
                let conv = y.conv();
                let kind = m.kind();
                if which >= 2 {
                    drop(m); drop(y);
                    let (u, mu) = side(f, c, 0, fns);
                    let mut m = c.1.borrow_mut();
                    let nb = m.block(kind);
                    m.c(if which == 2 { "call" } else { "call_with_conv" });
                    if which == 2 { f.call(p, v, &args, u) } else { f.call_with_conv(p, v, &args, conv, u) }
                    m.t(Terminator::Call { callee: v, calling_convention: if which == 2 { CallingConvention::Rust } else { conv }, arguments: a::list(args), ret: p, next_block: Some(a::bname(nb)), unwind_block: Some(a::bname(mu)) });
                    m.cur = Some(nb);
                } else {
                    let nb = m.block(kind);
                    m.c(if which == 0 { "call_nounwind" } else { "call_ignoreret" });
                    if which == 0 { f.call_nounwind(p, v, &args) } else { f.call_ignoreret(v, &args) }
                    m.t(Terminator::Call { callee: v, calling_convention: CallingConvention::Rust, arguments: a::list(args), ret: if which == 0 { p } else { up() }, next_block: Some(a::bname(nb)), unwind_block: None });
                    m.cur = Some(nb);
                }
            }
        }
        return;
    }
    let v = { c.0.borrow_mut().value(2) };
    // a branch: its own block, and then on to the common continuation unless it left by itself
    let enter = |nb: usize| { c.1.borrow_mut().cur = Some(nb) };
    let leave = |to: usize, used: &std::cell::Cell<bool>| { let mut m = c.1.borrow_mut(); if m.cur.is_some() { used.set(true); m.t(Terminator::Goto(a::bname(to))) } };
    let used = std::cell::Cell::new(false);
    let kind = { c.1.borrow().kind() };
    let b8 = ValueExpr::UnOp { operator: UnOp::Cast(CastOp::Transmute(i(false, 1))), operand: mk(v) };
    let maybe_last = |f: &mut b::FunctionBuilder| { let l = { c.0.borrow_mut().ch(25) }; if l && c.1.borrow().cur.is_some() { last(f, c) } };
    match k {
        26 | 27 => {
            let (t, e, aft) = { let mut m = c.1.borrow_mut(); m.c("if"); let t = m.block(kind); let e = m.block(kind); let aft = m.block(kind); m.t(Terminator::Switch { value: b8, cases: a::map(vec![(Int::from(1), a::bname(t))]), fallback: a::bname(e) }); (t, e, aft) };
            f.if_(v, |f| { enter(t); ops(f, c, d - 1, fns); maybe_last(f); leave(aft, &used) }, |f| { enter(e); ops(f, c, d - 1, fns); maybe_last(f); leave(aft, &used) });
            c.1.borrow_mut().cur = if used.get() { Some(aft) } else { None };
        }
        28 | 29 => {
            let n = { c.0.borrow_mut().us(4) };
            let mut keys: Vec<i64> = vec![];
            while keys.len() < n { let k = { c.0.borrow_mut().r.next() as i64 % 9 }; if !keys.contains(&k) { keys.push(k) } }
            let (bl, e, aft) = { let mut m = c.1.borrow_mut(); m.c("switch"); let bl: Vec<usize> = keys.iter().map(|_| m.block(kind)).collect(); let e = m.block(kind); let aft = m.block(kind);
                m.t(Terminator::Switch { value: v, cases: a::map(keys.iter().zip(&bl).map(|(k, b)| (Int::from(*k), a::bname(*b))).collect::<Vec<_>>()), fallback: a::bname(e) }); (bl, e, aft) };
            let cls: Vec<Box<dyn Fn(&mut b::FunctionBuilder) + '_>> = bl.iter().map(|nb| { let (nb, used) = (*nb, &used); Box::new(move |f: &mut b::FunctionBuilder| { enter(nb); ops(f, c, d - 1, fns); maybe_last(f); leave(aft, used) }) as Box<dyn Fn(&mut b::FunctionBuilder)> }).collect();
            let cases: Vec<(i64, &dyn Fn(&mut b::FunctionBuilder))> = keys.iter().copied().zip(cls.iter().map(|b| &**b as &dyn Fn(&mut b::FunctionBuilder))).collect();
            f.switch_int(v, &cases, |f| { enter(e); ops(f, c, d - 1, fns); maybe_last(f); leave(aft, &used) });
            c.1.borrow_mut().cur = if used.get() { Some(aft) } else { None };
        }
        30 | 31 => {
            let (cond, body, out, aft) = { let mut m = c.1.borrow_mut(); m.c("while"); let cond = m.block(kind); let body = m.block(kind); let out = m.block(kind); let aft = m.block(kind);
                m.t(Terminator::Goto(a::bname(cond))); m.cur = Some(cond); m.t(Terminator::Switch { value: b8, cases: a::map(vec![(Int::from(1), a::bname(body))]), fallback: a::bname(out) });
                m.cur = Some(out); m.t(Terminator::Goto(a::bname(aft))); (cond, body, out, aft) };
            let _ = out;
            f.while_(v, |f| { enter(body); ops(f, c, d - 1, fns); maybe_last(f); leave(cond, &used) });
            c.1.borrow_mut().cur = Some(aft);
        }
        32 => {
            // jump to a block declared by hand, and go on there
            let mut m = c.1.borrow_mut();
            let kd = [BbKind::Regular, BbKind::Cleanup, BbKind::Catch, BbKind::Terminate][c.0.borrow_mut().us(4)];
            let nb = m.block(kd);
            let name = f.declare_block();
            m.blocks[nb].real = Some(name);
            m.c("goto");
            match { let n = c.0.borrow_mut().us(3); n } {
                0 => { f.goto(name); m.t(Terminator::Goto(a::bname(nb))) }
                1 => { m.c("start_unwind"); f.start_unwind(v, name); m.t(Terminator::StartUnwind { unwind_payload: v, unwind_block: a::bname(nb) }) }
                _ => { m.c("stop_unwind"); f.stop_unwind(name); m.t(Terminator::StopUnwind(a::bname(nb))) }
            }
            f.set_cur_block(name, kd);
            m.cur = Some(nb);
            if catch_unwind(Aus(|| f.set_cur_block(a::bname(9999), kd))).is_ok() { m.bad = Some("switching away from an unfinished block is not rejected".into()) }
        }
        _ => { side(f, c, d - 1, fns); }
    }
}
fn rename(t: Terminator, g: &mut dyn FnMut(BbName) -> BbName) -> Terminator {
    match t {
        Terminator::Goto(x) => Terminator::Goto(g(x)),
        Terminator::Switch { value, cases, fallback } => {
            let mut v: Vec<(Int, BbName)> = cases.iter().collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            let v: Vec<_> = v.into_iter().map(|(k, x)| (k, g(x))).collect();
            Terminator::Switch { value, cases: a::map(v), fallback: g(fallback) }
        }
        Terminator::Call { callee, calling_convention, arguments, ret, next_block, unwind_block } => { let n = next_block.map(&mut *g); Terminator::Call { callee, calling_convention, arguments, ret, next_block: n, unwind_block: unwind_block.map(g) } }
        Terminator::Intrinsic { intrinsic, arguments, ret, next_block } => Terminator::Intrinsic { intrinsic, arguments, ret, next_block: next_block.map(g) },
        Terminator::StartUnwind { unwind_payload, unwind_block } => Terminator::StartUnwind { unwind_payload, unwind_block: g(unwind_block) },
        Terminator::StopUnwind(x) => Terminator::StopUnwind(g(x)),
        t => t,
    }
}
fn targets(t: Terminator) -> Vec<BbName> { let mut v = vec![]; rename(t, &mut |x| { v.push(x); x }); v }
/// the function built equals the model up to the names of blocks
fn same(f: &Function, m: &M) -> Bad {
    let mut want_locals = m.locals.clone();
    let ret = match m.ret {
        Some(r) => r,
        None => {
            if want_locals.iter().any(|x| x.0 == f.ret) { return Some("the default return place is another local".into()) }
            want_locals.push((f.ret, unit()));
            f.ret
        }
    };
    if f.ret != ret { return Some(format!("return place {:?}, expected {ret:?}", f.ret)) }
    if f.locals != a::map(want_locals.clone()) { return Some(format!("locals {:?}, expected {want_locals:?}", f.locals)) }
    if f.args != a::list(m.args.clone()) { return Some(format!("arguments {:?}, expected {:?}", f.args, m.args)) }
    if f.calling_convention != m.conv { return Some(format!("calling convention {:?}, expected {:?}", f.calling_convention, m.conv)) }
    let mut map: HashMap<u32, usize> = HashMap::new();
    let mut todo = vec![(f.start, 0usize)];
    for (k, x) in m.blocks.iter().enumerate() { if let (Some(r), Some(_)) = (x.real, x.term) { todo.push((r, k)) } }
    let id = |b: BbName| Name::get_internal(b.0);
    let nblocks = f.blocks.iter().count();
    while let Some((r, k)) = todo.pop() {
        match map.get(&id(r)) { Some(k2) if *k2 == k => continue, Some(_) => return Some(format!("block {r:?} is reached where different blocks are expected")), None => {} }
        if map.values().any(|x| *x == k) { return Some(format!("two blocks where one is expected ({r:?})")) }
        map.insert(id(r), k);
        let Some(bl) = f.blocks.get(r) else { return Some(format!("block {r:?} does not exist")) };
        let w = &m.blocks[k];
        if bl.kind != w.kind { return Some(format!("block {r:?} is of kind {:?}, expected {:?}", bl.kind, w.kind)) }
        if bl.statements != a::list(w.stmts.clone()) { return Some(format!("statements {:?}, expected {:?}", bl.statements, w.stmts)) }
        let wt = w.term.expect("model block has a terminator");
        let (ra, wa) = (targets(bl.terminator), targets(wt));
        let blank = |t| rename(t, &mut |_| a::bname(0));
        if ra.len() != wa.len() || blank(bl.terminator) != blank(wt) { return Some(format!("terminator {:?}, expected {wt:?}", bl.terminator)) }
        for (x, y) in ra.into_iter().zip(wa) { todo.push((x, id(y) as usize)) }
    }
    if map.len() != nblocks { return Some(format!("{nblocks} blocks, {} of them expected", map.len())) }
    None
}

fn programs(y: Y, c: &mut Ck) -> Y {
    let y = RefCell::new(y);
    let mut pb = b::ProgramBuilder::new();
    // traits and tables
    let mut traits: Vec<(TraitName, Vec<TraitMethodName>)> = vec![];
    let n_ = y.borrow_mut().us(3); for _ in 0..n_ {
        let mut t = pb.declare_trait();
        let ms: Vec<TraitMethodName> = (0..{ let n = y.borrow_mut().us(4); n }).map(|_| t.declare_method()).collect();
        for (k, x) in ms.iter().enumerate() { if ms[..k].contains(x) && c.bad.is_none() { c.bad = Some("two methods of a trait have the same name".into()) } }
        let n0 = t.name();
        let n = pb.finish_trait(t);
        c.eq("finish_trait", n, n0);
        if traits.iter().any(|x| x.0 == n) && c.bad.is_none() { c.bad = Some("two traits have the same name".into()) }
        traits.push((n, ms));
    }
    // globals
    let mut globals: Vec<(GlobalName, Global)> = vec![];
    let n_ = y.borrow_mut().us(4); for _ in 0..n_ {
        let n = y.borrow_mut().us(NT);
        macro_rules! glob { ($n:expr, $t:ty, $want:expr, $s:expr, $al:expr) => { if n == $n {
            let p = pb.declare_global_zero_initialized::<$t>();
            match p {
                PlaceExpr::Deref { operand, ty } => match operand.extract() {
                    ValueExpr::Constant(Constant::GlobalPointer(r), pt) => { c.eq("global.place", (ty, pt, r.offset), ($want, raw(PointerMetaKind::None), Size::ZERO)); if globals.iter().any(|g| g.0 == r.name) && c.bad.is_none() { c.bad = Some("two globals have the same name".into()) } globals.push((r.name, Global { bytes: a::list(vec![Some(0u8); $s]), relocations: List::new(), align: a::align($al) })) }
                    o => c.eq("global.place", format!("{o:?}"), "a pointer to the global".into()),
                },
                o => c.eq("global.place", format!("{o:?}"), "the global".into()),
            }
        } } }
        types!(glob);
    }
    // functions: declared one after the other, but built and finished in any order
    let nf = 1 + y.borrow_mut().us(3);
    let mut fbs: Vec<(b::FunctionBuilder, RefCell<M>)> = (0..nf).map(|_| (pb.declare_function(), RefCell::new(M::new()))).collect();
    let names: Vec<FnName> = fbs.iter().map(|f| f.0.name()).collect();
    let mut order: Vec<usize> = (0..nf).collect();
    for k in 0..nf { let j = k + y.borrow_mut().us(nf - k); order.swap(k, j) }
    let mut models: Vec<Option<M>> = (0..nf).map(|_| None).collect();
    fbs.reverse();
    let mut slots: Vec<Option<(b::FunctionBuilder, RefCell<M>)>> = (0..nf).map(|_| fbs.pop()).collect();
    for k in order {
        let (mut f, m) = slots[k].take().unwrap();
        ops(&mut f, (&y, &m), 2, &names);
        if y.borrow_mut().ch(50) { let cv = y.borrow_mut().conv(); f.set_conv(cv); m.borrow_mut().conv = cv }
        if m.borrow().cur.is_some() { last(&mut f, (&y, &m)) }
        let m = m.into_inner();
        for (k, v) in &m.n { *c.n.entry(k.clone()).or_default() += v; c.sig = hash(&format!("{}{k}{v}", c.sig)) }
        if m.bad.is_some() && c.bad.is_none() { c.bad = m.bad.clone() }
        match catch_unwind(Aus(|| pb.finish_function(f))) { Ok(n) => c.eq("finish_function", n, names[k]), Err(_) => { if c.bad.is_none() { c.bad = Some(format!("finishing a function panics: {}", crate::run::panic_msg())) } return y.into_inner() } }
        models[k] = Some(m);
    }
    { let f = pb.declare_function(); c.panics("unfinished function", || { let mut q = b::ProgramBuilder::new(); let _ = &f; let g = q.declare_function(); q.finish_function(g) }); let mut g = f; g.return_(); let n = pb.finish_function(g); let mut m = M::new(); m.t(Terminator::Return); models.push(Some(m)); c.eq("finish_function.new", names.contains(&n), false); }
    let mut vts: Vec<(VTableName, VTable)> = vec![];
    for (tn, ms) in &traits {
        let n_ = y.borrow_mut().us(3); for _ in 0..n_ {
            let mut y = y.borrow_mut();
            let (size, align) = (y.size(), y.align());
            let cells = { let n = y.us(3); a::list((0..n).map(|_| { let o = y.size(); (o, y.size()) }).collect::<Vec<_>>()) };
            let frozen = y.ch(40);
            let (mut v, size, align, cells) = if frozen { (pb.declare_vtable_for_frozen_ty(*tn, i(true, 4)), a::size(4), a::align(4), List::new()) } else { (pb.declare_vtable(*tn, size, align, cells), size, align, cells) };
            let fs: Vec<(TraitMethodName, FnName)> = ms.iter().map(|m| (*m, names[y.us(names.len())])).collect();
            for (m, f) in &fs { v.add_method(*m, *f) }
            let n0 = v.name();
            let n = pb.finish_vtable(v);
            c.eq("finish_vtable", n, n0);
            if vts.iter().any(|x| x.0 == n) && c.bad.is_none() { c.bad = Some("two tables have the same name".into()) }
            vts.push((n, VTable { trait_name: *tn, size, align, cells, methods: a::map(fs) }));
        }
        if !ms.is_empty() { let v = pb.declare_vtable(*tn, a::size(1), a::align(1), List::new()); c.panics("incomplete table", || pb.finish_vtable(v)); }
    }
    if y.borrow_mut().ch(10) { c.panics("missing start", || pb.finish_program(a::fname(9999))); return y.into_inner() }
    let st = y.borrow_mut().us(nf);
    let p = pb.finish_program(names[st]);
    models[st].as_mut().unwrap().conv = CallingConvention::C;
    c.eq("start", p.start, names[st]);
    c.eq("globals", p.globals, a::map(globals));
    c.eq("traits", p.traits, a::map(traits.iter().map(|(n, ms)| (*n, ms.iter().copied().collect::<minirust_rs::prelude::Set<_>>())).collect::<Vec<_>>()));
    c.eq("vtables", p.vtables, a::map(vts));
    c.eq("functions", p.functions.iter().count(), nf + 1);
    for (k, n) in names.iter().enumerate() {
        match p.functions.get(*n) { None => c.eq("function.missing", true, false), Some(f) => if let Some(e) = same(&f, models[k].as_ref().unwrap()) { if c.bad.is_none() { c.bad = Some(format!("the built function differs: {e}").chars().take(1500).collect()) } } }
    }
    *c.n.entry("build.programs".into()).or_default() += 1;
    *c.n.entry("build.blocks".into()).or_default() += models.iter().flatten().map(|m| m.blocks.len() as u64).sum::<u64>();
    y.into_inner()
}

fn mock(y: &mut Y, c: &mut Ck) {
    use std::io::Write;
    let m = miniutil::mock_write::MockWrite::new();
    let mut w = [m.clone(), m.clone()];
    let mut want = String::new();
    for _ in 0..y.us(20) {
        let s = match y.us(4) { 0 => "\n".to_string(), 1 => format!("{}", y.r.next() as i32), 2 => "äé".into(), _ => format!("{}\n", y.us(3)) };
        let k = y.us(2);
        if y.ch(50) { write!(w[k], "{s}").unwrap() } else { w[k].write_all(s.as_bytes()).unwrap() }
        if y.ch(20) { w[k].flush().unwrap() }
        want += &s;
    }
    let mut lines: Vec<String> = want.split('\n').map(|s| s.to_string()).collect();
    if lines.last().is_some_and(|l| l.is_empty()) { lines.pop(); }
    c.eq("mock_write", m.into_strings(), lines);
}

pub fn case(seed: u64, dump: bool) -> Case {
    let mut c = Ck { n: BTreeMap::new(), bad: None, sig: seed };
    let mut y = Y::new(seed);
    let r = catch_unwind(Aus(|| {
        match y.us(8) {
            0 => exprs(&mut y, &mut c),
            1 => tys(&mut y, &mut c),
            2 => free(&mut y, &mut c),
            3 => mock(&mut y, &mut c),
            _ => { let z = Y { r: y.r.clone() }; programs(z, &mut c); }
        }
    }));
    if r.is_err() && c.bad.is_none() { c.bad = Some(format!("building panics: {}", crate::run::panic_msg())) }
    if dump { println!("{:?}", c.n) }
    let _ = (Unsigned, Signed, Align::ONE);
    done(c.bad, "built", c.sig, c.n, format!("seed {seed}"))
}
