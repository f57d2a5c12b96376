//! Random programs that need not make sense: every node kind in every position.
use crate::gen_::ast::*;
use crate::rf::ty::mk;
use minirust_rs::libspecr::ctl::Rng;
use minirust_rs::prelude as sp;
use minirust_rs::prelude::{Align, Int, List, Mutability, Size};
use num_bigint::BigInt;

pub struct Y { pub r: Rng }
impl Y {
    pub fn new(seed: u64) -> Y { Y { r: Rng::new(seed) } }
    pub fn us(&mut self, n: usize) -> usize { self.r.below(n as u128) as usize }
    pub fn ch(&mut self, p: u32) -> bool { self.r.below(100) < p as u128 }
    pub fn int(&mut self) -> Int {
        let b: BigInt = match self.us(6) {
            0 => BigInt::from(self.us(4)),
            1 => BigInt::from(self.r.next() as u8 as i8),
            2 => BigInt::from(self.r.next() as i64),
            3 => BigInt::from(self.r.next()),
            4 => (BigInt::from(self.r.next()) << 64) + self.r.next(),
            _ => { let x: BigInt = (BigInt::from(self.r.next() >> 1) << 64u32) + BigInt::from(self.r.next()); -x }
        };
        int_of(&b)
    }
    pub fn nat(&mut self) -> Int { Int::from(if self.ch(90) { self.us(20) as u64 } else { self.r.next() >> 3 }) }
    pub fn size(&mut self) -> Size { let n = self.us(40) as i128; size(n) }
    pub fn align(&mut self) -> Align { let n = 1i128 << self.us(8); align(n) }
    pub fn ity(&mut self) -> IntType { let n = 1 << self.us(5); let s = self.ch(50); int_ty(s, n) }
    fn cells(&mut self) -> List<(Size, Size)> { let n = self.us(3); list((0..n).map(|_| { let a = self.size(); (a, self.size()) }).collect::<Vec<_>>()) }
    pub fn strategy(&mut self, d: u32) -> UnsafeCellStrategy {
        match self.us(if d > 0 { 4 } else { 3 }) { 0 => UnsafeCellStrategy::Sized { cells: self.cells() }, 1 => UnsafeCellStrategy::Slice { element_cells: self.cells() }, 2 => UnsafeCellStrategy::TraitObject, _ => { let h = self.cells(); UnsafeCellStrategy::Tuple { head_cells: h, tail_cells: mk(self.strategy(d - 1)) } } }
    }
    fn head(&mut self) -> TupleHeadLayout { let end = self.size(); let align = self.align(); TupleHeadLayout { end, align, packed_align: if self.ch(40) { Some(self.align()) } else { None } } }
    pub fn layout(&mut self, d: u32) -> LayoutStrategy {
        match self.us(if d > 0 { 4 } else { 3 }) {
            0 => { let a = self.size(); LayoutStrategy::Sized(a, self.align()) }
            1 => { let a = self.size(); LayoutStrategy::Slice(a, self.align()) }
            2 => { let n = self.us(4); LayoutStrategy::TraitObject(tname(n)) }
            _ => { let head = self.head(); LayoutStrategy::Tuple { head, tail: mk(self.layout(d - 1)) } }
        }
    }
    pub fn meta(&mut self) -> PointerMetaKind { match self.us(3) { 0 => PointerMetaKind::None, 1 => PointerMetaKind::ElementCount, _ => { let n = self.us(4); PointerMetaKind::VTablePointer(tname(n)) } } }
    pub fn info(&mut self) -> PointeeInfo { PointeeInfo { layout: self.layout(2), inhabited: self.ch(70), unsafe_cells: self.strategy(1), freeze: self.ch(70), unpin: self.ch(70) } }
    pub fn pty(&mut self) -> PtrType {
        match self.us(7) {
            0 => PtrType::Ref { mutbl: Mutability::Mutable, pointee: self.info() },
            1 => PtrType::Ref { mutbl: Mutability::Immutable, pointee: self.info() },
            2 => PtrType::Box { pointee: self.info() },
            3 | 4 => PtrType::Raw { meta_kind: self.meta() },
            5 => PtrType::FnPtr,
            _ => { let n = self.us(4); PtrType::VTablePtr(tname(n)) }
        }
    }
    fn fields(&mut self, d: u32) -> List<(Size, Type)> { let n = self.us(4); list((0..n).map(|_| { let a = self.size(); (a, self.ty(d)) }).collect::<Vec<_>>()) }
    pub fn discr(&mut self, d: u32) -> Discriminator {
        match self.us(if d > 0 { 3 } else { 2 }) {
            0 => Discriminator::Known(self.int()),
            1 => Discriminator::Invalid,
            _ => { let offset = self.size(); let value_type = self.ity(); let f = self.discr(d - 1); let n = self.us(3);
                Discriminator::Branch { offset, value_type, fallback: mk(f), children: map((0..n).map(|_| { let a = self.int(); let b = self.int(); ((a, b), self.discr(d - 1)) }).collect::<Vec<_>>()) } }
        }
    }
    pub fn ty(&mut self, d: u32) -> Type {
        match self.us(if d > 0 { 10 } else { 3 }) {
            0 => Type::Int(self.ity()),
            1 => Type::Bool,
            2 => Type::Ptr(self.pty()),
            3 | 4 => { let f = self.fields(d - 1); let h = self.head(); let tail = self.ch(25);
                Type::Tuple { sized_fields: f, sized_head_layout: TupleHeadLayout { packed_align: if tail { h.packed_align } else { None }, ..h }, unsized_field: mk(if tail { Some(self.ty(d - 1)) } else { None }) } }
            5 => { let e = self.ty(d - 1); array_t(e, self.r.below(9) as i128) }
            6 => { let fields = self.fields(d - 1); let chunks = self.cells(); let size = self.size(); Type::Union { fields, chunks, size, align: self.align() } }
            7 => { let n = self.us(3); let discriminant_ty = self.ity();
                let variants = map((0..n).map(|_| { let k = self.int(); let ty = self.ty(d - 1); let m = self.us(2); (k, Variant { ty, tagger: map((0..m).map(|_| { let o = self.size(); let t = self.ity(); (o, (t, self.int())) }).collect::<Vec<_>>()) }) }).collect::<Vec<_>>());
                let size = self.size(); Type::Enum { variants, discriminant_ty, discriminator: self.discr(2), size, align: self.align() } }
            8 => { let e = self.ty(d - 1); slice_t(e) }
            _ => { let n = self.us(4); Type::TraitObject(tname(n)) }
        }
    }
    /// printing lays types out, which only makes sense for these
    pub fn sane_ty(&mut self, d: u32) -> Type {
        loop {
            let t = self.ty(d);
            if std::panic::catch_unwind(|| deep_layout(t)).is_ok() { return t }
        }
    }
    pub fn konst(&mut self) -> Constant {
        match self.us(6) {
            0 => Constant::Int(self.int()), 1 => Constant::Bool(self.ch(50)), 2 => { let o = if self.ch(50) { Size::ZERO } else { self.size() }; let n = self.us(4); Constant::GlobalPointer(Relocation { name: gname(n), offset: o }) }
            3 => { let n = self.us(5); Constant::FnPointer(fname(n)) } 4 => { let n = self.us(5); Constant::VTablePointer(vname(n)) } _ => { let n = if self.ch(30) { Int::ZERO } else { self.nat() }; Constant::PointerWithoutProvenance(n) }
        }
    }
    pub fn unop(&mut self) -> UnOp {
        match self.us(10) {
            0 => UnOp::Int(IntUnOp::Neg), 1 => UnOp::Int(IntUnOp::BitNot), 2 => UnOp::Int(IntUnOp::CountOnes), 3 => UnOp::Cast(CastOp::IntToInt(self.ity())), 4 => UnOp::Cast(CastOp::Transmute(self.sane_ty(2))),
            5 => UnOp::GetThinPointer, 6 => UnOp::GetMetadata, 7 => UnOp::ComputeSize(self.sane_ty(2)), 8 => UnOp::ComputeAlign(self.sane_ty(2)), _ => { let n = self.us(5); UnOp::VTableMethodLookup(mname(n)) }
        }
    }
    pub fn binop(&mut self) -> BinOp {
        use IntBinOp::*;
        match self.us(6) {
            0 | 1 => BinOp::Int(self.intop()),
            2 => BinOp::IntWithOverflow([IntBinOpWithOverflow::Add, IntBinOpWithOverflow::Sub, IntBinOpWithOverflow::Mul][self.us(3)]),
            3 => BinOp::Rel([RelOp::Lt, RelOp::Le, RelOp::Gt, RelOp::Ge, RelOp::Eq, RelOp::Ne, RelOp::Cmp][self.us(7)]),
            4 => if self.ch(40) { BinOp::PtrOffset { inbounds: self.ch(50) } } else { let inbounds = self.ch(50); BinOp::PtrOffsetFrom { inbounds, nonneg: self.ch(50) } },
            _ => { let _ = Add; BinOp::ConstructWidePointer(self.pty()) }
        }
    }
    pub fn intop(&mut self) -> IntBinOp {
        use IntBinOp::*;
        [Add, Sub, Mul, Div, Rem, Shl, Shr, BitAnd, BitOr, BitXor, AddUnchecked, SubUnchecked, MulUnchecked, DivExact, ShlUnchecked, ShrUnchecked][self.us(16)]
    }
    pub fn value(&mut self, d: u32) -> ValueExpr {
        match self.us(if d > 0 { 12 } else { 1 }) {
            0 => { let c = self.konst(); ValueExpr::Constant(c, self.sane_ty(1)) }
            1 => { let n = self.us(3); let es: Vec<_> = (0..n).map(|_| self.value(d - 1)).collect(); let t = loop { let t = self.sane_ty(2); if matches!(t, Type::Array { .. } | Type::Tuple { .. }) { break t } }; ValueExpr::Tuple(list(es), t) }
            2 => { let f = self.nat(); let e = self.value(d - 1); let t = self.sane_ty(2); ValueExpr::Union { field: f, expr: mk(e), union_ty: t } }
            3 => { let k = self.int(); let e = self.value(d - 1); let t = self.sane_ty(2); ValueExpr::Variant { discriminant: k, data: mk(e), enum_ty: t } }
            4 => ValueExpr::GetDiscriminant { place: mk(self.place(d - 1)) },
            5 | 6 => ValueExpr::Load { source: mk(self.place(d - 1)) },
            7 => { let p = self.place(d - 1); ValueExpr::AddrOf { target: mk(p), ptr_ty: self.pty() } }
            8 | 9 => { let o = self.unop(); unop(o, self.value(d - 1)) }
            _ => { let o = self.binop(); let a = self.value(d - 1); binop(o, a, self.value(d - 1)) }
        }
    }
    pub fn place(&mut self, d: u32) -> PlaceExpr {
        match self.us(if d > 0 { 6 } else { 1 }) {
            0 | 1 => { let n = self.us(12); local(n) }
            2 => { let e = self.value(d - 1); let t = self.sane_ty(2); deref(e, t) }
            3 => { let p = self.place(d - 1); let f = self.us(4); field(p, f) }
            4 => { let p = self.place(d - 1); index(p, self.value(d - 1)) }
            _ => { let p = self.place(d - 1); downcast(p, self.int()) }
        }
    }
    pub fn stmt(&mut self) -> Statement {
        match self.us(8) {
            0 | 1 => { let p = self.place(2); assign(p, self.value(3)) }
            2 => Statement::PlaceMention(self.place(3)),
            3 => { let p = self.place(2); Statement::SetDiscriminant { destination: p, value: self.int() } }
            4 => { let p = self.place(2); Statement::Validate { place: p, fn_entry: self.ch(50) } }
            5 => Statement::Deinit { place: self.place(2) },
            6 => { let n = self.us(12); Statement::StorageLive(lname(n)) }
            _ => { let n = self.us(12); Statement::StorageDead(lname(n)) }
        }
    }
    pub fn bb(&mut self) -> BbName { let n = self.us(12); bname(n) }
    pub fn obb(&mut self) -> Option<BbName> { if self.ch(60) { Some(self.bb()) } else { None } }
    pub fn intrinsic(&mut self) -> IntrinsicOp {
        use IntrinsicOp::*;
        match self.us(20) {
            0 => Abort, 1 => Assume, 2 => Exit, 3 => PrintStdout, 4 => PrintStderr, 5 => Allocate, 6 => Deallocate, 7 => Spawn, 8 => Join, 9 => RawEq, 10 => AtomicStore, 11 => AtomicLoad, 12 => AtomicCompareExchange,
            13 => { let o = self.intop(); AtomicFetchAndOp(if self.ch(60) { [IntBinOp::Add, IntBinOp::Sub][self.us(2)] } else { o }) }
            14 => Lock(IntrinsicLockOp::Acquire), 15 => Lock(IntrinsicLockOp::Create), 16 => Lock(IntrinsicLockOp::Release), 17 => PointerExposeProvenance, 18 => PointerWithExposedProvenance, _ => GetUnwindPayload,
        }
    }
    pub fn conv(&mut self) -> CallingConvention { if self.ch(50) { CallingConvention::C } else { CallingConvention::Rust } }
    pub fn arg(&mut self) -> ArgumentExpr { if self.ch(50) { ArgumentExpr::ByValue(self.value(2)) } else { ArgumentExpr::InPlace(self.place(2)) } }
    pub fn term(&mut self) -> Terminator {
        match self.us(9) {
            0 => Terminator::Goto(self.bb()),
            1 => { let value = self.value(2); let n = self.us(4); let cases = map((0..n).map(|_| { let i = self.int(); (i, self.bb()) }).collect::<Vec<_>>()); Terminator::Switch { value, cases, fallback: self.bb() } }
            2 => Terminator::Unreachable,
            3 => Terminator::Return,
            4 | 5 => { let callee = self.value(2); let n = self.us(3); let args: Vec<_> = (0..n).map(|_| self.arg()).collect(); let calling_convention = self.conv(); let ret = self.place(2); let next_block = self.obb();
                Terminator::Call { callee, calling_convention, arguments: list(args), ret, next_block, unwind_block: self.obb() } }
            6 => { let n = self.us(3); let args: Vec<_> = (0..n).map(|_| self.value(2)).collect(); let intrinsic = self.intrinsic(); let ret = self.place(2); Terminator::Intrinsic { intrinsic, arguments: list(args), ret, next_block: self.obb() } }
            7 => { let p = self.value(2); Terminator::StartUnwind { unwind_payload: p, unwind_block: self.bb() } }
            _ => if self.ch(50) { Terminator::StopUnwind(self.bb()) } else { Terminator::ResumeUnwind },
        }
    }
    fn name(&mut self) -> usize { if self.ch(80) { self.us(12) } else { self.us(1500) } }
    pub fn function(&mut self) -> Function {
        let n = self.us(4);
        let locals = map((0..n).map(|_| { let k = self.name(); (lname(k), self.sane_ty(2)) }).collect::<Vec<_>>());
        let n = self.us(3);
        let args = list((0..n).map(|_| { let k = self.name(); lname(k) }).collect::<Vec<_>>());
        let n = 1 + self.us(4);
        let blocks = map((0..n).map(|_| { let k = self.name(); (bname(k), self.block()) }).collect::<Vec<_>>());
        let ret = { let k = self.us(12); lname(k) };
        let calling_convention = self.conv();
        Function { locals, args, ret, calling_convention, blocks, start: self.bb() }
    }
    pub fn block(&mut self) -> BasicBlock { let n = self.us(4); let s: Vec<_> = (0..n).map(|_| self.stmt()).collect(); let kind = [BbKind::Regular, BbKind::Cleanup, BbKind::Catch, BbKind::Terminate][self.us(4)]; BasicBlock { statements: list(s), terminator: self.term(), kind } }
    pub fn global(&mut self) -> Global {
        let n = self.us(24);
        let bytes = list((0..n).map(|_| if self.ch(70) { Some(self.r.next() as u8) } else { None }).collect::<Vec<_>>());
        let n = self.us(3);
        let relocations = list((0..n).map(|_| { let o = self.size(); let g = self.us(4); let p = if self.ch(50) { Size::ZERO } else { self.size() }; (o, Relocation { name: gname(g), offset: p }) }).collect::<Vec<_>>());
        Global { bytes, relocations, align: self.align() }
    }
    pub fn program(&mut self) -> Program {
        let n = 1 + self.us(3);
        let functions = map((0..n).map(|_| { let k = self.name(); (fname(k), self.function()) }).collect::<Vec<_>>());
        let n = self.us(3);
        let globals = map((0..n).map(|_| { let k = self.name(); (gname(k), self.global()) }).collect::<Vec<_>>());
        let n = self.us(3);
        let traits = map((0..n).map(|_| { let k = self.name(); let m = self.us(14); (tname(k), (0..m).map(|_| { let k = self.name(); mname(k) }).collect::<sp::Set<_>>()) }).collect::<Vec<_>>());
        let n = self.us(3);
        let vtables = map((0..n).map(|_| { let k = self.name(); let t = self.us(4); let m = self.us(3); let size = self.size(); let align = self.align(); let cells = self.cells();
            let methods = map((0..m).map(|_| { let a = self.name(); let b = self.name(); (mname(a), fname(b)) }).collect::<Vec<_>>());
            (vname(k), VTable { trait_name: tname(t), size, align, cells, methods }) }).collect::<Vec<_>>());
        let keys: Vec<FnName> = functions.keys().collect::<Vec<_>>();
        let start = if self.ch(80) { keys[self.us(keys.len())] } else { fname(3) };
        Program { functions, start, globals, traits, vtables }
    }
}
/// lay out everything inside
pub fn deep_layout(t: Type) {
    t.layout::<sp::x86_64>();
    match t {
        Type::Tuple { sized_fields, unsized_field, .. } => { for (_, f) in sized_fields.iter() { deep_layout(f) } if let Some(u) = unsized_field.extract() { deep_layout(u) } }
        Type::Union { fields, .. } => for (_, f) in fields.iter() { deep_layout(f) },
        Type::Enum { variants, .. } => for (_, v) in variants.iter() { deep_layout(v.ty) },
        Type::Array { elem, .. } | Type::Slice { elem } => deep_layout(elem.extract()),
        _ => {}
    }
}
