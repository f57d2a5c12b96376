//! Short constructors for the AST.
#![allow(unused)]
use crate::rf::ty::{mk, BigInt};
pub use minirust_rs::lang::{self as l, *};
pub use minirust_rs::libspecr::prelude::{self as sp, Align, Int, List, Map, Mutability, Set, Signed, Size, Unsigned};
pub use minirust_rs::libspecr::Name;
pub use minirust_rs::mem::{self as m, AllocationKind, LayoutStrategy, PointeeInfo, PointerMetaKind, PtrType, TraitName, TupleHeadLayout, UnsafeCellStrategy};
use minirust_rs::libspecr::hidden::Obj;

pub fn list<T: Obj>(v: impl IntoIterator<Item = T>) -> List<T> { v.into_iter().collect() }
pub fn map<K: Obj, V: Obj>(v: impl IntoIterator<Item = (K, V)>) -> Map<K, V> { v.into_iter().collect() }
pub fn size(n: i128) -> Size { Size::from_bytes(n).unwrap() }
pub fn align(n: i128) -> Align { Align::from_bytes(n).unwrap() }
pub fn lname(i: usize) -> LocalName { LocalName(Name::from_internal(i as u32)) }
pub fn bname(i: usize) -> BbName { BbName(Name::from_internal(i as u32)) }
pub fn fname(i: usize) -> FnName { FnName(Name::from_internal(i as u32)) }
pub fn gname(i: usize) -> GlobalName { GlobalName(Name::from_internal(i as u32)) }
pub fn vname(i: usize) -> VTableName { VTableName(Name::from_internal(i as u32)) }
pub fn tname(i: usize) -> TraitName { TraitName(Name::from_internal(i as u32)) }
pub fn mname(i: usize) -> TraitMethodName { TraitMethodName(Name::from_internal(i as u32)) }
pub fn int_of(b: &BigInt) -> Int { Int::from_big(b.clone()) }
pub fn int_t(signed: bool, bytes: i128) -> Type { Type::Int(int_ty(signed, bytes)) }
pub fn int_ty(signed: bool, bytes: i128) -> IntType { IntType { signed: if signed { Signed } else { Unsigned }, size: size(bytes) } }
pub fn raw_t() -> Type { Type::Ptr(raw_p()) }
pub fn raw_p() -> PtrType { PtrType::Raw { meta_kind: PointerMetaKind::None } }
pub fn cint(i: impl Into<Int>, t: Type) -> ValueExpr { ValueExpr::Constant(Constant::Int(i.into()), t) }
pub fn cbig(b: &BigInt, t: Type) -> ValueExpr { ValueExpr::Constant(Constant::Int(int_of(b)), t) }
pub fn cbool(b: bool) -> ValueExpr { ValueExpr::Constant(Constant::Bool(b), Type::Bool) }
pub fn cfn(i: usize) -> ValueExpr { ValueExpr::Constant(Constant::FnPointer(fname(i)), Type::Ptr(PtrType::FnPtr)) }
pub fn local(i: usize) -> PlaceExpr { PlaceExpr::Local(lname(i)) }
pub fn load(p: PlaceExpr) -> ValueExpr { ValueExpr::Load { source: mk(p) } }
pub fn addr_of(p: PlaceExpr, ptr_ty: PtrType) -> ValueExpr { ValueExpr::AddrOf { target: mk(p), ptr_ty } }
pub fn deref(v: ValueExpr, ty: Type) -> PlaceExpr { PlaceExpr::Deref { operand: mk(v), ty } }
pub fn field(p: PlaceExpr, i: usize) -> PlaceExpr { PlaceExpr::Field { root: mk(p), field: Int::from(i) } }
pub fn index(p: PlaceExpr, i: ValueExpr) -> PlaceExpr { PlaceExpr::Index { root: mk(p), index: mk(i) } }
pub fn downcast(p: PlaceExpr, d: Int) -> PlaceExpr { PlaceExpr::Downcast { root: mk(p), discriminant: d } }
pub fn unop(operator: UnOp, a: ValueExpr) -> ValueExpr { ValueExpr::UnOp { operator, operand: mk(a) } }
pub fn binop(operator: BinOp, a: ValueExpr, b: ValueExpr) -> ValueExpr { ValueExpr::BinOp { operator, left: mk(a), right: mk(b) } }
pub fn unit_v() -> ValueExpr { ValueExpr::Tuple(List::new(), unit_t()) }
pub fn unit_t() -> Type { l::unit_ty() }
pub fn tuple_t(fields: Vec<(i128, Type)>, end: i128, al: i128) -> Type {
    Type::Tuple { sized_fields: list(fields.into_iter().map(|(o, t)| (size(o), t))), sized_head_layout: TupleHeadLayout { end: size(end), align: align(al), packed_align: None }, unsized_field: mk(None) }
}
pub fn array_t(elem: Type, n: i128) -> Type { Type::Array { elem: mk(elem), count: Int::from(n) } }
pub fn slice_t(elem: Type) -> Type { Type::Slice { elem: mk(elem) } }
pub fn assign(destination: PlaceExpr, source: ValueExpr) -> Statement { Statement::Assign { destination, source } }
pub fn intrinsic(op: IntrinsicOp, args: Vec<ValueExpr>, ret: PlaceExpr, next: Option<usize>) -> Terminator {
    Terminator::Intrinsic { intrinsic: op, arguments: list(args), ret, next_block: next.map(bname) }
}
pub fn unit_place() -> PlaceExpr {
    // a zero-sized place that exists everywhere
    deref(ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::from(16)), raw_t()), unit_t())
}

#[derive(Clone)]
pub struct BB { pub stmts: Vec<Statement>, pub term: Option<Terminator>, pub kind: BbKind }
#[derive(Clone)]
pub struct FB { pub idx: usize, pub locals: Vec<Type>, pub args: Vec<usize>, pub ret: usize, pub cc: CallingConvention, pub blocks: Vec<BB>, pub cur: usize }
impl FB {
    pub fn new(idx: usize, locals: Vec<Type>, args: Vec<usize>, ret: usize) -> FB {
        FB { idx, locals, args, ret, cc: CallingConvention::Rust, blocks: vec![BB { stmts: vec![], term: None, kind: BbKind::Regular }], cur: 0 }
    }
    pub fn local(&mut self, t: Type) -> usize { self.locals.push(t); self.locals.len() - 1 }
    pub fn block(&mut self, kind: BbKind) -> usize { self.blocks.push(BB { stmts: vec![], term: None, kind }); self.blocks.len() - 1 }
    pub fn s(&mut self, s: Statement) { let c = self.cur; self.blocks[c].stmts.push(s) }
    pub fn live(&mut self, x: usize) { self.s(Statement::StorageLive(lname(x))) }
    pub fn dead(&mut self, x: usize) { self.s(Statement::StorageDead(lname(x))) }
    pub fn assign(&mut self, p: PlaceExpr, v: ValueExpr) { self.s(assign(p, v)) }
    pub fn t(&mut self, t: Terminator) { let c = self.cur; self.blocks[c].term = Some(t) }
    /// terminate with an intrinsic and continue in a new block
    pub fn intr(&mut self, op: IntrinsicOp, args: Vec<ValueExpr>, ret: PlaceExpr) {
        let k = self.blocks[self.cur].kind;
        let b = self.block(k);
        self.t(intrinsic(op, args, ret, Some(b)));
        self.cur = b;
    }
    pub fn print(&mut self, v: ValueExpr) { self.intr(IntrinsicOp::PrintStdout, vec![v], unit_place()) }
    pub fn exit(&mut self) { self.t(intrinsic(IntrinsicOp::Exit, vec![], unit_place(), None)) }
    pub fn call(&mut self, f: ValueExpr, args: Vec<ArgumentExpr>, ret: PlaceExpr) {
        let k = self.blocks[self.cur].kind;
        let b = self.block(k);
        self.t(Terminator::Call { callee: f, calling_convention: CallingConvention::Rust, arguments: list(args), ret, next_block: Some(bname(b)), unwind_block: None });
        self.cur = b;
    }
    pub fn build(&self) -> Function {
        Function {
            locals: map(self.locals.iter().enumerate().map(|(i, t)| (lname(i), *t))),
            args: list(self.args.iter().map(|a| lname(*a))),
            ret: lname(self.ret),
            calling_convention: self.cc,
            blocks: map(self.blocks.iter().enumerate().map(|(i, b)| (bname(i), BasicBlock { statements: list(b.stmts.iter().copied()), terminator: b.term.unwrap_or(Terminator::Unreachable), kind: b.kind }))),
            start: bname(0),
        }
    }
}
/// main is function 0
pub fn program(fns: Vec<Function>) -> Program {
    Program { functions: map(fns.into_iter().enumerate().map(|(i, f)| (fname(i), f))), start: fname(0), globals: Map::new(), traits: Map::new(), vtables: Map::new() }
}
pub fn main_fb(locals: Vec<Type>) -> FB {
    let mut ls = vec![unit_t()];
    ls.extend(locals);
    let mut f = FB::new(0, ls, vec![], 0);
    f.cc = CallingConvention::C;
    f
}
