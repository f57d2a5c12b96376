//! Recorded findings (known-findings.txt): one failing input each, judged without any allowance.
use crate::gen_::ast::*;
use crate::gen_::conc::gptr;
use crate::profiles::{finish, finish_any, Case};
use crate::rf::mem::Model;
use crate::rf::ty::mk;
use crate::run::{Cfg, Verdict, STRICT, T};
use std::rc::Rc;

fn info(layout: LayoutStrategy, cells: UnsafeCellStrategy) -> PointeeInfo { PointeeInfo { layout, inhabited: true, unsafe_cells: cells, freeze: true, unpin: true } }
fn sized_ref(s: i128, mutbl: Mutability) -> PtrType { PtrType::Ref { mutbl, pointee: info(LayoutStrategy::Sized(size(s), align(1)), UnsafeCellStrategy::Sized { cells: List::new() }) } }
fn cptr(a: i128, t: PtrType) -> ValueExpr { ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::from(a)), Type::Ptr(t)) }
fn global(n: usize) -> Global { Global { bytes: list((0..n).map(|i| Some(i as u8))), relocations: List::new(), align: align(8) } }
fn usz() -> Type { int_t(false, 8) }

/// (program, tree borrows?, may need several schedules)
fn program_of(k: &str) -> (Program, Model) {
    let u32_ = int_t(false, 4);
    let mut model = Model::Basic;
    let mut extra = vec![];
    let mut globals = vec![];
    let mut fix: Option<Rc<dyn Fn(&mut Program)>> = None;
    let mut f = main_fb(vec![]);
    match k {
        "const" => { let t = Type::Ptr(sized_ref(4, Mutability::Mutable)); let x = f.local(t); f.live(x); f.assign(local(x), cptr(0, sized_ref(4, Mutability::Mutable))) }
        "ptroffset" => {
            let t = sized_ref(1, Mutability::Immutable);
            globals.push(global(4));
            let x = f.local(Type::Ptr(t));
            f.live(x);
            let g = addr_of(deref(gptr(0, 0), int_t(false, 1)), t);
            f.assign(local(x), binop(BinOp::PtrOffset { inbounds: false }, g, cint(100, usz())));
        }
        "computesize" => { let x = f.local(usz()); f.live(x); f.assign(local(x), unop(UnOp::ComputeSize(slice_t(u32_)), cint(1i128 << 62, usz()))) }
        "returnref" => {
            let t = sized_ref(4, Mutability::Immutable);
            let mut g = FB::new(1, vec![Type::Ptr(t), u32_], vec![], 0);
            g.live(1);
            g.assign(local(1), cint(1, u32_));
            g.assign(local(0), addr_of(local(1), t));
            g.t(Terminator::Return);
            extra.push(g.build());
            let x = f.local(Type::Ptr(t));
            f.live(x);
            f.call(cfn(1), vec![], local(x));
        }
        "intrinsicresult" => { let x = f.local(int_t(false, 1)); f.live(x); let y = f.local(Type::Ptr(sized_ref(8, Mutability::Mutable))); f.live(y); f.intr(IntrinsicOp::Allocate, vec![cint(4, usz()), cint(1, usz())], local(y)) }
        "fetchop" => {
            globals.push(global(1));
            fix = Some(Rc::new(|p| { let g = Global { bytes: list([Some(255u8)]), relocations: List::new(), align: align(8) }; p.globals.insert(gname(0), g); }));
            let x = f.local(int_t(false, 1));
            f.live(x);
            f.intr(IntrinsicOp::AtomicFetchAndOp(IntBinOp::Add), vec![gptr(0, 0), cint(1, int_t(false, 1))], local(x));
        }
        "zstreborrow" => {
            model = Model::Tree;
            globals.push(global(4));
            let x = f.local(raw_t());
            f.live(x);
            f.assign(local(x), binop(BinOp::PtrOffset { inbounds: false }, gptr(0, 0), cint(-8, int_t(true, 8))));
            let t = sized_ref(0, Mutability::Mutable);
            let y = f.local(Type::Ptr(t));
            f.live(y);
            f.assign(local(y), addr_of(deref(load(local(x)), unit_t()), t));
        }
        "padding" => {
            // (u8, [u32]) with one element
            model = Model::Tree;
            globals.push(global(8));
            let head = TupleHeadLayout { end: size(1), align: align(1), packed_align: None };
            let ty = Type::Tuple { sized_fields: list([(size(0), int_t(false, 1))]), sized_head_layout: head, unsized_field: mk(Some(slice_t(u32_))) };
            let lay = LayoutStrategy::Tuple { head, tail: mk(LayoutStrategy::Slice(size(4), align(4))) };
            let cells = UnsafeCellStrategy::Tuple { head_cells: List::new(), tail_cells: mk(UnsafeCellStrategy::Slice { element_cells: List::new() }) };
            let t = PtrType::Ref { mutbl: Mutability::Immutable, pointee: PointeeInfo { freeze: false, ..info(lay, cells) } };
            let rawt = PtrType::Raw { meta_kind: PointerMetaKind::ElementCount };
            let y = f.local(Type::Ptr(t));
            f.live(y);
            let wide = binop(BinOp::ConstructWidePointer(rawt), gptr(0, 0), cint(1, usz()));
            f.assign(local(y), addr_of(deref(wide, ty), t));
            // nothing is interior mutable: writing to the last byte is not possible
            let tail = addr_of(index(field(deref(load(local(y)), ty), 1), cint(0, usz())), raw_p());
            f.assign(deref(binop(BinOp::PtrOffset { inbounds: true }, tail, cint(3, usz())), int_t(false, 1)), cint(1, int_t(false, 1)));
        }
        "sync" | "zstrace" => {
            globals.push(global(8));
            let sh = f.local(usz());
            f.live(sh);
            f.intr(IntrinsicOp::Spawn, vec![cfn(1), gptr(0, 0)], local(sh));
            let z = array_t(int_t(false, 1), 0);
            let mut g = FB::new(1, vec![unit_t(), raw_t()], vec![1], 0);
            g.cc = CallingConvention::C;
            let w = |f: &mut FB, zst: bool| for _ in 0..6 { if zst { f.assign(deref(gptr(0, 4), z), load(deref(gptr(0, 4), z))) } else { f.assign(deref(gptr(0, 0), usz()), cint(5, usz())) } };
            if k == "sync" { w(&mut f, false); w(&mut g, false) } else {
                w(&mut f, false);
                w(&mut g, true);
            }
            g.t(Terminator::Return);
            extra.push(g.build());
            if k == "zstrace" { f.intr(IntrinsicOp::Join, vec![load(local(sh))], unit_place()) }
        }
        "lockids" => f.intr(IntrinsicOp::Lock(IntrinsicLockOp::Acquire), vec![cint(-1, int_t(true, 4))], unit_place()),
        "threadids" => f.intr(IntrinsicOp::Join, vec![cint(-1, int_t(true, 4))], unit_place()),
        "wf-intsize" => { let x = f.local(int_t(false, 3)); f.live(x) }
        "wf-startblock" => { f.live(0); fix = Some(Rc::new(|p| { let mut g = p.functions.get(fname(0)).unwrap(); g.start = bname(77); p.functions.insert(fname(0), g); })) }
        "wf-startkind" => fix = Some(Rc::new(|p| { let mut g = p.functions.get(fname(0)).unwrap(); let mut b = g.blocks.get(bname(0)).unwrap(); b.kind = BbKind::Cleanup; b.terminator = Terminator::ResumeUnwind; g.blocks.insert(bname(0), b); p.functions.insert(fname(0), g); })),
        "wf-rawtrait" => { let x = f.local(Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::VTablePointer(tname(9)) })); f.live(x) }
        "wf-vtable" => fix = Some(Rc::new(|p| {
            p.traits.insert(tname(0), [mname(0)].into_iter().collect());
            p.vtables.insert(vname(0), VTable { trait_name: tname(0), size: size(8), align: align(8), cells: List::new(), methods: map([(mname(0), fname(55))]) });
        })),
        "wf-union" => { let t = Type::Union { fields: list([(size(0), u32_)]), chunks: list([(size(0), size(4))]), size: size(4), align: align(4) }; let x = f.local(t); f.live(x); f.assign(local(x), ValueExpr::Union { field: Int::from(-1), expr: mk(cint(1, u32_)), union_ty: t }) }
        _ => panic!("unknown finding {k}"),
    }
    f.exit();
    let mut fns = vec![f.build()];
    fns.extend(extra);
    let mut p = program(fns);
    for (i, g) in globals.into_iter().enumerate() { p.globals.insert(gname(i), g); }
    if let Some(fix) = fix { fix(&mut p) }
    (p, model)
}

pub fn case(k: &str, dump: bool) -> Case {
    STRICT.with(|x| x.set(true));
    if k == "zstorder" {
        let c = crate::e2e::fixed("struct S(Option<()>, [u16; 0]);\nlet s = std::mem::MaybeUninit::<S>::uninit();\nprint(std::mem::size_of_val(&s) as u32);");
        STRICT.with(|x| x.set(false));
        return c;
    }
    let (p, model) = program_of(k);
    let mut last = None;
    for seed in 0..400 {
        let cfg = Cfg { model, t: T::X64, max_steps: 400, gc: false, apol: 0, sched: 0, probe: false, seed, deadline: None, leeway: 0 };
        let c = if k.starts_with("wf-") { finish_any(p, &cfg, dump && seed == 0) } else { finish(p, &cfg, dump && seed == 0) };
        let bad = matches!(c.verdict, Verdict::Diverge(_));
        last = Some(c);
        if bad || !matches!(k, "sync" | "zstrace") { break }
    }
    STRICT.with(|x| x.set(false));
    last.unwrap()
}
