//! Concurrent programs: several threads over shared memory, locks and atomics.
use super::ast::*;
use super::types::*;
use crate::rf::mem::Tgt;
use minirust_rs::libspecr::ctl::Rng;

#[derive(Clone, Copy, PartialEq)]
enum Disc { Atomic, Locked(usize), Private(usize), Racy, ReadOnly }
#[derive(Clone, Copy)]
struct Loc { g: usize, off: i128, sz: i128, d: Disc }

/// percentages
#[derive(Clone)]
pub struct CW { pub break_: u128, pub racy: u128, pub lock: u128, pub spawn_noise: u128, pub threads: u128, pub ops: u128, pub heap: u128, pub lockbug: u128, pub zero: u128 }
impl CW {
    pub fn get(p: &str) -> CW {
        let d = CW { break_: 2, racy: 10, lock: 25, spawn_noise: 4, threads: 3, ops: 9, heap: 8, lockbug: 3, zero: 10 };
        match p {
            "races" => CW { break_: 6, racy: 45, lock: 15, ops: 7, lockbug: 0, spawn_noise: 0, ..d },
            "locks" => CW { break_: 1, racy: 0, lock: 55, lockbug: 8, heap: 2, threads: 4, ops: 10, ..d },
            "spawns" => CW { spawn_noise: 15, threads: 5, ops: 4, lock: 10, lockbug: 1, ..d },
            "atomics" => CW { break_: 1, racy: 3, lock: 4, lockbug: 0, ops: 16, threads: 2, heap: 2, ..d },
            _ => d,
        }
    }
}

pub fn generate(r: &mut Rng, tgt: &Tgt, w: &CW) -> Program {
    let nthreads = 1 + r.below(w.threads) as usize;
    let nlocks = 1 + r.below(3) as usize;
    let maxat = tgt.max_atomic;
    // globals hold the shared data
    let ng = 1 + r.below(3) as usize;
    let mut locs = vec![];
    for g in 0..ng {
        let mut off = 0;
        while off < 16 {
            let sz = *pick(r, &[1i128, 2, 4, 8]);
            let sz = sz.min(maxat).min(16 - off);
            off = (off + sz - 1) / sz * sz;
            if off + sz > 16 { break }
            let d = if r.below(100) < w.racy { Disc::Racy } else { match r.below(10) { 0..=3 => Disc::Atomic, 4..=6 => Disc::Locked(r.below(nlocks as u128) as usize), 7 | 8 => Disc::Private(r.below(nthreads as u128 + 1) as usize), _ => Disc::ReadOnly } };
            locs.push(Loc { g, off, sz, d });
            off += sz;
        }
    }
    let mut fns = vec![];
    let raw = raw_t();
    // main
    let mut f = main_fb(vec![]);
    let mut ids = vec![];
    let idty = |r: &mut Rng| int_t(false, *pick(r, &[1i128, 4, 8]));
    let mut lockids = vec![];
    for _ in 0..nlocks { let t = idty(r); let x = f.local(t); f.live(x); f.intr(IntrinsicOp::Lock(IntrinsicLockOp::Create), vec![], local(x)); lockids.push(x); }
    // a local of main which threads get a pointer to
    let sh = f.local(int_t(false, 4));
    f.live(sh);
    f.assign(local(sh), cint(7, int_t(false, 4)));
    let heapp = f.local(raw);
    f.live(heapp);
    let use_heap = chance(r, 1, 2);
    if use_heap { f.intr(IntrinsicOp::Allocate, vec![cint(8, int_t(false, 8)), cint(8, int_t(false, 8))], local(heapp)); }
    for i in 0..nthreads {
        let (t, x) = { let t = idty(r); (t, f.local(t)) };
        let _ = t;
        f.live(x);
        let arg = match r.below(4) {
            0 => addr_of(local(sh), raw_p()),
            1 if use_heap => load(local(heapp)),
            2 => gptr(r.below(ng as u128) as usize, 0),
            _ => cint_ptr(16),
        };
        let mut args = vec![cfn(i + 1), arg];
        let mut op_ret = local(x);
        if r.below(100) < w.spawn_noise {
            match r.below(6) {
                0 => { args.pop(); }
                1 => args[1] = cint(3, int_t(false, 8)),
                2 => args[0] = cint_ptr(64),
                3 => args[1] = ValueExpr::Constant(Constant::FnPointer(fname(0)), Type::Ptr(PtrType::FnPtr)),
                4 => args[0] = cfn(0),
                _ => { op_ret = unit_place(); }
            }
        }
        f.intr(IntrinsicOp::Spawn, args, op_ret);
        ids.push(x);
        if chance(r, 1, 3) { body(r, &mut f, 0, 2, &locs, nlocks, w, None, sh) }
    }
    let mut held = vec![];
    let k = 1 + r.below(w.ops) as usize;
    ops(r, &mut f, 0, k, &locs, nlocks, w, &mut held, None, use_heap.then_some(heapp));
    release_all(r, &mut f, &mut held, w);
    // join, sometimes not all, sometimes twice
    let mut order = ids.clone();
    for i in (1..order.len()).rev() { let j = r.below(i as u128 + 1) as usize; order.swap(i, j) }
    let mut all = true;
    for x in order {
        if chance(r, 1, 8) { all = false; continue }
        f.intr(IntrinsicOp::Join, vec![load(local(x))], unit_place());
        if chance(r, 1, 12) { f.intr(IntrinsicOp::Join, vec![load(local(x))], unit_place()) }
        if chance(r, 1, 5) { access(r, &mut f, 0, &locs, w, &held, None) }
    }
    if r.below(100) < w.spawn_noise { let id = *pick(r, &[0i128, 0, 0, 1, 1, 1, nthreads as i128 + 1, 200, -1]); f.intr(IntrinsicOp::Join, vec![cint(id, int_t(true, 8))], unit_place()) }
    if all || chance(r, 1, 2) {
        // everything is readable after joining
        for l in locs.iter() { if chance(r, 1, 2) { f.print(load(at(gptr(l.g, l.off), int_t(false, l.sz)))) } }
        f.print(load(local(sh)));
    }
    if use_heap && chance(r, 4, 5) { f.intr(IntrinsicOp::Deallocate, vec![load(local(heapp)), cint(8, int_t(false, 8)), cint(8, int_t(false, 8))], unit_place()) }
    if chance(r, 1, 12) { f.dead(sh) }
    f.exit();
    fns.push(f.build());
    for i in 0..nthreads {
        let mut f = FB::new(i + 1, vec![unit_t(), raw], vec![1], 0);
        if r.below(300) >= w.spawn_noise { f.cc = CallingConvention::C }
        if chance(r, 1, 2) { f.assign(local(0), unit_v()) }
        let mut held = vec![];
        let looped = chance(r, 1, 4);
        let (cnt, head) = if looped {
            let c = f.local(int_t(false, 1));
            f.live(c);
            f.assign(local(c), cint(1 + r.below(3) as i128, int_t(false, 1)));
            let h = f.block(BbKind::Regular);
            f.t(Terminator::Goto(bname(h)));
            f.cur = h;
            (c, h)
        } else { (0, 0) };
        let k = r.below(w.ops + 1) as usize;
        ops(r, &mut f, i + 1, k, &locs, nlocks, w, &mut held, Some(1), None);
        release_all(r, &mut f, &mut held, w);
        if looped {
            f.assign(local(cnt), binop(BinOp::Int(IntBinOp::Sub), load(local(cnt)), cint(1, int_t(false, 1))));
            let e = f.block(BbKind::Regular);
            f.t(Terminator::Switch { value: load(local(cnt)), cases: map([(Int::from(0), bname(e))]), fallback: bname(head) });
            f.cur = e;
        }
        if r.below(100) < w.spawn_noise && chance(r, 1, 3) {
            match r.below(3) { 0 => f.exit(), 1 => f.t(Terminator::Unreachable), _ => f.t(intrinsic(IntrinsicOp::Abort, vec![], unit_place(), None)) }
        } else { f.t(Terminator::Return) }
        fns.push(f.build());
    }
    let mut p = program(fns);
    p.globals = map((0..ng).map(|g| (gname(g), Global { bytes: list((0..16).map(|i| Some(i as u8))), relocations: List::new(), align: align(8) })));
    p
}
pub fn gptr(g: usize, off: i128) -> ValueExpr { ValueExpr::Constant(Constant::GlobalPointer(Relocation { name: gname(g), offset: size(off) }), raw_t()) }
fn cint_ptr(a: i128) -> ValueExpr { ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::from(a)), raw_t()) }
fn at(p: ValueExpr, t: Type) -> PlaceExpr { deref(p, t) }
fn release_all(r: &mut Rng, f: &mut FB, held: &mut Vec<usize>, w: &CW) {
    while let Some(l) = held.pop() { if r.below(100) >= w.lockbug { lockop(f, IntrinsicLockOp::Release, l as i128) } }
}
fn lockop(f: &mut FB, op: IntrinsicLockOp, l: i128) { f.intr(IntrinsicOp::Lock(op), vec![cint(l, int_t(true, 4))], unit_place()) }
fn body(r: &mut Rng, f: &mut FB, me: usize, k: usize, locs: &[Loc], nlocks: usize, w: &CW, arg: Option<usize>, _sh: usize) {
    let mut held = vec![];
    ops(r, f, me, k, locs, nlocks, w, &mut held, arg, None);
    while let Some(l) = held.pop() { lockop(f, IntrinsicLockOp::Release, l as i128) }
}
fn ops(r: &mut Rng, f: &mut FB, me: usize, k: usize, locs: &[Loc], nlocks: usize, w: &CW, held: &mut Vec<usize>, arg: Option<usize>, heap: Option<usize>) {
    for _ in 0..k {
        if r.below(100) < w.lock {
            if r.below(100) < w.lockbug {
                let l = if chance(r, 1, 8) { *pick(r, &[-1i128, nlocks as i128, 77]) } else { r.below(nlocks as u128) as i128 };
                lockop(f, if chance(r, 1, 2) { IntrinsicLockOp::Acquire } else { IntrinsicLockOp::Release }, l);
                continue;
            }
            if !held.is_empty() && chance(r, 1, 2) {
                let i = r.below(held.len() as u128) as usize;
                let l = held.remove(i);
                lockop(f, IntrinsicLockOp::Release, l as i128);
            } else {
                let l = r.below(nlocks as u128) as usize;
                // mostly in order, so that deadlocks stay rare
                if held.contains(&l) || (held.iter().any(|h| *h > l) && !chance(r, 1, 6)) { continue }
                lockop(f, IntrinsicLockOp::Acquire, l as i128);
                held.push(l);
            }
            continue;
        }
        if chance(r, 1, 14) { let b = f.block(BbKind::Regular); f.t(Terminator::Goto(bname(b))); f.cur = b; continue }
        if r.below(100) < w.heap {
            match (arg, heap) {
                // through the pointer handed to the thread
                (Some(a), _) => { let t = int_t(false, 4); if chance(r, 1, 2) { f.print(load(at(load(local(a)), t))) } else { f.assign(at(load(local(a)), t), cint(r.below(100) as i128, t)) } }
                (None, Some(h)) => { let t = int_t(false, 4); f.assign(at(load(local(h)), t), cint(r.below(100) as i128, t)) }
                _ => {}
            }
            continue;
        }
        access(r, f, me, locs, w, held, arg);
    }
}
fn access(r: &mut Rng, f: &mut FB, me: usize, locs: &[Loc], w: &CW, held: &[usize], _arg: Option<usize>) {
    let brk = r.below(100) < w.break_;
    // (location, may write, must be atomic)
    let ok: Vec<(Loc, bool, bool)> = locs.iter().filter_map(|l| match l.d {
        _ if brk => Some((*l, true, false)),
        Disc::Racy => Some((*l, true, false)),
        Disc::Atomic => Some((*l, true, true)),
        Disc::Locked(k) => held.contains(&k).then_some((*l, true, false)),
        Disc::Private(t) => (t == me).then_some((*l, true, false)),
        Disc::ReadOnly => Some((*l, false, false)),
    }).collect();
    if ok.is_empty() { return }
    let (l, write, atomic) = *pick(r, &ok);
    let t = int_t(false, l.sz);
    let p = gptr(l.g, l.off);
    let val = |r: &mut Rng| cint(r.below(200) as i128, t);
    let atomic = atomic || chance(r, 1, 4);
    if r.below(100) < w.zero && !atomic {
        // zero-sized accesses never conflict
        let z = array_t(int_t(false, 1), 0);
        let o = l.off + r.below(l.sz as u128 + 1) as i128;
        f.assign(at(gptr(l.g, o), z), load(at(gptr(l.g, l.off), z)));
        return;
    }
    if atomic {
        let tmp = f.local(t);
        f.live(tmp);
        match r.below(if write { 5 } else { 1 }) {
            0 => { f.intr(IntrinsicOp::AtomicLoad, vec![p], local(tmp)); if chance(r, 1, 2) { f.print(load(local(tmp))) } }
            1 => { let v = val(r); f.intr(IntrinsicOp::AtomicStore, vec![p, v], unit_place()) }
            2 => { let (a, b) = (val(r), val(r)); let a = if chance(r, 1, 2) { a } else { cint(l.off, t) }; f.intr(IntrinsicOp::AtomicCompareExchange, vec![p, a, b], local(tmp)); if chance(r, 1, 2) { f.print(load(local(tmp))) } }
            _ => { let v = if chance(r, 1, 40) { cbig(&edge_int(r, &match t { Type::Int(i) => i, _ => unreachable!() }), t) } else { cint(r.below(4) as i128, t) }; f.intr(IntrinsicOp::AtomicFetchAndOp(if chance(r, 3, 4) { IntBinOp::Add } else { IntBinOp::Sub }), vec![p, v], local(tmp)); if chance(r, 1, 2) { f.print(load(local(tmp))) } }
        }
        if chance(r, 1, 2) { f.dead(tmp) }
    } else if write && chance(r, 1, 2) {
        let v = val(r);
        match r.below(4) {
            0 => f.assign(at(p, t), binop(BinOp::Int(IntBinOp::Add), load(at(p, t)), v)),
            1 => f.s(Statement::Deinit { place: at(p, array_t(int_t(false, 1), 0)) }),
            _ => f.assign(at(p, t), v),
        }
    } else if chance(r, 1, 3) { f.print(load(at(p, t))) } else {
        let tmp = f.local(t);
        f.live(tmp);
        f.assign(local(tmp), load(at(p, t)));
        if chance(r, 1, 2) { f.dead(tmp) }
    }
}
