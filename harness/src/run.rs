//! Executes the real machine under the monitored memory, records the resolved choices, replays
//! them on the reference and compares what was observed.
use crate::rf::machine::{AllocRec, Last, RMach, StepRec, Trace};
use crate::rf::mem::{AByte, Kind, Model, Prov, Stop, Tgt, X86_64};
use minirust_rs::lang as l;
use minirust_rs::libspecr::ctl::{self, Ctl, Rng};
use minirust_rs::libspecr::hidden::{GcCompat, GcCow, clear, mark_and_sweep};
use minirust_rs::libspecr::prelude as sp;
use minirust_rs::mem as m;
use minirust_rs::prelude as pre;
use minirust_rs::prelude::NdResult;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::rc::Rc;

// ---------- targets ----------
macro_rules! target {
    ($name:ident, $ps:expr, $ima:expr, $en:expr, $ma:expr) => {
        #[derive(minirust_rs::libspecr::GcCompat, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub struct $name;
        impl pre::Target for $name {
            const PTR_SIZE: sp::Size = sp::Size::from_bits_const($ps).unwrap();
            const PTR_ALIGN: sp::Align = sp::Align::from_bits_const($ps).unwrap();
            const INT_MAX_ALIGN: sp::Align = sp::Align::from_bits_const($ima).unwrap();
            const ENDIANNESS: sp::Endianness = $en;
            const MAX_ATOMIC_SIZE: sp::Size = sp::Size::from_bits_const($ma).unwrap();
            fn valid_size(size: sp::Size) -> bool { size.bytes().in_bounds(sp::Signed, Self::PTR_SIZE) }
        }
    };
}
target!(Be32, 32, 64, sp::Endianness::BigEndian, 32);
target!(Le16, 16, 32, sp::Endianness::LittleEndian, 16);
pub const BE32: Tgt = Tgt { ptr_size: 4, ptr_align: 4, int_max_align: 8, big: true, max_atomic: 4 };
pub const LE16: Tgt = Tgt { ptr_size: 2, ptr_align: 2, int_max_align: 4, big: false, max_atomic: 2 };

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T { X64, Be32, Le16 }
impl T {
    pub fn tgt(self) -> Tgt { match self { T::X64 => X86_64, T::Be32 => BE32, T::Le16 => LE16 } }
}

/// allocations beyond this are legal but not worth executing
const BIG: i128 = 1 << 16;
struct TooBig;
// ---------- monitor state ----------
#[derive(Default)]
pub struct Mon {
    cur: Option<(i128, i128)>,
    allocs: Vec<AllocRec>,
    retags: Vec<Option<usize>>,
    top: i128,
    live: Vec<(i128, i128)>,
    freed: Vec<(i128, i128)>,
    umax: i128,
    probe: bool,
    tree: bool,
    apol: u8,
    pub n: BTreeMap<&'static str, u64>,
    snapshot: Option<Box<dyn std::any::Any>>,
}
thread_local! {
    static MON: RefCell<Mon> = RefCell::new(Mon::default());
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
fn mon<R>(f: impl FnOnce(&mut Mon) -> R) -> R { MON.with(|x| f(&mut x.borrow_mut())) }
pub fn panic_msg() -> String { PANIC.with(|x| x.borrow().clone()) }
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|x| *x.borrow_mut() = format!("{s} at {loc}"));
    }));
}

/// The monitored memory: delegates to the real one and logs.
#[derive(minirust_rs::libspecr::GcCompat, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct MonMem<M: m::Memory> { inner: M, provs: sp::List<M::Provenance> }

impl<M: m::Memory> MonMem<M> {
    fn save(&self) { let c = *self; mon(|x| x.snapshot = Some(Box::new(c))) }
    fn add_prov(&mut self, p: M::Provenance) -> usize {
        self.provs.push(p);
        ctl::register(Some(p));
        sp_int(self.provs.len()) as usize
    }
}
fn sp_int(i: sp::Int) -> i128 { i.to_i128().unwrap() }
fn count(s: &'static str) { mon(|x| *x.n.entry(s).or_default() += 1) }

impl<M: m::Memory> m::Memory for MonMem<M> {
    type T = M::T;
    type Provenance = M::Provenance;
    type FrameExtra = M::FrameExtra;
    fn new() -> Self { MonMem { inner: M::new(), provs: sp::List::new() } }
    fn allocate(&mut self, kind: m::AllocationKind, size: sp::Size, align: sp::Align) -> NdResult<m::ThinPointer<M::Provenance>> {
        count("alloc");
        let (s, a) = (size.bytes().to_i128().unwrap_or(-1), align.bytes().to_i128().unwrap_or(1));
        if s > BIG && (mon(|x| x.tree) || <M::T as pre::Target>::valid_size(size)) { std::panic::panic_any(TooBig) }
        mon(|x| x.cur = Some((s, a)));
        let old = ctl::set_site(1);
        let r = self.inner.allocate(kind, size, align);
        ctl::set_site(old);
        mon(|x| x.cur = None);
        let r = r.get_internal();
        if let Ok(p) = &r {
            let pool = match p.provenance { Some(pr) => self.add_prov(pr), None => usize::MAX };
            let addr = p.addr.to_i128().unwrap();
            let probes = ctl::with(|c| c.picks.iter().rposition(|p| p.site == 1).map(|i| c.picks.remove(i).probes)).flatten().unwrap_or_default();
            mon(|x| {
                x.allocs.push(AllocRec { kind: kind.into(), size: s, align: a, addr, pool, probes });
                x.live.push((addr, s)); x.top = x.top.max(addr + s);
            });
            self.save();
        }
        NdResult::from_internal(r)
    }
    fn deallocate(&mut self, ptr: m::ThinPointer<M::Provenance>, kind: m::AllocationKind, size: sp::Size, align: sp::Align) -> pre::Result {
        count("dealloc");
        let r = self.inner.deallocate(ptr, kind, size, align);
        if r.is_ok() {
            let addr = ptr.addr.to_i128().unwrap_or(-1);
            mon(|x| if let Some(i) = x.live.iter().position(|l| l.0 == addr) { let e = x.live.swap_remove(i); x.freed.push(e) });
            self.save();
        }
        r
    }
    fn store(&mut self, ptr: m::ThinPointer<M::Provenance>, bytes: sp::List<m::AbstractByte<M::Provenance>>, align: sp::Align) -> pre::Result {
        count("store");
        let r = self.inner.store(ptr, bytes, align);
        self.save();
        r
    }
    fn load(&mut self, ptr: m::ThinPointer<M::Provenance>, len: sp::Size, align: sp::Align) -> pre::Result<sp::List<m::AbstractByte<M::Provenance>>> {
        count("load");
        let r = self.inner.load(ptr, len, align);
        self.save();
        r
    }
    fn dereferenceable(&self, ptr: m::ThinPointer<M::Provenance>, len: sp::Size) -> pre::Result {
        count("derefcheck");
        self.inner.dereferenceable(ptr, len)
    }
    fn signed_dereferenceable(&self, ptr: m::ThinPointer<M::Provenance>, len: sp::Int) -> pre::Result {
        count("derefcheck");
        self.inner.signed_dereferenceable(ptr, len)
    }
    fn retag_ptr(
        &mut self, fe: &mut M::FrameExtra, ptr: m::Pointer<M::Provenance>, ty: m::PtrType, fn_entry: bool,
        vt: impl Fn(m::ThinPointer<M::Provenance>) -> l::VTable + 'static,
    ) -> pre::Result<m::Pointer<M::Provenance>> {
        count("retag");
        let r = self.inner.retag_ptr(fe, ptr, ty, fn_entry, vt);
        if let Ok(q) = &r {
            let new = if q.thin_pointer.provenance != ptr.thin_pointer.provenance { Some(self.add_prov(q.thin_pointer.provenance.unwrap())) } else { None };
            mon(|x| x.retags.push(new));
            self.save();
        }
        r
    }
    fn new_call() -> M::FrameExtra { M::new_call() }
    fn end_call(&mut self, e: M::FrameExtra) -> pre::Result {
        count("endcall");
        let r = self.inner.end_call(e);
        self.save();
        r
    }
    fn leak_check(&self) -> pre::Result { count("leakcheck"); self.inner.leak_check() }
}

// ---------- configuration ----------
#[derive(Clone, Copy, Debug)]
pub struct Cfg { pub model: Model, pub t: T, pub max_steps: usize, pub gc: bool, pub apol: u8, pub sched: u8, pub probe: bool, pub seed: u64, pub deadline: Option<u64>, pub leeway: usize }
impl Cfg {
    pub fn random(rng: &mut Rng) -> Cfg {
        Cfg {
            model: if rng.below(2) == 0 { Model::Basic } else { Model::Tree },
            t: T::X64, max_steps: 3000, gc: false, apol: rng.below(6) as u8, sched: rng.below(5) as u8, probe: rng.below(3) == 0, seed: rng.next(), deadline: None, leeway: 0,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End { Ub(String), TooBig, Machine, Abort, IllFormed(String), Deadlock, Leak, StepLimit, Panic(String), NoChoice }
impl End {
    pub fn kind(&self) -> &'static str {
        match self { End::Ub(_) => "ub", End::TooBig => "toobig", End::Machine => "exit", End::Abort => "abort", End::IllFormed(_) => "illformed", End::Deadlock => "deadlock", End::Leak => "leak", End::StepLimit => "steplimit", End::Panic(_) => "panic", End::NoChoice => "nochoice" }
    }
}
impl From<pre::TerminationInfo> for End {
    fn from(t: pre::TerminationInfo) -> End {
        use pre::TerminationInfo as I;
        match t {
            I::Ub(s) => End::Ub(s.get_internal()),
            I::MachineStop => End::Machine,
            I::Abort => End::Abort,
            I::IllFormed(s) => End::IllFormed(s.get_internal()),
            I::Deadlock => End::Deadlock,
            I::MemoryLeak => End::Leak,
        }
    }
}

#[derive(Clone)]
pub struct Buf(pub Rc<RefCell<Vec<u8>>>);
impl std::io::Write for Buf {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.borrow_mut().extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl GcCompat for Buf { fn points_to(&self, _: &mut HashSet<usize>) {} }

pub struct Real {
    pub end: End,
    pub trace: Trace,
    pub out: String,
    pub err: String,
    pub n: BTreeMap<&'static str, u64>,
    /// final contents of live allocations, by pool index (only if it did not end in UB): `None` = dead
    pub fin: Vec<(usize, Option<Vec<(Option<u8>, Option<(usize, u8)>)>>)>,
}

fn addr_cands(rng: &mut Rng, div: i128) -> Vec<(i128, bool)> {
    mon(|x| {
        let (size, _) = x.cur.unwrap();
        let mut v = vec![];
        let up = |a: i128| (a + div - 1).div_euclid(div) * div;
        let down = |a: i128| a.div_euclid(div) * div;
        let umax = x.umax;
        if x.probe {
            if !x.live.is_empty() {
                let (b, s) = x.live[rng.below(x.live.len() as u128) as usize];
                for c in [down(b), up(b + s), down(b + s - 1), down(b - size), up(b - size + 1), down(b + 1)] { if rng.below(2) == 0 { v.push((c, false)) } }
            }
            if !x.freed.is_empty() { let (b, _) = x.freed[rng.below(x.freed.len() as u128) as usize]; v.push((down(b), false)) }
            for c in [0, div, down(umax - size - 1), down(umax - size), down(umax - 1)] { if rng.below(3) == 0 { v.push((c, false)) } }
        }
        let near = |rng: &mut Rng| 1 + rng.below(1 << 12) as i128;
        let pol = if x.apol == 5 { rng.below(5) as u8 } else { x.apol };
        for _ in 0..6 {
            match pol {
                0 => {}
                1 if !x.live.is_empty() => { let (b, s) = x.live[rng.below(x.live.len() as u128) as usize]; v.push((up(b + s), true)) }
                2 if !x.live.is_empty() => { let (b, _) = x.live[rng.below(x.live.len() as u128) as usize]; v.push((down(b - size), true)) }
                3 if !x.freed.is_empty() => { let (b, _) = x.freed[rng.below(x.freed.len() as u128) as usize]; v.push((down(b), true)) }
                4 => { v.push((down(umax - size - near(rng)), true)) }
                // always upwards
                6 => { v.push((up(x.top.max(16) + rng.below(24) as i128), true)) }
                _ => { let a = near(rng); v.push((up(a), true)) }
            }
        }
        v
    })
}

fn real_run<M: m::Memory>(prog: l::Program, cfg: &Cfg, obs: bool) -> Real {
    let tgt = cfg.t.tgt();
    mon(|x| { *x = Mon { umax: tgt.umax(), probe: cfg.probe, apol: cfg.apol, tree: cfg.model == Model::Tree, ..Default::default() } });
    let sched = cfg.sched;
    let last_cell = Rc::new(RefCell::new(0i128));
    let lc = last_cell.clone();
    let mut prio: Vec<u64> = vec![];
    let chooser = move |site: u8, lo: i128, hi: i128, div: i128, rng: &mut Rng| -> Vec<(i128, bool)> {
        if site == 1 { return addr_cands(rng, div) }
        if hi - lo > 256 { return vec![] }
        let last = *lc.borrow();
        let mut v: Vec<i128> = (lo..hi).collect();
        // preference order
        match sched {
            // uniform
            0 => for i in (1..v.len()).rev() { let j = rng.below(i as u128 + 1) as usize; v.swap(i, j) },
            // sticky with rare switches
            1 => { for i in (1..v.len()).rev() { let j = rng.below(i as u128 + 1) as usize; v.swap(i, j) } if rng.below(5) != 0 { v.sort_by_key(|x| *x != last) } }
            // round robin
            2 => v.sort_by_key(|x| (*x - last - 1).rem_euclid(hi.max(1))),
            // priorities with change points
            3 => {
                while prio.len() < hi as usize { prio.push(rng.next()) }
                if rng.below(8) == 0 { let i = rng.below(prio.len() as u128) as usize; prio[i] = rng.next() }
                v.sort_by_key(|x| prio[*x as usize]);
            }
            // newest first
            _ => if rng.below(3) != 0 { v.reverse() },
        }
        v.into_iter().map(|x| { (x, true) }).collect()
    };
    let ctl = Ctl { rng: Rng::new(cfg.seed), picks: vec![], predicts: vec![], chooser: Some(Box::new(chooser)), pool: vec![] };
    ctl::install(Some(ctl));
    ctl::set_site(0);
    ctl::set_gc_leeway(if cfg.gc { Some(cfg.leeway) } else { None });
    // "no provenance" is candidate 0
    ctl::register(None::<M::Provenance>);
    let (o, e) = (Buf(Default::default()), Buf(Default::default()));
    let mut trace = Trace::default();
    let drain = |first: bool| -> StepRec {
        let (picks, predicts) = ctl::with(|c| (std::mem::take(&mut c.picks), std::mem::take(&mut c.predicts))).unwrap();
        let (allocs, retags) = mon(|x| (std::mem::take(&mut x.allocs), std::mem::take(&mut x.retags)));
        let mut r = StepRec { allocs, retags, ..Default::default() };
        let mut it = picks.into_iter().filter(|p| p.site == 0);
        if !first {
            if let Some(p) = it.next() { r.thread = p.val.map(|v| v as usize); r.thread_probes = p.probes }
        }
        for p in it { r.picks.push(p.val.unwrap_or(-1) as usize); r.pick_probes.push(p.probes) }
        let fix = |i: usize| if i == 0 { usize::MAX } else { i };
        for p in predicts { r.predicts.push((p.accepted.into_iter().map(fix).collect(), fix(p.chosen))) }
        r
    };
    let caught = |e: Box<dyn std::any::Any + Send>| -> End {
        if e.is::<TooBig>() { return End::TooBig }
        if e.is::<ctl::PickExhausted>() || e.is::<ctl::PredictExhausted>() { End::NoChoice } else { End::Panic(panic_msg()) }
    };
    let end = 'run: {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| l::Machine::<MonMem<M>>::new(prog, sp::DynWrite::new(o.clone()), sp::DynWrite::new(e.clone())).get_internal()));
        let r = match r { Ok(r) => r, Err(e) => { trace.init = drain(true); break 'run caught(e) } };
        trace.init = drain(true);
        let mut mach = match r { Ok(x) => x, Err(t) => break 'run t.into() };
        let mut end = End::StepLimit;
        let t0 = std::time::Instant::now();
        for _ in 0..cfg.max_steps {
            if cfg.deadline.is_some_and(|d| t0.elapsed().as_secs() >= d) { break }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| mach.step().get_internal()));
            let rec = drain(false);
            if let Some(t) = rec.thread { *last_cell.borrow_mut() = t as i128 }
            trace.steps.push(rec);
            match r {
                Ok(Ok(())) => (),
                Ok(Err(t)) => { end = t.into(); break }
                Err(e) => { end = caught(e); break }
            }
            if cfg.gc { mark_and_sweep(&mach) }
        }
        end
    };
    // final memory
    let mut fin = vec![];
    if obs && matches!(end, End::Machine | End::Leak | End::Abort | End::StepLimit | End::Deadlock) {
        let snap = mon(|x| x.snapshot.take());
        if let Some(s) = snap.and_then(|s| s.downcast::<MonMem<M>>().ok()) {
            let provs: Vec<M::Provenance> = s.provs.iter().collect();
            let idx = |p: M::Provenance| provs.iter().position(|q| *q == p).map(|i| i + 1).unwrap_or(0);
            for rec in std::iter::once(&trace.init).chain(&trace.steps) {
                for a in &rec.allocs {
                    if a.size == 0 || a.pool == usize::MAX { continue }
                    let p = m::ThinPointer { addr: sp::Int::from(a.addr), provenance: Some(provs[a.pool - 1]) };
                    let mut mm = s.inner;
                    let size = sp::Size::from_bytes(a.size).unwrap();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        if mm.dereferenceable(p, sp::Size::from_bytes(1).unwrap()).is_err() { return Some(None) }
                        mm.load(p, size, sp::Align::ONE).ok().map(Some)
                    }));
                    match r {
                        Ok(Some(None)) => fin.push((a.pool, None)),
                        Ok(Some(Some(b))) => fin.push((a.pool, Some(b.iter().map(|b| match b {
                            m::AbstractByte::Uninit => (None, None),
                            m::AbstractByte::Init(x, f) => (Some(x), f.map(|f| (idx(f.provenance), f.position.to_i128().unwrap() as u8))),
                        }).collect()))),
                        _ => {}
                    }
                }
            }
        }
    }
    ctl::install(None);
    ctl::set_gc_leeway(None);
    let (out, err) = (String::from_utf8_lossy(&o.0.borrow()).into_owned(), String::from_utf8_lossy(&e.0.borrow()).into_owned());
    let n = mon(|x| { x.snapshot = None; std::mem::take(&mut x.n) });
    Real { end, trace, out, err, n, fin }
}

pub fn real(prog: l::Program, cfg: &Cfg, obs: bool) -> Real {
    match (cfg.t, cfg.model) {
        (T::X64, Model::Basic) => real_run::<m::BasicMemory<pre::x86_64>>(prog, cfg, obs),
        (T::X64, Model::Tree) => real_run::<m::TreeBorrowsMemory<pre::x86_64>>(prog, cfg, obs),
        (T::Be32, Model::Basic) => real_run::<m::BasicMemory<Be32>>(prog, cfg, obs),
        (T::Be32, Model::Tree) => real_run::<m::TreeBorrowsMemory<Be32>>(prog, cfg, obs),
        (T::Le16, _) => real_run::<m::BasicMemory<Le16>>(prog, cfg, obs),
    }
}

// ---------- comparison ----------
#[derive(Clone, Debug)]
pub enum Verdict { Agree, Diverge(String), Inconclusive(String) }

pub struct Out {
    pub verdict: Verdict,
    pub end: &'static str,
    pub ref_stop: String,
    pub steps: u64,
    pub stats: BTreeMap<String, u64>,
    pub sig: u64,
    pub real: Real,
}

fn stop_kind(s: &Stop) -> &'static str {
    match s { Stop::Ub(_) => "ub", Stop::Machine => "exit", Stop::Abort => "abort", Stop::IllFormed(_) => "illformed", Stop::Deadlock => "deadlock", Stop::Leak => "leak", Stop::Mismatch(_) => "mismatch", Stop::Skip(_) => "skip", Stop::Known(_) => "known" }
}

/// Replay on the reference. `Ok(None)`: it ran through all recorded steps.
fn reference(rm: &mut RMach, real: &Real) -> (usize, Option<Stop>) {
    let last = real.trace.steps.len();
    let lenient_end = matches!(real.end, End::Ub(_) | End::Panic(_) | End::NoChoice | End::TooBig);
    let how = match real.end { End::Ub(_) => Last::Ub, End::Panic(_) => Last::Panic, _ => Last::No };
    if last == 0 { rm.last = how }
    if let Err(s) = rm.start(&real.trace.init, lenient_end && last == 0) { return (0, Some(s)) }
    for (i, r) in real.trace.steps.iter().enumerate() {
        let lenient = i + 1 == last && (real.end != End::StepLimit && lenient_end);
        if i + 1 == last { rm.last = how }
        if let Err(s) = rm.step(r, lenient) { return (i + 1, Some(s)) }
    }
    (last, None)
}

thread_local! { pub static STRICT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub fn differential(prog: l::Program, cfg: &Cfg) -> Out {
    let model = if cfg.t == T::Le16 { Model::Basic } else { cfg.model };
    let cfg = Cfg { model, ..*cfg };
    let real = real(prog, &cfg, true);
    let mut rm = RMach::new(prog, cfg.t.tgt(), model);
    rm.strict = STRICT.with(|x| x.get());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| reference(&mut rm, &real)));
    let last = real.trace.steps.len();
    let mut ref_stop = String::new();
    let verdict = match r {
        Err(_) => Verdict::Inconclusive(format!("reference: {}", panic_msg())),
        Ok((at, stop)) => {
            ref_stop = format!("{stop:?}");
            let exp = || format!("expected {} after {at} steps", match &stop { None => "to continue".into(), Some(s) => format!("{s:?}") });
            let got = format!("machine: {:?} after {last} steps", real.end);
            match (&real.end, &stop) {
                (End::TooBig, _) => Verdict::Inconclusive("big allocation".into()),
                (_, Some(Stop::Skip(s))) => Verdict::Inconclusive(s.clone()),
                (_, Some(Stop::Known(k))) => Verdict::Inconclusive(format!("known finding {k}")),
                (End::NoChoice, None) => Verdict::Inconclusive("no choice available".into()),
                (_, Some(Stop::Mismatch(s))) => Verdict::Diverge(format!("{s} (step {at}; {got})")),
                (End::StepLimit, None) => content(&real, &rm),
                (e, Some(s)) if at == last && e.kind() == stop_kind(s) => {
                    if let End::Ub(m) = e { if m.contains("printing") && ahead(&real, &rm) { Verdict::Agree } else { prefix(&real, &rm) } } else { content(&real, &rm) }
                }
                _ => Verdict::Diverge(format!("{got}; {}", exp())),
            }
        }
    };
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    for (k, v) in &rm.stats { *stats.entry(format!("op.{k}")).or_default() += v }
    for (k, v) in &real.n { *stats.entry(format!("mem.{k}")).or_default() += v }
    for ((s, l, w, p), v) in &rm.mem.tb_trans {
        *stats.entry(format!("tb.{}{}{}{}", s, if *l { "L" } else { "F" }, if *w { "W" } else { "R" }, if *p { "p" } else { "" })).or_default() += v
    }
    *stats.entry("races_checked".into()).or_default() += rm.races_checked;
    *stats.entry("probes".into()).or_default() += rm.probes;
    *stats.entry(format!("end.{}", real.end.kind())).or_default() += 1;
    // schedule/choice signature
    let mut h = std::collections::hash_map::DefaultHasher::new();
    use std::hash::{Hash, Hasher};
    for s in &real.trace.steps { s.thread.hash(&mut h); s.picks.hash(&mut h); for a in &s.allocs { (a.size, a.addr).hash(&mut h) } }
    real.end.kind().hash(&mut h);
    real.out.hash(&mut h);
    Out { verdict, end: real.end.kind(), ref_stop, steps: last as u64, stats, sig: h.finish(), real }
}

/// It fails while printing, and printed some arguments of that last intrinsic before.
fn ahead(real: &Real, rm: &RMach) -> bool {
    real.out.starts_with(&rm.out) && real.err.starts_with(&rm.err) && real.out[rm.out.len()..].lines().count() + real.err[rm.err.len()..].lines().count() <= 3
}
fn prefix(real: &Real, rm: &RMach) -> Verdict {
    if real.out != rm.out || real.err != rm.err {
        return Verdict::Diverge(format!("output before stopping: stdout {:?} stderr {:?}, expected {:?} / {:?}", real.out, real.err, rm.out, rm.err));
    }
    Verdict::Agree
}
fn content(real: &Real, rm: &RMach) -> Verdict {
    if let Verdict::Diverge(s) = prefix(real, rm) { return Verdict::Diverge(s) }
    for (pool, b) in &real.fin {
        let Some(pr) = rm.pool.get(pool) else { return Verdict::Diverge(format!("allocation {pool} unknown to the reference")) };
        let a = &rm.mem.allocs[pr.alloc];
        match b {
            None => if a.live { return Verdict::Diverge(format!("allocation {pr:?} ({:?}) is dead at the end, expected live", a.kind)) },
            Some(b) => {
                if !a.live { return Verdict::Diverge(format!("allocation {pr:?} ({:?}) is live at the end, expected dead", a.kind)) }
                for (i, (x, y)) in b.iter().zip(&a.data).enumerate() {
                    let ok = match (x, y) {
                        ((None, _), AByte::Uninit) => true,
                        ((Some(x), None), AByte::Init(y, None)) => x == y,
                        ((Some(x), Some((p, k))), AByte::Init(y, Some((q, j)))) => x == y && k == j && rm.pool.get(p) == Some(q),
                        _ => false,
                    };
                    if !ok { return Verdict::Diverge(format!("final contents of allocation {pr:?} at offset {i}: {x:?}, expected {y:?}")) }
                }
            }
        }
    }
    Verdict::Agree
}
#[allow(unused)]
fn _unused(_: Prov, _: Kind, _: GcCow<u8>) {}
pub fn reset() { clear() }
