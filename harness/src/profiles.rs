//! Workload profiles: each maps a seed to one monitored execution.
use crate::gen_::{conc, mutate};
use crate::gen_::guided::{G, W};
use crate::gen_::types::TyW;
use crate::rf;
use crate::rf::mem::Model;
use crate::run::{self, Cfg, T, Verdict};
use minirust_rs::libspecr::ctl::Rng;
use std::collections::BTreeMap;

thread_local! { pub static WANT_DESC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
pub struct Case {
    pub verdict: Verdict,
    pub end: String,
    pub sig: u64,
    pub steps: u64,
    pub stats: BTreeMap<String, u64>,
    /// the case itself, for reports
    pub desc: String,
}
impl Case {
    pub fn bad(s: String) -> Case { Case { verdict: Verdict::Inconclusive(s), end: "none".into(), sig: 0, steps: 0, stats: Default::default(), desc: String::new() } }
}

pub fn weights(profile: &str) -> W {
    let mut w = W::default();
    match profile {
        "general" => {}
        "arith" => {
            w.ty = TyW::ints(); w.depth = 4; w.v_arith = 14; w.v_rel = 5; w.v_cast = 5; w.v_const = 6; w.v_ptrop = 0; w.deref = 10; w.i_print = 12; w.i_alloc = 0; w.call = 1; w.unwind = 0; w.budget = 60; w.ptr_locals = 1; w.nlocals = 10;
            w.i_spawn = 0; w.i_lock = 0; w.i_dealloc = 0; w.i_payload = 0; w.i_expose = 0;
        }
        "values" => { w.v_transmute = 8; w.v_build = 10; w.validate = 10; w.setdiscr = 6; w.ty.compound(); w.depth = 4; w.deinit = 4; w.call = 3; w.unwind = 0; w.intr = 4; w.nlocals = 12; }
        "enums" => { w.v_transmute = 5; w.setdiscr = 16; w.validate = 8; w.ty.enums(); w.depth = 4; w.deinit = 4; w.call = 2; w.unwind = 0; w.intr = 3; w.nlocals = 12; }
        "pointers" => { w.v_ptrop = 10; w.v_addr = 10; w.v_meta = 4; w.deref = 70; w.ptr_locals = 10; w.v_rel = 5; w.call = 2; w.unwind = 0; }
        "wide" => { w.v_meta = 12; w.v_addr = 10; w.deref = 75; w.ptr_locals = 10; w.mention = 6; w.ty.wide(); w.call = 4; w.unwind = 0; }
        "heap" => { w.intr = 40; w.i_alloc = 14; w.i_dealloc = 10; w.i_print = 2; w.live = 10; w.dead = 8; w.ptr_locals = 8; w.leak = 40; w.call = 5; }
        "tree" => { w.deref = 75; w.ptr_locals = 12; w.nlocals = 5; w.validate = 10; w.call = 10; w.ret = 6; w.v_addr = 14; w.ty.pointees(); w.depth = 3; w.budget = 60; w.unwind = 1; w.intr = 4 }
        "calls" => { w.call = 25; w.ret = 14; w.unwind = 6; w.switch = 4; w.abi_noise = 12; w.validate = 6; w.intr = 4; w.nlocals = 4; w.budget = 70; w.assign = 20; }
        "unwind" => { w.call = 22; w.ret = 8; w.unwind = 20; w.intr = 8; w.i_payload = 12; w.nlocals = 3; w.budget = 70; w.assign = 15; }
        "control" => { w.goto = 8; w.switch = 25; w.intr = 16; w.i_assume = 6; w.i_raweq = 8; w.i_print = 10; w.live = 10; w.dead = 8; w.deinit = 6; w.mention = 6; w.budget = 60; }
        "expose" => { w.intr = 25; w.i_expose = 20; w.i_alloc = 6; w.i_dealloc = 3; w.i_print = 2; w.v_transmute = 8; w.deref = 70; w.ptr_locals = 10; w.call = 2 }
        "globals" => { w.v_global = 10; w.v_ptrop = 5; w.deref = 70; w.ptr_locals = 10; w.v_const = 8; }
        "sync" => { w.intr = 40; w.i_spawn = 12; w.i_join = 8; w.i_lock = 16; w.i_atomic = 12; w.i_print = 2; w.i_alloc = 1; w.i_dealloc = 0; w.v_global = 8; w.call = 6; w.ret = 6; w.budget = 70 }
        _ => panic!("unknown profile {profile}"),
    }
    w
}

pub fn finish(p: minirust_rs::lang::Program, cfg: &Cfg, dump: bool) -> Case {
    if dump { println!("{cfg:?}"); println!("{}", pretty(p)) }
    let desc = || pretty(p);
    if let Err(e) = rf::wf::check(p, cfg.t.tgt(), false) {
        return Case { verdict: Verdict::Inconclusive(format!("generated program is ill-formed: {e}")), end: "none".into(), sig: 0, steps: 0, stats: Default::default(), desc: String::new() };
    }
    let o = run::differential(p, cfg);
    if dump { println!("real {:?}\nreference {}\n{:?}", o.real.end, o.ref_stop, o.verdict) }
    let desc = if matches!(o.verdict, Verdict::Diverge(_)) || WANT_DESC.with(|x| x.get()) { format!("{cfg:?}\n{}", desc()) } else { String::new() };
    let mut stats = o.stats;
    if o.end == "ub" { *stats.entry(format!("ub.{}", o.ref_stop.trim_start_matches("Some(Ub(").trim_matches(|c| "\")".contains(c)))).or_default() += 1 }
    Case { verdict: o.verdict, end: o.end.into(), sig: o.sig, steps: o.steps, stats, desc }
}
pub fn pretty(p: minirust_rs::lang::Program) -> String {
    std::panic::catch_unwind(|| miniutil::pretty::fmt_program(p)).unwrap_or_else(|_| format!("{p:#?}"))
}

/// A program that need not be well-formed: acceptance must agree, and accepted programs must behave.
pub fn finish_any(p: minirust_rs::lang::Program, cfg: &Cfg, dump: bool) -> Case {
    if dump { println!("{cfg:?}"); println!("{}", pretty(p)) }
    if mutate::monstrous(&p) { return Case::bad("integers of monstrous size".into()) }
    let w = match std::panic::catch_unwind(|| rf::wf::check(p, cfg.t.tgt(), false)) { Ok(w) => w, Err(_) => return Case::bad(format!("reference: {}", run::panic_msg())) };
    if dump { println!("reference well-formedness: {w:?}") }
    let mut stats = BTreeMap::new();
    let sig = { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); p.hash(&mut h); h.finish() };
    let describe = |bad: bool| if bad || WANT_DESC.with(|x| x.get()) { format!("{cfg:?}\n{}\n{}", pretty(p), serde_json::to_string(&p).unwrap_or_default()) } else { String::new() };
    let zero = Cfg { max_steps: 0, ..*cfg };
    match w {
        Err(e) => {
            let r = run::real(p, &zero, false);
            stats.insert("wf.rejected".to_string(), 1);
            stats.insert(format!("wf.reason.{e}"), 1);
            let verdict = match r.end {
                run::End::IllFormed(_) => Verdict::Agree,
                run::End::Panic(_) if !run::STRICT.with(|x| x.get()) && mutate::layout_trouble(&p) => Verdict::Inconclusive("known finding wfpanic".into()),
                _ if !run::STRICT.with(|x| x.get()) && std::panic::catch_unwind(|| rf::wf::check(p, cfg.t.tgt(), true)).ok().is_none_or(|r| r.is_ok()) => Verdict::Inconclusive("known finding wfmissing".into()),
                end => Verdict::Diverge(format!("ill-formed program ({e}) is not rejected: {end:?}")),
            };
            let bad = matches!(verdict, Verdict::Diverge(_));
            Case { verdict, end: "illformed".into(), sig, steps: 0, stats, desc: describe(bad) }
        }
        Ok(()) if crate::gen_::mutate::heavy(&p) => {
            let r = run::real(p, &zero, false);
            stats.insert("wf.accepted".to_string(), 1);
            let verdict = match r.end { run::End::IllFormed(e) => Verdict::Diverge(format!("well-formed program is rejected: {e}")), run::End::Panic(e) => Verdict::Diverge(format!("starting a well-formed program panics: {e}")), _ => Verdict::Agree };
            let bad = matches!(verdict, Verdict::Diverge(_));
            Case { verdict, end: "notrun".into(), sig, steps: 0, stats, desc: describe(bad) }
        }
        Ok(()) => {
            let mut c = finish(p, cfg, dump);
            c.stats.insert("wf.accepted".into(), 1);
            c.stats.insert("wf.executed".into(), 1);
            c
        }
    }
}

/// `name[@target][+flag]*`
pub fn run_case(profile: &str, seed: u64, dump: bool) -> Case {
    if let Some(k) = profile.strip_prefix("known:") { return crate::known::case(k, dump) }
    if let Some(k) = profile.strip_prefix("e2e:") { return crate::e2e::case(k, seed, dump) }
    if let Some(k) = profile.strip_prefix("tool:") { return crate::tool::case(k, seed, dump) }
    let mut rng = Rng::new(seed);
    let mut parts = profile.split('+');
    let base = parts.next().unwrap();
    let (name, t) = match base.split_once('@') { Some((n, "be32")) => (n, T::Be32), Some((n, "le16")) => (n, T::Le16), Some((n, _)) => (n, T::X64), None => (base, T::X64) };
    let flags: Vec<&str> = parts.collect();
    let mut cfg = Cfg::random(&mut rng);
    cfg.t = t;
    if t == T::Le16 { cfg.model = Model::Basic }
    for f in flags {
        match f {
            "tree" => cfg.model = Model::Tree,
            "basic" => cfg.model = Model::Basic,
            "gc" => cfg.gc = true,
            _ => panic!("unknown flag {f}"),
        }
    }
    match name {
        "conc" | "races" | "locks" | "spawns" | "atomics" => {
            cfg.max_steps = 600;
            let p = conc::generate(&mut rng, &t.tgt(), &conc::CW::get(name));
            finish(p, &cfg, dump)
        }
        "mut" => {
            cfg.max_steps = 300;
            let base = *crate::gen_::types::pick(&mut rng, &["general", "values", "enums", "wide", "calls", "unwind", "globals", "control", "sync", "arith"]);
            let mut w = weights(base);
            w.budget = 20;
            let seed2 = rng.next();
            let (p, _, _) = G::new(Rng::new(seed2), t.tgt(), cfg.model, w).run();
            let k = 1 + rng.below(3) as usize;
            let Some(p) = mutate::mutate(&p, &mut rng, k) else { return Case::bad("no mutant".into()) };
            finish_any(p, &cfg, dump)
        }
        _ => {
            cfg.max_steps = 400;
            let g = G::new(rng, t.tgt(), cfg.model, weights(name));
            let (p, _, _) = g.run();
            finish(p, &cfg, dump)
        }
    }
}
