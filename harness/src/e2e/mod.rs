//! End to end: random Rust programs are compiled by rustc and translated by `minimize`; the translated
//! program runs on the real machine and must do what the compiled one does.
pub mod types;
pub mod gen_rs;
pub mod gen2;
pub mod gen3;
pub mod gen4;
pub mod gen5;
pub mod gen6;
use crate::profiles::Case;
use crate::rf;
use crate::rf::mem::Model;
use crate::run::{self, Cfg, End, Verdict};
use gen_rs::{Expect, P, Prog};
use minirust_rs::libspecr::ctl::Rng;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub struct Tools { pub root: PathBuf, pub lib: String, pub rmeta: String, pub hash: u64 }
pub fn tools() -> &'static Tools {
    static T: OnceLock<Tools> = OnceLock::new();
    T.get_or_init(|| {
        let root = crate::check::root().join("build");
        let lib = std::fs::read_to_string(root.join("rust-lib")).expect("build/rust-lib").trim().to_string();
        let rmeta = std::fs::read_dir(root.join("mdeps/debug/deps")).expect("mdeps").filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| { let n = p.file_name().unwrap().to_string_lossy().to_string(); n.starts_with("libintrinsics") && n.ends_with(".rmeta") }).max_by_key(|p| p.metadata().and_then(|m| m.modified()).ok()).expect("intrinsics rmeta");
        Tools { root, lib, rmeta: rmeta.display().to_string(), hash: 0 }
    })
}
/// a scratch directory which goes away
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("e2e-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { if std::env::var("KEEP").is_err() { let _ = std::fs::remove_dir_all(&self.0); } } }

pub struct Done { pub code: Option<i32>, pub signal: Option<i32>, pub out: String, pub err: String }
/// run to the end, or `None` if it takes too long
pub fn exec(c: &mut Command, secs: u64, dir: &PathBuf) -> Option<Done> {
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let k = N.fetch_add(1, Ordering::Relaxed);
    let (o, e) = (dir.join(format!("out{k}")), dir.join(format!("err{k}")));
    c.stdout(std::fs::File::create(&o).ok()?).stderr(std::fs::File::create(&e).ok()?).process_group(0);
    let mut ch = c.spawn().expect("spawn");
    // a runaway process must not take the machine down
    limit(ch.id());
    let t0 = Instant::now();
    let mut nap = 1;
    let st = loop {
        if let Some(s) = ch.try_wait().expect("wait") { break s }
        if t0.elapsed().as_secs() >= secs { kill_group(ch.id()); let _ = ch.kill(); let _ = ch.wait(); return None }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(5);
    };
    let rd = |p: &PathBuf| { let s = String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).into_owned(); let _ = std::fs::remove_file(p); s };
    Some(Done { code: st.code(), signal: st.signal(), out: rd(&o), err: rd(&e) })
}
fn kill_group(pid: u32) {
    unsafe extern "C" { fn kill(pid: i32, sig: i32) -> i32; }
    if pid > 1 { unsafe { kill(-(pid as i32), 9); } }
}
/// what is still running in a directory
pub fn kill_in(dir: &std::path::Path) {
    let Ok(d) = std::fs::read_dir("/proc") else { return };
    for e in d.flatten() {
        let Some(pid) = e.file_name().to_str().and_then(|n| n.parse::<u32>().ok()) else { continue };
        if std::fs::read_link(e.path().join("cwd")).is_ok_and(|c| c.starts_with(dir)) { kill_group(pid) }
    }
}
fn limit(pid: u32) {
    unsafe extern "C" { fn prlimit(pid: i32, what: i32, new: *const [u64; 2], old: *mut [u64; 2]) -> i32; }
    const RLIMIT_AS: i32 = 9;
    let l = [3u64 << 30; 2];
    unsafe { prlimit(pid as i32, RLIMIT_AS, &l, std::ptr::null_mut()); }
}
pub fn minimize(dir: &PathBuf, src: &PathBuf, args: &[&str]) -> Command {
    let t = tools();
    let mut c = Command::new(t.root.join("tooling/release/minimize"));
    c.arg(src).arg(format!("--sysroot={}", t.root.join("sysroot").display())).arg("--extern").arg(format!("intrinsics={}", t.rmeta)).args(args)
        .env("MINIRUST_SYSROOT", t.root.join("sysroot")).env("MINIMIZE_BUILD_SYSROOT", "off").env("LD_LIBRARY_PATH", &t.lib).current_dir(dir).stdin(Stdio::null());
    c
}
pub enum Nat { Ok { abort: bool, out: String, err: String }, Bad(String) }
pub fn compile_native(dir: &PathBuf, src: &PathBuf, flags: &[&str]) -> Result<PathBuf, String> {
    let t = tools();
    let exe = dir.join("native");
    let mut c = Command::new(format!("{}/../bin/rustc", t.lib));
    c.arg(src).args(["--edition", "2021", "--cfg", "native", "-Cdebuginfo=0", "-Awarnings", "-Zub-checks=no", "--crate-name", "prog"]).args(flags).arg("--extern").arg(format!("intrinsics={}", t.root.join("native/libintrinsics.rlib").display())).arg("-o").arg(&exe).current_dir(dir).stdin(Stdio::null());
    match exec(&mut c, 60, dir) {
        None => Err("native: rustc takes too long".into()),
        Some(d) if d.code != Some(0) => Err(format!("native: rustc: {}", first_err(&d.err))),
        _ => Ok(exe),
    }
}
/// `sel`: the part of the program which is selected, see `P::sel`
pub fn run_native(dir: &PathBuf, exe: &PathBuf, sel: Option<u32>) -> Nat {
    let mut c = Command::new(exe);
    c.current_dir(dir).stdin(Stdio::null()).env("RUST_BACKTRACE", "0");
    if let Some(s) = sel { c.env("SEL", s.to_string()); }
    let Some(d) = exec(&mut c, 8, dir) else { return Nat::Bad("native: takes too long".into()) };
    let err: String = d.err.lines().filter(|l| matches!(*l, "true" | "false") || !l.is_empty() && l.bytes().all(|b| b.is_ascii_digit() || b == b'-')).map(|l| format!("{l}\n")).collect();
    match (d.code, d.signal) {
        (Some(0), _) => Nat::Ok { abort: false, out: d.out, err },
        (Some(101), _) | (None, Some(4 | 6)) => Nat::Ok { abort: true, out: d.out, err },
        (c, s) => Nat::Bad(format!("native: exit {c:?} signal {s:?} {}", d.err.lines().last().unwrap_or(""))),
    }
}
pub fn native(dir: &PathBuf, src: &PathBuf, flags: &[&str]) -> Nat { match compile_native(dir, src, flags) { Ok(e) => run_native(dir, &e, None), Err(s) => Nat::Bad(s) } }
/// selects a part of a loaded program
fn select(p: &mut minirust_rs::lang::Program, sel: u32) -> bool {
    let bytes = |v: u32| -> minirust_rs::libspecr::prelude::List<Option<u8>> { v.to_le_bytes().into_iter().map(Some).collect() };
    let names: Vec<_> = p.globals.iter().filter(|(_, g)| g.bytes == bytes(0x5e1ec7ed)).map(|(k, _)| k).collect();
    for k in &names { let mut g = p.globals.get(*k).unwrap(); g.bytes = bytes(sel); p.globals.insert(*k, g); }
    !names.is_empty()
}
fn first_err(s: &str) -> String { let l: Vec<&str> = s.lines().collect(); let i = l.iter().position(|l| l.contains("error") || l.contains("panicked") || l.contains("fatal")).unwrap_or(0); l.iter().skip(i).take(4).copied().collect::<Vec<_>>().join(" | ") }

/// kinds of nodes in the translated program, by name
fn nodes(json: &str) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    let b = json.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'"' {
            let s = i + 1;
            i += 1;
            while i < b.len() && b[i] != b'"' { i += 1 }
            let w = &json[s..i];
            if w.len() > 2 && w.as_bytes()[0].is_ascii_uppercase() { *m.entry(w.to_string()).or_default() += 1 }
        }
        i += 1;
    }
    m
}

pub fn generate(topic: &str, seed: u64) -> Prog {
    let mut p = P::new(seed);
    match topic {
        "values" => { let (a, b) = (1 + p.us(3), p.us(3)); gen_rs::defs(&mut p, a, b); for _ in 0..8 { gen_rs::value_snippet(&mut p) } }
        "enums" => { let (a, b) = (p.us(2), 1 + p.us(3)); gen_rs::defs(&mut p, a, b); for _ in 0..7 { gen_rs::enum_snippet(&mut p); if p.ch(20) { gen_rs::value_snippet(&mut p) } if p.ch(12) { gen6::void_snippet(&mut p) } } }
        "niches" => for _ in 0..8 { if p.ch(25) { gen6::void_snippet(&mut p) } else { gen_rs::niche_snippet(&mut p) } },
        "unions" => { gen_rs::defs(&mut p, 2, 1); for _ in 0..6 { gen_rs::union_snippet(&mut p) } }
        "grid" => gen4::grid_prog(&mut p),
        "ubgrid" => gen4::ubgrid_prog(&mut p),
        "panics" => gen4::panicgrid_prog(&mut p),
        "match" => for _ in 0..8 { gen4::match_snippet(&mut p) },
        "tags" => gen4::tags_prog(&mut p),
        "offs" => gen4::offs_prog(&mut p),
        "mem" => gen4::mem_prog(&mut p),
        "pads" => gen4::pads_prog(&mut p),
        "cells" => { p.tree = Some(true); p.items.push_str("#[inline(never)] fn lau<T>(p: *const T) -> *mut T { p as *mut T }\n"); if p.ch(60) { gen4::clocells_prog(&mut p) } else { gen4::dyncells_prog(&mut p) } }
        "borrows" => gen5::borrows_prog(&mut p),
        "unipads" => gen5::unipads_prog(&mut p),
        "mir" => gen6::mir_prog(&mut p),
        "drops" => gen6::drops_prog(&mut p),
        "iters" => for _ in 0..4 { gen6::iters_snippet(&mut p) },
        "asserts" => gen4::asserts_snippet(&mut p),
        "ints" => { for _ in 0..12 { gen_rs::int_snippet(&mut p) } if p.ch(30) { p.flags.push("-Coverflow-checks=off") } }
        "flow" => for _ in 0..2 { gen2::flow_snippet(&mut p) },
        "calls" => for _ in 0..4 { gen2::call_snippet(&mut p) },
        "ptrs" => for _ in 0..4 { gen2::ptr_snippet(&mut p) },
        "consts" => for _ in 0..6 { gen2::const_snippet(&mut p) },
        "unwind" => gen2::unwind_prog(&mut p),
        "threads" => gen3::thread_prog(&mut p),
        "ends" => gen3::end_prog(&mut p),
        "ub" => gen3::ub_prog(&mut p),
        "alias" => gen3::alias_prog(&mut p),
        "intrin" => for _ in 0..6 { gen3::intrin_snippet(&mut p) },
        _ => panic!("unknown topic {topic}"),
    }
    p.build()
}

const OPTIMIZED: [&str; 19] = ["values", "enums", "niches", "unions", "ints", "flow", "calls", "ptrs", "consts", "unwind", "ends", "grid", "panics", "match", "tags", "offs", "intrin", "asserts", "drops"];
/// what kept the tool chain from being put together, if anything did
pub fn broken() -> Option<String> { std::fs::read_to_string(crate::check::root().join("build/e2e-broken")).ok() }
pub fn case(topic: &str, seed: u64, dump: bool) -> Case {
    if let Some(s) = broken() { return Case { verdict: Verdict::Diverge(format!("programs cannot be compiled for minimize: {s}")), end: "diverge".into(), sig: seed, steps: 0, stats: BTreeMap::new(), desc: s } }
    let prog = generate(topic, seed);
    // (optimizations change which behaviour is undefined)
    let opt = OPTIMIZED.contains(&topic) && Rng::new(seed ^ 0x0b71).below(4) == 0 && prog.expect == Expect::Native && prog.expects.is_empty() && prog.tree.is_none() && !prog.flags.iter().any(|f| f.contains("opt-level"));
    judge(prog, seed, dump, opt)
}
/// a given program
pub fn fixed(body: &str) -> Case {
    let mut p = P::new(0);
    p.bodies.push(body.into());
    judge(p.build(), 0, false, false)
}
fn judge(prog: Prog, seed: u64, dump: bool, opt: bool) -> Case {
    let mut rng = Rng::new(seed ^ 0x5eed);
    let dir = Scratch::new();
    let src = dir.0.join("prog.rs");
    std::fs::write(&src, &prog.src).expect("write");
    if dump { println!("{}", prog.src) }
    let t0 = Instant::now();
    let exe = match compile_native(&dir.0, &src, &prog.flags) { Ok(e) => e, Err(s) => return Case::bad(s) };
    let t1 = Instant::now();
    let desc = |s: &str| if dump { String::new() } else { format!("{:?}\n{}\n{s}", prog.flags, prog.src.split("// ---- program").last().unwrap_or("")) };
    let mut args = vec!["--edition", "2021", "--minimize-dump=json"];
    args.extend(&prog.flags);
    // some programs are translated from optimized MIR
    if opt { args.push("-Zmir-opt-level=1") }
    let Some(mut d) = exec(&mut minimize(&dir.0, &src, &args), 60, &dir.0) else { return Case::bad("minimize takes too long".into()) };
    let mut opt = opt;
    // (which may contain what is not supported)
    if opt && d.code != Some(0) && ["Expected Move or Copy operand for rust-call", "not supported"].iter().any(|m| d.err.contains(m)) {
        args.pop();
        opt = false;
        d = match exec(&mut minimize(&dir.0, &src, &args), 60, &dir.0) { Some(d) => d, None => return Case::bad("minimize takes too long".into()) };
    }
    let t2 = Instant::now();
    let mut stats = prog.tags.clone();
    if opt { *stats.entry("e2e.optimized".into()).or_default() += 1 }
    let bad = |what: String, stats: BTreeMap<String, u64>| Case { desc: desc(&what), verdict: Verdict::Diverge(what), end: "diverge".into(), sig: seed, steps: 0, stats };
    if d.code != Some(0) {
        // (only what compiles natively and runs without a complaint counts)
        if let Nat::Bad(s) = run_native(&dir.0, &exe, None) { return Case::bad(s) }
        // (which of these the standard library needs is not obvious)
        if prog.src.contains("struct It(") && (d.err.contains("unsupported Rust intrinsic `") || d.err.contains("cannot call foreign function std::")) { return Case::bad("unsupported intrinsic in the standard library".into()) }
        return bad(format!("minimize fails on a supported program: {}", first_err(&d.err)), stats)
    }
    for (k, v) in nodes(&d.out) { *stats.entry(format!("node.{k}")).or_default() += v }
    let p = match std::panic::catch_unwind(|| miniutil::json::load_program(d.out.as_bytes())) { Ok(p) => p, Err(_) => return bad(format!("the dumped program cannot be loaded: {}", run::panic_msg()), stats) };
    let mut cfg = Cfg::random(&mut rng);
    // garbage is collected now and then
    let tame = |cfg: &mut Cfg| { cfg.deadline = Some(7); cfg.probe = false; cfg.max_steps = 400_000; cfg.gc = std::env::var("NOGC").is_err(); cfg.leeway = 10 << 20; };
    match std::panic::catch_unwind(|| rf::wf::check(p, cfg.t.tgt(), true)) { Ok(Ok(())) => {} 
        Ok(Err(e)) if e == "overlap" && !run::STRICT.with(|x| x.get()) && { rf::wf::ZST_ANYWHERE.with(|x| x.set(true)); let r = rf::wf::check(p, cfg.t.tgt(), true); rf::wf::ZST_ANYWHERE.with(|x| x.set(false)); r.is_ok() } => return Case::bad("known finding zstorder".into()),
        Ok(Err(e)) => return bad(format!("the translated program is ill-formed: {e}"), stats), Err(_) => {} }
    *stats.entry("ms.native".into()).or_default() += (t1 - t0).as_millis() as u64;
    *stats.entry("ms.minimize".into()).or_default() += (t2 - t1).as_millis() as u64;
    // what is run: everything outside of the selectable parts, then some of these; or the same several times
    let mut sels: Vec<Option<u32>> = vec![None; if prog.sels > 0 { 1 } else { prog.reps.max(1) }];
    if prog.sels > 0 {
        let mut v: Vec<u32> = (0..prog.sels as u32).collect();
        for i in (1..v.len()).rev() { v.swap(i, rng.below(i as u128 + 1) as usize) }
        for _ in 0..prog.reps.max(1) { sels.extend(v.iter().take(24).copied().map(Some)) }
    }
    let mut nat: BTreeMap<Option<u32>, (String, String, bool)> = BTreeMap::new();
    let mut res = Case { verdict: Verdict::Agree, end: "none".into(), sig: seed, steps: 0, stats: BTreeMap::new(), desc: String::new() };
    let mut any = false;
    let mut why = String::new();
    let begin = Instant::now();
    for (round, sel) in sels.into_iter().enumerate() {
        if round > 0 && (begin.elapsed().as_millis() > 2500) { break }
        let t2 = Instant::now();
        let mut hangs = false;
        if !nat.contains_key(&sel) { 
            let mut n = run_native(&dir.0, &exe, sel);
            let stuck = |n: &Nat| matches!(n, Nat::Bad(s) if s.ends_with("takes too long"));
            if stuck(&n) { n = run_native(&dir.0, &exe, sel) }
            if stuck(&n) && prog.src.contains("spawn") { hangs = true; n = Nat::Ok { abort: false, out: String::new(), err: String::new() } }
            match n { Nat::Ok { out, err, abort } => { nat.insert(sel, (out, err, abort)); } Nat::Bad(s) => { why = s; continue } }
        }
        let (nout, nerr, nabort) = nat[&sel].clone();
        let (nout, expect) = match nout.strip_suffix("UB\n") { Some(s) => (s.to_string(), Expect::Ub), None => { let e = sel.and_then(|s| prog.expects.get(s as usize)).unwrap_or(&prog.expect).clone(); (nout, e) } };
        // (what the last run left behind goes, and the program with it)
        let mut q = if round == 0 { p } else { run::reset(); miniutil::json::load_program(d.out.as_bytes()) };
        if let Some(s) = sel { if !select(&mut q, s) { return bad("the static which selects a part of the program is not among its globals".into(), stats) } }
        if round > 0 { cfg = Cfg::random(&mut rng); }
        tame(&mut cfg);
        cfg.model = match prog.tree { Some(true) => Model::Tree, Some(false) => Model::Basic, None => if rng.below(6) == 0 { Model::Tree } else { Model::Basic } };
        // (memory which another thread reuses without any synchronization counts as a data race in this memory model)
        if rng.below(4) != 0 || prog.src.contains("spawn") { cfg.apol = 6 }
        let t3 = Instant::now();
        if prog.tree.is_none() && cfg.model == Model::Tree { cfg.deadline = Some(2) }
        let mut r = run::real(q, &cfg, false);
        if prog.tree.is_none() && cfg.model == Model::Tree && matches!(r.end, End::StepLimit) {
            // borrow trees which grew too large
            run::reset();
            let mut q = miniutil::json::load_program(d.out.as_bytes());
            if let Some(s) = sel { select(&mut q, s); }
            (cfg.model, cfg.deadline) = (Model::Basic, Some(7));
            r = run::real(q, &cfg, false);
        }
        let t4 = Instant::now();
        if dump { println!("{cfg:?} select {sel:?} expect {expect:?}\nnative abort={nabort} out={nout:?} err={nerr:?}\nreal {:?} steps {} out={:?} err={:?}\n times native {:?} minimize {:?} native run and load {:?} run {:?}", r.end, r.trace.steps.len(), r.out, r.err, t1 - t0, t2 - t1, t3 - t2, t4 - t3) }
        res.steps += r.trace.steps.len() as u64;
        for (k, v) in &r.n { *stats.entry(format!("mem.{k}")).or_default() += v }
        *stats.entry(format!("end.{}", r.end.kind())).or_default() += 1;
        *stats.entry("e2e.runs".into()).or_default() += 1;
        *stats.entry("ms.run".into()).or_default() += (t4 - t3).as_millis() as u64;
        *stats.entry("e2e.lines".into()).or_default() += nout.lines().count() as u64;
        let diff = || {
            for (k, (a, b)) in r.out.lines().zip(nout.lines()).enumerate() { if a != b { let m = nout.lines().take(k).filter(|l| l.starts_with("7700")).last().unwrap_or("?"); return format!("output line {k} (after marker {m}) is {a:?}, expected {b:?}") } }
            if r.out != nout { return format!("output has {} lines, expected {} (last marker {})", r.out.lines().count(), nout.lines().count(), r.out.lines().filter(|l| l.starts_with("7700")).last().unwrap_or("?")) }
            if r.err != nerr { return format!("stderr {:?}, expected {nerr:?}", r.err) }
            String::new()
        };
        let what = match (&r.end, &expect) {
            (End::StepLimit, _) => { why = "step limit".into(); continue }
            (End::TooBig | End::NoChoice, _) => { why = format!("{:?}", r.end); continue }
            (End::Machine, Expect::Native) if hangs => "the native program, linked with the native intrinsics, hangs twice, while this run of the machine ends".into(),
            (End::Machine, Expect::Native) if !nabort => diff(),
            (End::Abort, Expect::Native) if nabort => diff(),
            (End::Ub(_), Expect::Ub) | (End::Deadlock, Expect::Deadlock) | (End::Leak, Expect::Leak) => diff(),
            (e, x) => format!("ends with {e:?}, expected {} ({})", match x { Expect::Native => if nabort { "to abort" } else { "to exit" }, Expect::Ub => "undefined behaviour", Expect::Deadlock => "deadlock", Expect::Leak => "a memory leak" }, diff()),
        };
        any = true;
        res.end = r.end.kind().into();
        res.sig = { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); (res.sig, round).hash(&mut h); prog.src.hash(&mut h); for s in &r.trace.steps { s.thread.hash(&mut h) } h.finish() };
        if !what.is_empty() { let what = if let Some(s) = sel { format!("{what} (selected: {s})") } else { what }; res.verdict = Verdict::Diverge(what.clone()); res.desc = desc(&format!("{expect:?}: {what}")); break }
    }
    if !any { return Case::bad(why) }
    if res.desc.is_empty() && crate::profiles::WANT_DESC.with(|x| x.get()) { res.desc = desc("") }
    res.stats = stats;
    res
}
