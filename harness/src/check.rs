//! Supervisor (spawns worker processes, collects what they observed) and worker.
use crate::profiles::{run_case, Case};
use crate::props::{Prop, PROPS};
use crate::run::{self, Verdict};
use minirust_rs::libspecr::ctl::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub fn find(id: &str) -> &'static Prop { PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| panic!("unknown property {id}")) }

/// Each profile gets its share of the time, not of the runs: some runs are a thousand times as long as others.
fn pick_profile(p: &Prop, spent: &[f64], idx: u64) -> usize {
    let n = p.profiles.len();
    // workers start at different places
    (0..n).map(|k| (k + idx as usize) % n).min_by(|a, b| (spent[*a] / p.profiles[*a].1 as f64).total_cmp(&(spent[*b] / p.profiles[*b].1 as f64))).unwrap()
}
fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut h = a ^ 0x9E37_79B9_7F4A_7C15;
    for x in [b, c] { h = (h ^ x).wrapping_mul(0xBF58_476D_1CE4_E5B9); h ^= h >> 29; h = h.wrapping_mul(0x94D0_49BB_1331_11EB); h ^= h >> 32 }
    h
}

/// Run one case on a big stack; panics inside the harness are inconclusive, never a violation.
pub fn case_isolated(profile: &str, seed: u64, dump: bool) -> Case {
    minirust_rs::libspecr::ctl::set_hash_seed(seed);
    let r = std::panic::catch_unwind(|| run_case(profile, seed, dump));
    let r = match r { Ok(c) => c, Err(_) => Case::bad(format!("harness: {}", run::panic_msg())) };
    minirust_rs::libspecr::ctl::install(None);
    run::reset();
    r
}
pub fn big_stack<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(1 << 29).spawn_scoped(s, f).unwrap().join().unwrap())
}

pub fn worker(id: &str, seed: u64, idx: u64, n: u64, secs: u64) {
    run::quiet_panics();
    let p = find(id);
    big_stack(move || {
        let t0 = Instant::now();
        let mut out = std::io::stdout().lock();
        let mut stats: BTreeMap<String, u64> = BTreeMap::new();
        let mut profs: BTreeMap<String, u64> = BTreeMap::new();
        let mut ends: BTreeMap<String, u64> = BTreeMap::new();
        let mut inc: BTreeMap<String, u64> = BTreeMap::new();
        let mut sigs: HashSet<u64> = HashSet::new();
        let (mut total, mut steps, mut held) = (0u64, 0u64, 0u64);
        let mut samples = vec![];
        let idh = id.bytes().fold(7u64, |h, b| h.wrapping_mul(131).wrapping_add(b as u64));
        // what was observed goes out now and then, for a worker may be stopped before its end
        let mut last = Instant::now();
        macro_rules! emit { () => { {
            let e = json!({"total": std::mem::take(&mut total), "held": std::mem::take(&mut held), "steps": std::mem::take(&mut steps), "stats": std::mem::take(&mut stats), "profiles": std::mem::take(&mut profs), "ends": std::mem::take(&mut ends), "inconclusive": std::mem::take(&mut inc), "samples": samples.drain(..).collect::<Vec<Value>>(),
                "sigs": sigs.drain().map(|x| format!("{x:x}")).collect::<Vec<_>>()});
            writeln!(out, "E {e}").unwrap();
            out.flush().unwrap();
        } } }
        let mut sampled = false;
        let mut i = idx;
        let mut spent = vec![0.0; p.profiles.len()];
        while t0.elapsed().as_secs() < secs {
            let cs = mix(seed, idh, i);
            let mut rng = Rng::new(cs);
            let k = pick_profile(p, &spent, idx);
            let prof = p.profiles[k].0;
            let cs = rng.next();
            writeln!(out, "S {prof} {cs}").unwrap();
            out.flush().unwrap();
            let t1 = Instant::now();
            let c = case_isolated(prof, cs, false);
            spent[k] += t1.elapsed().as_secs_f64();
            total += 1;
            steps += c.steps;
            *profs.entry(prof.into()).or_default() += 1;
            match c.verdict {
                Verdict::Diverge(s) => {
                    writeln!(out, "V {}", json!({"profile": prof, "seed": cs.to_string(), "what": s, "case": c.desc})).unwrap();
                    out.flush().unwrap();
                }
                Verdict::Inconclusive(s) => { *inc.entry(s.chars().take(80).collect()).or_default() += 1; i += n; if last.elapsed().as_secs() >= 10 { last = Instant::now(); emit!() } continue }
                Verdict::Agree => held += 1,
            }
            let rel = c.stats.iter().any(|(k, v)| *v > 0 && p.relevant.iter().any(|r| k.starts_with(r)));
            if rel {
                sigs.insert(c.sig);
                if !sampled { sampled = true;
                    crate::profiles::WANT_DESC.with(|x| x.set(true));
                    let d = case_isolated(prof, cs, false).desc;
                    crate::profiles::WANT_DESC.with(|x| x.set(false));
                    samples.push(json!({"profile": prof, "seed": cs.to_string(), "end": c.end, "steps": c.steps, "case": d.chars().take(1500).collect::<String>()})) }
            }
            *ends.entry(c.end).or_default() += 1;
            for (k, v) in c.stats { *stats.entry(k).or_default() += v }
            i += n;
            if last.elapsed().as_secs() >= 10 { last = Instant::now(); emit!() }
        }
        emit!();
    })
}

static PIDS: std::sync::Mutex<Vec<u32>> = std::sync::Mutex::new(vec![]);
/// the scratch directories of workers that were stopped
fn sweep() {
    let pids = std::mem::take(&mut *PIDS.lock().unwrap());
    let Ok(d) = std::fs::read_dir(std::env::temp_dir()) else { return };
    for e in d.flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        let Some(pid) = n.strip_prefix("e2e-").and_then(|r| r.split('-').next()).and_then(|p| p.parse::<u32>().ok()) else { continue };
        if pids.contains(&pid) { crate::e2e::kill_in(&e.path()); let _ = std::fs::remove_dir_all(e.path()); }
    }
}

enum Msg { Line(usize, String), Eof(usize) }

fn spawn(i: usize, args: &[String], tx: mpsc::Sender<Msg>) -> Child {
    let exe = std::env::current_exe().unwrap();
    // a runaway case must not take the machine down
    let mut c = Command::new("sh").arg("-c").arg("ulimit -v 8000000; exec \"$0\" \"$@\"").arg(exe).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn worker");
    PIDS.lock().unwrap().push(c.id());
    let o = c.stdout.take().unwrap();
    std::thread::spawn(move || {
        for l in BufReader::new(o).lines() { match l { Ok(l) => { if tx.send(Msg::Line(i, l)).is_err() { return } } Err(_) => break } }
        let _ = tx.send(Msg::Eof(i));
    });
    c
}

/// Re-run a single case in its own process. `Ok(line)` if it produced a verdict, `Err` if it died.
fn rerun(prof: &str, seed: &str) -> Result<String, String> {
    let (tx, rx) = mpsc::channel();
    let mut c = spawn(0, &["case".into(), prof.into(), seed.into()], tx);
    let t0 = Instant::now();
    let mut last = String::new();
    loop {
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok(Msg::Line(_, l)) => last = l,
            Ok(Msg::Eof(_)) => break,
            Err(_) => if t0.elapsed().as_secs() > 120 { let _ = c.kill(); let _ = c.wait(); return Ok("H".into()) },
        }
    }
    let st = c.wait().unwrap();
    if st.success() { Ok(last) } else { Err(format!("{st}")) }
}

pub struct Found { pub profile: String, pub seed: String, pub what: String, pub case: String }

/// Findings which are recorded and not repaired: `known-findings.txt`, lines
/// `known: property=<id> profile=<profile> seed=<seed> <what>`
fn known(id: &str) -> Vec<(String, String, String)> {
    let s = std::fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in s.lines() {
        let Some(r) = l.strip_prefix(&format!("known: property={id} ")) else { continue };
        let mut it = r.splitn(3, ' ');
        let (Some(a), Some(b), Some(c)) = (it.next(), it.next(), it.next()) else { continue };
        v.push((a.trim_start_matches("profile=").into(), b.trim_start_matches("seed=").into(), c.into()));
    }
    v
}
pub fn root() -> std::path::PathBuf { std::env::var("VERIF_ROOT").map(Into::into).unwrap_or_else(|_| "/verif".into()) }

/// (when the machine was too busy for anything to be observed, this is tried again)
pub fn check(id: &str, tier: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    for k in 0..3 {
        let r = attempt(id, tier, seed.wrapping_add(k * 104_729));
        if r != 2 || tier == "thorough" { return r }
    }
    2
}
fn attempt(id: &str, tier: &str, seed: u64) -> i32 {
    let p = find(id);
    let t0 = Instant::now();
    let secs: u64 = std::env::var("VERIF_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else if id.starts_with('R') { 32 } else { 16 });
    let n: usize = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).clamp(2, 8);
    let (tx, rx) = mpsc::channel();
    let args = |i: usize, secs: u64, seed: u64| vec!["worker".to_string(), id.into(), seed.to_string(), i.to_string(), n.to_string(), secs.to_string()];
    let mut ch: Vec<Option<Child>> = (0..n).map(|i| Some(spawn(i, &args(i, secs, seed), tx.clone()))).collect();
    let mut cur: Vec<(String, Instant)> = vec![(String::new(), Instant::now()); n];
    let mut founds: Vec<Found> = vec![];
    let mut sum = Sum::default();
    let mut crashes = 0u64;
    let mut hangs = 0u64;
    let mut respawn = 0u64;
    let kf = known(id);
    while ch.iter().any(|c| c.is_some()) {
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok(Msg::Line(i, l)) => {
                if let Some(s) = l.strip_prefix("S ") { cur[i] = (s.into(), Instant::now()) }
                else if let Some(s) = l.strip_prefix("V ") {
                    let v: Value = serde_json::from_str(s).unwrap();
                    let g = |k: &str| v[k].as_str().unwrap_or("").to_string();
                    let f = Found { profile: g("profile"), seed: g("seed"), what: g("what"), case: g("case") };
                    if !kf.iter().any(|k| k.0 == f.profile && k.1 == f.seed) { founds.push(f) }
                }
                else if let Some(s) = l.strip_prefix("E ") { sum.add(serde_json::from_str(s).unwrap()) }
            }
            Ok(Msg::Eof(i)) => {
                let st = ch[i].take().unwrap().wait().unwrap();
                if !st.success() {
                    // it died in the middle of a case: confirm in isolation
                    let c = cur[i].0.clone();
                    let (a, b) = c.split_once(' ').unwrap_or(("", ""));
                    if !a.is_empty() {
                        if let Err(e) = rerun(a, b) {
                            crashes += 1;
                            founds.push(Found { profile: a.into(), seed: b.into(), what: format!("the process running the code died: {e}"), case: String::new() });
                        }
                    }
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    if left > 2 && respawn < 20 { respawn += 1; cur[i] = (String::new(), Instant::now()); ch[i] = Some(spawn(i, &args(i, left, seed.wrapping_add(respawn * 7919)), tx.clone())) }
                }
            }
            Err(_) => {}
        }
        for i in 0..n {
            if ch[i].is_some() && !cur[i].0.is_empty() && cur[i].1.elapsed().as_secs() > if t0.elapsed().as_secs() > secs { 15 } else { 60 } {
                // no verdict for this case
                hangs += 1;
                let _ = ch[i].as_mut().unwrap().kill();
                cur[i].0.clear();
            }
        }
        if !founds.is_empty() || t0.elapsed().as_secs() > secs + 120 { for c in ch.iter_mut().flatten() { let _ = c.kill(); } if !founds.is_empty() { for c in ch.iter_mut() { if let Some(mut c) = c.take() { let _ = c.wait(); } } break } }
    }
    let confirmed = founds;
    for (a, b, c) in &kf {
        // still failing?
        if let Ok(l) = rerun(a, b) { if l.starts_with("V ") { println!("KNOWN-FINDING: property={id} {c} (profile {a}, seed {b})") } }
    }
    sweep();
    let rdir = root().join("build/replay");
    let _ = std::fs::create_dir_all(&rdir);
    let mut paths = vec![];
    for (i, f) in confirmed.iter().take(3).enumerate() {
        let path = rdir.join(format!("{id}-{i}.json"));
        std::fs::write(&path, serde_json::to_string_pretty(&json!({"property": id, "profile": f.profile, "seed": f.seed, "what": f.what, "case": f.case,
            "replay": format!("/verif/check replay {}", path.display())})).unwrap()).unwrap();
        paths.push(path);
    }
    let bad = sum.inc.values().sum::<u64>();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum.total, "distinct_nontrivial": sum.sigs.len(),
            "rule": format!("distinct = different signature (choices of thread, lock handover, allocation addresses, outcome, output), non-trivial = {}", p.rule),
            "verdicts": {"held": sum.held, "violated": confirmed.len(), "inconclusive": bad + hangs},
            "inconclusive": sum.inc, "hangs": hangs, "crashes": crashes,
            "machine_steps": sum.steps, "profiles": sum.profiles, "ends": sum.ends,
            "observed": sum.stats, "samples": sum.samples,
        },
        "assumptions": ["the reference semantics in /verif/harness/src/rf follows the documentation and the comments of the specification", "the specification is executed as transpiled by specr-transpile, with choices resolved by the instrumented libspecr in /verif/vendor"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": confirmed.len(),
        "found": confirmed.iter().map(|f| json!({"profile": f.profile, "seed": f.seed, "what": f.what})).collect::<Vec<_>>(),
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!("{id} {tier}: {} executions ({} distinct relevant), {} steps, {} inconclusive, {:.0} s", sum.total, sum.sigs.len(), sum.steps, bad + hangs, t0.elapsed().as_secs_f64());
    if !confirmed.is_empty() {
        for (f, p) in confirmed.iter().zip(&paths) { println!("{}", f.what.lines().next().unwrap_or("").chars().take(400).collect::<String>()); println!("VIOLATION property={id} replay={}", p.display()) }
        return 1;
    }
    if sum.total == 0 || sum.sigs.is_empty() || bad * 2 > sum.total {
        println!("no answer: nothing relevant was observed");
        return 2;
    }
    0
}

#[derive(Default)]
struct Sum { total: u64, held: u64, steps: u64, stats: BTreeMap<String, u64>, profiles: BTreeMap<String, u64>, ends: BTreeMap<String, u64>, inc: BTreeMap<String, u64>, sigs: HashSet<String>, samples: Vec<Value> }
impl Sum {
    fn add(&mut self, v: Value) {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        self.total += n("total"); self.held += n("held"); self.steps += n("steps");
        for (k, m) in [("stats", &mut self.stats), ("profiles", &mut self.profiles), ("ends", &mut self.ends), ("inconclusive", &mut self.inc)] {
            if let Some(o) = v[k].as_object() { for (a, b) in o { *m.entry(a.clone()).or_default() += b.as_u64().unwrap_or(0) } }
        }
        if let Some(a) = v["sigs"].as_array() { for x in a { self.sigs.insert(x.as_str().unwrap().into()); } }
        if let Some(a) = v["samples"].as_array() { for x in a { if self.samples.len() < 12 { self.samples.push(x.clone()) } } }
    }
}

pub fn one_case(profile: &str, seed: u64) {
    run::quiet_panics();
    let c = big_stack(|| { let c = case_isolated(profile, seed, std::env::var("DUMP").is_ok()); (c.verdict, c.end, c.steps, c.desc) });
    match c.0 {
        Verdict::Diverge(s) => { if std::env::var("DUMP").is_ok() { println!("{}", c.3) } println!("V {}", json!({"profile": profile, "seed": seed.to_string(), "what": s})) }
        Verdict::Inconclusive(s) => println!("I {s}"),
        Verdict::Agree => println!("A {} {}", c.1, c.2),
    }
}
pub fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let (a, b) = (v["profile"].as_str().unwrap(), v["seed"].as_str().unwrap());
    match rerun(a, b) {
        Ok(l) => { println!("{l}"); if l.starts_with("V ") { println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap()); 1 } else { 0 } }
        Err(e) => { println!("died: {e}"); println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap()); 1 }
    }
}
/// many seeds of one profile, aggregated by outcome (development aid)
pub fn many(profile: &str, n: u64, s0: u64) {
    use std::sync::{atomic::{AtomicU64, Ordering}, Mutex};
    run::quiet_panics();
    let next = AtomicU64::new(s0);
    let res: Mutex<BTreeMap<String, (u64, Vec<u64>)>> = Default::default();
    let st: Mutex<BTreeMap<String, u64>> = Default::default();
    let t0 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..std::env::var("TH").ok().and_then(|s| s.parse().ok()).unwrap_or(8) {
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= s0 + n { break }
                let t1 = Instant::now();
                let c = case_isolated(profile, i, false);
                if t1.elapsed().as_secs() > 2 { eprintln!("slow {i} {:?}", t1.elapsed()) }
                let norm = |s: &str| { let mut o = String::new(); for c in s.chars().take(600) { if c.is_ascii_digit() { if !o.ends_with('#') { o.push('#') } } else { o.push(c) } } o.chars().take(220).collect::<String>() };
                let k = match &c.verdict { Verdict::Agree => format!("agree {}", c.end), Verdict::Diverge(s) => format!("DIVERGE {}", norm(s)), Verdict::Inconclusive(s) => format!("INCONC {}", norm(s)) };
                let mut g = res.lock().unwrap();
                let e = g.entry(k).or_default();
                e.0 += 1;
                if e.1.len() < 4 { e.1.push(i) }
                let mut g = st.lock().unwrap();
                *g.entry("zz.steps".into()).or_default() += c.steps;
                for (k, v) in c.stats { *g.entry(k).or_default() += v }
            }).unwrap();
        }
    });
    for (k, v) in st.into_inner().unwrap() { print!("{k}={v} ") }
    println!();
    let mut v: Vec<_> = res.into_inner().unwrap().into_iter().collect();
    v.sort_by_key(|x| x.1.0);
    for (k, (n, ex)) in v { println!("{n:6} {ex:?} {k}") }
    println!("{:?}", t0.elapsed());
}
