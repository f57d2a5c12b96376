//! What surrounds the machine: the pretty-printer, the JSON format, the builder helpers and the command line.
pub mod pretty;
pub mod synt;
pub mod builder;
pub mod cli;
use crate::profiles::Case;
use crate::run::{self, Verdict};
use minirust_rs::lang::Program;
use minirust_rs::libspecr::ctl::Rng;
use std::collections::BTreeMap;

const PROFILES: &[&str] = &["general", "values", "enums", "wide", "calls", "unwind", "globals", "control", "sync", "arith", "tree", "heap", "pointers", "expose", "conc", "locks", "spawns", "atomics", "races"];
pub fn any_program(rng: &mut Rng) -> Program {
    let t = crate::run::T::X64;
    if rng.below(100) < 60 { return synt::Y::new(rng.next()).program() }
    let p = PROFILES[rng.below(PROFILES.len() as u128) as usize];
    match p {
        "conc" | "locks" | "spawns" | "atomics" | "races" => crate::gen_::conc::generate(rng, &t.tgt(), &crate::gen_::conc::CW::get(p)),
        _ => { let r = Rng::new(rng.next()); crate::gen_::guided::G::new(r, t.tgt(), crate::rf::mem::Model::Basic, crate::profiles::weights(p)).run().0 }
    }
}
pub fn hash(s: &str) -> u64 { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); s.hash(&mut h); h.finish() }
pub fn done(what: Option<String>, end: &str, sig: u64, stats: BTreeMap<String, u64>, desc: String) -> Case {
    let want = what.is_some() || crate::profiles::WANT_DESC.with(|x| x.get());
    Case { verdict: match what { None => Verdict::Agree, Some(w) => Verdict::Diverge(w) }, end: end.into(), sig, steps: 1, stats, desc: if want { desc } else { String::new() } }
}

pub fn case(topic: &str, seed: u64, dump: bool) -> Case {
    let mut rng = Rng::new(seed);
    match topic {
        "pretty" => { let p = any_program(&mut rng); pretty_case(p, dump) }
        "json" => { let p = any_program(&mut rng); json_case(p, dump) }
        "builder" => builder::case(seed, dump),
        "run" => cli::run_case(seed, dump),
        "minirun" => cli::minirun_case(seed, dump),
        "minimize" => if crate::e2e::broken().is_some() { crate::e2e::case("values", seed, dump) } else { cli::minimize_case(seed, dump) },
        _ => panic!("unknown topic {topic}"),
    }
}

pub fn pretty_case(p: Program, dump: bool) -> Case {
    let (want, n) = pretty::expected(p, false);
    let sig = hash(&want);
    let json = serde_json::to_string(&p).unwrap_or_default();
    let what = match std::panic::catch_unwind(|| miniutil::pretty::fmt_program(p)) {
        Err(_) => Some(format!("the pretty-printer panics: {}", run::panic_msg())),
        Ok(s) => { if dump { println!("{s}\n======\n{want}") } pretty::compare(&s, &want).filter(|_| pretty::compare(&s, &pretty::expected(p, true).0).is_some()) }
    };
    done(what, "printed", sig, n, json)
}

pub fn json_case(p: Program, dump: bool) -> Case {
    let s = serde_json::to_vec(&p).expect("json");
    if dump { println!("{}", String::from_utf8_lossy(&s)) }
    let mut n = BTreeMap::new();
    n.insert("json.bytes".into(), s.len() as u64);
    n.insert("json.loaded".into(), 1);
    let sig = hash(&String::from_utf8_lossy(&s));
    // readers deliver data in pieces of any size
    let k = 1 + sig as usize % 97;
    let what = match std::panic::catch_unwind(|| miniutil::json::load_program(Chunks { data: &s, k })) {
        Err(_) => Some(format!("a dumped program cannot be loaded: {}", run::panic_msg())),
        Ok(q) if q != p => Some("a dumped program loads as a different program".into()),
        Ok(_) => std::panic::catch_unwind(|| miniutil::json::assert_roundtrip(&p)).err().map(|_| format!("the round trip check fails: {}", run::panic_msg())),
    };
    let what = what.or_else(|| {
        // what is no program must not load as one
        if s.len() < 2 { return None }
        let cut = 1 + (sig as usize / 97) % (s.len() - 1);
        *n.entry("json.truncated".into()).or_default() += 1;
        std::panic::catch_unwind(|| miniutil::json::load_program(&s[..cut])).ok().map(|_| format!("the first {cut} bytes of a dumped program load as a program"))
    });
    let what = what.or_else(|| {
        *n.entry("json.trailing".into()).or_default() += 1;
        let mut t = s.clone();
        t.extend_from_slice(b" ]");
        std::panic::catch_unwind(|| miniutil::json::load_program(&t[..])).ok().map(|_| "a dumped program followed by garbage loads as a program".to_string())
    });
    done(what, "loaded", sig, n, String::from_utf8_lossy(&s).into_owned())
}
struct Chunks<'a> { data: &'a [u8], k: usize }
impl std::io::Read for Chunks<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = self.k.min(b.len()).min(self.data.len()); b[..n].copy_from_slice(&self.data[..n]); self.data = &self.data[n..]; Ok(n) }
}
