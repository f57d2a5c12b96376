//! Running programs from the outside: `miniutil::run`, `minirun` and `minimize` must report to the user
//! exactly what the machine did.
use super::{done, hash, pretty};
use crate::e2e::{self, exec, gen_rs::Expect, Done, Nat, Scratch};
use crate::gen_::ast::*;
use crate::gen_::types::pick;
use crate::profiles::Case;
use crate::rf::mem::Model;
use crate::run::{self, Cfg, End};
use minirust_rs::libspecr::ctl::Rng;
use minirust_rs::prelude::{Int, Mutability};
use std::collections::BTreeMap;
use std::process::{Command, Stdio};

type N = BTreeMap<String, u64>;
fn c(n: &mut N, k: &str) { *n.entry(format!("cli.{k}")).or_default() += 1 }

fn us(r: &mut Rng, n: usize) -> usize { r.below(n as u128) as usize }
fn any_int(r: &mut Rng) -> ValueExpr {
    let (s, b) = (r.below(2) == 0, 1i128 << r.below(5));
    let bits = 8 * b as u32;
    let (lo, hi) = if s { (if bits == 128 { i128::MIN } else { -(1 << (bits - 1)) }, if bits == 128 { i128::MAX } else { (1 << (bits - 1)) - 1 }) } else { (0, if bits >= 127 { i128::MAX } else { (1 << bits) - 1 }) };
    let x = match r.below(5) { 0 => lo, 1 => hi, 2 => 0, 3 => (r.below(200) as i128 - 100).clamp(lo, hi), _ => { let x = r.next() as i64 as i128; if bits < 64 { lo + x.rem_euclid(hi - lo + 1) } else { x.clamp(lo, hi) } } };
    cint(x, int_t(s, b))
}
fn out(r: &mut Rng, f: &mut FB, v: ValueExpr, err: bool, n: &mut N) {
    if err && r.below(3) == 0 { c(n, "eprint"); f.intr(IntrinsicOp::PrintStderr, vec![v], unit_place()) } else { c(n, "print"); f.print(v) }
}
/// a program with a deterministic outcome of any kind
pub fn template(r: &mut Rng, err: bool, n: &mut N) -> Program {
    let u32t = int_t(false, 4);
    let boxed = int_t(true, 8);
    let mutref = Type::Ptr(PtrType::Ref { mutbl: Mutability::Mutable, pointee: PointeeInfo { layout: LayoutStrategy::Sized(size(4), align(4)), inhabited: true, unpin: true, freeze: true, unsafe_cells: UnsafeCellStrategy::Sized { cells: list(vec![]) } } });
    let mutp = match mutref { Type::Ptr(p) => p, _ => unreachable!() };
    // 1: u32  2: i64  3: bool  4: raw pointer  5: lock id / anything 8 bytes 6: &mut u32 7: raw pointer 8: u8
    let mut f = main_fb(vec![u32t, boxed, Type::Bool, raw_t(), int_t(false, 4), mutref, raw_t(), int_t(false, 1)]);
    for i in 1..9 { f.live(i) }
    f.assign(local(1), cint(us(r, 1000), u32t));
    f.assign(local(2), cint(r.next() as i64, boxed));
    f.assign(local(3), cbool(r.below(2) == 0));
    let mut others = vec![];
    for _ in 0..us(r, 7) {
        match us(r, 9) {
            0 | 1 => { let v = any_int(r); out(r, &mut f, v, err, n) }
            2 => { let v = cbool(r.below(2) == 0); out(r, &mut f, v, err, n) }
            3 => { let v = load(local(1 + us(r, 3))); out(r, &mut f, v, err, n) }
            4 => { f.assign(local(1), binop(BinOp::Int(IntBinOp::Add), load(local(1)), cint(us(r, 50), u32t))); out(r, &mut f, load(local(1)), err, n) }
            5 => {
                // count down
                c(n, "loop");
                f.assign(local(8), cint(2 + us(r, 12), int_t(false, 1)));
                let (h, b, e) = (f.block(BbKind::Regular), f.block(BbKind::Regular), f.block(BbKind::Regular));
                f.t(Terminator::Goto(bname(h)));
                f.cur = h;
                f.t(Terminator::Switch { value: load(local(8)), cases: map(vec![(Int::from(0), bname(e))]), fallback: bname(b) });
                f.cur = b;
                out(r, &mut f, load(local(8)), err, n);
                f.assign(local(8), binop(BinOp::Int(IntBinOp::Sub), load(local(8)), cint(1, int_t(false, 1))));
                f.t(Terminator::Goto(bname(h)));
                f.cur = e;
            }
            6 => {
                c(n, "heap");
                let k = cint(8, int_t(false, 8));
                f.intr(IntrinsicOp::Allocate, vec![k, k], local(4));
                let at = deref(load(local(4)), boxed);
                f.assign(at, load(local(2)));
                f.assign(at, binop(BinOp::Int(IntBinOp::BitXor), load(at), cint(us(r, 100), boxed)));
                out(r, &mut f, load(at), err, n);
                f.intr(IntrinsicOp::Deallocate, vec![load(local(4)), k, k], unit_place());
            }
            7 => {
                c(n, "call");
                let idx = others.len() + 1;
                let mut g = FB::new(idx, vec![u32t, u32t, unit_t()], vec![1], 0);
                g.assign(local(0), binop(BinOp::Int(IntBinOp::BitXor), load(local(1)), cint(1 + us(r, 9), u32t)));
                out(r, &mut g, load(local(0)), err, n);
                g.t(Terminator::Return);
                others.push(g.build());
                f.call(cfn(idx), vec![ArgumentExpr::ByValue(load(local(1)))], local(1));
                out(r, &mut f, load(local(1)), err, n);
            }
            _ => {
                // under Tree Borrows the write through `x` disables the reference
                c(n, "reborrow");
                f.assign(local(6), addr_of(local(1), mutp));
                f.assign(deref(load(local(6)), u32t), cint(us(r, 99), u32t));
                out(r, &mut f, load(local(1)), err, n);
            }
        }
    }
    let u = ValueExpr::Constant(Constant::PointerWithoutProvenance(Int::from(0)), raw_t());
    let end = us(r, 26);
    c(n, &format!("end.{end}"));
    match end {
        0..=5 => f.exit(),
        6 | 7 => f.t(intrinsic(IntrinsicOp::Abort, vec![], unit_place(), None)),
        8 => { let k = cint(8, int_t(false, 8)); f.intr(IntrinsicOp::Allocate, vec![k, k], local(4)); f.exit() }
        9 => { f.intr(IntrinsicOp::Lock(IntrinsicLockOp::Create), vec![], local(5)); f.intr(IntrinsicOp::Lock(IntrinsicLockOp::Acquire), vec![load(local(5))], unit_place()); f.intr(IntrinsicOp::Lock(IntrinsicLockOp::Acquire), vec![load(local(5))], unit_place()); f.exit() }
        // undefined behaviour
        10 => f.t(Terminator::Unreachable),
        11 => { f.assign(local(1), binop(BinOp::Int(IntBinOp::Div), load(local(1)), cint(0, u32t))); f.exit() }
        12 => { f.assign(local(1), load(deref(u, u32t))); f.exit() }
        13 => { f.intr(IntrinsicOp::Assume, vec![cbool(false)], unit_place()); f.exit() }
        14 => { f.assign(local(3), unop(UnOp::Cast(CastOp::Transmute(Type::Bool)), cint(7, int_t(false, 1)))); f.exit() }
        15 => { f.dead(1); f.live(1); out(r, &mut f, load(local(1)), err, n); f.exit() }
        16 => { f.t(Terminator::Return) }
        17 | 18 => {
            // the reference is used after the variable itself was
            c(n, "alias-ub");
            f.assign(local(6), addr_of(local(1), mutp));
            f.assign(deref(load(local(6)), u32t), cint(5, u32t));
            f.assign(local(1), cint(6, u32t));
            out(r, &mut f, load(deref(load(local(6)), u32t)), err, n);
            f.exit()
        }
        19 => { let k = cint(8, int_t(false, 8)); f.intr(IntrinsicOp::Allocate, vec![k, k], local(4)); f.intr(IntrinsicOp::Deallocate, vec![load(local(4)), k, k], unit_place()); f.intr(IntrinsicOp::Deallocate, vec![load(local(4)), k, k], unit_place()); f.exit() }
        20 => { f.intr(IntrinsicOp::Join, vec![cint(us(r, 9) + 1, u32t)], unit_place()); f.exit() }
        21 => { out(r, &mut f, unit_v(), err, n); f.exit() }
        // not well-formed
        22 => f.t(Terminator::Goto(bname(999))),
        23 => { f.assign(local(1), cbool(true)); f.exit() }
        24 => { f.assign(local(77), cint(0, u32t)); f.exit() }
        _ => { f.local(slice_t(u32t)); f.exit() }
    }
    let mut fns = vec![f.build()];
    fns.extend(others);
    program(fns)
}
fn truth(p: Program, tree: bool, seed: u64) -> run::Real {
    let mut rng = Rng::new(seed);
    let mut cfg = Cfg::random(&mut rng);
    cfg.model = if tree { Model::Tree } else { Model::Basic };
    cfg.probe = false;
    cfg.max_steps = 100_000;
    run::real(p, &cfg, false)
}
/// what the command line tools print when a program ends so
fn message(e: &End) -> Option<String> {
    Some(match e {
        End::Machine => String::new(),
        End::Abort => "fatal error: program aborted\n".into(),
        End::Ub(s) => format!("fatal error: UB: {s}\n"),
        End::Deadlock => "fatal error: program dead-locked\n".into(),
        End::Leak => "fatal error: program leaked memory\n".into(),
        End::IllFormed(s) => format!("fatal error: program not well-formed (this is a bug in minimize):\n    {s}\n"),
        _ => return None,
    })
}

pub fn run_case(seed: u64, dump: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut n = N::new();
    let p = template(&mut r, false, &mut n);
    let tree = r.below(2) == 0;
    let want = truth(p, tree, seed);
    if dump { println!("{}\n{:?}\n{:?}", serde_json::to_string(&p).unwrap(), want.end, want.out) }
    let got = std::panic::catch_unwind(|| if tree { miniutil::run::get_stdout::<miniutil::TreeBorrowMem>(p) } else { miniutil::run::get_stdout::<miniutil::BasicMem>(p) });
    let lines: Vec<String> = want.out.lines().map(|s| s.to_string()).collect();
    c(&mut n, &format!("run.{}", want.end.kind()));
    let what = match (got, want.end.clone()) {
        (_, End::StepLimit | End::TooBig | End::NoChoice | End::Panic(_)) => return Case::bad(format!("{:?}", want.end)),
        (Err(_), _) => Some(format!("get_stdout panics: {}", run::panic_msg())),
        (Ok(Ok(l)), End::Machine) => if l == lines { None } else { Some(format!("get_stdout returns {l:?}, but the program prints {lines:?}")) },
        (Ok(Ok(_)), e) => Some(format!("get_stdout reports success, but the program ends with {e:?}")),
        (Ok(Err(i)), e) => { let i = End::from(i); if i == e { None } else { Some(format!("get_stdout reports {i:?}, but the program ends with {e:?}")) } }
    };
    done(what, want.end.kind(), hash(&format!("{:?}{:?}{tree}", lines, want.end)), n, serde_json::to_string(&p).unwrap())
}

fn tool(name: &str, dir: &Scratch) -> Command {
    let t = e2e::tools();
    let mut c = Command::new(t.root.join("tooling/release").join(name));
    c.env("LD_LIBRARY_PATH", &t.lib).env("RUST_BACKTRACE", "0").current_dir(&dir.0).stdin(Stdio::null());
    c
}
fn show(d: &Done) -> String { format!("exit code {:?} signal {:?} stdout {:?} stderr {:?}", d.code, d.signal, d.out, d.err) }
/// does it fail cleanly: a message, no output, exit code 101 (or any failure, for a panic)?
fn fails(d: &Done, msg: Option<&str>) -> Option<String> {
    match msg {
        Some(m) if d.code == Some(101) && d.out.is_empty() && d.err == format!("fatal error: {m}\n") => None,
        None if d.code.is_some_and(|c| c != 0) && d.out.is_empty() && !d.err.is_empty() => None,
        _ => Some(show(d)),
    }
}

pub fn minirun_case(seed: u64, dump: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut n = N::new();
    let p = template(&mut r, true, &mut n);
    let tree = r.below(2) == 0;
    let want = truth(p, tree, seed);
    let Some(msg) = message(&want.end) else { return Case::bad(format!("{:?}", want.end)) };
    let dir = Scratch::new();
    let file = dir.0.join("prog.json");
    let json = serde_json::to_string(&p).unwrap();
    std::fs::write(&file, &json).unwrap();
    let stdin = r.below(3) == 0;
    let mut args: Vec<String> = vec![];
    if !stdin { args.push(if r.below(2) == 0 { "prog.json".into() } else { file.display().to_string() }) }
    for _ in 0..if tree { 1 + us(&mut r, 2) } else { 0 } { let at = us(&mut r, args.len() + 1); args.insert(at, "--minirust-tree-borrows".into()) }
    // once in a while something is wrong with the command line
    let misuse = us(&mut r, 12);
    let what = match misuse {
        0 => {
            c(&mut n, "misuse.unknown");
            let bad = *pick(&mut r, &["tree-borrow", "treeborrows", "basic", "", "tree-borrows=yes", "help"]);
            let at = us(&mut r, args.len() + 1);
            args.insert(at, format!("--minirust-{bad}"));
            let mut cmd = tool("minirun", &dir);
            cmd.args(&args);
            if stdin { cmd.stdin(std::fs::File::open(&file).unwrap()); }
            let Some(d) = exec(&mut cmd, 60, &dir.0) else { return Case::bad("minirun takes too long".into()) };
            fails(&d, Some(&format!("Unknown argument --minirust-{bad}!"))).map(|s| format!("minirun {args:?} (an unknown argument): {s}"))
        }
        1 => {
            c(&mut n, "misuse.two files");
            for _ in 0..2 { let at = us(&mut r, args.len() + 1); args.insert(at, "prog.json".into()) }
            let Some(d) = exec(tool("minirun", &dir).args(&args), 60, &dir.0) else { return Case::bad("minirun takes too long".into()) };
            fails(&d, Some("Can not load JSON from more than one file!")).map(|s| format!("minirun {args:?} (several files): {s}"))
        }
        2 => {
            c(&mut n, "misuse.bad json");
            let cut = us(&mut r, json.len());
            let bad = match r.below(3) { 0 => json[..json.char_indices().map(|x| x.0).filter(|x| *x <= cut).last().unwrap_or(0)].to_string(), 1 => format!("{json}}}"), _ => "{}".into() };
            std::fs::write(&file, bad).unwrap();
            let mut cmd = tool("minirun", &dir);
            cmd.args(&args);
            if stdin { cmd.stdin(std::fs::File::open(&file).unwrap()); }
            let Some(d) = exec(&mut cmd, 60, &dir.0) else { return Case::bad("minirun takes too long".into()) };
            fails(&d, None).map(|s| format!("minirun of something that is no program: {s}"))
        }
        3 if !stdin => {
            c(&mut n, "misuse.no file");
            std::fs::remove_file(&file).unwrap();
            let Some(d) = exec(tool("minirun", &dir).args(&args), 60, &dir.0) else { return Case::bad("minirun takes too long".into()) };
            fails(&d, None).map(|s| format!("minirun of a missing file: {s}"))
        }
        _ => {
            c(&mut n, &format!("{}.{}{}", if stdin { "stdin" } else { "file" }, want.end.kind(), if tree { ".tree" } else { "" }));
            let mut cmd = tool("minirun", &dir);
            cmd.args(&args);
            if stdin { cmd.stdin(std::fs::File::open(&file).unwrap()); }
            let Some(d) = exec(&mut cmd, 60, &dir.0) else { return Case::bad("minirun takes too long".into()) };
            if dump { println!("{args:?} {}", show(&d)) }
            let code = if want.end == End::Machine { 0 } else { 101 };
            let err = format!("{}{msg}", want.err);
            if d.code == Some(code) && d.out == want.out && d.err == err { None } else { Some(format!("minirun {args:?}: {}; expected exit code {code} stdout {:?} stderr {err:?}", show(&d), want.out)) }
        }
    };
    done(what, want.end.kind(), hash(&format!("{misuse}{args:?}{:?}{:?}{:?}", want.end, want.out, want.err)), n, json)
}

const TOPICS: &[&str] = &["values", "enums", "niches", "ints", "consts", "ends", "ends", "ub", "alias", "calls", "unwind"];
pub fn minimize_case(seed: u64, dump: bool) -> Case {
    let mut r = Rng::new(seed);
    let mut n = N::new();
    let topic = *pick(&mut r, TOPICS);
    let prog = e2e::generate(topic, r.next());
    let dir = Scratch::new();
    let src = dir.0.join("prog.rs");
    std::fs::write(&src, &prog.src).unwrap();
    if dump { println!("{}", prog.src) }
    let tree = prog.tree == Some(true);
    let mut args: Vec<String> = vec!["--edition".into(), "2021".into()];
    args.extend(prog.flags.iter().map(|s| s.to_string()));
    let put = |r: &mut Rng, args: &mut Vec<String>, x: &str| { let at = 2 + us(r, args.len() - 1); args.insert(at, x.into()) };
    if tree { put(&mut r, &mut args, "--minirust-tree-borrows") }
    let go = |args: &Vec<String>| { let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect(); let d = exec(&mut e2e::minimize(&dir.0, &src, &a), 100, &dir.0); if dump { if let Some(d) = &d { println!("{args:?} {}", show(d).chars().take(2000).collect::<String>()) } } d };
    let desc = prog.src.split("// ---- program").last().unwrap_or("").to_string();
    let slow = || Case::bad("minimize takes too long".into());
    let mode = us(&mut r, 10);
    let what = match mode {
        0 => {
            // wrong arguments
            let k = us(&mut r, 4);
            c(&mut n, &format!("minimize.misuse{k}"));
            let msg = match k {
                0 => { let (a, b) = (*pick(&mut r, &["json", "pretty", "x"]), *pick(&mut r, &["json", "pretty"])); put(&mut r, &mut args, &format!("--minimize-dump={a}")); put(&mut r, &mut args, &format!("--minimize-dump={b}")); "Argument --minimize-dump was given twice!".to_string() }
                1 => { let b = *pick(&mut r, &["Json", "text", "", "json=1"]); put(&mut r, &mut args, &format!("--minimize-dump={b}")); format!("Unknown dump format {b}") }
                2 => { let b = *pick(&mut r, &["dump", "check-json", "", "check-json-roundtrip=1", "run"]); put(&mut r, &mut args, &format!("--minimize-{b}")); format!("Unknown minimize argument --minimize-{b}!") }
                _ => { let b = *pick(&mut r, &["tree", "", "stacked-borrows"]); put(&mut r, &mut args, &format!("--minirust-{b}")); format!("Unknown argument --minirust-{b}!") }
            };
            let Some(d) = go(&args) else { return slow() };
            fails(&d, Some(&msg)).map(|s| format!("minimize {args:?}: {s}, expected {msg:?}"))
        }
        1 | 2 => {
            // the two dumps show the same program
            c(&mut n, "minimize.dump");
            let (mut j, mut q) = (args.clone(), args.clone());
            put(&mut r, &mut j, "--minimize-dump=json");
            put(&mut r, &mut q, "--minimize-dump=pretty");
            if r.below(2) == 0 { put(&mut r, &mut j, "--minimize-check-json-roundtrip") }
            let (Some(dj), Some(dp)) = (go(&j), go(&q)) else { return slow() };
            if dj.code != Some(0) || dp.code != Some(0) { Some(format!("minimize {j:?} ends with {:?}, {q:?} ends with {:?}: {} {}", dj.code, dp.code, dj.err, dp.err)) } else {
                match std::panic::catch_unwind(|| miniutil::json::load_program(dj.out.as_bytes())) {
                    Err(_) => Some(format!("the dumped program cannot be loaded: {}", run::panic_msg())),
                    Ok(p) => { let (want, m) = pretty::expected(p, false); for (k, v) in m { *n.entry(k).or_default() += v } pretty::same_tokens(&dp.out, &want) }
                }
            }
        }
        3 => {
            // a program that does not compile must not run, and must not be dumped
            c(&mut n, "minimize.rejected");
            let bad = *pick(&mut r, &["fn broken() -> u32 { true }", "fn broken() { let x: &'static u32 = { let y = 1; &y }; let _ = x; }", "fn broken( {", "fn broken() { missing() }", "fn broken() { let v = String::from(\"\"); drop(v); drop(v); }"]);
            std::fs::write(&src, format!("{}\n{bad}\n", prog.src)).unwrap();
            if r.below(2) == 0 { put(&mut r, &mut args, *pick(&mut Rng::new(seed), &["--minimize-dump=json", "--minimize-dump=pretty", "--minimize-check-json-roundtrip"])) }
            let Some(d) = go(&args) else { return slow() };
            if d.code.is_some_and(|c| c != 0) && d.out.is_empty() && d.err.contains("error") { None } else { Some(format!("minimize {args:?} of a program with the error {bad:?}: {}", show(&d))) }
        }
        _ => {
            let (nout, nerr, nabort) = match e2e::native(&dir.0, &src, &prog.flags) { Nat::Ok { out, err, abort } => (out, err, abort), Nat::Bad(s) => return Case::bad(s) };
            if r.below(3) == 0 { put(&mut r, &mut args, "--minimize-check-json-roundtrip") }
            let Some(d) = go(&args) else { return slow() };
            let (name, code, msg) = match prog.expect { Expect::Native if nabort => ("abort", 101, "fatal error: program aborted\n"), Expect::Native => ("exit", 0, ""), Expect::Ub => ("ub", 101, "fatal error: UB: "), Expect::Deadlock => ("deadlock", 101, "fatal error: program dead-locked\n"), Expect::Leak => ("leak", 101, "fatal error: program leaked memory\n") };
            c(&mut n, &format!("minimize.{name}{}", if tree { ".tree" } else { "" }));
            let err = format!("{nerr}{msg}");
            // (the tool has no way to predict which exposed provenance is meant)
            if d.err.contains("nondet.rs") && d.err.contains("not implemented") { return Case::bad("exposed provenance".into()) }
            if d.err.contains("overlapping fields") && !run::STRICT.with(|x| x.get()) { return Case::bad("known finding zstorder".into()) }
            let what = if d.code == Some(code) && d.out == nout && (d.err == err || name == "ub" && d.err.starts_with(&err) && d.err.lines().count() == err.lines().count()) { None } else { Some(format!("minimize {args:?}: {}; expected exit code {code} stdout {nout:?} stderr {err:?}", show(&d))) };
            // the dumped program, run by minirun, behaves in the same way
            if what.is_none() && r.below(2) == 0 {
                c(&mut n, "minimize.minirun");
                let mut j = args.clone();
                put(&mut r, &mut j, "--minimize-dump=json");
                let Some(dj) = go(&j) else { return slow() };
                std::fs::write(dir.0.join("prog.json"), &dj.out).unwrap();
                let mut cmd = tool("minirun", &dir);
                cmd.arg("prog.json");
                if tree { cmd.arg("--minirust-tree-borrows"); }
                let Some(m) = exec(&mut cmd, 100, &dir.0) else { return Case::bad("minirun takes too long".into()) };
                if dj.code == Some(0) && m.code == d.code && m.out == d.out && m.err == d.err { None } else { Some(format!("minimize {args:?}: {}; but its dump (exit code {:?}) run by minirun: {}", show(&d), dj.code, show(&m))) }
            } else { what }
        }
    };
    done(what, &format!("mode{mode}"), hash(&prog.src) ^ mode as u64, n, desc)
}
