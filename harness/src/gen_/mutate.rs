//! Structural mutation of programs, through their JSON form.
use minirust_rs::lang::Program;
use minirust_rs::libspecr::ctl::Rng;
use serde_json::Value;

type Path = Vec<Step>;
#[derive(Clone, PartialEq)]
enum Step { Key(String), Idx(usize) }

fn walk(v: &Value, p: &mut Path, out: &mut Vec<Path>) {
    out.push(p.clone());
    match v {
        Value::Array(a) => for (i, x) in a.iter().enumerate() { p.push(Step::Idx(i)); walk(x, p, out); p.pop(); },
        Value::Object(o) => for (k, x) in o { p.push(Step::Key(k.clone())); walk(x, p, out); p.pop(); },
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    let mut c = v;
    for s in p { c = match s { Step::Key(k) => c.get_mut(k).unwrap(), Step::Idx(i) => c.get_mut(*i).unwrap() } }
    c
}
fn get<'a>(v: &'a Value, p: &[Step]) -> &'a Value {
    let mut c = v;
    for s in p { c = match s { Step::Key(k) => &c[k], Step::Idx(i) => &c[*i] } }
    c
}
/// what a node is used as: the closest field name and, below it, list nesting and position in pairs
fn role(p: &Path) -> String {
    let mut r = String::new();
    for s in p.iter().rev() {
        match s { Step::Key(k) => { r.push_str(k); return r } Step::Idx(_) => r.push('.') }
    }
    r
}
const WORDS: &[&[&str]] = &[
    &["Signed", "Unsigned"], &["Mutable", "Immutable"], &["Regular", "Cleanup", "Catch", "Terminate"], &["C", "Rust"],
    &["Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr", "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked", "DivExact"],
    &["AddWithOverflow", "SubWithOverflow", "MulWithOverflow"], &["AddWithOverflow", "Add"], &["Neg", "BitNot", "CountOnes"], &["Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"],
    &["GetThinPointer", "GetMetadata"], &["None", "ElementCount"], &["Return", "Unreachable", "ResumeUnwind"], &["Create", "Acquire", "Release"],
    &["Exit", "Abort", "PrintStdout", "PrintStderr", "Allocate", "Deallocate", "Spawn", "Join", "RawEq", "Assume", "AtomicStore", "AtomicLoad", "AtomicCompareExchange", "PointerExposeProvenance", "PointerWithExposedProvenance", "GetUnwindPayload"],
    &["Bool", "Invalid"],
];
fn chance(r: &mut Rng, n: u128, d: u128) -> bool { r.below(d) < n }

fn mutate1(v: &mut Value, r: &mut Rng) -> bool {
    let mut paths = vec![];
    walk(v, &mut vec![], &mut paths);
    // favour structure over leaves: pick by kind first
    let want = r.below(10);
    let cand: Vec<&Path> = paths.iter().filter(|p| { let x = get(v, p); match want { 0..=2 => x.is_number(), 3 => x.is_string() || x.is_boolean(), 4 | 5 => x.is_array(), 6..=8 => x.is_object() || x.is_string(), _ => true } }).collect();
    if cand.is_empty() { return false }
    let p = cand[r.below(cand.len() as u128) as usize].clone();
    let me = get(v, &p).clone();
    let ro = role(&p);
    if chance(r, 1, 2) || me.is_object() {
        // another node of the same role
        let others: Vec<&Path> = paths.iter().filter(|q| **q != p && role(q) == ro && get(v, q) != &me).collect();
        if !others.is_empty() && chance(r, 4, 5) {
            let o = get(v, others[r.below(others.len() as u128) as usize]).clone();
            *at(v, &p) = o;
            return true;
        }
        // another node of the same shape (same enum tag set)
        if let Value::Object(o) = &me {
            let k = o.keys().next().cloned().unwrap_or_default();
            let others: Vec<&Path> = paths.iter().filter(|q| **q != p && matches!(get(v, q), Value::Object(b) if b.len() == o.len() && (b.keys().next() == Some(&k) || o.len() == 1)) && get(v, q) != &me).collect();
            if others.is_empty() { return false }
            let o = get(v, others[r.below(others.len() as u128) as usize]).clone();
            *at(v, &p) = o;
            return true;
        }
    }
    match me {
        Value::Number(n) => {
            let x: i128 = n.to_string().parse().unwrap_or(0);
            let y: i128 = match r.below(16) { 0..=2 => x.wrapping_add(1), 3..=5 => x.wrapping_sub(1), 6 => 0, 7 => -1, 8 => x.wrapping_neg(), 9 => x.wrapping_mul(2), 10 => 1, 11 => x / 2, 12 => 1 << r.below(8), 13 => r.below(300) as i128, 14 => (1 << (8 * (1 + r.below(8)))) - r.below(3) as i128, _ => -(1i128 << (8 * (1 + r.below(8)) - 1)) + 1 - r.below(3) as i128 };
            *at(v, &p) = serde_json::from_str(&y.to_string()).unwrap();
            true
        }
        Value::Bool(b) => { *at(v, &p) = Value::Bool(!b); true }
        Value::Null => false,
        Value::String(s) => {
            let ws: Vec<_> = WORDS.iter().filter(|w| w.contains(&s.as_str())).collect();
            if ws.is_empty() { return false }
            let w = ws[r.below(ws.len() as u128) as usize];
            *at(v, &p) = Value::String(w[r.below(w.len() as u128) as usize].into());
            true
        }
        Value::Array(mut a) => {
            match r.below(5) {
                0 if !a.is_empty() => { let i = r.below(a.len() as u128) as usize; a.remove(i); }
                1 if !a.is_empty() => { let i = r.below(a.len() as u128) as usize; let x = a[i].clone(); let j = r.below(a.len() as u128 + 1) as usize; a.insert(j, x); }
                2 if a.len() > 1 => { let i = r.below(a.len() as u128) as usize; let j = r.below(a.len() as u128) as usize; a.swap(i, j); }
                3 => { let others: Vec<&Path> = paths.iter().filter(|q| role(q) == format!(".{ro}")).collect(); if others.is_empty() { return false } let x = get(v, others[r.below(others.len() as u128) as usize]).clone(); let j = r.below(a.len() as u128 + 1) as usize; a.insert(j, x); }
                _ if !a.is_empty() => { let i = r.below(a.len() as u128) as usize; a.truncate(i); }
                _ => return false,
            }
            *at(v, &p) = Value::Array(a);
            true
        }
        Value::Object(_) => { if chance(r, 1, 3) { *at(v, &p) = Value::Null; true } else { false } }
    }
}

/// `None` if no mutant could be formed
pub fn mutate(p: &Program, r: &mut Rng, k: usize) -> Option<Program> {
    let v0 = serde_json::to_value(p).ok()?;
    for _ in 0..12 {
        let mut v = v0.clone();
        let mut done = 0;
        for _ in 0..k * 8 { if mutate1(&mut v, r) { done += 1; if done == k { break } } }
        if v == v0 { continue }
        if let Ok(q) = serde_json::from_value::<Program>(v) { return Some(q) }
    }
    None
}
/// Whether executing the program could take unreasonable time or memory.
pub fn heavy(p: &Program) -> bool {
    fn big(v: &Value, k: &str) -> bool {
        match v {
            Value::Array(a) => a.iter().any(|x| big(x, k)),
            Value::Object(o) => o.iter().any(|(k, x)| big(x, k)),
            Value::Number(n) => (k == "count" || k == "size" || k == "end") && n.to_string().parse::<i128>().map(|x| x > 4096).unwrap_or(true),
            _ => false,
        }
    }
    big(&serde_json::to_value(p).unwrap(), "")
}

fn any(v: &Value, f: &dyn Fn(&serde_json::Map<String, Value>) -> bool) -> bool {
    match v {
        Value::Array(a) => a.iter().any(|x| any(x, f)),
        Value::Object(o) => f(o) || o.values().any(|x| any(x, f)),
        _ => false,
    }
}
fn num(v: &Value) -> i128 { v.to_string().trim_matches('"').parse().unwrap_or(i128::MAX) }
/// Integer types so large that even looking at their range is too much.
pub fn monstrous(p: &Program) -> bool {
    any(&serde_json::to_value(p).unwrap(), &|o| o.contains_key("signed") && o.get("size").is_some_and(|s| num(s) > 4096))
}
/// Does the program mention an integer size, an element count or a field number which makes the computation of a layout panic?
pub fn layout_trouble(p: &Program) -> bool {
    any(&serde_json::to_value(p).unwrap(), &|o| {
        o.contains_key("signed") && o.get("size").is_some_and(|s| { let n = num(s); n <= 0 || n & (n - 1) != 0 }) || o.get("count").is_some_and(|c| num(c) < 0 || num(c) > 1 << 60) || o.get("field").is_some_and(|c| num(c) < 0)
    })
}
