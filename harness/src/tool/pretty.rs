//! An independent formatter of programs, against which the pretty-printer is compared (white space aside).
use minirust_rs::lang as l;
use minirust_rs::mem as m;
use minirust_rs::prelude as sp;
use l::{Type, ValueExpr as V, PlaceExpr as Pl, Statement as S, Terminator as T};
use std::collections::BTreeMap;

/// composite types in the order of their first mention
pub struct F { sorted: bool, tys: Vec<Type>, pub n: BTreeMap<String, u64> }
fn id(n: &minirust_rs::libspecr::Name) -> u32 { n.get_internal() }
fn paren(s: (String, bool)) -> String { if s.1 { s.0 } else { format!("({})", s.0) } }
fn at(s: impl Into<String>) -> (String, bool) { (s.into(), true) }
fn non(s: impl Into<String>) -> (String, bool) { (s.into(), false) }
fn ity(t: l::IntType) -> String { format!("{}{}", if t.signed == sp::Signed { 'i' } else { 'u' }, t.size.bits()) }
fn meta(k: m::PointerMetaKind) -> String {
    match k { m::PointerMetaKind::None => "thin".into(), m::PointerMetaKind::ElementCount => "meta=len".into(), m::PointerMetaKind::VTablePointer(t) => format!("meta=vtable<trait{}>", id(&t.0)) }
}
fn lay(x: m::LayoutStrategy) -> String {
    match x {
        m::LayoutStrategy::Sized(s, a) => format!("size={}, align={}", s.bytes(), a.bytes()),
        m::LayoutStrategy::Slice(s, a) => format!("size={}*len, align={}", s.bytes(), a.bytes()),
        m::LayoutStrategy::TraitObject(_) => "size,align={unknown}".into(),
        m::LayoutStrategy::Tuple { head, tail } => {
            let pk = match head.packed_align { Some(p) => format!(", packed={}", p.bytes()), None => String::new() };
            format!("head=(end={}, align={}){pk}, tail=({})", head.end.bytes(), head.align.bytes(), lay(tail.extract()))
        }
    }
}
fn info(p: m::PointeeInfo) -> String {
    let mut s = format!("pointee_info({}, {}", meta(p.layout.meta_kind()), lay(p.layout));
    if !p.inhabited { s += ", uninhabited" }
    if !p.freeze { s += ", !Freeze" }
    if !p.unpin { s += ", !Unpin" }
    s + ")"
}
fn pty(p: m::PtrType) -> String {
    match p {
        m::PtrType::Ref { mutbl, pointee } => format!("&{}{}", if mutbl == sp::Mutability::Mutable { "mut " } else { "" }, info(pointee)),
        m::PtrType::Box { pointee } => format!("Box<{}>", info(pointee)),
        m::PtrType::Raw { meta_kind } => format!("*raw({})", meta(meta_kind)),
        m::PtrType::FnPtr => "fn()".into(),
        m::PtrType::VTablePtr(_) => "{vtable}".into(),
    }
}
fn bb(b: l::BbName) -> String { format!("bb{}", id(&b.0)) }
fn func(f: l::FnName) -> String { format!("f{}", id(&f.0)) }
fn local(x: l::LocalName) -> String { format!("_{}", id(&x.0)) }
fn reloc(r: l::Relocation) -> (String, bool) {
    let g = format!("global({})", id(&r.name.0));
    if r.offset.bytes() == sp::Int::ZERO { at(g) } else { non(format!("{g} + {}", r.offset.bytes())) }
}
fn sorted<K: Copy + minirust_rs::libspecr::hidden::Obj, X: minirust_rs::libspecr::hidden::Obj>(mp: sp::Map<K, X>, key: impl Fn(&K) -> u32) -> Vec<(K, X)> {
    let mut v: Vec<(K, X)> = mp.iter().collect();
    v.sort_by_key(|x| key(&x.0));
    v
}

impl F {
    fn c(&mut self, k: &str) { *self.n.entry(format!("pp.{k}")).or_default() += 1 }
    fn ty(&mut self, t: Type) -> String {
        match t {
            Type::Int(i) => ity(i),
            Type::Bool => "bool".into(),
            Type::Ptr(p) => { self.c(&format!("ty.{}", match p { m::PtrType::Ref { .. } => "ref", m::PtrType::Box { .. } => "box", m::PtrType::Raw { .. } => "raw", m::PtrType::FnPtr => "fn", m::PtrType::VTablePtr(_) => "vtable" })); pty(p) }
            Type::Array { elem, count } => { self.c("ty.array"); let e = self.ty(elem.extract()); format!("[{e}; {count}]") }
            Type::Slice { elem } => { self.c("ty.slice"); let e = self.ty(elem.extract()); format!("[{e}]") }
            Type::TraitObject(n) => { self.c("ty.dyn"); format!("dyn trait{}", id(&n.0)) }
            Type::Tuple { .. } | Type::Union { .. } | Type::Enum { .. } => {
                let k = self.tys.iter().position(|x| *x == t).unwrap_or_else(|| { self.tys.push(t); self.tys.len() - 1 });
                format!("T{k}")
            }
        }
    }
    fn place(&mut self, p: Pl) -> (String, bool) {
        match p {
            Pl::Local(x) => at(local(x)),
            Pl::Deref { operand, ty } => { self.c("deref"); let t = self.ty(ty); let e = self.val(operand.extract()).0; at(format!("deref<{t}>({e})")) }
            Pl::Field { root, field } => { self.c("field"); let r = paren(self.place(root.extract())); at(format!("{r}.{field}")) }
            Pl::Index { root, index } => { self.c("index"); let r = paren(self.place(root.extract())); let i = self.val(index.extract()).0; at(format!("{r}[{i}]")) }
            Pl::Downcast { root, discriminant } => { self.c("downcast"); let r = paren(self.place(root.extract())); non(format!("{r} as variant {discriminant}")) }
        }
    }
    fn val(&mut self, v: V) -> (String, bool) {
        match v {
            V::Constant(c, _) => match c {
                l::Constant::Int(i) => at(i.to_string()),
                l::Constant::Bool(b) => at(b.to_string()),
                l::Constant::GlobalPointer(r) => { self.c("const.global"); reloc(r) }
                l::Constant::FnPointer(f) => at(func(f)),
                l::Constant::VTablePointer(t) => at(format!("vtable{}", id(&t.0))),
                l::Constant::PointerWithoutProvenance(a) => at(if a == sp::Int::ZERO { "nullptr".to_string() } else { format!("invalid_ptr({a})") }),
            },
            V::Tuple(es, t) => {
                self.c("tuple");
                let b = if matches!(t, Type::Array { .. }) { ("[", "]") } else { ("(", ")") };
                let es: Vec<String> = es.iter().map(|e| self.val(e).0).collect();
                at(format!("{}{}{}", b.0, es.join(", "), b.1))
            }
            V::Union { field, expr, union_ty } => { self.c("union"); let t = self.ty(union_ty); let e = self.val(expr.extract()).0; non(format!("{t} {{ field{field}: {e} }}")) }
            V::Variant { discriminant, data, enum_ty } => { self.c("variant"); let t = self.ty(enum_ty); let e = self.val(data.extract()).0; non(format!("{t}(variant {discriminant}): {e}")) }
            V::GetDiscriminant { place } => { self.c("getdiscr"); let p = self.place(place.extract()).0; at(format!("discriminant({p})")) }
            V::Load { source } => { let p = self.place(source.extract()).0; at(format!("load({p})")) }
            V::AddrOf { target, ptr_ty } => {
                let p = self.place(target.extract());
                match ptr_ty {
                    m::PtrType::Raw { .. } => { self.c("addr.raw"); non(format!("&raw {}", paren(p))) }
                    m::PtrType::Ref { mutbl: sp::Mutability::Mutable, .. } => { self.c("addr.mut"); non(format!("&mut {}", paren(p))) }
                    m::PtrType::Ref { .. } => { self.c("addr.ref"); non(format!("&{}", paren(p))) }
                    o => { self.c("addr.other"); at(format!("addr_of<{}>({})", pty(o), p.0)) }
                }
            }
            V::UnOp { operator, operand } => {
                let e = self.val(operand.extract()).0;
                use l::{UnOp as U, IntUnOp as I, CastOp as C};
                self.c(&format!("un.{}", format!("{operator:?}").chars().take_while(|c| c.is_alphanumeric()).collect::<String>()));
                match operator {
                    U::Int(I::Neg) => non(format!("-({e})")),
                    U::Int(I::BitNot) => non(format!("!({e})")),
                    U::Int(I::CountOnes) => non(format!("count_ones({e})")),
                    U::Cast(C::IntToInt(t)) => at(format!("int2int<{}>({e})", ity(t))),
                    // types are numbered in the order in which they are met: operand first
                    U::Cast(C::Transmute(t)) => at(format!("transmute<{}>({e})", self.ty(t))),
                    U::GetThinPointer => at(format!("get_thin_ptr({e})")),
                    U::GetMetadata => at(format!("get_metadata({e})")),
                    U::ComputeSize(t) => at(format!("compute_size<{}>({e})", self.ty(t))),
                    U::ComputeAlign(t) => at(format!("compute_align<{}>({e})", self.ty(t))),
                    U::VTableMethodLookup(k) => non(format!("vtable_lookup<m{}>({e})", id(&k.0))),
                }
            }
            V::BinOp { operator, left, right } => {
                let a = self.val(left.extract());
                let b = self.val(right.extract());
                use l::{BinOp as B, IntBinOp as I};
                self.c(&format!("bin.{}", format!("{operator:?}").chars().filter(|c| c.is_alphanumeric()).take(24).collect::<String>()));
                let inf = |o: &str, a, b| non(format!("{} {o} {}", paren(a), paren(b)));
                let call = |o: &str, a, b| at(format!("{o}({}, {})", paren(a), paren(b)));
                let raw = |o: String, a: (String, bool), b: (String, bool)| at(format!("{o}({}, {})", a.0, b.0));
                match operator {
                    B::Int(o) => match o {
                        I::Add => inf("+", a, b), I::Sub => inf("-", a, b), I::Mul => inf("*", a, b), I::Div => inf("/", a, b), I::Rem => inf("%", a, b),
                        I::Shl => inf("<<", a, b), I::Shr => inf(">>", a, b), I::BitAnd => inf("&", a, b), I::BitOr => inf("|", a, b), I::BitXor => inf("^", a, b),
                        I::AddUnchecked => call("AddUnchecked", a, b), I::SubUnchecked => call("SubUnchecked", a, b), I::MulUnchecked => call("MulUnchecked", a, b),
                        I::DivExact => call("DivExact", a, b), I::ShlUnchecked => call("ShlUnchecked", a, b), I::ShrUnchecked => call("ShrUnchecked", a, b),
                    },
                    B::IntWithOverflow(o) => call(match o { l::IntBinOpWithOverflow::Add => "AddWithOverflow", l::IntBinOpWithOverflow::Sub => "SubWithOverflow", l::IntBinOpWithOverflow::Mul => "MulWithOverflow" }, a, b),
                    B::Rel(o) => inf(match o { l::RelOp::Lt => "<", l::RelOp::Le => "<=", l::RelOp::Gt => ">", l::RelOp::Ge => ">=", l::RelOp::Eq => "==", l::RelOp::Ne => "!=", l::RelOp::Cmp => "<=>" }, a, b),
                    B::PtrOffset { inbounds } => raw(if inbounds { "offset_inbounds".into() } else { "offset_wrapping".into() }, a, b),
                    B::PtrOffsetFrom { inbounds, nonneg } => raw(format!("offset_from_{}{}", if inbounds { "inbounds" } else { "wrapping" }, if nonneg { "_nonneg" } else { "" }), a, b),
                    B::ConstructWidePointer(p) => raw(format!("construct_ptr<{}>", pty(p)), a, b),
                }
            }
        }
    }
    fn stmt(&mut self, s: S) -> String {
        match s {
            S::Assign { destination, source } => { let d = self.place(destination).0; let v = self.val(source).0; format!("{d} = {v};\n") }
            S::PlaceMention(p) => { self.c("mention"); let p = self.place(p).0; format!("_ = {p};\n") }
            S::SetDiscriminant { destination, value } => { self.c("setdiscr"); let p = self.place(destination).0; format!("discriminant({p}) = {value};\n") }
            S::Validate { place, fn_entry } => { self.c("validate"); let p = self.place(place).0; format!("validate({p}, {fn_entry});\n") }
            S::Deinit { place } => { self.c("deinit"); let p = self.place(place).0; format!("deinit({p});\n") }
            S::StorageLive(x) => format!("storage_live({});\n", local(x)),
            S::StorageDead(x) => format!("storage_dead({});\n", local(x)),
        }
    }
    fn call(&mut self, callee: String, conv: l::CallingConvention, args: Vec<String>, ret: Pl, next: Option<l::BbName>, unwind: Option<l::BbName>) -> String {
        let r = self.place(ret).0;
        let mut s = format!("{r} = ");
        if conv == l::CallingConvention::C { s += "extern \"C\" " }
        s += &format!("{callee}({})", args.join(", "));
        match (next, unwind) {
            (Some(a), Some(b)) => s += &format!(" -> [return: {}, unwind: {}]", bb(a), bb(b)),
            (Some(a), None) => s += &format!(" -> return: {}", bb(a)),
            (None, Some(b)) => s += &format!(" -> unwind: {}", bb(b)),
            (None, None) => {}
        }
        s + ";\n"
    }
    fn term(&mut self, t: T) -> String {
        match t {
            T::Goto(b) => format!("goto -> {};\n", bb(b)),
            T::Switch { value, cases, fallback } => {
                self.c("switch");
                let v = self.val(value).0;
                let mut cs: Vec<(sp::Int, l::BbName)> = cases.iter().collect();
                if self.sorted { cs.sort_by(|a, b| a.0.cmp(&b.0)) }
                let mut o: Vec<String> = cs.into_iter().map(|(k, b)| format!("{k}: {}", bb(b))).collect();
                o.push(format!("otherwise: {}", bb(fallback)));
                format!("switch({v}) -> [ {} ];\n", o.join(",\n"))
            }
            T::Unreachable => "unreachable;\n".into(),
            T::Return => "return;\n".into(),
            T::Call { callee, calling_convention, arguments, ret, next_block, unwind_block } => {
                self.c(&format!("call.{}{}", if next_block.is_some() { "n" } else { "-" }, if unwind_block.is_some() { "u" } else { "-" }));
                let c = paren(self.val(callee));
                let args = arguments.iter().map(|a| match a { l::ArgumentExpr::ByValue(v) => format!("by-value({})", self.val(v).0), l::ArgumentExpr::InPlace(p) => { self.c("inplace"); format!("in-place({})", self.place(p).0) } }).collect();
                self.call(c, calling_convention, args, ret, next_block, unwind_block)
            }
            T::StartUnwind { unwind_payload, unwind_block } => { self.c("startunwind"); let p = self.val(unwind_payload).0; format!("start unwind({p}) -> unwind: {} \n", bb(unwind_block)) }
            T::StopUnwind(b) => { self.c("stopunwind"); format!("stop unwind -> {}\n", bb(b)) }
            T::ResumeUnwind => { self.c("resume"); "resume\n".into() }
            T::Intrinsic { intrinsic, arguments, ret, next_block } => {
                use l::IntrinsicOp as I;
                let n = match intrinsic {
                    I::Abort => "abort", I::Assume => "assume", I::Exit => "exit", I::PrintStdout => "print", I::PrintStderr => "eprint", I::Allocate => "allocate", I::Deallocate => "deallocate",
                    I::Spawn => "spawn", I::Join => "join", I::RawEq => "raw_eq", I::AtomicStore => "atomic_store", I::AtomicLoad => "atomic_load", I::AtomicCompareExchange => "atomic_compare_exchange",
                    I::AtomicFetchAndOp(l::IntBinOp::Add) => "atomic_fetch_add", I::AtomicFetchAndOp(l::IntBinOp::Sub) => "atomic_fetch_sub", I::AtomicFetchAndOp(_) => "atomic_fetch_ILL_FORMED",
                    I::Lock(l::IntrinsicLockOp::Acquire) => "lock_acquire", I::Lock(l::IntrinsicLockOp::Create) => "lock_create", I::Lock(l::IntrinsicLockOp::Release) => "lock_release",
                    I::PointerExposeProvenance => "pointer_expose_provenance", I::PointerWithExposedProvenance => "pointer_with_exposed_provenance", I::GetUnwindPayload => "get_unwind_payload",
                };
                self.c(&format!("intr.{n}"));
                let args = arguments.iter().map(|a| self.val(a).0).collect();
                self.call(n.into(), l::CallingConvention::Rust, args, ret, next_block, None)
            }
        }
    }
    fn fields(&mut self, f: impl Iterator<Item = (sp::Offset, Type)>) -> String { f.map(|(o, t)| { let t = self.ty(t); format!("at byte {}: {t},\n", o.bytes()) }).collect() }
    fn program(&mut self, p: l::Program) -> String {
        let mut fns = String::new();
        for (n, f) in sorted(p.functions, |x| id(&x.0)) {
            self.c("fn");
            let args: Vec<String> = f.args.iter().map(local).collect();
            fns += &format!("{}fn {}({}) -> {} {{\n", if p.start == n { "start " } else { "" }, func(n), args.join(", "), local(f.ret));
            for (x, t) in sorted(f.locals, |x| id(&x.0)) { let t = self.ty(t); fns += &format!("let {}: {t};\n", local(x)) }
            for (b, x) in sorted(f.blocks, |x| id(&x.0)) {
                let kind = match x.kind { l::BbKind::Regular => "", l::BbKind::Cleanup => " (Cleanup)", l::BbKind::Catch => " (Catch)", l::BbKind::Terminate => " (Terminate)" };
                self.c(&format!("bb{kind}"));
                fns += &format!("{}{}{kind}:\n", if f.start == b { "start " } else { "" }, bb(b));
                for s in x.statements.iter() { fns += &self.stmt(s) }
                fns += &self.term(x.terminator);
            }
            fns += "}\n";
        }
        let mut tys = String::new();
        let mut i = 0;
        while i < self.tys.len() {
            let t = self.tys[i];
            let kw = match t { Type::Tuple { .. } => "tuple", Type::Union { .. } => "union", _ => "enum" };
            self.c(&format!("def.{kw}"));
            tys += &format!("{kw} T{i} ({}) {{\n", lay(t.layout::<minirust_rs::prelude::x86_64>()));
            match t {
                Type::Tuple { sized_fields, unsized_field, .. } => {
                    tys += &self.fields(sized_fields.iter());
                    if let Some(u) = unsized_field.extract() { self.c("def.tail"); let u = self.ty(u); tys += &format!("tail: {u},\n") }
                }
                Type::Union { fields, chunks, .. } => {
                    tys += &self.fields(fields.iter());
                    for (a, b) in chunks.iter() { tys += &format!("chunk(at={}, size={}),\n", a.bytes(), b.bytes()) }
                }
                Type::Enum { variants, discriminant_ty, .. } => {
                    tys += &format!("Discriminant: {}\n", ity(discriminant_ty));
                    let mut vs: Vec<(sp::Int, l::Variant)> = variants.iter().collect();
                    if self.sorted { vs.sort_by(|a, b| a.0.cmp(&b.0)) }
                    for (d, v) in vs { let t = self.ty(v.ty); tys += &format!("Variant {d}: {t}\n") }
                }
                _ => unreachable!(),
            }
            tys += "}\n";
            i += 1;
        }
        let mut traits = String::new();
        for (n, ms) in sorted(p.traits, |x| id(&x.0)) {
            self.c("trait");
            let mut v: Vec<String> = ms.iter().map(|x: l::TraitMethodName| format!("m{}", id(&x.0))).collect();
            v.sort();
            traits += &format!("trait{} {{ {} }}\n", id(&n.0), v.join(", "));
        }
        let mut vts = String::new();
        for (n, v) in sorted(p.vtables, |x| id(&x.0)) {
            self.c("vtable");
            vts += &format!("vtable{} {{\ntrait = trait{},\nsize = {},\nalign = {},\n", id(&n.0), id(&v.trait_name.0), v.size.bytes(), v.align.bytes());
            let mut ms: Vec<(l::TraitMethodName, l::FnName)> = v.methods.iter().collect();
            if self.sorted { ms.sort_by_key(|x| id(&x.0.0)) }
            for (k, f) in ms { vts += &format!("m{}() = {},\n", id(&k.0), func(f)) }
            vts += "}\n";
        }
        let mut gs = String::new();
        for (n, g) in sorted(p.globals, |x| id(&x.0)) {
            self.c("global");
            let b: Vec<String> = g.bytes.iter().map(|b| match b { Some(b) => format!("{b:02x}"), None => "__".into() }).collect();
            gs += &format!("global({}) {{\nbytes = [{}],\nalign = {} bytes,\n", id(&n.0), b.join(" "), g.align.bytes());
            for (i, r) in g.relocations.iter() { self.c("relocation"); gs += &format!("at byte {}: {},\n", i.bytes(), reloc(r).0) }
            gs += "}\n";
        }
        tys + &traits + &vts + &fns + &gs
    }
}
/// the text for a program; maps of the program come in the order in which they iterate, or sorted
pub fn expected(p: l::Program, sorted: bool) -> (String, BTreeMap<String, u64>) {
    let mut f = F { sorted, tys: vec![], n: BTreeMap::new() };
    let s = f.program(p);
    (s, f.n)
}
/// the same text up to the names of things, and up to order
pub fn same_tokens(real: &str, want: &str) -> Option<String> {
    let count = |s: &str| {
        let mut m: BTreeMap<String, i64> = BTreeMap::new();
        let mut w = String::new();
        let mut last = String::new();
        for c in s.chars().chain([' ']) {
            if c.is_alphanumeric() || c == '_' { w.push(c); continue }
            if !w.is_empty() {
                let named = w.trim_end_matches(|c: char| c.is_ascii_digit());
                let t = if (named == "f" || named == "T" || named == "trait" || named == "vtable" || named == "m") && named != w { format!("{named}#") } else if last == "global" { "#".into() } else { w.clone() };
                *m.entry(t).or_default() += 1;
                last = std::mem::take(&mut w);
            } else if c != '(' && !c.is_whitespace() { last.clear() }
            if !c.is_whitespace() { *m.entry(c.to_string()).or_default() += 1 }
        }
        m
    };
    let (a, b) = (count(real), count(want));
    let d: Vec<String> = a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).take(4).map(|k| format!("{k:?} {} times instead of {}", a.get(k).unwrap_or(&0), b.get(k).unwrap_or(&0))).collect();
    if d.is_empty() { None } else { Some(format!("the printed program contains {}", d.join(", "))) }
}
/// The first difference apart from white space
pub fn compare(real: &str, want: &str) -> Option<String> {
    let strip = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<Vec<char>>();
    let (a, b) = (strip(real), strip(want));
    if a == b { return None }
    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let show = |v: &[char]| v[k.saturating_sub(40)..v.len().min(k + 40)].iter().collect::<String>();
    Some(format!("the printed program has {:?} where {:?} is expected", show(&a), show(&b)))
}
