//! Which workloads decide which property, and what counts as an observation of it.
pub struct Prop {
    pub id: &'static str,
    /// (profile, share of the time)
    pub profiles: &'static [(&'static str, u32)],
    /// prefixes of counters which make a run count as an observation of this property
    pub relevant: &'static [&'static str],
    pub rule: &'static str,
}
macro_rules! p { ($id:expr, [$($n:expr => $w:expr),*], [$($r:expr),*], $rule:expr) => { Prop { id: $id, profiles: &[$(($n, $w)),*], relevant: &[$($r),*], rule: $rule } } }
pub const PROPS: &[Prop] = &[
    p!("A01", ["arith" => 106, "arith@be32" => 26, "arith@le16" => 26, "values" => 26, "general" => 13, "e2e:ints" => 200, "e2e:grid" => 266, "e2e:ubgrid" => 133, "e2e:intrin" => 66, "e2e:mir" => 133], ["op.binop", "op.unop", "op.relop", "op.int2int", "e2e."], "a run in which integer operators, comparisons or casts were evaluated"),
    p!("V01", ["values" => 100, "values@be32" => 25, "values@le16" => 12, "wide" => 50, "wide@be32" => 12, "e2e:values" => 133, "e2e:unions" => 133, "e2e:enums" => 66, "e2e:tags" => 66, "e2e:mem" => 133, "e2e:pads" => 133, "e2e:unipads" => 133], ["op.load", "op.validate", "op.transmute", "op.computesize", "e2e."], "a run in which values were decoded from or encoded to memory, or sizes computed"),
    p!("V02", ["enums" => 145, "enums@be32" => 36, "general" => 18, "e2e:enums" => 133, "e2e:niches" => 200, "e2e:tags" => 333, "e2e:mir" => 133], ["op.variant", "op.getdiscr", "op.setdiscr", "op.union", "e2e."], "a run in which enum values, discriminants or unions were used"),
    p!("P01", ["pointers" => 125, "pointers@be32" => 25, "pointers@le16" => 12, "globals" => 12, "values" => 12, "wide" => 12, "e2e:ptrs" => 200, "e2e:offs" => 266, "e2e:panics" => 133, "e2e:mem" => 66, "e2e:ub" => 66, "e2e:mir" => 66], ["op.field", "op.index", "op.deref", "op.ptroffset", "op.ptrdiff", "e2e."], "a run in which places were projected, dereferenced, or pointers offset or subtracted"),
    p!("P03", ["wide" => 145, "wide+tree" => 36, "wide@be32" => 18, "e2e:calls" => 400, "e2e:ptrs" => 200, "e2e:drops" => 200], ["op.wideptr", "op.getmeta", "op.vtlookup", "op.computesize", "e2e."], "a run in which wide pointers, slices or vtables were used"),
    p!("B01", ["heap" => 114, "heap@le16" => 28, "heap@be32" => 14, "heap+tree" => 28, "general" => 14, "e2e:ends" => 228, "e2e:intrin" => 114, "e2e:ub" => 114, "e2e:mem" => 228, "e2e:offs" => 114], ["op.allocate", "op.deallocate", "end.leak", "e2e."], "a run in which heap memory was allocated or freed, with probes of address candidates"),
    p!("B02", ["heap" => 53, "pointers" => 66, "pointers+basic" => 26, "values" => 26, "pointers@be32" => 13, "general" => 13, "e2e:mem" => 363, "e2e:ub" => 145, "e2e:ptrs" => 72, "e2e:unions" => 72, "e2e:values" => 72, "e2e:offs" => 72], ["op.deref", "mem.store", "e2e."], "a run in which memory was accessed through pointers, and final contents of memory compared"),
    p!("G01", ["globals" => 145, "globals@be32" => 36, "globals+tree" => 18, "e2e:consts" => 400, "e2e:pads" => 200, "e2e:cells" => 100, "e2e:ub" => 100], ["op.global", "e2e."], "a run in which globals, constants or statics were used"),
    p!("T01", ["tree+tree" => 125, "calls+tree" => 37, "pointers+tree" => 25, "general+tree" => 12, "e2e:alias" => 177, "e2e:borrows" => 444, "e2e:cells" => 88, "e2e:ub" => 88], ["tb.", "e2e."], "a run in which borrow tree nodes changed or kept their state"),
    p!("T03", ["tree+tree" => 133, "wide+tree" => 44, "enums+tree" => 22, "e2e:alias" => 200, "e2e:borrows" => 400, "e2e:cells" => 200], ["op.retag", "mem.retag", "e2e."], "a run in which references were retagged"),
    p!("C01", ["races" => 145, "conc" => 36, "sync" => 18, "e2e:threads" => 400, "e2e:ub" => 400], ["races_checked", "e2e."], "a run in which accesses of different threads were compared"),
    p!("C02", ["conc" => 76, "locks" => 30, "spawns" => 76, "sync" => 15, "e2e:threads" => 640, "e2e:ends" => 160], ["op.spawn", "op.join", "e2e."], "a run with several threads, with the enabled set probed at each step"),
    p!("C03", ["locks" => 145, "conc" => 36, "sync" => 18, "e2e:threads" => 640, "e2e:ends" => 160], ["op.acquire", "op.release", "e2e."], "a run in which locks were acquired"),
    p!("C05", ["atomics" => 145, "sync" => 36, "conc" => 18, "e2e:intrin" => 266, "e2e:threads" => 533], ["op.atomic", "e2e."], "a run in which atomic operations were executed"),
    p!("F01", ["calls" => 123, "calls@be32" => 15, "calls+tree" => 15, "control" => 30, "general" => 15, "e2e:calls" => 300, "e2e:unwind" => 100, "e2e:panics" => 100, "e2e:mir" => 300], ["op.call", "op.return", "op.storagedead", "e2e."], "a run in which functions were called or returned, or storage ended"),
    p!("F03", ["unwind" => 160, "unwind+tree" => 40, "e2e:unwind" => 300, "e2e:panics" => 200, "e2e:mir" => 100, "e2e:drops" => 200], ["op.startunwind", "op.resumeunwind", "op.stopunwind", "e2e."], "a run in which a stack was unwound"),
    p!("S01", ["control" => 145, "control@be32" => 18, "general" => 36, "e2e:flow" => 177, "e2e:match" => 266, "e2e:tags" => 88, "e2e:mir" => 266], ["op.switch", "op.goto", "op.storagelive", "op.validate", "e2e."], "a run in which control flow statements were executed"),
    p!("I01", ["control" => 62, "control@be32" => 12, "arith" => 25, "conc" => 12, "expose" => 62, "expose+tree" => 25, "e2e:ends" => 200, "e2e:intrin" => 200, "e2e:asserts" => 200, "e2e:offs" => 100, "e2e:ubgrid" => 100], ["op.print", "op.exit", "op.abort", "op.assume", "op.raweq", "op.expose", "op.fromexposed", "e2e."], "a run in which intrinsics with observable effect were executed, or provenance exposed or recovered"),
    p!("M02", ["mut" => 400, "e2e:values" => 80, "e2e:enums" => 40, "e2e:calls" => 40, "e2e:unwind" => 40, "e2e:consts" => 40, "e2e:niches" => 40, "e2e:ints" => 40, "e2e:ptrs" => 40, "e2e:threads" => 40, "e2e:mir" => 80, "e2e:drops" => 40, "e2e:flow" => 40, "e2e:match" => 40], ["wf.", "e2e."], "a structurally mutated or translated program whose acceptance was compared, and which was executed if accepted"),
    p!("R01", ["e2e:values" => 30, "e2e:ints" => 20, "e2e:grid" => 20, "e2e:flow" => 20, "e2e:match" => 30, "e2e:ptrs" => 20, "e2e:calls" => 10, "e2e:enums" => 10, "e2e:consts" => 10, "e2e:mir" => 10, "e2e:iters" => 10], ["e2e."], "a Rust program whose native and translated execution were compared"),
    p!("R02", ["e2e:ub" => 40, "e2e:ubgrid" => 30, "e2e:offs" => 20, "e2e:mem" => 20, "e2e:tags" => 10, "e2e:pads" => 10, "e2e:cells" => 10, "e2e:alias" => 10, "e2e:ends" => 10, "e2e:threads" => 10, "e2e:mir" => 30], ["e2e."], "a Rust program with undefined behaviour, a deadlock or a leak, or one close to that, whose ending was compared"),
    p!("R03", ["e2e:enums" => 20, "e2e:niches" => 30, "e2e:unions" => 20, "e2e:unipads" => 30, "e2e:values" => 20, "e2e:tags" => 20, "e2e:pads" => 20, "e2e:asserts" => 10], ["e2e."], "a Rust program inspecting layouts and encodings"),
    p!("R04", ["e2e:unwind" => 40, "e2e:panics" => 50, "e2e:ends" => 20, "e2e:asserts" => 10, "e2e:flow" => 10, "e2e:mir" => 20, "e2e:drops" => 30], ["e2e."], "a Rust program with drops, guards and panics"),
    p!("R05", ["e2e:threads" => 40, "e2e:intrin" => 20, "e2e:ends" => 10], ["e2e."], "a Rust program using threads, locks, atomics or other intrinsics"),
    p!("R06", ["e2e:consts" => 40, "e2e:pads" => 20, "e2e:values" => 10, "e2e:ptrs" => 10], ["e2e."], "a Rust program using constants, statics or promoteds"),
    p!("R07", ["e2e:alias" => 20, "e2e:borrows" => 50, "e2e:cells" => 30, "e2e:ub" => 10], ["e2e."], "a Rust program exercising borrows under Tree Borrows, or one close to that"),
    p!("R08", ["e2e:calls" => 40, "e2e:unwind" => 10, "e2e:consts" => 10, "e2e:mir" => 20, "e2e:drops" => 10, "e2e:iters" => 10], ["e2e."], "a Rust program with calls of many kinds"),
    p!("J01", ["tool:json" => 30, "tool:minirun" => 30], ["json.", "cli."], "a program whose dump was loaded, cut and extended, or run by the tools"),
    p!("J02", ["tool:pretty" => 40, "tool:minimize" => 20], ["pp."], "a program whose printed form was compared"),
    p!("J03", ["tool:run" => 20, "tool:minirun" => 40, "tool:minimize" => 60], ["cli."], "a program run by the tools or the library, or a misuse of them"),
    p!("J04", ["tool:builder" => 40], ["build."], "helpers applied to random operands and programs built by random calls"),
    p!("ALL", ["tool:json" => 38, "tool:minirun" => 38, "tool:pretty" => 38, "tool:minimize" => 57, "tool:run" => 38, "tool:builder" => 38, "e2e:values" => 37, "e2e:iters" => 18, "e2e:enums" => 18, "e2e:niches" => 18, "e2e:unions" => 18, "e2e:ints" => 18, "e2e:flow" => 37, "e2e:calls" => 37, "e2e:ptrs" => 18, "e2e:consts" => 37, "e2e:unwind" => 37, "e2e:threads" => 37, "e2e:ends" => 37, "e2e:ub" => 37, "e2e:alias" => 18, "e2e:intrin" => 37, "e2e:grid" => 18, "e2e:ubgrid" => 18, "e2e:panics" => 18, "e2e:match" => 18, "e2e:tags" => 18, "e2e:offs" => 18, "e2e:mem" => 18, "e2e:pads" => 18, "e2e:cells" => 18, "e2e:asserts" => 18, "e2e:borrows" => 18, "e2e:unipads" => 18, "e2e:mir" => 37, "e2e:drops" => 18], ["e2e."], ""),
];
