MZ = "tooling/minimize/src"; MU = "tooling/miniutil/src"
RS_BB = MZ + "/bb.rs"; RS_RV = MZ + "/rvalue.rs"; RS_TY = MZ + "/ty.rs"; RS_EN = MZ + "/enums.rs"; RS_CH = MZ + "/chunks.rs"; RS_CO = MZ + "/constant.rs"; RS_VT = MZ + "/vtable.rs"; RS_FN = MZ + "/function.rs"; RS_PR = MZ + "/program.rs"; RS_MA = MZ + "/main.rs"; RS_SY = MZ + "/sysroot.rs"
INTR = "tooling/minimize/intrinsics/src/lib.rs"; RUN = MU + "/run.rs"; CLI = MU + "/cli.rs"; MINIRUN = "tooling/minirun/src/main.rs"
NA = []
MON = "each monitored machine run: outcome, output, offered choices per step, final memory"
E2E = "generated Rust programs: behaviour when compiled by rustc against behaviour when translated and run"
MIX_TECH = "runtime monitoring: online trace oracle (independent reference semantics) over generated MiniRust programs with choice probing, and differential monitoring of generated Rust programs against native execution"
MIX_NOTE = "Every monitored execution of the real machine agreed with the reference step by step (outcome, output, choices offered, final memory), and every generated Rust program behaved as when compiled natively or as its construction prescribes. Exploration: trusts the reference in /verif/harness/src/rf, rustc, the transpiler and the instrumented libspecr."
R_TECH = "runtime monitoring: generated Rust programs are compiled by rustc and translated by minimize; a differential oracle compares output, standard error and ending of both executions, the translated program runs on the monitored machine"
R_NOTE = "Every generated Rust program of the covered language subset behaved as when compiled natively, or ended in the undefined behaviour, deadlock or leak it was constructed to have. Exploration: trusts rustc and the generator's construction of defined programs."
TOOLS_TECH = "runtime monitoring: the real tools and library functions run on generated inputs, an independent model predicts their complete observable result"
def sem(id, title, statement, text, why, files, mech, **k):
    k.setdefault("observe", [MON, E2E]); k.setdefault("hook", None); k.setdefault("technique", MIX_TECH); k.setdefault("level_note", MIX_NOTE)
    prop(id, title, statement, k.pop("over", PROG), text, why, files, mech, **k)
def rust(id, title, statement, text, why, files, mech, **k):
    k.setdefault("observe", [E2E]); k.setdefault("hook", None); k.setdefault("technique", R_TECH); k.setdefault("level_note", R_NOTE)
    prop(id, title, statement, k.pop("over", PROG), text, why, files, mech, **k)
def tool(id, title, statement, text, why, files, mech, observe, note, **k):
    k.setdefault("hook", None)
    prop(id, title, statement, k.pop("over", PROG), text, why, files, mech, observe=observe, technique=TOOLS_TECH, level_note=note, **k)

sem("A01", "Integer operators, casts and comparisons are mathematically exact",
    "Every integer operator (wrapping, unchecked, exact, overflow-reporting, shifts, bits), cast and comparison on operands of any size and signedness yields the mathematical result reduced to the result type as documented, in MiniRust programs and in Rust programs translated to MiniRust. It is undefined behaviour, or in Rust code a panic, precisely in the documented cases: division or remainder by zero, overflow of unchecked, exact or checked operations, shift amounts out of range, transmutes to an invalid value.",
    "all operand values, sizes and signedness of integer types and pointers, three targets", "the tests use a handful of operand values, mostly 32-bit; wrong corner cases (minimum by -1, shifts at the width, sign extension, 128 bits) stay unseen",
    [OPS, "spec/prelude/main.md", VA, RE, RS_RV, RS_BB, RS_CO], [("integer operator evaluation", OPS), ("casts and comparisons", OPS), ("translation of operators and casts", RS_RV), ("translation of arithmetic intrinsics", RS_BB)])
sem("V01", "Values have exactly their valid representations and their layout",
    "Storing a value of any type and loading it back yields the same value, and loading or validating bytes that do not represent a value of the type (uninitialized, out-of-range boolean, null or dangling reference, bad metadata, uninhabited) is undefined behaviour, and no other load is. Sizes, alignments, offsets and padding follow the documented layout of the type, unions keep exactly the bytes of their fields, and Rust types keep the layout the compiler gave them.",
    "all types (nested tuples, arrays, structs, unions, pointers, unsized tails) and all byte contents", "unit tests build a few fixed values per type; validity and layout corner cases depend on nested types and on byte-level provenance",
    [RE, VA, EX, TY, OPS, RS_TY, RS_CH], [("decode and encode per type", RE), ("layout computation", TY), ("translation of types", RS_TY), ("bytes kept by unions", RS_CH)])
sem("V02", "Enum discriminants are read and written exactly as laid out",
    "Constructing a variant, setting a discriminant or reading it uses precisely the encoding of the enum's layout (direct tags, niches, single and uninhabited variants): the discriminant read back is the one written, and reading it from bytes that encode no variant is undefined behaviour. For translated Rust enums, matching, casting and transmuting give what the compiled program gives.",
    "all enum layouts (tagged, niche-encoded, signed and multi-byte tags, uninhabited variants) and contents", "tests hold a few hand-written enums; niches in nested types, negative and wrapping tags and uninhabited variants are rare",
    [RE, EX, ST, TY, RS_EN, RS_RV], [("discriminator and tagger", RE), ("set/get discriminant", ST), ("translation of enum layouts", RS_EN)])
sem("P01", "Places and pointer arithmetic stay in bounds or are undefined behaviour",
    "Projecting to a field, element or variant yields the place at exactly the documented offset, and indexing out of bounds, leaving the allocation or dereferencing a dangling pointer is undefined behaviour (or a panic in checked Rust code). Wrapping pointer offsets are modular, inbounds offsets and pointer distances are defined exactly within one live allocation, and zero offsets always.",
    "all place expressions, pointers, offsets and allocation layouts", "depends on address choice, sign and size of offsets and state of the allocation; tests take a few fixed projections",
    [EX, TY, OPS, BA, IF, RS_RV, RS_BB], [("place evaluation", EX), ("inbounds offset check", OPS), ("translation of places", RS_RV), ("translation of pointer intrinsics", RS_BB)])
sem("P03", "Wide pointers, slices and trait objects carry the right metadata",
    "Building, splitting, casting and projecting wide pointers keep address and metadata; lengths and method tables determine size, alignment and bounds, and a method call through a trait object runs exactly the method the value's type has for that trait. Metadata that is no valid table of the trait, or a length out of range, is undefined behaviour where documented.",
    "all pointer kinds, lengths, tables, traits and unsized types", "a few hand-written trait objects exist in tests; table mix-ups, supertraits and oversized lengths are not sampled",
    [OPS, EX, PT, RE, RS_VT, RS_TY, RS_RV], [("metadata checks", PT), ("method lookup", OPS), ("translation of traits and tables", RS_VT), ("unsizing casts", RS_RV)])
sem("B01", "Allocation, deallocation and leak checking obey the allocation contract",
    "Every allocation gets any non-zero, aligned address range disjoint from every live allocation, and nothing else is offered; invalid requests end as documented. Freeing is defined only with a pointer to the start of a live heap allocation of the same size and alignment, and a program that exits while heap memory is allocated ends with a leak report, and without one otherwise.",
    "all histories of allocating, freeing and exiting, all address choices (candidates are probed)", "addresses are drawn at random, so a wrong constraint shows only next to live blocks or at the end of the address space; double frees and leaks are a history property",
    [BA, IN, IF, RS_BB, INTR], [("address constraint", BA), ("deallocation checks", BA), ("leak check at exit", IN), ("translation of allocation intrinsics", RS_BB)], over=("programs", "histories"))
sem("B02", "Memory accesses are checked exactly, and memory holds what was last written",
    "A load or store is defined if and only if it is zero-sized or its pointer has provenance of a live allocation containing the whole range, and its address is aligned as required; everything else, such as use after free or one past the end, is undefined behaviour. Each byte always holds the value, initialization and provenance last stored there, and no operation changes other bytes.",
    "all pointers, access sizes and alignments, all histories of stores, copies and allocations", "tests cover one case per error and observe printed integers; off-by-one, reuse of addresses and neighbouring bytes need particular histories",
    [BA, IF, EX, RE, ST, RS_BB, RS_RV], [("access check", BA), ("store and load of abstract bytes", BA), ("translation of loads and stores", RS_RV)], over=("programs", "histories"))
sem("G01", "Globals start with their declared bytes and relocated pointers",
    "Each global is allocated once with its declared alignment before execution starts and holds its declared bytes, uninitialized gaps, and pointers to the declared targets and offsets; constants and statics of Rust programs keep the value the compiler computed. Function pointers and tables get distinct addresses that no other allocation takes, and globals are not leaks and cannot be freed.",
    "all sets of globals with relocations among them, all constants and statics, all address choices", "tests use one or two globals with no chains of relocations and few kinds of constants",
    [MA, BA, RS_CO, RS_PR], [("machine start", MA), ("translation of constants and statics", RS_CO)])
sem("T01", "Borrows and protectors change exactly as the Tree Borrows rules prescribe",
    "For every read and write, local or foreign, of every byte, each borrow of the accessed allocation moves to the permission given by the Tree Borrows state machine, and the access is undefined behaviour exactly if some borrow forbids it. References and boxes passed to a function are protected until exactly the return of that function, when the documented implicit accesses happen.",
    "all trees of borrows, call nestings and access histories per byte", "tests cover single transitions with two or three borrows; violations need particular sequences of reborrows, calls and accesses",
    [TB + "/tree.md", TB + "/state_machine.md", TB + "/state_machine_unprotected.md", TB + "/state_machine_protected.md", TB + "/memory.md", TE, RS_FN, RS_BB], [("permission transitions", TB + "/state_machine_unprotected.md"), ("protected state machine", TB + "/state_machine_protected.md"), ("tree traversal", TB + "/tree.md"), ("retags in translated functions", RS_BB)], over=("programs", "histories"))
sem("T03", "Reborrowing grants the permissions its pointer type documents",
    "Creating or passing a reference or box creates a child borrow covering the pointee whose initial permission per byte follows from mutability, interior mutability and unpinning of the pointee, while raw pointers and documented exemptions create none. Interior-mutable bytes of a translated Rust type are exactly those inside its cells.",
    "all pointer types, pointee types with mixed interior mutability, sizes and enclosing borrows", "tests use whole integers; partially frozen, unsized and zero-sized pointees are not sampled",
    [TB + "/reborrow_settings.md", TB + "/memory.md", TY, RS_TY], [("reborrow settings", TB + "/reborrow_settings.md"), ("frozen mask", TB + "/reborrow_settings.md"), ("cells of translated types", RS_TY)])
sem("C01", "A data race is reported exactly when conflicting accesses are unsynchronized",
    "If two threads access overlapping non-empty memory, at least one writing and not both atomic, in steps not separated by synchronization between these threads, the execution ends in undefined behaviour. No race is reported for accesses ordered by spawning, joining, lock handover or by running in one thread, nor for two reads or two atomic accesses.",
    "all schedules of all programs", "tests run a few programs under random schedules; whether the conflicting steps become adjacent depends on the schedule",
    [CO, MA, RS_BB, INTR], [("access log and race check", CO), ("synchronized threads", MA), ("translation of atomics and threads", RS_BB)], over=("schedules", "programs"))
sem("C02", "Threads start once, are joined once ended, and deadlock is found exactly",
    "Spawning runs the function exactly once in a new thread with the given argument; joining blocks until that thread has returned and never longer; unknown ids and wrong signatures are undefined behaviour. At every step any enabled thread and no other may be scheduled, if some threads are left but none can run a deadlock is reported, and the exit of the program ends it regardless of other threads.",
    "all schedules (the set of threads offered is probed at every step) and spawn/join orders", "depends on schedules and on the order in which threads end; tests use one or two threads",
    [MA, LO, IN, RS_BB, INTR], [("thread choice", MA), ("spawn and join", IN), ("translation of thread intrinsics", RS_BB)], over=("schedules", "programs"))
sem("C03", "Locks give mutual exclusion and hand over to one waiter",
    "At most one thread holds a lock; an acquirer of a held lock blocks until the holder releases it, upon which exactly one waiting thread, any of them, becomes the holder. Acquiring a lock one already holds blocks forever, and releasing a lock not held by the releasing thread, or using an unknown lock, is undefined behaviour.",
    "all schedules and lock operation sequences", "handover among several waiters and misuse need particular interleavings",
    [LO, RS_BB, INTR], [("lock state", LO), ("translation of lock intrinsics", RS_BB)], over=("schedules", "histories"))
sem("C05", "Atomic operations are indivisible and return the documented values",
    "Atomic loads, stores, compare-exchange and fetch operations read the current value and write the documented new value in one step, visible to all threads; compare-exchange reports the old value and writes only on equality. Non-power-of-two or oversized types, misaligned or read-only memory are undefined behaviour.",
    "all schedules, operand values and sizes", "tests use small values and fixed orders; failed exchanges, narrow types and contention are not sampled",
    [IN, CO, RS_BB, INTR], [("atomic intrinsics", IN), ("translation of atomic intrinsics", RS_BB)], over=("schedules", "inputs"))
sem("F01", "Calls pass arguments, return values and control as their signature says",
    "A call is defined exactly if calling convention, argument count and types of arguments and return value are compatible as documented; arguments arrive unchanged, in order, and an in-place argument or return place is unusable in between. Returning stores the result, frees the callee's storage and continues at the caller's next block; storage statements give fresh memory and free it as documented.",
    "all signatures, argument kinds and types, nestings of calls and storage statements", "compatibility over type pairs, in-place aliasing and dangling pointers across frames are not sampled by tests",
    [TE, TY, ST, MA, RS_FN, RS_BB], [("call and return terminators", TE), ("storage statements", ST), ("translation of functions and calls", RS_FN)], over=("programs", "histories"))
sem("F03", "Unwinding runs exactly the cleanup code of each frame",
    "Starting to unwind transfers control to the current frame's cleanup, resuming continues in the caller's declared unwind block after freeing the frame's storage, and catching yields exactly the payload thrown. Unwinding out of a frame whose caller declared no unwind block, resuming without unwinding, or leaving cleanup incorrectly is undefined behaviour, and aborting ends the program.",
    "all call stacks, nestings of unwinding and catching", "nested unwinding and missing blocks need particular stacks; tests cover single level",
    [TE, IN, WF, RS_FN, RS_BB], [("unwinding terminators", TE), ("translation of cleanup blocks and panics", RS_BB)], over=("programs", "histories"))
sem("S01", "Statements and jumps execute exactly in program order",
    "Each step executes exactly one statement or terminator of the current block; a switch goes to the case equal to its value or else to the fallback, and unreachable code is undefined behaviour when reached. Loops, matches, branches and short-circuiting of translated Rust programs take exactly the paths of the compiled program.",
    "all control flow graphs and values", "tests fix small graphs and few switch values",
    [ST, TE, MA, RS_FN, RS_BB], [("step function", MA), ("switch", TE), ("translation of terminators", RS_BB)])
sem("I01", "Output, exit, abort, assume, raw equality and exposing act as documented",
    "Printing writes each argument and a newline to the chosen stream in execution order, nothing else is written, and output before the end of a program is never lost; exit, abort, assume and raw equality have exactly the documented outcome. A pointer made from an address may take the provenance of any pointer exposed before, or none, and no other.",
    "all argument values and program histories, all choices of provenance (candidates are probed)", "order and completeness of output relative to the ending, raw equality on padding or pointers, and the set of provenance candidates are not sampled",
    [IN, MA, PC, RS_BB, INTR], [("intrinsics", IN), ("exposed provenance", PC), ("translation of intrinsics", RS_BB)])
sem("M02", "Exactly the well-formed programs are accepted, and accepted ones never crash",
    "A machine starts exactly on programs that satisfy the documented well-formedness rules, whatever their shape, and rejects every other one as ill-formed instead of panicking, looping or starting it; programs translated from Rust are always well-formed. An accepted program never makes the interpreter panic: every step ends in a next state or in one of the documented outcomes.",
    "all programs, including structurally broken ones (mutants of well-formed programs) and translations of Rust programs", "the tests hold one program per rule; which rules are missing or too strict, and which Rust types break them, shows only on combinations nobody wrote down",
    [WF, MA, TY, RS_TY, RS_PR, RS_FN], [("well-formedness check", WF), ("machine start", MA), ("translation of types", RS_TY)])

rust("R01", "A translated Rust program computes what the compiled program computes",
    "A Rust program without undefined behaviour that is translated to MiniRust and run prints exactly the same output, on the same streams in the same order, and ends in the same way (exit or abort) as the same program compiled by the Rust compiler. This holds for all supported operations: arithmetic, aggregates, matches, loops, closures, generics, references and raw pointers.",
    "all Rust programs of the supported subset, all inputs they contain", "the tests hold small programs each checking one feature with asserts on a few values; wrong translations show for particular types, values and combinations",
    [RS_RV, RS_BB, RS_FN, RS_PR, RS_TY], [("translation of rvalues", RS_RV), ("translation of blocks and calls", RS_BB), ("translation of functions", RS_FN)])
rust("R02", "Translation preserves undefined behaviour, and adds none",
    "A Rust program that has undefined behaviour on execution (bad pointer use, invalid values, broken aliasing, wrong unchecked operations, data races, wrong frees) is reported as such after exactly the output it produces before; deadlocks and leaks are reported as well. Programs without undefined behaviour are never accused of it.",
    "all kinds of undefined behaviour in all places of a program where they can occur", "a lost check (a dropped retag, a wrapping instead of an unchecked operation, a missing validity check) does not change any defined program, and one test per kind does not cover types and positions",
    [RS_BB, RS_RV, RS_TY, RS_FN, RS_EN], [("translation of statements, retags and intrinsics", RS_BB), ("unchecked operations", RS_RV), ("validity of translated types", RS_TY)])
rust("R03", "Translated types keep the compiler's layout, validity and encoding",
    "Size, alignment, field offsets, niches, discriminant encodings and valid values of every translated type are those the Rust compiler uses: size and offset queries, transmutes to and from byte arrays and integers, and reads through unions give the same results. Values that are invalid in Rust are undefined behaviour when produced.",
    "all types: structs and tuples of any representation, enums with any niche or tag, unions, arrays, options of references, non-zero and range-restricted integers", "layouts are chosen by the compiler; tests hold few types, and corner cases (niches inside fields, negative tags, uninhabited variants, zero-sized fields) need odd combinations",
    [RS_TY, RS_EN, RS_CH], [("translation of types", RS_TY), ("enum encodings", RS_EN), ("union chunks", RS_CH)])
rust("R04", "Panics unwind and drop exactly like in the compiled program",
    "When a translated program panics (explicitly, or by a failed check of index, overflow, division or unwrap), it runs exactly the drops and guards the compiled program runs, in the same order, and then ends as an abort; a panic during cleanup aborts. Moves, conditional initialization, partial moves and drop order behave as in the compiled program when nothing panics, too.",
    "all nestings of scopes, calls, drops and panics", "the tests check a few fixed unwinding paths; the path depends on where the panic happens and on what is initialized there",
    [RS_BB, RS_FN, RS_VT], [("drop and unwind terminators", RS_BB), ("cleanup blocks", RS_FN), ("drop glue of trait objects", RS_VT)], over=("programs", "histories"))
rust("R05", "Threads, locks and atomics mean the same natively and when translated",
    "A program using the provided intrinsics for threads, locks, atomics, allocation, output and raw equality behaves in the same way under the translator and compiled natively with the native implementation of these intrinsics. Under every schedule, lock-protected and atomic updates are never lost, joins wait for the thread, and every thread makes progress when it can.",
    "all schedules of programs with several threads", "tests use two threads and few schedules; lost wake-ups and wrong operands show only under contention",
    [INTR, RS_BB], [("native intrinsics", INTR), ("translation of intrinsics", RS_BB)], over=("schedules", "programs"))
rust("R06", "Constants, statics, promoteds and their pointers are translated exactly",
    "Every constant, static and promoted value, of any type and nesting, holds in the translated program exactly the bytes, padding and pointers (with their offsets and targets) the compiler evaluated; statics keep one identity and stay mutable or immutable as declared. Reading them, writing mutable statics and comparing their addresses gives what the compiled program gives.",
    "all constant values and types, statics referring to other statics, promoted references", "tests hold a dozen constants; scalar, pair, indirect and zero-sized representations with relocations at odd offsets are combinations nobody wrote down",
    [RS_CO, RS_PR, RS_RV], [("translation of constants", RS_CO), ("translation of allocations", RS_CO)])
rust("R07", "Aliasing violations of Rust programs are found, and no others reported",
    "Under Tree Borrows, a translated Rust program is undefined behaviour exactly if it uses a reference after a conflicting access as the Tree Borrows rules say: references as arguments are protected, two-phase borrows, interior mutability, raw pointers and reborrows of fields, slices and arrays are treated precisely. Safe programs are never accused.",
    "all patterns of reborrowing, calls and accesses, all pointee types", "every retag and every cell range of every type matters; tests contain some dozen fixed patterns",
    [RS_BB, RS_TY, RS_FN, RS_RV], [("retags", RS_BB), ("pointee information and cells", RS_TY)])
rust("R08", "Calls of any kind reach the right function with the right arguments",
    "Direct calls, method calls, generic instances, closures capturing by reference, mutable reference or move, function pointers and trait-object calls (including supertraits, default methods and unsized arguments) run exactly the function the compiled program runs with exactly its arguments, and return its result. Tuple-spread closure arguments and extern functions are included.",
    "all call kinds, argument types and instantiations", "argument passing differs per calling convention and callee kind; tests contain one or two cases for each",
    [RS_BB, RS_VT, RS_FN, RS_PR, RS_TY], [("call translation", RS_BB), ("vtables", RS_VT), ("function naming", RS_PR)])

tool("J01", "Dumping a program as JSON and loading it gives back the same program",
    "Every program, well-formed or not, that is written as JSON loads as an equal program, however the data arrives, and running the loaded program gives the same behaviour. Input that is not exactly one program (truncated, followed by something, of another shape) is refused and never runs.",
    "all programs with any node in any position and any integer, all ways to cut the input", "the tests check the round trip for the translations of their example programs only; rare nodes, huge integers and malformed input are not sampled",
    [MU + "/json.rs", MINIRUN, CLI, RS_MA], [("dump and load", MU + "/json.rs"), ("loading in the command line tool", MINIRUN)],
    ["dumped text, loaded program, behaviour of the tools on it"], "Every generated program survived the round trip, malformed input was refused, and the tools behaved as predicted on files and standard input. Exploration: trusts the equality of programs as derived.")
tool("J02", "The pretty-printed form shows every part of a program faithfully",
    "Printing any program, well-formed or not, never fails and shows every function, block, statement, terminator, expression, type, global, trait and table with all their operands, in the documented notation, with parentheses where needed, each function, local and block in order of its name. Composite types are listed once each and referred to consistently.",
    "all programs with any node in any position, nested to any depth", "no test looks at the printed text except by calling the printer on example programs",
    [MU + "/pretty/mod.rs", MU + "/pretty/expr.rs", MU + "/pretty/function.rs", MU + "/pretty/ty.rs", MU + "/pretty/global.rs", MU + "/pretty/vtables.rs"], [("expressions", MU + "/pretty/expr.rs"), ("functions, statements and terminators", MU + "/pretty/function.rs"), ("types", MU + "/pretty/ty.rs"), ("globals", MU + "/pretty/global.rs"), ("traits and tables", MU + "/pretty/vtables.rs")],
    ["printed text against an independent printer, up to white space"], "The text agreed with an independent printer for every generated program, up to white space. Exploration: the independent printer encodes the notation as it was found (after repair).")
tool("J03", "The tools report exactly what the machine did, and reject misuse",
    "Running a program from the command line or through the library gives exactly its output on the right streams and reports its ending truthfully: success only for a regular exit, otherwise exit code 101 and the message for abort, undefined behaviour, deadlock, leak or an ill-formed program. The selected memory model is used wherever the option stands among the arguments, dumping never runs the program, and unknown or contradictory arguments, missing files and programs that do not compile are errors.",
    "all program outcomes, argument orders and input channels", "tests run the tools with one or two fixed command lines and check the library on few outcomes",
    [CLI, RUN, MINIRUN, RS_MA, RS_SY, MU + "/mock_write.rs"], [("ending and exit code", CLI), ("running", RUN), ("arguments of minirun", MINIRUN), ("arguments of minimize", RS_MA)],
    ["exit code, standard output and standard error of the real tools; results of the library function"], "Exit code, standard output and standard error of each run equalled the prediction made from an in-process run of the machine or from the compiled program.", over=("programs", "configurations"))
tool("J04", "The builder constructs exactly the program its calls describe",
    "Each helper for types, places, values, statements, terminators and programs returns the documented node with the operands in their documented roles, and type descriptions of Rust types agree with the compiler's layout. Any sequence of builder calls gives a program with exactly the locals, blocks, jumps and cleanup structure the calls describe, and misuse (unfinished functions, wrong operands, duplicate definitions) is refused instead of producing a different program.",
    "all helpers with arbitrary operands, all sequences of structured builder calls", "the helpers are used by tests but each with one or two operand combinations, and only single nesting levels of the structured builder",
    [MU + "/build/mod.rs", MU + "/build/expr.rs", MU + "/build/statement.rs", MU + "/build/terminator.rs", MU + "/build/ty.rs", MU + "/build/ty_conv.rs", MU + "/build/function.rs", MU + "/build/global.rs"], [("structured function builder", MU + "/build/terminator.rs"), ("program and block builder", MU + "/build/mod.rs"), ("expressions", MU + "/build/expr.rs"), ("type conversion", MU + "/build/ty_conv.rs")],
    ["the built nodes and programs against a model following the calls"], "Each built node and program equalled the one a model following the calls predicted, up to the naming of blocks.", over=("inputs", "histories"))
