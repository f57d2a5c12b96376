R=[]
def p(id, spec, e2e, rel, rule, share=80):
    # spec: [(name,w)], e2e likewise
    out=[]
    ts=sum(w for _,w in spec); te=sum(w for _,w in e2e)
    for n,w in spec: out.append((n, w*(100-share)*10//ts if e2e else w*10))
    for n,w in e2e: out.append((n, w*share*10//te if spec else w*10))
    R.append('    p!("%s", [%s], [%s], "%s"),' % (id, ", ".join('"%s" => %d'%x for x in out), ", ".join('"%s"'%x for x in rel), rule))
E=lambda *t: [("e2e:"+x.split("*")[0], int(x.split("*")[1]) if "*" in x else 1) for x in t]
def S(s): return [(x.split("*")[0], int(x.split("*")[1]) if "*" in x else 1) for x in s.split()]
p("A01", S("arith*8 arith@be32*2 arith@le16*2 values*2 general"), E("ints*3","grid*4","ubgrid*2","intrin","mir*2"), ["op.binop","op.unop","op.relop","op.int2int","e2e."], "a run in which integer operators, comparisons or casts were evaluated")
p("V01", S("values*8 values@be32*2 values@le16 wide*4 wide@be32"), E("values*2","unions*2","enums","tags","mem*2","pads*2","unipads*2"), ["op.load","op.validate","op.transmute","op.computesize","e2e."], "a run in which values were decoded from or encoded to memory, or sizes computed")
p("V02", S("enums*8 enums@be32*2 general"), E("enums*2","niches*3","tags*5","mir*2"), ["op.variant","op.getdiscr","op.setdiscr","op.union","e2e."], "a run in which enum values, discriminants or unions were used")
p("P01", S("pointers*10 pointers@be32*2 pointers@le16 globals values wide"), E("ptrs*3","offs*4","panics*2","mem","ub","mir"), ["op.field","op.index","op.deref","op.ptroffset","op.ptrdiff","e2e."], "a run in which places were projected, dereferenced, or pointers offset or subtracted")
p("P03", S("wide*8 wide+tree*2 wide@be32"), E("calls*2","ptrs","drops"), ["op.wideptr","op.getmeta","op.vtlookup","op.computesize","e2e."], "a run in which wide pointers, slices or vtables were used")
p("B01", S("heap*8 heap@le16*2 heap@be32 heap+tree*2 general"), E("ends*2","intrin","ub","mem*2","offs"), ["op.allocate","op.deallocate","end.leak","e2e."], "a run in which heap memory was allocated or freed, with probes of address candidates")
p("B02", S("heap*4 pointers*5 pointers+basic*2 values*2 pointers@be32 general"), E("mem*5","ub*2","ptrs","unions","values","offs"), ["op.deref","mem.store","e2e."], "a run in which memory was accessed through pointers, and final contents of memory compared")
p("G01", S("globals*8 globals@be32*2 globals+tree"), E("consts*4","pads*2","cells","ub"), ["op.global","e2e."], "a run in which globals, constants or statics were used")
p("T01", S("tree+tree*10 calls+tree*3 pointers+tree*2 general+tree"), E("alias*2","borrows*5","cells","ub"), ["tb.","e2e."], "a run in which borrow tree nodes changed or kept their state")
p("T03", S("tree+tree*6 wide+tree*2 enums+tree"), E("alias","borrows*2","cells"), ["op.retag","mem.retag","e2e."], "a run in which references were retagged")
p("C01", S("races*8 conc*2 sync"), E("threads","ub"), ["races_checked","e2e."], "a run in which accesses of different threads were compared")
p("C02", S("conc*5 locks*2 spawns*5 sync"), E("threads*4","ends"), ["op.spawn","op.join","e2e."], "a run with several threads, with the enabled set probed at each step")
p("C03", S("locks*8 conc*2 sync"), E("threads*4","ends"), ["op.acquire","op.release","e2e."], "a run in which locks were acquired")
p("C05", S("atomics*8 sync*2 conc"), E("intrin","threads*2"), ["op.atomic","e2e."], "a run in which atomic operations were executed")
p("F01", S("calls*8 calls@be32 calls+tree control*2 general"), E("calls*3","unwind","panics","mir*3"), ["op.call","op.return","op.storagedead","e2e."], "a run in which functions were called or returned, or storage ended")
p("F03", S("unwind*8 unwind+tree*2"), E("unwind*3","panics*2","mir","drops*2"), ["op.startunwind","op.resumeunwind","op.stopunwind","e2e."], "a run in which a stack was unwound")
p("S01", S("control*8 control@be32 general*2"), E("flow*2","match*3","tags","mir*3"), ["op.switch","op.goto","op.storagelive","op.validate","e2e."], "a run in which control flow statements were executed")
p("I01", S("control*5 control@be32 arith*2 conc expose*5 expose+tree*2"), E("ends*2","intrin*2","asserts*2","offs","ubgrid"), ["op.print","op.exit","op.abort","op.assume","op.raweq","op.expose","op.fromexposed","e2e."], "a run in which intrinsics with observable effect were executed, or provenance exposed or recovered")
p("M02", S("mut"), E("values*2","enums","calls","unwind","consts","niches","ints","ptrs","threads","mir*2","drops","flow","match"), ["wf.","e2e."], "a structurally mutated or translated program whose acceptance was compared, and which was executed if accepted", 60)
p("R01", [], E("values*3","ints*2","grid*2","flow*2","match*3","ptrs*2","calls","enums","consts","mir","iters"), ["e2e."], "a Rust program whose native and translated execution were compared")
p("R02", [], E("ub*4","ubgrid*3","offs*2","mem*2","tags","pads","cells","alias","ends","threads","mir*3"), ["e2e."], "a Rust program with undefined behaviour, a deadlock or a leak, or one close to that, whose ending was compared")
p("R03", [], E("enums*2","niches*3","unions*2","unipads*3","values*2","tags*2","pads*2","asserts"), ["e2e."], "a Rust program inspecting layouts and encodings")
p("R04", [], E("unwind*4","panics*5","ends*2","asserts","flow","mir*2","drops*3"), ["e2e."], "a Rust program with drops, guards and panics")
p("R05", [], E("threads*4","intrin*2","ends"), ["e2e."], "a Rust program using threads, locks, atomics or other intrinsics")
p("R06", [], E("consts*4","pads*2","values","ptrs"), ["e2e."], "a Rust program using constants, statics or promoteds")
p("R07", [], E("alias*2","borrows*5","cells*3","ub"), ["e2e."], "a Rust program exercising borrows under Tree Borrows, or one close to that")
p("R08", [], E("calls*4","unwind","consts","mir*2","drops","iters"), ["e2e."], "a Rust program with calls of many kinds")
p("J01", S("tool:json*3 tool:minirun*3"), [], ["json.","cli."], "a program whose dump was loaded, cut and extended, or run by the tools")
p("J02", S("tool:pretty*4 tool:minimize*2"), [], ["pp."], "a program whose printed form was compared")
p("J03", S("tool:run*2 tool:minirun*4 tool:minimize*6"), [], ["cli."], "a program run by the tools or the library, or a misuse of them")
p("J04", S("tool:builder*4"), [], ["build."], "helpers applied to random operands and programs built by random calls")
# everything there is for the tools, for development (tools/rmut.py)
p("ALL", S("tool:json*2 tool:minirun*2 tool:pretty*2 tool:minimize*3 tool:run*2 tool:builder*2"), E("values*2","iters","enums","niches","unions","ints","flow*2","calls*2","ptrs","consts*2","unwind*2","threads*2","ends*2","ub*2","alias","intrin*2","grid","ubgrid","panics","match","tags","offs","mem","pads","cells","asserts","borrows","unipads","mir*2","drops"), ["e2e."], "", 75)
import re
s=open('/verif/harness/src/props.rs').read()
a=s.index("pub const PROPS"); 
s=s[:a]+"pub const PROPS: &[Prop] = &[\n"+"\n".join(R)+"\n];\n"
s=s.replace("/// (profile, weight)","/// (profile, share of the time)")
open('/verif/harness/src/props.rs','w').write(s)
