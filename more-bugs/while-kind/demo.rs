use miniutil::build::*;
use miniutil::*;
fn main() {
    let mut p = ProgramBuilder::new();
    let mut f = p.declare_function();
    let x = f.declare_local::<u8>();
    f.storage_live(x);
    let c = f.cleanup_block(|f| {
        f.assign(x, const_int(0u8));
        f.while_(lt(load(x), const_int(3u8)), |f| f.assign(x, add(load(x), const_int(1u8))));
        f.resume_unwind();
    });
    f.start_unwind(unit_ptr(), c);
    let f = p.finish_function(f);
    let prog = p.finish_program(f);
    for (_, f) in prog.functions {
        for (n, b) in f.blocks {
            if n != f.start && b.kind != BbKind::Cleanup { eprintln!("{n:?} is no cleanup block"); std::process::exit(1) }
        }
    }
}
