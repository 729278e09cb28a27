//! C25: the slab as it is compiled for a GPU.
#[path = "../../derive/src/gen.rs"]
mod gen;
#[path = "../../derive/src/programs.rs"]
#[allow(dead_code)]
mod programs;
#[path = "../../slab/src/handles.rs"]
#[allow(dead_code)]
mod handles;
#[path = "../../slab/src/single.rs"]
#[allow(dead_code)]
mod single;
#[path = "../../slab/src/ty.rs"]
#[allow(dead_code)]
mod ty;

fn main() {
    engine::hangs_after(45);
    let mut check = single::gpu_check();
    check.families.extend(handles::families(4));
    check.families.push(programs::definitions_family("definitions", 120, 3_000));
    check.families.push(programs::offsets_family("offsets", 60, 1_500));
    programs::tidy();
    engine::main(vec![check])
}
