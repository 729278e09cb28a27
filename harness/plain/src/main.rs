//! C28: the crates without their default features.
#[path = "../../slab/src/growable.rs"]
#[allow(dead_code)]
mod growable;
#[path = "../../slab/src/handles.rs"]
#[allow(dead_code)]
mod handles;
#[path = "../../slab/src/single.rs"]
#[allow(dead_code)]
mod single;
#[path = "../../slab/src/ty.rs"]
#[allow(dead_code)]
mod ty;

fn main() {
    engine::hangs_after(45);
    let mut check = single::plain_check();
    check.families.extend(handles::families(8));
    check.families.push(growable::family(8));
    check.families.extend(alloc_plain::plain_families());
    engine::main(vec![check])
}
