mod growable;
mod handles;
mod single;
mod ty;

fn main() {
    engine::hangs_after(45);
    let mut checks = single::checks();
    checks.push(growable::check());
    checks.push(handles::check());
    engine::main(checks)
}
