//@include prelude/std.rs
//@include prelude/bus.rs
fn main() {}
