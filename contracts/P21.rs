//@include prelude/std.rs
//@include prelude/launch.rs
fn main() {}
