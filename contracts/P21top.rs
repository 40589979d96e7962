//@include prelude/std.rs
//@include prelude/top.rs
fn main() {}
