//@include prelude/std.rs
//@include prelude/conn.rs
fn main() {}
