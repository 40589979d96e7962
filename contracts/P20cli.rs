//@include prelude/std.rs
//@include prelude/cli_var.rs
fn main() {}
