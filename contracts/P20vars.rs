//@lits
//@include prelude/std.rs
//@include prelude/str.rs
//@include prelude/map.rs
//@include prelude/opt.rs
//@include prelude/conf.rs
//@include prelude/srv_vars.rs
fn main() {}
