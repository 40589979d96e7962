//@lits
//@include prelude/std.rs
//@include prelude/str.rs
//@include prelude/map.rs
//@include prelude/opt.rs
verus! {
pub open spec fn P11() -> bool { true }
pub open spec fn P17() -> bool { false }
}
//@include prelude/shenv.rs
//@include prelude/files.rs
fn main() {}
