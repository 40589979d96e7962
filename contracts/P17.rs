//@lits
//@include prelude/std.rs
//@include prelude/str.rs
//@include prelude/map.rs
//@include prelude/opt.rs
verus! {
pub open spec fn P11() -> bool { false }
pub open spec fn P13() -> bool { false }
pub open spec fn P17() -> bool { true }
}
//@include prelude/shenv.rs
//@include prelude/spawn.rs
fn main() {}
