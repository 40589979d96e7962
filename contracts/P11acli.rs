//@lits
//@include prelude/std.rs
//@include prelude/str.rs
//@include prelude/map.rs
//@include prelude/opt.rs
verus! {
pub open spec fn P04() -> bool { false }
pub open spec fn P10() -> bool { false }
pub open spec fn P11() -> bool { true }
pub open spec fn P12() -> bool { false }
pub open spec fn P13() -> bool { false }
pub open spec fn P17() -> bool { false }
pub open spec fn P19() -> bool { false }
pub open spec fn P20() -> bool { false }
}
//@include prelude/conf.rs
//@include prelude/cli_attach.rs
fn main() {}
