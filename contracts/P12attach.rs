//@include prelude/std.rs
verus! {
pub open spec fn P10() -> bool { false }
pub open spec fn P11() -> bool { false }
pub open spec fn P12() -> bool { false }
pub open spec fn P14() -> bool { false }
pub open spec fn P15() -> bool { false }
pub open spec fn P16() -> bool { false }
pub open spec fn SCHED() -> bool { true }
pub open spec fn P20() -> bool { false }
pub open spec fn P23() -> bool { false }
}
//@include prelude/srv.rs
//@include prelude/srv_attach.rs
fn main() {}
