//@include prelude/std.rs
//@include prelude/io.rs
macro_rules! whole_ms { ($n:expr) => { Duration { ns: $n as u128 * 1_000_000 } } }
verus! {
pub open spec fn P04() -> bool { false }
pub open spec fn P05() -> bool { false }
pub open spec fn P13() -> bool { true }
pub open spec fn P20() -> bool { false }
pub open spec fn P24() -> bool { true }
}
//@include prelude/pipe.rs
fn main() {}
