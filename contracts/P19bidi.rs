//@include prelude/std.rs
macro_rules! whole_ms { ($n:expr) => { Duration { ns: $n as u128 * 1_000_000 } } }
verus! {
pub open spec fn P10() -> bool { false }
pub open spec fn P13() -> bool { false }
pub open spec fn P20() -> bool { false }
pub open spec fn P19() -> bool { true }
}
//@include prelude/bidi.rs
fn main() {}
