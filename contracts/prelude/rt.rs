verus! {

/// std::sync::atomic: another thread may store at any time, so a load yields anything
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
#[verifier::external_body]
pub struct AtomicBool { _p: () }
impl AtomicBool {
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, o: Ordering) { unimplemented!() }
}

} // verus!
