//@include prelude/std.rs
// `shpool events`: what the daemon tells is what is printed.
macro_rules! format { ($($t:tt)*) => { crate::evcli::mk_text() } }
verus! {
pub mod evcli {
use vstd::prelude::*;
use super::*;
#[verifier::external_body]
pub fn mk_text() -> (r: String) { unimplemented!() }
pub mod io {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    #[verifier::external_body]
    pub struct Stdout { _p: () }
    impl Stdout { #[verifier::external_body] pub fn lock(self) -> (r: Out) ensures r.out().len() == 0, r.seen() { unimplemented!() } }
    #[verifier::external_body]
    pub fn stdout() -> (r: Stdout) { unimplemented!() }
}
/// what was printed, and whether all of it has left
#[verifier::external_body]
pub struct Out { _p: () }
impl Out {
    pub uninterp spec fn out(&self) -> Seq<u8>;
    pub uninterp spec fn seen(&self) -> bool;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures r is Ok ==> final(self).out() == old(self).out() + b@, r is Err ==> broken() { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>)
        ensures r is Ok ==> final(self).out() == old(self).out() && final(self).seen(), r is Err ==> broken() { unimplemented!() }
}
/// reading or writing has failed
pub uninterp spec fn broken() -> bool;
/// nobody is listening there
pub uninterp spec fn deaf(p: int) -> bool;
#[verifier::external_body]
pub struct Path { _p: () }
impl Path { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub struct UnixStream { _p: () }
impl UnixStream {
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn connect(p: &Path) -> (r: io::Result<UnixStream>) ensures r is Ok ==> r->Ok_0.at() == p.id(), r is Err ==> deaf(p.id()) { unimplemented!() }
}
#[verifier::external_body]
pub struct BufReader { _p: () }
/// the lines that come from there until it closes
pub uninterp spec fn told(p: int) -> Seq<Seq<u8>>;
pub open spec fn enc(s: String) -> Seq<u8> { enc_of(s@) }
pub uninterp spec fn enc_of(s: Seq<char>) -> Seq<u8>;
#[verifier::external_body]
pub fn bytes(s: &String) -> (r: &[u8]) ensures r@ == enc(*s) { unimplemented!() }
impl BufReader {
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body]
    pub fn new(s: UnixStream) -> (r: BufReader) ensures r.at() == s.at() { unimplemented!() }
    /// each without its newline; the last may be an error
    #[verifier::external_body]
    pub fn lines(self) -> (r: Vec<io::Result<String>>)
        ensures
            r@.len() == told(self.at()).len() || (r@.len() > 0 && r@.last() is Err),
            forall|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]) is Ok ==> i < told(self.at()).len() && enc(r@[i]->Ok_0) == told(self.at())[i],
            forall|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]) is Err ==> broken(),
    { unimplemented!() }
}
/// each line, with a newline
pub open spec fn page(t: Seq<Seq<u8>>) -> Seq<u8> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { page(t.drop_last()) + t.last().push(10u8) }
}
pub proof fn page_next(t: Seq<Seq<u8>>, n: int)
    requires 0 <= n < t.len()
    ensures page(t.take(n + 1)) == page(t.take(n)) + t[n].push(10u8)
{
    assert(t.take(n + 1).drop_last() =~= t.take(n));
    assert(t.take(n + 1).last() == t[n]);
}
//@fn libshpool/src/events.rs :: - :: run
//@ret r
//@sub `line.as_bytes()` => `bytes(&line)`
//@sub `b"\n"` => `&[10u8]`
//@bind OUT `let mut ? = io :: stdout`
//@spec
    ensures
        // it ends without complaint only when there is nothing more to tell and all of it was printed
        r is Err ==> broken() || deaf($1.id()),
//@loop 0 iter=it
        invariant
            0 <= it.index() <= it.seq().len(),
            // before it looks for more, everything so far is out
            $OUT.seen(),
            it.index() <= told($1.id()).len(),
            forall|i: int| 0 <= i < it.index() ==> (#[trigger] it.seq()[i]) is Ok,
            $OUT.out() == page(told($1.id()).take(it.index() as int)),
            it.seq().len() == told($1.id()).len() || (it.seq().len() > 0 && it.seq().last() is Err),
            forall|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]) is Ok ==> i < told($1.id()).len() && enc(it.seq()[i]->Ok_0) == told($1.id())[i],
            forall|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]) is Err ==> broken(),
//@at loopend 0
            proof { page_next(told($1.id()), it.index() as int); assert($OUT.out() =~= page(told($1.id()).take(it.index() as int)) + told($1.id())[it.index() as int].push(10u8)); }
//@at tail
        assert($OUT.out() == page(told($1.id()))) by { assert(told($1.id()).take(told($1.id()).len() as int) =~= told($1.id())); }
//@endfn
}
}
fn main() {}
