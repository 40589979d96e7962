// The events bus: who hears of what.
//
// `Bus` is a ghost token for the thread that serves the events socket: which
// events it has taken from the channel, and for how many of these everybody
// has been told. A subscriber's connection knows how many events had been
// dealt with when it was accepted.
macro_rules! format { ($($t:tt)*) => { crate::bus::mk_text() } }
verus! {
pub mod bus {
use std::sync::Arc;
use vstd::prelude::*;
use super::*;
#[verifier::external_body]
pub fn mk_text() -> (r: String) { unimplemented!() }

/// a line of text, shared
#[verifier::external_body]
pub struct Line { _p: () }
impl Line {
    pub uninterp spec fn text(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.text(), r@.len() <= usize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.text().len() { unimplemented!() }
}
#[verifier::external_body]
pub fn dup(l: &Line) -> (r: Line) ensures r == *l { unimplemented!() }
#[verifier::external_body]
pub fn tail(b: &[u8], n: usize) -> (r: &[u8]) requires n <= b@.len() ensures r@ == b@.skip(n as int) { unimplemented!() }
pub open spec fn texts(q: Seq<Line>) -> Seq<Seq<u8>> { q.map_values(|l: Line| l.text()) }
pub open spec fn flat(q: Seq<Seq<u8>>) -> Seq<u8> decreases q.len() {
    if q.len() == 0 { Seq::empty() } else { q[0] + flat(q.drop_first()) }
}
pub proof fn flat_push(q: Seq<Seq<u8>>, x: Seq<u8>)
    ensures flat(q.push(x)) == flat(q) + x
    decreases q.len()
{
    if q.len() == 0 {
        assert(q.push(x).drop_first() =~= q);
        assert(flat(q.push(x)) == x + flat(q));
        assert(flat(q) =~= Seq::<u8>::empty());
        assert(x + flat(q) =~= flat(q) + x);
    } else {
        flat_push(q.drop_first(), x);
        assert(q.push(x).drop_first() =~= q.drop_first().push(x));
        assert(flat(q.push(x)) =~= flat(q) + x);
    }
}

/// std::collections::VecDeque
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VecDeque<T> { _p: Vec<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn q(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: VecDeque<T>) ensures r.q().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: VecDeque<T>) ensures r.q().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.q().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.q().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T) ensures final(self).q() == old(self).q().push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            old(self).q().len() == 0 ==> r is None && final(self).q() == old(self).q(),
            old(self).q().len() > 0 ==> r == Some(old(self).q()[0]) && final(self).q() == old(self).q().drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>)
        ensures self.q().len() == 0 ==> r is None, self.q().len() > 0 ==> r is Some && *r->0 == self.q()[0]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).q().len() == 0 { unimplemented!() }
}

// ---- input and output
pub mod io {
    use vstd::prelude::*;
    pub enum ErrorKind { WouldBlock, Interrupted, WriteZero, NotFound, BrokenPipe, ConnectionReset, ConnectionAborted, Other }
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error {
        pub uninterp spec fn is(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.is() { unimplemented!() }
        #[verifier::external_body]
        pub fn new(k: ErrorKind, m: &str) -> (r: Error) ensures r.is() == k { unimplemented!() }
    }
}
impl PartialEq<io::ErrorKind> for io::ErrorKind { #[verifier::external_body] fn eq(&self, o: &io::ErrorKind) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<io::ErrorKind> for io::ErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &io::ErrorKind) -> bool { *self == *o }
}
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) { unimplemented!() } }
/// nothing reads the other end of it any more
pub uninterp spec fn gone(id: int) -> bool;
/// not a reason to give up: the reader is just slow, or a signal came in between
pub open spec fn passing(k: io::ErrorKind) -> bool { k is WouldBlock || k is Interrupted }
pub trait Write {
    spec fn sent(&self) -> Seq<u8>;
    spec fn fd(&self) -> int;
    fn write(&mut self, b: &[u8]) -> (r: io::Result<usize>)
        ensures
            final(self).fd() == old(self).fd(),
            r is Ok ==> r->Ok_0 <= b@.len() && final(self).sent() == old(self).sent() + b@.take(r->Ok_0 as int),
            r is Ok && r->Ok_0 == 0 && b@.len() > 0 ==> gone(old(self).fd()),
            r is Err ==> final(self).sent() == old(self).sent(),
            r is Err && !passing(r->Err_0.is()) ==> gone(old(self).fd());
}
/// a subscriber's connection
#[verifier::external_body]
pub struct UnixStream { _p: () }
#[verifier::external_body]
pub struct Fd { _p: () }
impl Fd { pub uninterp spec fn fd(&self) -> int; }
impl UnixStream {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn set_nonblocking(&self, w: &mut Bus, b: bool) -> (r: io::Result<()>)
        ensures final(w).v() == (if r is Ok { Bv { quiet: if b { old(w).v().quiet.insert(self.id()) } else { old(w).v().quiet.remove(self.id()) }, ..old(w).v() } } else { old(w).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fd(&self) -> (r: Fd) ensures r.fd() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn pair() -> (r: io::Result<(UnixStream, UnixStream)>) ensures r is Ok ==> ends(r->Ok_0.0.id(), r->Ok_0.1.id()) && ends(r->Ok_0.1.id(), r->Ok_0.0.id()) { unimplemented!() }
}
impl Write for UnixStream {
    open spec fn sent(&self) -> Seq<u8> { self.out() }
    open spec fn fd(&self) -> int { self.id() }
    #[verifier::external_body]
    fn write(&mut self, b: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
/// what goes in at one comes out at the other
pub uninterp spec fn ends(a: int, b: int) -> bool;
#[verifier::external_body]
pub struct OwnedFd { _p: () }
impl OwnedFd {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn from(s: UnixStream) -> (r: OwnedFd) ensures r.id() == s.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fd(&self) -> (r: Fd) ensures r.fd() == self.id() { unimplemented!() }
}

/// ---- what the thread has done
pub struct Bv {
    /// the events taken from the channel, and how many of them everybody was told
    pub taken: Seq<Seq<u8>>,
    pub fed: nat,
    /// the listener's queue was empty, after the last event was taken
    pub swept: bool,
    /// the last thing learned of the channel was that it is empty, after the last wake-up was consumed
    pub idle: bool,
    /// connections that never block
    pub quiet: Set<int>,
    /// events offered to the thread, and the thread woken after that
    pub offered: Seq<Seq<u8>>,
    pub woken: bool,
    /// an event was not taken: thousands wait, or the thread is gone
    pub refused: bool,
}
#[verifier::external_body]
pub struct Bus { _p: () }
impl Bus {
    pub uninterp spec fn v(&self) -> Bv;
    /// everybody was told of the last event
    #[verifier::external_body]
    pub fn told(&mut self)
        requires
            // whoever connected before the event was taken is among those who were told
            old(self).v().swept,
        ensures final(self).v() == (Bv { fed: old(self).v().taken.len(), ..old(self).v() })
    { unimplemented!() }
}
pub open spec fn calm(v: Bv) -> bool { v.fed == v.taken.len() }

#[verifier::external_body]
pub struct UnixListener { _p: () }
pub struct Addr {}
/// the number of events dealt with before this connection was accepted
pub uninterp spec fn since(id: int) -> nat;
impl UnixListener {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn as_fd(&self) -> (r: Fd) ensures r.fd() == self.id() { unimplemented!() }
    /// WouldBlock: whoever has connected up to now was accepted. After another error (which is never
    /// EINTR, std takes care of that) somebody might still wait, and there is nothing to be done about that.
    #[verifier::external_body]
    pub fn accept(&self, w: &mut Bus) -> (r: io::Result<(UnixStream, Addr)>)
        requires old(w).v().quiet.contains(self.id())
        ensures
            r is Ok ==> since(r->Ok_0.0.id()) == old(w).v().fed && r->Ok_0.0.out().len() == 0 && final(w).v() == old(w).v(),
            r is Err ==> final(w).v() == (Bv { swept: true, ..old(w).v() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn bind(p: &PathBuf) -> (r: io::Result<UnixListener>) ensures r is Ok ==> bound_at(r->Ok_0.id(), p.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_nonblocking(&self, w: &mut Bus, b: bool) -> (r: io::Result<()>)
        ensures final(w).v() == (if r is Ok { Bv { quiet: if b { old(w).v().quiet.insert(self.id()) } else { old(w).v().quiet.remove(self.id()) }, ..old(w).v() } } else { old(w).v() })
    { unimplemented!() }
}
pub uninterp spec fn bound_at(l: int, p: int) -> bool;
#[verifier::external_body]
pub struct PathBuf { _p: () }
impl PathBuf {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) { unimplemented!() }
}
pub mod fs {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn remove_file(p: &PathBuf) -> (r: io::Result<()>) { unimplemented!() }
}

// ---- the channel from those who publish, and the pipe that wakes the thread
pub enum TrySendError { Full(Line), Disconnected(Line) }
pub enum TryRecvError { Empty, Disconnected }
#[verifier::external_body]
pub struct SyncSender { _p: () }
#[verifier::external_body]
pub struct Receiver { _p: () }
pub uninterp spec fn channel_of(a: SyncSender, b: Receiver) -> bool;
impl SyncSender {
    /// takes its place behind all that were sent before
    #[verifier::external_body]
    pub fn try_send(&self, w: &mut Bus, l: Line) -> (r: Result<(), TrySendError>)
        requires l.text().len() > 0
        ensures
            r is Ok ==> final(w).v() == (Bv { offered: old(w).v().offered.push(l.text()), woken: false, ..old(w).v() }),
            r is Err ==> final(w).v() == (Bv { refused: true, ..old(w).v() }),
    { unimplemented!() }
}
impl Receiver {
    /// the oldest that was sent and not taken yet
    #[verifier::external_body]
    pub fn try_recv(&self, w: &mut Bus) -> (r: Result<Line, TryRecvError>)
        requires calm(old(w).v())
        ensures
            r is Ok ==> r->Ok_0.text().len() > 0 && final(w).v() == (Bv { taken: old(w).v().taken.push(r->Ok_0.text()), swept: false, idle: false, ..old(w).v() }),
            r is Err ==> final(w).v() == (Bv { idle: true, ..old(w).v() }),
    { unimplemented!() }
}
pub mod mpsc {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn sync_channel(n: usize) -> (r: (SyncSender, Receiver)) ensures channel_of(r.0, r.1) { unimplemented!() }
}
#[derive(Clone, Copy)]
pub enum Errno { EINTR, EAGAIN, EPIPE, Other }
impl From<Errno> for anyhow::Error { #[verifier::external_body] fn from(e: Errno) -> (r: Self) { unimplemented!() } }
pub mod unistd {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn read(w: &mut Bus, f: &OwnedFd, b: &mut [u8; 4096]) -> (r: Result<usize, Errno>)
        requires old(w).v().quiet.contains(f.id())
        ensures
            final(w).v() == (if r is Ok { Bv { idle: false, ..old(w).v() } } else { old(w).v() }),
    { unimplemented!() }
    /// a full pipe holds a wake-up nobody has consumed yet
    #[verifier::external_body]
    pub fn write(w: &mut Bus, f: &OwnedFd, b: &[u8; 1]) -> (r: Result<usize, Errno>)
        requires old(w).v().quiet.contains(f.id())
        ensures final(w).v() == (Bv { woken: true, ..old(w).v() })
    { unimplemented!() }
}

// ---- waiting
#[derive(Clone, Copy)]
pub struct PollFlags { pub pollin: bool, pub pollout: bool, pub gone: bool, pub other: bool }
impl PollFlags {
    pub const POLLIN: PollFlags = PollFlags { pollin: true, pollout: false, gone: false, other: false };
    pub const POLLOUT: PollFlags = PollFlags { pollin: false, pollout: true, gone: false, other: false };
    pub const POLLHUP: PollFlags = PollFlags { pollin: false, pollout: false, gone: true, other: false };
    pub const POLLERR: PollFlags = PollFlags { pollin: false, pollout: false, gone: true, other: false };
    pub const POLLNVAL: PollFlags = PollFlags { pollin: false, pollout: false, gone: true, other: false };
    pub fn empty() -> (r: PollFlags) ensures r == (PollFlags { pollin: false, pollout: false, gone: false, other: false }) { PollFlags { pollin: false, pollout: false, gone: false, other: false } }
    pub fn pf_or(self, o: PollFlags) -> (r: PollFlags)
        ensures r == (PollFlags { pollin: self.pollin || o.pollin, pollout: self.pollout || o.pollout, gone: self.gone || o.gone, other: self.other || o.other })
    { PollFlags { pollin: self.pollin || o.pollin, pollout: self.pollout || o.pollout, gone: self.gone || o.gone, other: self.other || o.other } }
    pub fn intersects(&self, o: PollFlags) -> (r: bool)
        ensures r == ((self.pollin && o.pollin) || (self.pollout && o.pollout) || (self.gone && o.gone) || (self.other && o.other))
    { (self.pollin && o.pollin) || (self.pollout && o.pollout) || (self.gone && o.gone) || (self.other && o.other) }
    pub fn contains(&self, o: PollFlags) -> (r: bool)
        ensures r == ((o.pollin ==> self.pollin) && (o.pollout ==> self.pollout) && (o.gone ==> self.gone) && (o.other ==> self.other))
    { (!o.pollin || self.pollin) && (!o.pollout || self.pollout) && (!o.gone || self.gone) && (!o.other || self.other) }
    pub fn is_empty(&self) -> (r: bool) ensures r == !(self.pollin || self.pollout || self.gone || self.other) { !(self.pollin || self.pollout || self.gone || self.other) }
}
pub enum PollTimeout { NONE }
#[verifier::external_body]
pub struct PollFd { _p: () }
impl PollFd {
    pub uninterp spec fn fd(&self) -> int;
    pub uninterp spec fn asked(&self) -> PollFlags;
    pub uninterp spec fn ready(&self) -> Option<PollFlags>;
    #[verifier::external_body]
    pub fn new(fd: Fd, flags: PollFlags) -> (r: PollFd) ensures r.asked() == flags, r.fd() == fd.fd() { unimplemented!() }
    #[verifier::external_body]
    pub fn revents(&self) -> (r: Option<PollFlags>) ensures r == self.ready() { unimplemented!() }
}
pub open spec fn same_fds(a: Seq<PollFd>, z: Seq<PollFd>) -> bool {
    &&& a.len() == z.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] z[i].fd() == a[i].fd() && z[i].asked() == a[i].asked()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] z[i].ready() is Some ==> (z[i].ready()->0.gone ==> gone(z[i].fd()))
}
pub mod poll {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn poll(w: &Bus, fds: &mut Vec<PollFd>, t: PollTimeout) -> (r: Result<i32, Errno>)
        requires
            // waits with nothing left to do
            calm(w.v()), w.v().idle,
        ensures same_fds(old(fds)@, final(fds)@)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn no_poll() -> (r: !) { unimplemented!() }

// ---- helpers for what the verifier has no support for
pub fn discard<T>(t: T) {}
/// no vector takes more than half of the address space
#[verifier::external_body]
pub fn fits<T>(v: &Vec<T>) ensures v@.len() <= isize::MAX { unimplemented!() }
#[verifier::external_body]
pub fn nth_mut<T>(v: &mut Vec<T>, i: usize) -> (r: &mut T)
    requires i < old(v)@.len()
    ensures *r == old(v)@[i as int], final(v)@ == old(v)@.update(i as int, *final(r))
{ unimplemented!() }
#[verifier::external_body]
pub fn retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(f, (&#[trigger] old(v)@[i],))
    ensures
        final(v)@.len() <= old(v)@.len(),
        forall|i: int| 0 <= i < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[i]) && call_ensures(f, (&final(v)@[i],), true),
        forall|i: int| 0 <= i < old(v)@.len() ==> final(v)@.contains(#[trigger] old(v)@[i]) || call_ensures(f, (&old(v)@[i],), false),
{ unimplemented!() }
/// revents of the n entries from `from` on
#[verifier::external_body]
pub fn flags_from(fds: &Vec<PollFd>, from: usize, n: usize) -> (r: Vec<PollFlags>)
    requires from + n <= fds@.len()
    ensures r@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] r@[k] == (match fds@[from + k].ready() { Some(f) => f, None => PollFlags { pollin: false, pollout: false, gone: false, other: false } })
{ unimplemented!() }

//@item libshpool/src/daemon/events.rs :: enum Event
/// what is told of an event
pub uninterp spec fn line_of(e: Event) -> Seq<u8>;
/// serde_json and a newline
#[verifier::external_body]
pub fn build(e: Event) -> (r: Line) ensures r.text() == line_of(e), r.text().len() > 0 { unimplemented!() }
pub fn lazy(l: Line) -> (r: Line) ensures r == l { l }
//@fn libshpool/src/daemon/events.rs :: - :: serialize_line
//@ret r
//@elide `fn build(e: Event) -> Arc<str> {` => ``
//@sub `fn build(e: Event) -> Arc<str> {}` => ``
//@sub `fn build(e: Event) -> Line {}` => ``
//@sub `-> Arc<str>` => `-> Line`
//@sub `: LazyLock<Arc<str>> = LazyLock::new(||` => `: Line = lazy(`
//@sub `static` => `let`
//@sub `Arc::clone(` => `dup(`
//@spec
    ensures r.text() == line_of(*event), r.text().len() > 0
//@endfn

// ---- one subscriber
pub const fn queue_depth() -> (r: usize) ensures r == 64 { 64 }
//@item libshpool/src/daemon/events.rs :: struct SubscriberWriter sub `Arc<str>` => `Line`
//@item libshpool/src/daemon/events.rs :: enum Overflow
//@item libshpool/src/daemon/events.rs :: enum DriveOutcome
/// what is left to be written
pub open spec fn left(q: Seq<Line>, off: int) -> Seq<u8> { flat(texts(q)).skip(off) }
pub open spec fn sane(q: Seq<Line>, off: int) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).text().len() > 0
    &&& if q.len() == 0 { off == 0 } else { 0 <= off < q[0].text().len() }
}
//@fn libshpool/src/daemon/events.rs :: - :: drive_pending
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `VecDeque<Arc<str>>` => `VecDeque<Line>`
//@sub `&front.as_bytes()[*front_offset..]` => `tail(front.as_bytes(), *front_offset)`
//@spec
    requires sane(old(pending).q(), *old(front_offset) as int)
    ensures
        final(stream).fd() == old(stream).fd(),
        sane(final(pending).q(), *final(front_offset) as int), final(pending).q().len() <= old(pending).q().len(),
        // nothing is lost, nothing is said twice
        old(stream).sent() + left(old(pending).q(), *old(front_offset) as int) == final(stream).sent() + left(final(pending).q(), *final(front_offset) as int),
        r is Ok && r->Ok_0 is AllFlushed ==> final(pending).q().len() == 0,
        r is Err ==> gone(old(stream).fd()),
//@loop 0
        invariant_except_break
            stream.fd() == old(stream).fd(),
            sane(pending.q(), *front_offset as int), pending.q().len() <= old(pending).q().len(),
            old(stream).sent() + left(old(pending).q(), *old(front_offset) as int) == stream.sent() + left(pending.q(), *front_offset as int),
        ensures
            stream.fd() == old(stream).fd(),
            sane(pending.q(), *front_offset as int), pending.q().len() <= old(pending).q().len(),
            old(stream).sent() + left(old(pending).q(), *old(front_offset) as int) == stream.sent() + left(pending.q(), *front_offset as int),
            pending.q().len() == 0,
//@at loopstart 0
        let ghost q0 = pending.q(); let ghost o0 = *front_offset as int; let ghost s0 = stream.sent();
//@at before 0 `match stream . write`
        proof { assert(texts(q0)[0] == q0[0].text()); assert(texts(q0).drop_first() =~= texts(q0.drop_first())); assert(bytes@ == q0[0].text().skip(o0)); }
//@at before 0 `if * front_offset`
        proof {
            let n = *front_offset as int - o0;
            let t = q0[0].text();
            assert(flat(texts(q0)) =~= t + flat(texts(q0.drop_first())));
            assert(stream.sent() == s0 + t.skip(o0).take(n));
            assert(s0 + left(q0, o0) =~= stream.sent() + left(q0, o0 + n));
            if o0 + n >= t.len() { assert(left(q0, o0 + n) =~= left(q0.drop_first(), 0)); }
        }
//@endfn
impl SubscriberWriter {
//@fn libshpool/src/daemon/events.rs :: SubscriberWriter :: new
//@ret r
//@sub `new(stream:` => `new(w: &mut Bus, stream:`
//@sub `set_nonblocking(` => `set_nonblocking(w, `
//@spec
    requires $2.out().len() == 0
    ensures
        r is Ok ==> r->Ok_0.stream == $2 && r->Ok_0.pending.q().len() == 0 && r->Ok_0.front_offset == 0 && !r->Ok_0.dropped && final(w).v() == (Bv { quiet: old(w).v().quiet.insert($2.id()), ..old(w).v() }),
        r is Err ==> final(w).v() == old(w).v(),
//@endfn
//@fn libshpool/src/daemon/events.rs :: SubscriberWriter :: enqueue
//@ret r
//@sub `Arc<str>` => `Line`
//@sub `SUBSCRIBER_QUEUE_DEPTH` => `queue_depth()`
//@spec
    requires $1.text().len() > 0, sane(old(self).pending.q(), old(self).front_offset as int)
    ensures
        final(self).stream == old(self).stream, final(self).front_offset == old(self).front_offset, final(self).dropped == old(self).dropped,
        sane(final(self).pending.q(), final(self).front_offset as int),
        r is Ok ==> final(self).pending.q() == old(self).pending.q().push($1),
        // refused only by those who have fallen far behind
        r is Err ==> final(self).pending.q() == old(self).pending.q() && old(self).pending.q().len() >= 64,
//@endfn
//@fn libshpool/src/daemon/events.rs :: SubscriberWriter :: drive
//@ret r
//@spec
    requires sane(old(self).pending.q(), old(self).front_offset as int)
    ensures
        final(self).stream.id() == old(self).stream.id(), final(self).dropped == old(self).dropped,
        sane(final(self).pending.q(), final(self).front_offset as int),
        old(self).stream.out() + left(old(self).pending.q(), old(self).front_offset as int) == final(self).stream.out() + left(final(self).pending.q(), final(self).front_offset as int),
        r is Err ==> gone(old(self).stream.id()),
//@endfn
//@fn libshpool/src/daemon/events.rs :: SubscriberWriter :: wants_pollout
//@ret r
//@spec
    ensures r == (self.pending.q().len() > 0)
//@endfn
    #[verifier::external_body]
    pub fn as_fd(&self) -> (r: Fd) ensures r.fd() == self.stream.id() { unimplemented!() }
    /// it was told, or is about to be, exactly of the events up to the n-th since it came; or it is given up,
    /// which happens only to those who are gone or have fallen far behind
    pub open spec fn good(&self, v: Bv, n: int) -> bool {
        &&& v.quiet.contains(self.stream.id())
        &&& sane(self.pending.q(), self.front_offset as int)
        &&& since(self.stream.id()) <= n
        &&& !self.dropped ==> self.stream.out() + left(self.pending.q(), self.front_offset as int) == flat(v.taken.subrange(since(self.stream.id()) as int, n))
        &&& self.dropped ==> gone(self.stream.id()) || self.behind()
    }
    pub open spec fn behind(&self) -> bool { self.pending.q().len() >= 64 }
}

/// the state between two events: everybody has what is due
pub open spec fn all_good(s: Seq<SubscriberWriter>, v: Bv, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).good(v, n) }
pub open spec fn kept(a: Seq<SubscriberWriter>, z: Seq<SubscriberWriter>) -> bool {
    a.len() <= z.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] z[i] == a[i]
}
//@fn libshpool/src/daemon/events.rs :: - :: accept_pending
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `listener: &UnixListener` => `w: &mut Bus, listener: &UnixListener`
//@sub `listener.accept()` => `listener.accept(w)`
//@sub `SubscriberWriter::new(` => `SubscriberWriter::new(w, `
//@spec
    requires old(w).v().quiet.contains($2.id()), all_good(old(subs)@, old(w).v(), old(w).v().fed as int), old(w).v().fed <= old(w).v().taken.len()
    ensures
        kept(old(subs)@, final(subs)@), all_good(final(subs)@, final(w).v(), final(w).v().fed as int),
        // whoever waited to be let in is in
        final(w).v().swept,
        final(w).v() == (Bv { swept: true, quiet: final(w).v().quiet, ..old(w).v() }), old(w).v().quiet.subset_of(final(w).v().quiet),
//@loop 0
        invariant
            w.v().quiet.contains(listener.id()), old(w).v().quiet.subset_of(w.v().quiet),
            w.v() == (Bv { swept: w.v().swept, quiet: w.v().quiet, ..old(w).v() }), old(w).v().fed <= old(w).v().taken.len(),
            kept(old(subs)@, subs@), all_good(subs@, w.v(), w.v().fed as int),
        ensures w.v().swept
//@at loopstart 0
        let ghost v0 = w.v(); let ghost s0 = subs@;
//@at loopend 0
        proof {
            assert(w.v().taken.subrange(w.v().fed as int, w.v().fed as int) =~= Seq::<Seq<u8>>::empty());
            assert forall|i: int| 0 <= i < subs@.len() implies (#[trigger] subs@[i]).good(w.v(), w.v().fed as int) by {
                if i < s0.len() { assert(s0[i].good(v0, v0.fed as int)); }
                else { let x = subs@[i]; assert(left(x.pending.q(), 0) =~= Seq::<u8>::empty()) by { assert(texts(x.pending.q()) =~= Seq::<Seq<u8>>::empty()); } assert(x.stream.out() =~= Seq::<u8>::empty()); assert(x.stream.out() + left(x.pending.q(), 0) =~= Seq::<u8>::empty()); }
            }
        }
//@endfn

pub proof fn later(s: SubscriberWriter, a: Bv, z: Bv, n: int)
    requires s.good(a, n), n <= a.taken.len(), a.taken.is_prefix_of(z.taken), a.quiet.subset_of(z.quiet)
    ensures s.good(z, n)
{
    assert(a.taken.subrange(since(s.stream.id()) as int, n) =~= z.taken.subrange(since(s.stream.id()) as int, n));
}
/// one more line for it
pub proof fn told_one(s: SubscriberWriter, v: Bv, l: Line)
    requires s.good(v, v.fed as int), v.fed + 1 == v.taken.len(), v.taken.last() == l.text()
    ensures
        s.dropped ==> s.good(v, v.fed as int + 1),
        !s.dropped ==> s.stream.out() + left(s.pending.q().push(l), s.front_offset as int) == flat(v.taken.subrange(since(s.stream.id()) as int, v.fed as int + 1)),
        sane(s.pending.q().push(l), s.front_offset as int) || l.text().len() == 0,
{
    let b = since(s.stream.id()) as int;
    let n = v.fed as int;
    let q = s.pending.q();
    assert(v.taken.subrange(b, n + 1) =~= v.taken.subrange(b, n).push(l.text()));
    flat_push(v.taken.subrange(b, n), l.text());
    assert(texts(q.push(l)) =~= texts(q).push(l.text()));
    flat_push(texts(q), l.text());
    if q.len() > 0 { assert(texts(q)[0] == q[0].text()); assert(flat(texts(q)).len() >= q[0].text().len()); }
    assert(left(q.push(l), s.front_offset as int) =~= left(q, s.front_offset as int) + l.text());
    assert(s.stream.out() + left(q.push(l), s.front_offset as int) =~= s.stream.out() + left(q, s.front_offset as int) + l.text());
}
pub open spec fn ids_of(s: Seq<SubscriberWriter>) -> Seq<int> { s.map_values(|x: SubscriberWriter| x.stream.id()) }
/// they are still where they were
pub open spec fn held(ids: Seq<int>, s: Seq<SubscriberWriter>) -> bool { ids.len() <= s.len() && forall|k: int| 0 <= k < ids.len() ==> (#[trigger] s[k]).stream.id() == ids[k] }
pub open spec fn heard(f: Seq<PollFd>, id: int) -> bool { exists|j: int| 0 <= j < f.len() && (#[trigger] f[j]).fd() == id && f[j].asked().pollin }
/// the thread learns when it can be written to, if there is something for it, and when it is gone
pub open spec fn attended(f: Seq<PollFd>, s: SubscriberWriter) -> bool { exists|j: int| 0 <= j < f.len() && (#[trigger] f[j]).fd() == s.stream.id() && (s.pending.q().len() > 0 ==> f[j].asked().pollout) }
//@item libshpool/src/daemon/events.rs :: struct Sink sub `Arc<str>` => `Line` sub `Receiver<Line>` => `Receiver`
pub struct ListenerGuard { pub path: PathBuf }
impl Sink {
    pub open spec fn ready(&self, v: Bv) -> bool {
        v.quiet.contains(self.listener.id()) && v.quiet.contains(self.wake_rx.id()) && v.quiet.contains(self.shutdown_rx.id())
    }
//@fn libshpool/src/daemon/events.rs :: Sink :: run
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(100)]
//@sub `run(self)` => `run(self, w: &mut Bus)`
//@sub `const WAKE_FD_IDX: usize = 0;` => `let WAKE_FD_IDX: usize = 0;`
//@sub `const SHUTDOWN_FD_IDX: usize = 2;` => `let SHUTDOWN_FD_IDX: usize = 2;`
//@sub `const SUB_FDS_START: usize = 3;` => `let SUB_FDS_START: usize = 3;`
//@sub `accept_pending(&listener` => `accept_pending(w, &listener`
//@sub `unistd::read(` => `unistd::read(w, `
//@sub `poll::poll(` => `poll::poll(w, `
//@sub `event_rx.try_recv()` => `event_rx.try_recv(w)`
//@sub `Arc::clone(` => `dup(`
//@sub `for (i, sub) in subs.iter().enumerate() {` => `for i in 0..subs.len() { let sub = &subs[i];`
//@sub `for sub in subs.iter_mut() {` => `for __i in 0..subs.len() { let sub = nth_mut(&mut subs, __i);`
//@sub `for (k, &i) in sub_pollfd_idx.iter().enumerate() {` => `for k in 0..sub_pollfd_idx.len() { let i = sub_pollfd_idx[k];`
//@sub `subs[i].dropped = true` => `nth_mut(&mut subs, i).dropped = true`
//@sub `subs[i].drive()` => `nth_mut(&mut subs, i).drive()`
//@sub `panic!("events sink poll: {:?}", e)` => `no_poll()`
//@sub `panic!("events sink reading wake fd: {:?}", e)` => `no_poll()`
//@elide `sub_revents.extend(` => `&mut flags_from(&fds, SUB_FDS_START, sub_pollfd_idx.len())`
//@sub `sub_revents.extend(` => `sub_revents.append(`
//@sub `PollFlags::POLLERR | PollFlags::POLLHUP | PollFlags::POLLNVAL` => `PollFlags::POLLERR.pf_or(PollFlags::POLLHUP).pf_or(PollFlags::POLLNVAL)`
//@sub `drop(` => `discard(`
//@sub `subs.retain(` => `retain(&mut subs, `
//@spec
    requires self.ready(old(w).v()), calm(old(w).v()), old(w).v().idle
//@loop 0
        invariant
            w.v().quiet.contains(listener.id()), w.v().quiet.contains(wake_rx.id()), w.v().quiet.contains(shutdown_rx.id()),
            calm(w.v()), w.v().idle, all_good(subs@, w.v(), w.v().fed as int),
            WAKE_FD_IDX == 0, SHUTDOWN_FD_IDX == 2, SUB_FDS_START == 3,
//@at loopstart 0
        fits(&subs);
//@loop 1 iter=it
        invariant
            WAKE_FD_IDX == 0, SHUTDOWN_FD_IDX == 2, SUB_FDS_START == 3,
            fds@.len() == 3 + i, sub_pollfd_idx@.len() == i, sub_revents@.len() == 0,
            fds@[0].fd() == wake_rx.id() && fds@[0].asked().pollin, fds@[1].fd() == listener.id() && fds@[1].asked().pollin,
            fds@[2].fd() == shutdown_rx.id() && fds@[2].asked().pollin,
            forall|k: int| 0 <= k < i ==> #[trigger] sub_pollfd_idx@[k] == k,
            forall|k: int| 0 <= k < i ==> (#[trigger] fds@[3 + k]).fd() == subs@[k].stream.id() && (subs@[k].pending.q().len() > 0 ==> fds@[3 + k].asked().pollout),
//@at before 0 `match poll`
        // everything that can happen wakes the thread
        assert(heard(fds@, wake_rx.id())); assert(heard(fds@, listener.id())); assert(heard(fds@, shutdown_rx.id()));
        assert forall|k: int| 0 <= k < subs@.len() implies #[trigger] attended(fds@, subs@[k]) by { assert(fds@[3 + k].fd() == subs@[k].stream.id()); }
        let ghost ids = ids_of(subs@);
//@at before 0 `discard ( fds )`
        assert forall|k: int| 0 <= k < ids.len() && (#[trigger] sub_revents@[k]).gone implies gone(ids[k]) by { assert(fds@[3 + k].fd() == ids[k]); }
//@loop 2
        invariant
            w.v().quiet.contains(listener.id()), w.v().quiet.contains(wake_rx.id()), w.v().quiet.contains(shutdown_rx.id()),
            calm(w.v()), all_good(subs@, w.v(), w.v().fed as int), held(ids, subs@),
//@at loopstart 2
        let ghost v0 = w.v();
//@at loopbefore 3
        let ghost mut gv = w.v();
//@loop 3
        invariant_except_break
            gv == w.v(),
        invariant
            w.v().quiet.contains(listener.id()), w.v().quiet.contains(wake_rx.id()), w.v().quiet.contains(shutdown_rx.id()),
            calm(w.v()), all_good(subs@, w.v(), w.v().fed as int), held(ids, subs@),
        ensures w.v().idle
//@loop 4 iter=it
        invariant
            w.v().quiet.contains(listener.id()), w.v().quiet.contains(wake_rx.id()), w.v().quiet.contains(shutdown_rx.id()),
            w.v().fed + 1 == w.v().taken.len(), w.v().taken.last() == line.text(), line.text().len() > 0, held(ids, subs@),
            it.snapshot.start == 0 && it.snapshot.end == subs@.len(),
            forall|k: int| 0 <= k < __i ==> (#[trigger] subs@[k]).good(w.v(), w.v().fed as int + 1),
            forall|k: int| __i <= k < subs@.len() ==> (#[trigger] subs@[k]).good(w.v(), w.v().fed as int),
//@at loopstart 3
        proof { assert forall|k: int| 0 <= k < subs@.len() implies (#[trigger] subs@[k]).good(w.v(), w.v().fed as int) by { later(subs@[k], gv, w.v(), gv.fed as int); } }
        let ghost vv = w.v();
//@at loopafter 4
        w.told();
        proof { gv = w.v(); }
        assert forall|k: int| 0 <= k < subs@.len() implies (#[trigger] subs@[k]).good(w.v(), w.v().fed as int) by {}
//@at loopstart 4
        let ghost s0 = subs@; let ghost x0 = subs@[__i as int];
//@at loopend 4
        proof { told_one(x0, w.v(), line);
        let x1 = subs@[__i as int];
        assert(x1.stream.id() == x0.stream.id());
        assert(sane(x1.pending.q(), x1.front_offset as int));
        assert(x1.dropped ==> gone(x1.stream.id()) || x1.behind());
        assert(!x1.dropped ==> !x0.dropped);
        assert(!x1.dropped ==> x1.stream.out() + left(x1.pending.q(), x1.front_offset as int) == x0.stream.out() + left(x0.pending.q().push(line), x0.front_offset as int));
        }
//@loop 5 iter=it
        invariant
            w.v().quiet.contains(listener.id()), w.v().quiet.contains(wake_rx.id()), w.v().quiet.contains(shutdown_rx.id()),
            calm(w.v()), w.v().idle, all_good(subs@, w.v(), w.v().fed as int), held(ids, subs@),
            sub_pollfd_idx@.len() == ids.len(), sub_revents@.len() == ids.len(),
            forall|k: int| 0 <= k < ids.len() ==> #[trigger] sub_pollfd_idx@[k] == k,
            forall|k: int| 0 <= k < ids.len() ==> ((#[trigger] sub_revents@[k]).gone ==> gone(ids[k])),
//@at before 0 `retain (`
            let ghost pre = subs@;
//@at after 0 `retain (`
            // those who were given up are let go of, and only those
            assert forall|k: int| 0 <= k < subs@.len() implies !(#[trigger] subs@[k]).dropped by {}
            assert forall|k: int| 0 <= k < pre.len() && !(#[trigger] pre[k]).dropped implies subs@.contains(pre[k]) by {}
//@cl 0 (q: bool) ensures q == !$c1.dropped
//@endfn
}

// ---- from those who publish
#[verifier::external_body]
pub struct AtomicBool { _p: () }
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
impl AtomicBool {
    #[verifier::external_body]
    pub fn new(b: bool) -> (r: AtomicBool) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, b: bool, o: Ordering) -> (r: bool) { unimplemented!() }
}
pub struct JoinHandle { pub sink: Sink }
pub mod thread {
    use vstd::prelude::*;
    use super::*;
    pub struct Builder {}
    impl Builder {
        #[verifier::external_body]
        pub fn new() -> (r: Builder) { unimplemented!() }
        #[verifier::external_body]
        pub fn named(self) -> (r: Builder) { unimplemented!() }
        #[verifier::external_body]
        pub fn spawn(self, w: &mut Bus, s: Sink) -> (r: io::Result<JoinHandle>)
            requires s.ready(old(w).v())
            ensures final(w).v() == old(w).v(), r is Ok ==> r->Ok_0.sink == s
        { unimplemented!() }
    }
}
pub fn keep(p: PathBuf) -> (r: ListenerGuard) ensures r.path == p { ListenerGuard { path: p } }
//@item libshpool/src/daemon/events.rs :: struct EventBus sub `Arc<str>` => `Line` sub `SyncSender<Line>` => `SyncSender`
//@item libshpool/src/daemon/events.rs :: struct EventBusHandle sub `thread::JoinHandle<()>` => `JoinHandle`
//@fn libshpool/src/daemon/events.rs :: - :: make_self_pipe
//@ret r
//@sub `make_self_pipe()` => `make_self_pipe(w: &mut Bus)`
//@sub `set_nonblocking(` => `set_nonblocking(w, `
//@spec
    ensures
        r is Ok ==> ends(r->Ok_0.0.id(), r->Ok_0.1.id()) && final(w).v().quiet.contains(r->Ok_0.0.id()) && final(w).v().quiet.contains(r->Ok_0.1.id()),
        final(w).v() == (Bv { quiet: final(w).v().quiet, ..old(w).v() }), old(w).v().quiet.subset_of(final(w).v().quiet),
//@endfn
impl EventBus {
//@fn libshpool/src/daemon/events.rs :: EventBus :: start
//@ret r
//@sub `start(socket_path:` => `start(w: &mut Bus, socket_path:`
//@sub `std::fs::` => `fs::`
//@sub `set_nonblocking(` => `set_nonblocking(w, `
//@sub `make_self_pipe()` => `make_self_pipe(w)`
//@sub `EVENT_CHANNEL_CAP` => `4096`
//@sub `Arc::new(Self {` => `Arc::new(EventBus {`
//@sub `.name("events-sink".into())` => `.named()`
//@sub `.spawn(move || sink.run())` => `.spawn(w, sink)`
//@sub `ListenerGuard { path: socket_path }` => `keep(socket_path)`
//@spec
    requires calm(old(w).v()), old(w).v().idle
    ensures
        // whoever connects there, and what is published here, gets to the same thread
        r is Ok ==> ({
            let b = r->Ok_0.0; let h = r->Ok_0.1;
            &&& h.sink is Some && bound_at(h.sink->0.sink.listener.id(), $2.id()) && h.sink->0.sink._guard.path == $2
            &&& channel_of(b.event_tx, h.sink->0.sink.event_rx)
            &&& ends(h.sink->0.sink.wake_rx.id(), b.wake_tx.id()) && ends(h.sink->0.sink.shutdown_rx.id(), h.shutdown_tx.id())
            &&& final(w).v().quiet.contains(b.wake_tx.id())
        }),
//@endfn
//@fn libshpool/src/daemon/events.rs :: EventBus :: publish
//@sub `publish(&self,` => `publish(&self, w: &mut Bus,`
//@sub `.try_send(` => `.try_send(w, `
//@sub `unistd::write(` => `unistd::write(w, `
//@sub `b"\0"` => `&[0u8]`
//@spec
    requires old(w).v().quiet.contains(self.wake_tx.id()), !old(w).v().refused
    ensures
        // it takes its place behind the earlier ones, and then the thread is woken
        final(w).v().refused || (final(w).v().offered == old(w).v().offered.push(line_of(*$2)) && final(w).v().woken),
//@endfn
}
}
pub use bus::*;
}
