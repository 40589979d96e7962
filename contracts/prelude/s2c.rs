// The other side of every call the shell->client thread makes.
verus! {
global size_of usize == 8;
use std::sync::Arc;
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { BrokenPipe, Other }
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub struct Duration { pub ns: u128 }
impl Duration {
    pub const ZERO: Duration = Duration { ns: 0 };
    pub fn from_millis(ms: u64) -> (r: Duration) ensures r.ns == ms * 1_000_000 { Duration { ns: ms as u128 * 1_000_000 } }
}
pub mod io {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    pub use super::ErrorKind;
    impl Error {
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) { unimplemented!() }
    }
    /// BufWriter over the client's socket, as what the client can see of it
    #[verifier::external_body]
    #[verifier::accept_recursive_types(W)]
    pub struct BufWriter<W> { _p: core::marker::PhantomData<W> }
    impl<W> BufWriter<W> {
        /// which connection this is
        pub uninterp spec fn id(&self) -> int;
        /// the payloads of the data frames written so far
        pub uninterp spec fn data(&self) -> Seq<u8>;
        /// the payloads of the exit-status frames written so far
        pub uninterp spec fn statuses(&self) -> Seq<Seq<u8>>;
        /// nothing is left in the buffer
        pub uninterp spec fn clean(&self) -> bool;
        /// the payloads of the frames about the variables written so far, and of those that have left the buffer
        pub uninterp spec fn switches(&self) -> Seq<Seq<u8>>;
        pub uninterp spec fn shown(&self) -> Seq<Seq<u8>>;
        #[verifier::external_body]
        pub fn flush(&mut self) -> (r: Result<()>)
            ensures
                final(self).id() == old(self).id(), final(self).data() == old(self).data(), final(self).statuses() == old(self).statuses(),
                final(self).switches() == old(self).switches(), r is Ok ==> final(self).shown() == old(self).switches(),
                r is Ok ==> final(self).clean(), r is Err ==> breaks(old(self).id()),
        { unimplemented!() }
    }
}
/// writes to this connection fail at some point: its client has hung up
pub uninterp spec fn breaks(id: int) -> bool;

pub mod consts {
    use vstd::prelude::*;
//@item libshpool/src/consts.rs :: const BUF_SIZE
}
#[derive(Copy, Clone)]
//@item shpool-protocol/src/lib.rs :: enum ChunkKind
//@item shpool-protocol/src/lib.rs :: struct Chunk
impl<'data> Chunk<'data> {
    /// one frame goes to the sink (P01); no frame may be longer than the client's buffer
    #[verifier::external_body]
    pub fn write_to<W>(&self, w: &mut io::BufWriter<W>) -> (r: io::Result<()>)
        requires self.kind is ExitStatus ==> self.buf@.len() == 4, self.buf@.len() <= consts::BUF_SIZE,
        ensures
            final(w).id() == old(w).id(),
            final(w).shown() == old(w).shown(),
            r is Ok ==> final(w).switches() == (if self.kind is MaybeSwitch { old(w).switches().push(self.buf@) } else { old(w).switches() }),
            r is Ok ==> final(w).data() == (if self.kind is Data { old(w).data() + self.buf@ } else { old(w).data() })
                && final(w).statuses() == (if self.kind is ExitStatus { old(w).statuses().push(self.buf@) } else { old(w).statuses() }),
            r is Err ==> breaks(old(w).id()),
    { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural)]
//@item shpool-protocol/src/lib.rs :: struct TtySize
impl Clone for TtySize {
    fn clone(&self) -> (r: TtySize) ensures r == *self { TtySize { rows: self.rows, cols: self.cols, xpixel: self.xpixel, ypixel: self.ypixel } }
}
impl TtySize {
    /// the size ioctl on the pty master
    #[verifier::external_body]
    pub fn set_fd(&self, m: &mut Master) -> (r: anyhow::Result<()>)
        ensures
            final(m).got() == old(m).got(), final(m).drained() == old(m).drained(),
            r is Ok ==> final(m).size() == *self,
            r is Err ==> !final(m).resizable(), old(m).resizable() == final(m).resizable(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixStream { _p: () }
pub mod net { pub enum Shutdown { Read, Write, Both } }
#[verifier::external_body]
pub fn shutdown_socket(stream: &UnixStream, how: net::Shutdown) -> (r: anyhow::Result<()>) { unimplemented!() }

#[verifier::external_body]
pub struct MaybeSwitch { _p: () }
/// it as the frame's payload, if it can be encoded
impl MaybeSwitch { pub uninterp spec fn bytes(&self) -> Option<Seq<u8>>; }
pub mod protocol {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn encode_to(m: &MaybeSwitch, out: &mut Vec<u8>) -> (r: anyhow::Result<()>)
        ensures (r is Ok) == (m.bytes() is Some), r is Ok ==> final(out)@ == old(out)@ + m.bytes()->0 && (old(out)@.len() == 0 ==> final(out)@ == m.bytes()->0)
    { unimplemented!() }
}

/// the pty master: what programs in the session write comes out here
#[verifier::external_body]
pub struct Master { _p: () }
impl Master {
    /// everything read so far
    pub uninterp spec fn got(&self) -> Seq<u8>;
    /// when last looked at, there was nothing left to read
    pub uninterp spec fn drained(&self) -> bool;
    /// the size it was last given
    pub uninterp spec fn size(&self) -> TtySize;
    /// the size ioctl works on it
    pub uninterp spec fn resizable(&self) -> bool;
    #[verifier::external_body]
    pub fn borrow_fd(&self) -> (r: Fd) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures
            final(buf)@.len() == old(buf)@.len(), final(self).size() == old(self).size(), final(self).resizable() == old(self).resizable(),
            r is Ok ==> r->Ok_0 <= final(buf)@.len() && final(self).got() == old(self).got() + final(buf)@.take(r->Ok_0 as int),
            r is Err ==> final(self).got() == old(self).got(),
            r is Err || r->Ok_0 == 0 ==> final(self).drained(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Fd { _p: () }
#[derive(Clone, Copy)]
pub struct PollFlags { pub pollin: bool, pub pollhup: bool, pub pollerr: bool, pub other: bool }
impl PollFlags {
    pub const POLLIN: PollFlags = PollFlags { pollin: true, pollhup: false, pollerr: false, other: false };
    pub const POLLHUP: PollFlags = PollFlags { pollin: false, pollhup: true, pollerr: false, other: false };
    pub const POLLERR: PollFlags = PollFlags { pollin: false, pollhup: false, pollerr: true, other: false };
    pub fn pf_or(self, o: PollFlags) -> (r: PollFlags)
        ensures r == (PollFlags { pollin: self.pollin || o.pollin, pollhup: self.pollhup || o.pollhup, pollerr: self.pollerr || o.pollerr, other: self.other || o.other })
    { PollFlags { pollin: self.pollin || o.pollin, pollhup: self.pollhup || o.pollhup, pollerr: self.pollerr || o.pollerr, other: self.other || o.other } }
    pub fn intersects(&self, o: PollFlags) -> (r: bool)
        ensures r == ((self.pollin && o.pollin) || (self.pollhup && o.pollhup) || (self.pollerr && o.pollerr) || (self.other && o.other))
    { (self.pollin && o.pollin) || (self.pollhup && o.pollhup) || (self.pollerr && o.pollerr) || (self.other && o.other) }
    pub fn contains(&self, o: PollFlags) -> (r: bool)
        ensures r == ((o.pollin ==> self.pollin) && (o.pollhup ==> self.pollhup) && (o.pollerr ==> self.pollerr) && (o.other ==> self.other))
    { (!o.pollin || self.pollin) && (!o.pollhup || self.pollhup) && (!o.pollerr || self.pollerr) && (!o.other || self.other) }
}
pub mod poll {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct PollFd { _p: () }
    impl PollFd {
        pub uninterp spec fn asked(&self) -> PollFlags;
        pub uninterp spec fn ready(&self) -> Option<PollFlags>;
        #[verifier::external_body]
        pub fn new(fd: Fd, flags: PollFlags) -> (r: PollFd) ensures r.asked() == flags { unimplemented!() }
        #[verifier::external_body]
        pub fn revents(&self) -> (r: Option<PollFlags>) ensures r == self.ready() { unimplemented!() }
    }
    /// a ready pty that does not report POLLIN has nothing left to read
    #[verifier::external_body]
    pub fn poll(fds: &mut [PollFd; 1], m: &mut Master, ms: u16) -> (r: io::Result<i32>)
        ensures
            final(m).got() == old(m).got(), final(m).size() == old(m).size(), final(m).resizable() == old(m).resizable(),
            final(fds)@[0].asked() == old(fds)@[0].asked(),
            r is Err || r->Ok_0 == 0 ==> final(m).drained(),
            r is Ok && r->Ok_0 == 1 && final(fds)@[0].ready() is Some && !final(fds)@[0].ready()->Some_0.pollin && old(fds)@[0].asked().pollin ==> final(m).drained(),
            r is Ok && final(fds)@[0].ready() is Some && final(fds)@[0].ready()->Some_0.pollin ==> final(m).got() == old(m).got(),
    { unimplemented!() }
}
//@item libshpool/src/daemon/shell.rs :: const SHELL_TO_CLIENT_POLL_MS
pub mod time {
    use vstd::prelude::*;
    pub use super::Duration;
    #[verifier::external_body]
    pub struct Instant { _p: () }
    impl Instant {
        #[verifier::external_body]
        pub fn now() -> (r: Instant) { unimplemented!() }
        #[verifier::external_body]
        pub fn add(self, d: Duration) -> (r: Instant) { unimplemented!() }
        #[verifier::external_body]
        pub fn saturating_duration_since(&self, o: Instant) -> (r: Duration) { unimplemented!() }
    }
}
pub const REATTACH_RESIZE_DELAY: time::Duration = time::Duration { ns: 50000000 };
pub const SHELL_EXIT_WAIT_DUR: time::Duration = time::Duration { ns: 1000000000 };

// ---- the messages this thread gets
pub enum Ev { Joined(int, TtySize), Left, Ended(i32), Sized(TtySize), Moved(Option<Seq<u8>>), Other }
pub trait Msg { spec fn ev(&self) -> Ev; spec fn fresh(&self) -> bool; }
impl Msg for () { open spec fn ev(&self) -> Ev { Ev::Other } open spec fn fresh(&self) -> bool { true } }
impl Msg for MaybeSwitch { open spec fn ev(&self) -> Ev { Ev::Moved(self.bytes()) } open spec fn fresh(&self) -> bool { true } }
impl Msg for TtySize { open spec fn ev(&self) -> Ev { Ev::Sized(*self) } open spec fn fresh(&self) -> bool { true } }
impl Msg for ClientConnectionMsg {
    open spec fn ev(&self) -> Ev {
        match self {
            ClientConnectionMsg::New(c) => Ev::Joined(c.sink.id(), c.size),
            ClientConnectionMsg::DisconnectExit(s) => Ev::Ended(*s),
            ClientConnectionMsg::Disconnect => Ev::Left,
        }
    }
    open spec fn fresh(&self) -> bool { self is New ==> self->New_0.sink.data().len() == 0 && self->New_0.sink.statuses().len() == 0 && self->New_0.sink.clean() && self->New_0.sink.switches().len() == 0 && self->New_0.sink.shown().len() == 0 }
}
/// ghost history of the thread: the messages taken from its channels and the exit frames it wrote
#[verifier::external_body]
pub struct Told { _p: () }
impl Told {
    pub uninterp spec fn log(&self) -> Seq<Ev>;
    /// exit-status frames written (and flushed) to connections that do not break, in order
    pub uninterp spec fn exits(&self) -> Seq<(int, i32)>;
    /// the session was dropped
    pub uninterp spec fn closed(&self) -> bool;
    #[verifier::external_body]
    pub fn note_exit(&mut self, sink: &io::BufWriter<UnixStream>, status: i32)
        requires breaks(sink.id()) || (sink.clean() && sink.statuses().len() > 0 && sink.statuses().last() == le_bytes(status))
        ensures
            final(self).log() == old(self).log(), final(self).closed() == old(self).closed(),
            final(self).exits() == (if breaks(sink.id()) { old(self).exits() } else { old(self).exits().push((sink.id(), status)) }),
    { unimplemented!() }
}
pub mod crossbeam_channel {
    use vstd::prelude::*;
    use super::*;
    pub struct RecvError;
    #[verifier::external_body]
    pub struct SendError { _p: () }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Receiver<T> { _p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct Sender<T> { _p: core::marker::PhantomData<T> }
    impl<T: Msg> Receiver<T> {
        /// the channel is ready: a message, or every sender is gone
        #[verifier::external_body]
        pub fn recv_any(&self, told: &mut Told) -> (r: Result<T, RecvError>)
            ensures
                final(told).exits() == old(told).exits(),
                r is Ok ==> r->Ok_0.fresh() && final(told).log() == old(told).log().push(r->Ok_0.ev()) && final(told).closed() == old(told).closed(),
                r is Err ==> final(told).log() == old(told).log() && final(told).closed(),
        { unimplemented!() }
        /// the first message; bidi_stream tells of an exit only after it has handed a client over
        #[verifier::external_body]
        pub fn recv(&self, told: &mut Told) -> (r: Result<T, RecvError>)
            ensures
                final(told).exits() == old(told).exits(), final(told).closed() == old(told).closed(),
                r is Ok ==> r->Ok_0.fresh() && final(told).log() == old(told).log().push(r->Ok_0.ev()) && !(r->Ok_0.ev() is Ended),
        { unimplemented!() }
    }
    impl<T> Sender<T> {
        #[verifier::external_body]
        pub fn send(&self, v: T) -> (r: Result<(), SendError>) { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn select_any() -> (r: usize) { unimplemented!() }
impl From<io::Error> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: io::Error) -> (r: Self) { unimplemented!() }
}
pub assume_specification<T, E, U>[ Result::<T, E>::and ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>)
    where T: core::marker::Destruct, E: core::marker::Destruct, U: core::marker::Destruct,
    ensures r == (match a { Ok(_) => b, Err(e) => Err::<U, E>(e) });

//@item libshpool/src/daemon/shell.rs :: struct ClientConnection
//@item libshpool/src/daemon/shell.rs :: enum ClientConnectionStatus
//@item libshpool/src/daemon/shell.rs :: enum ClientConnectionMsg
//@item libshpool/src/daemon/shell.rs :: struct ResizeCmd

/// the exit status of the session's shell, set once by whoever reaps it
#[verifier::external_body]
pub struct ExitNotifier { _p: () }
impl ExitNotifier {
    pub uninterp spec fn status(&self) -> i32;
    /// the shell has been reaped
    pub uninterp spec fn over(&self) -> bool;
    #[verifier::external_body]
    pub fn wait(&self, t: Option<time::Duration>) -> (r: Option<i32>) ensures r is Some ==> r == Some(self.status()) && self.over() { unimplemented!() }
}
//@item libshpool/src/daemon/shell.rs :: struct ShellToClientArgs

/// a session's record of the screen
#[verifier::external_body]
pub struct Spool { _p: () }
/// what a spool that was fed these bytes restores onto a terminal of this size
pub uninterp spec fn restored(fed: Seq<u8>, size: TtySize) -> Seq<u8>;
impl Spool {
    pub uninterp spec fn fed(&self) -> Seq<u8>;
    pub uninterp spec fn size(&self) -> TtySize;
    #[verifier::external_body]
    pub fn resize(&mut self, s: TtySize) ensures final(self).fed() == old(self).fed(), final(self).size() == s { unimplemented!() }
    #[verifier::external_body]
    pub fn restore_buffer(&self) -> (r: Vec<u8>) ensures r@ == restored(self.fed(), self.size()) { unimplemented!() }
    #[verifier::external_body]
    pub fn process(&mut self, b: &[u8]) ensures final(self).fed() == old(self).fed() + b@, final(self).size() == old(self).size() { unimplemented!() }
}
pub mod session_restore {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn new(config: Config, size: &TtySize, lines: usize) -> (r: Spool) ensures r.fed() == Seq::<u8>::empty(), r.size() == *size { unimplemented!() }
}
#[verifier::external_body]
pub struct Config { _p: () }
#[verifier::external_body]
pub struct TermDb { _p: () }
#[verifier::external_body]
pub struct DailyMessenger { _p: () }
impl DailyMessenger {
    /// the message of the day goes out as data frames (P21)
    #[verifier::external_body]
    pub fn dump<W>(&self, w: &mut io::BufWriter<W>, term_db: &TermDb) -> (r: anyhow::Result<()>)
        ensures final(w).id() == old(w).id(), final(w).statuses() == old(w).statuses(), old(w).data().is_prefix_of(final(w).data()),
            final(w).switches() == old(w).switches(), final(w).shown() == old(w).shown(),
    { unimplemented!() }
}
/// slice::chunks
pub struct ChunksOf<'a> { pub rest: &'a [u8], pub n: usize }
pub fn chunks_of<'a>(b: &'a [u8], n: usize) -> (r: ChunksOf<'a>) requires n > 0 ensures r.rest@ == b@, r.n == n { ChunksOf { rest: b, n } }
impl<'a> ChunksOf<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures
            final(self).n == old(self).n,
            r is None <==> old(self).rest@.len() == 0,
            r is None ==> final(self).rest@ == old(self).rest@,
            r is Some ==> ({ let k = if old(self).rest@.len() < old(self).n { old(self).rest@.len() as int } else { old(self).n as int };
                r->Some_0@ == old(self).rest@.take(k) && final(self).rest@ == old(self).rest@.skip(k) }),
    { unimplemented!() }
}
pub fn same<'a>(c: ChunksOf<'a>) -> (r: ChunksOf<'a>) ensures r == c { c }

pub open spec fn le_bytes(n: i32) -> Seq<u8> { seq![((n as u32) & 0xff) as u8, (((n as u32) >> 8) & 0xff) as u8, (((n as u32) >> 16) & 0xff) as u8, (((n as u32) >> 24) & 0xff) as u8] }
/// i32::to_le_bytes
#[verifier::external_body]
pub fn to_le_bytes(n: i32) -> (r: [u8; 4]) ensures r@ == le_bytes(n) { unimplemented!() }

// ---- what the history of messages means
/// the client that is attached
pub open spec fn attached(log: Seq<Ev>) -> Option<int>
    decreases log.len()
{
    if log.len() == 0 { None } else { match log.last() { Ev::Joined(id, _) => Some(id), Ev::Left => None, _ => attached(log.drop_last()) } }
}
/// the exit status the shell is known to have ended with
pub open spec fn ended(log: Seq<Ev>) -> Option<i32>
    decreases log.len()
{
    if log.len() == 0 { None } else { match log.last() { Ev::Ended(s) => Some(s), _ => ended(log.drop_last()) } }
}
/// what the client that is attached is to be told of the variables: all that fits
pub open spec fn due(log: Seq<Ev>) -> Seq<Seq<u8>>
    decreases log.len()
{
    if log.len() == 0 { Seq::empty() } else { match log.last() {
        Ev::Joined(_, _) => Seq::empty(),
        Ev::Moved(Some(b)) => if b.len() <= consts::BUF_SIZE { due(log.drop_last()).push(b) } else { due(log.drop_last()) },
        _ => due(log.drop_last()),
    } }
}
/// the size the client last told
pub open spec fn latest(log: Seq<Ev>) -> Option<TtySize>
    decreases log.len()
{
    if log.len() == 0 { None } else { match log.last() { Ev::Joined(_, s) => Some(s), Ev::Sized(s) => Some(s), _ => latest(log.drop_last()) } }
}
/// a client that is replaced or detached is told 0, once; nobody is told anything else while the shell runs
pub open spec fn parted(log: Seq<Ev>) -> Seq<(int, i32)>
    decreases log.len()
{
    if log.len() == 0 { Seq::empty() } else {
        let p = log.drop_last();
        match log.last() {
            Ev::Joined(_, _) | Ev::Left => match attached(p) { Some(id) if !breaks(id) => parted(p).push((id, 0)), _ => parted(p) },
            _ => parted(p),
        }
    }
}
} // verus!
