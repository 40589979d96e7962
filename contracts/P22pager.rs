// The pager: the terminal shows what it writes and it gets what the user types, until it exits or the user goes.
//@include prelude/std.rs
macro_rules! eprintln { ($($t:tt)*) => { () } }
verus! {
global size_of usize == 8;
use std::sync::Arc;
pub mod consts {
    use vstd::prelude::*;
    use super::Duration;
//@item libshpool/src/consts.rs :: const BUF_SIZE
    pub const HEARTBEAT_DURATION: Duration = Duration { ns: 0 };
}
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u128 }
impl Duration { pub fn from_millis(n: u64) -> (r: Duration) ensures r.ns == n * 1_000_000 { Duration { ns: n as u128 * 1_000_000 } } }
#[derive(PartialEq, Eq)]
pub enum Sig { SIGTERM, SIGKILL, SIGHUP, SIGINT }
pub struct Dv {
    /// what the pager wrote and was read, what of it the client was sent, what the user typed, what of it the pager was given
    pub written: Seq<u8>,
    pub shown: Seq<u8>,
    pub typed: Seq<u8>,
    pub fed: Seq<u8>,
    /// the pager was seen to have exited; nothing it wrote is left; the client has gone, or its connection broke; the pager no longer takes input
    pub exited: bool,
    pub drained: bool,
    pub gone: bool,
    pub broke: bool,
    pub refused: bool,
    /// which of the two can be read without waiting
    pub rd0: bool,
    pub rd1: bool,
    /// this is the process the pager is to run in, and nothing of the daemon's is open in it
    pub child: bool,
    pub closed: bool,
    /// the size its terminal was given
    pub size: Option<TtySize>,
    /// the thread that notices the exit, the one that handles changes of size
    pub helpers: nat,
    /// the session knows whom to tell of changes of size
    pub registered: bool,
    pub signals: Seq<Sig>,
}
#[verifier::external_body]
pub struct World { _p: () }
impl World { pub uninterp spec fn v(&self) -> Dv; }
/// the client told this size, last at some moment of the call
pub uninterp spec fn told(s: TtySize) -> bool;
//@item shpool-protocol/src/lib.rs :: struct TtySize
impl Clone for TtySize { fn clone(&self) -> (r: TtySize) ensures r == *self { TtySize { rows: self.rows, cols: self.cols, xpixel: self.xpixel, ypixel: self.ypixel } } }
#[derive(Clone, Copy)]
pub struct RawFd { pub fd: i32 }
impl TtySize {
    #[verifier::external_body]
    pub fn set_fd(&self, w: &mut World, fd: RawFd) -> (r: anyhow::Result<()>) ensures final(w).v() == (Dv { size: Some(*self), ..old(w).v() }) { unimplemented!() }
}
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    pub enum ErrorKind { BrokenPipe, WouldBlock, ConnectionReset, Other }
    impl Error {
        pub uninterp spec fn k(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
    }
    impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, o: &ErrorKind) -> bool { unimplemented!() } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for ErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o } }
}
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) ensures !anyhow::marked(r) { unimplemented!() } }
//@item libshpool/src/daemon/pager.rs :: enum PagerError
impl From<PagerError> for anyhow::Error { #[verifier::external_body] fn from(e: PagerError) -> (r: Self) ensures anyhow::marked(r) { unimplemented!() } }

#[verifier::external_body]
pub fn mk_hangup() -> (r: anyhow::Error) ensures anyhow::marked(r) { unimplemented!() }

// ---- the client
#[verifier::external_body]
pub struct UnixStream { _p: () }
#[derive(Clone, Copy)]
pub struct Fd { pub which: int_ }
pub type int_ = u8;
impl UnixStream {
    #[verifier::external_body]
    pub fn try_clone(&self) -> (r: io::Result<UnixStream>) ensures r is Err ==> !anyhow::marked(r->Err_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fd(&self) -> (r: Fd) ensures r.which == 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut World) -> (r: io::Result<()>)
        ensures r is Ok ==> final(w).v() == old(w).v(), r is Err ==> !anyhow::marked(r->Err_0) && final(w).v() == (Dv { broke: old(w).v().broke || r->Err_0.k() is BrokenPipe, ..old(w).v() })
    { unimplemented!() }
    /// what the user types comes as it is
    #[verifier::external_body]
    pub fn read(&mut self, w: &mut World, b: &mut Vec<u8>) -> (r: io::Result<usize>)
        requires old(w).v().rd1, old(b)@.len() > 0
        ensures
            final(b)@.len() == old(b)@.len(), r is Err ==> !anyhow::marked(r->Err_0) && final(w).v() == old(w).v(),
            r is Ok ==> r->Ok_0 <= final(b)@.len() && final(w).v() == (Dv { typed: old(w).v().typed + final(b)@.take(r->Ok_0 as int), gone: old(w).v().gone || r->Ok_0 == 0, rd1: false, ..old(w).v() }),
    { unimplemented!() }
}
#[derive(Copy, Clone)]
//@item shpool-protocol/src/lib.rs :: enum ChunkKind
//@item shpool-protocol/src/lib.rs :: struct Chunk
impl<'data> Chunk<'data> {
    /// proved for P01; no frame may be longer than the client's buffer
    #[verifier::external_body]
    pub fn write_to(&self, w: &mut World, c: &mut UnixStream) -> (r: io::Result<()>)
        requires self.buf@.len() <= consts::BUF_SIZE, self.kind is Data || self.kind is Heartbeat
        ensures
            r is Ok ==> final(w).v() == (Dv { shown: if self.kind is Data { old(w).v().shown + self.buf@ } else { old(w).v().shown }, ..old(w).v() }),
            r is Err ==> !anyhow::marked(r->Err_0) && final(w).v() == (Dv { broke: old(w).v().broke || r->Err_0.k() is BrokenPipe, shown: final(w).v().shown, ..old(w).v() }),
    { unimplemented!() }
}

// ---- the pager
pub uninterp spec fn stripped(s: Seq<char>) -> Seq<u8>;
pub mod strip_ansi_escapes { use vstd::prelude::*; #[verifier::external_body] pub fn strip(s: &str) -> (r: Vec<u8>) ensures r@ == super::stripped(s@) { unimplemented!() } }
pub struct PathTo { pub content: Ghost<Seq<u8>> }
pub mod tempfile {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct NamedTempFile { _p: () }
    impl NamedTempFile {
        pub uninterp spec fn content(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn with_prefix(s: &str) -> (r: io::Result<NamedTempFile>) ensures r is Ok ==> r->Ok_0.content() == Seq::<u8>::empty(), r is Err ==> !anyhow::marked(r->Err_0) { unimplemented!() }
        #[verifier::external_body]
        pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>) ensures r is Ok ==> final(self).content() == old(self).content() + b@, r is Err ==> !anyhow::marked(r->Err_0) { unimplemented!() }
        #[verifier::external_body]
        pub fn os_path(&self) -> (r: PathTo) ensures r.content@ == self.content() { unimplemented!() }
    }
}
#[verifier::external_body]
pub struct Envs { _p: () }
impl Envs { pub uninterp spec fn all(&self) -> Seq<int>; #[verifier::external_body] pub fn to_vec(&self) -> (r: Envs) ensures r.all() == self.all() { unimplemented!() } }
pub mod process {
    use vstd::prelude::*;
    use super::*;
    pub struct Cv { pub bin: Seq<char>, pub args: Seq<Seq<u8>>, pub own_env: bool, pub env: Seq<int> }
    #[verifier::external_body]
    pub struct Command { _p: () }
    impl Command {
        pub uninterp spec fn v(&self) -> Cv;
        #[verifier::external_body]
        pub fn new(b: &String) -> (r: Command) ensures r.v() == (Cv { bin: b@, args: Seq::empty(), own_env: true, env: Seq::empty() }) { unimplemented!() }
        #[verifier::external_body]
        pub fn env_clear(&mut self) ensures final(self).v() == (Cv { own_env: false, env: Seq::empty(), ..old(self).v() }) { unimplemented!() }
        #[verifier::external_body]
        pub fn envs(&mut self, e: Envs) ensures final(self).v() == (Cv { env: old(self).v().env + e.all(), ..old(self).v() }) { unimplemented!() }
        pub fn only_envs(&mut self, e: Envs) ensures final(self).v() == (Cv { own_env: false, env: Seq::<int>::empty() + e.all(), ..old(self).v() }) { self.env_clear(); self.envs(e); }
        #[verifier::external_body]
        pub fn arg(&mut self, p: PathTo) ensures final(self).v() == (Cv { args: old(self).v().args.push(p.content@), ..old(self).v() }) { unimplemented!() }
        /// the program asked for, with the message to show and the session's environment, and nothing of the daemon's
        #[verifier::external_body]
        pub fn exec(&mut self, w: &World, want: Ghost<Cv>) -> (r: io::Error)
            requires
                w.v().child, w.v().closed, old(self).v().bin == want@.bin, !old(self).v().own_env, old(self).v().env =~= want@.env,
                old(self).v().args =~= want@.args,
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn exit(c: i32, w: &World) -> ! requires w.v().child { unimplemented!() }
}
pub mod common { use vstd::prelude::*; use super::*; #[verifier::external_body] pub fn close_inherited_fds(w: &mut World) requires old(w).v().child ensures final(w).v() == (Dv { closed: true, ..old(w).v() }) { unimplemented!() } }
#[verifier::external_body]
pub struct Slave { _p: () }
#[verifier::external_body]
pub struct Master { _p: () }
#[verifier::external_body]
pub struct PtyError { _p: () }
impl From<PtyError> for anyhow::Error { #[verifier::external_body] fn from(e: PtyError) -> (r: Self) ensures !anyhow::marked(r) { unimplemented!() } }
impl Clone for Master { #[verifier::external_body] fn clone(&self) -> (r: Master) { unimplemented!() } }
impl Master {
    #[verifier::external_body]
    pub fn raw_fd(&self) -> (r: RawFd) { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_fd(&self) -> (r: Fd) ensures r.which == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, w: &mut World, b: &mut Vec<u8>) -> (r: io::Result<usize>)
        requires old(w).v().rd0, old(b)@.len() > 0
        ensures
            final(b)@.len() == old(b)@.len(), r is Err ==> !anyhow::marked(r->Err_0) && final(w).v() == old(w).v(),
            r is Ok ==> r->Ok_0 <= final(b)@.len() && final(w).v() == (Dv { written: old(w).v().written + final(b)@.take(r->Ok_0 as int), drained: old(w).v().drained || r->Ok_0 == 0, rd0: false, ..old(w).v() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, w: &mut World, b: &[u8]) -> (r: io::Result<()>)
        ensures
            r is Ok ==> final(w).v() == (Dv { fed: old(w).v().fed + b@, ..old(w).v() }),
            r is Err ==> final(w).v() == (Dv { fed: final(w).v().fed, refused: true, ..old(w).v() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self, w: &mut World) -> (r: io::Result<()>)
        ensures r is Ok ==> final(w).v() == old(w).v(), r is Err ==> final(w).v() == (Dv { refused: true, ..old(w).v() })
    { unimplemented!() }
}
pub mod shpool_pty { pub mod fork {
    use vstd::prelude::*;
    use super::super::*;
    pub enum Fork { Parent(i32, Master), Child(Slave) }
    impl Clone for Fork { #[verifier::external_body] fn clone(&self) -> (r: Fork) { unimplemented!() } }
    impl Fork {
        #[verifier::external_body]
        pub fn from_ptmx(w: &mut World) -> (r: Result<Fork, PtyError>)
            requires !old(w).v().child
            ensures r is Ok ==> final(w).v() == (Dv { child: r->Ok_0 is Child, ..old(w).v() }), r is Err ==> final(w).v() == old(w).v() && !anyhow::marked(r->Err_0)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_child(&self) -> (r: Result<Slave, PtyError>) ensures (r is Ok) == (*self is Child) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_parent(&self) -> (r: Result<Master, PtyError>) ensures (r is Ok) == (*self is Parent), r is Err ==> !anyhow::marked(r->Err_0) { unimplemented!() }
    }
} }
#[derive(Clone, Copy)]
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
/// only the thread that waits for the pager raises it, and nobody lowers it
#[verifier::external_body]
pub struct Flag { _p: () }
impl Flag {
    #[verifier::external_body]
    pub fn new(b: bool) -> (r: Flag) requires !b { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, w: &mut World, o: Ordering) -> (r: bool) ensures final(w).v() == (Dv { exited: old(w).v().exited || r, ..old(w).v() }), old(w).v().exited ==> r { unimplemented!() }
}
pub mod thread {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn spawn(w: &mut World) ensures final(w).v() == (Dv { helpers: old(w).v().helpers + 1, ..old(w).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn sleep(d: Duration) { unimplemented!() }
}
pub struct SizeLock { pub _p: () }
impl SizeLock {
    #[verifier::external_body]
    pub fn new(s: TtySize) -> (r: SizeLock) requires told(s) { unimplemented!() }
    /// every size put in here was told by the client (the thread below)
    #[verifier::external_body]
    pub fn lock(&self) -> (r: TtySize) ensures told(r) { unimplemented!() }
}
#[verifier::external_body]
pub struct Instant { _p: () }
impl Clone for Instant { #[verifier::external_body] fn clone(&self) -> Instant { unimplemented!() } }
impl Copy for Instant {}
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { unimplemented!() }
    #[verifier::external_body]
    pub fn checked_duration_since(&self, d: Instant) -> Option<Duration> { unimplemented!() }
}
pub mod poll {
    use vstd::prelude::*;
    use super::*;
    pub struct PollFlags;
    impl PollFlags { pub const POLLIN: PollFlags = PollFlags; }
    #[verifier::external_body]
    pub struct PollFd { _p: () }
    impl PollFd {
        pub uninterp spec fn which(&self) -> u8;
        pub uninterp spec fn ready(&self) -> bool;
        #[verifier::external_body]
        pub fn new(fd: Fd, f: PollFlags) -> (r: PollFd) ensures r.which() == fd.which { unimplemented!() }
        #[verifier::external_body]
        pub fn any(&self) -> (r: Option<bool>) ensures r == Some(self.ready()) { unimplemented!() }
    }
    /// a pty that nothing can be read from after the pager has exited has nothing of it left
    #[verifier::external_body]
    pub fn poll(fds: &mut [PollFd; 2], w: &mut World, ms: u16) -> (r: io::Result<i32>)
        ensures
            final(fds)@[0].which() == old(fds)@[0].which(), final(fds)@[1].which() == old(fds)@[1].which(),
            r is Err ==> !anyhow::marked(r->Err_0) && final(w).v() == old(w).v(),
            r is Ok ==> ({
                let (a, b) = (final(fds)@[0], final(fds)@[1]);
                &&& r->Ok_0 == (if a.ready() { 1int } else { 0 }) + (if b.ready() { 1int } else { 0 })
                &&& final(w).v() == (Dv {
                    rd0: (a.which() == 0 && a.ready()) || (b.which() == 0 && b.ready()), rd1: (a.which() == 1 && a.ready()) || (b.which() == 1 && b.ready()),
                    drained: final(w).v().drained, ..old(w).v() })
                &&& old(w).v().drained ==> final(w).v().drained
                &&& old(w).v().exited && ((a.which() == 0 && !a.ready()) || (b.which() == 0 && !b.ready())) ==> final(w).v().drained
            }),
    { unimplemented!() }
}
pub mod crossbeam_channel { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub struct Tx { _p: () }
    #[verifier::external_body] pub struct Rx { _p: () }
    #[verifier::external_body] pub fn bounded(n: usize) -> (r: (Tx, Rx)) { unimplemented!() }
}
pub struct PagerCtl { pub tty_size_change: crossbeam_channel::Tx, pub tty_size_change_ack: crossbeam_channel::Rx }
/// where the session keeps whom to tell of changes of size
#[verifier::external_body]
pub struct CtlSlot { _p: () }
impl CtlSlot {
    #[verifier::external_body]
    pub fn held<'a>(&self, w: &'a mut World) -> (r: &'a mut Option<PagerCtl>)
        ensures (*r is Some) == old(w).v().registered, final(w).v() == (Dv { registered: *final(r) is Some, ..old(w).v() })
    { unimplemented!() }
}
//@item libshpool/src/daemon/pager.rs :: struct Pager
//@item libshpool/src/daemon/pager.rs :: struct PagerCltGuard sub `Arc<Mutex<Option<PagerCtl>>>` => `Arc<CtlSlot>`
//@item libshpool/src/daemon/pager.rs :: struct PagerProcGuard sub `AtomicBool` => `Flag`
//@item libshpool/src/daemon/pager.rs :: const POLL_MS

impl Pager {
//@fn libshpool/src/daemon/pager.rs :: Pager :: display
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
//@andthen
//@elide `let waitable_child = fork.clone(); thread::spawn (` => `w`
//@elide `info!("spawning pager size change listener"); thread::spawn (` => `w`
//@sub `&self,` => `&self, w: &mut World,`
//@sub `Arc<Mutex<Option<PagerCtl>>>` => `Arc<CtlSlot>`
//@sub `&[(OsString, OsString)]` => `&Envs`
//@sub `ctl_slot.lock()` => `ctl_slot.held(w)`
//@sub `.env_clear().envs(` => `.only_envs(`
//@sub `.path().as_os_str()` => `.os_path()`
//@sub `from_ptmx()` => `from_ptmx(w)`
//@sub `close_inherited_fds()` => `close_inherited_fds(w)`
//@sub `.exec()` => `.exec(w, Ghost(process::Cv { bin: self.pager_bin@, args: seq![stripped(msg@)], own_env: false, env: shell_env.all() }))`
//@sub `std::process::exit(1)` => `process::exit(1, w)`
//@sub `AtomicBool::new` => `Flag::new`
//@sub `Arc::new(Mutex::new(init_tty_size.clone()))` => `Arc::new(SizeLock::new(init_tty_size.clone()))`
//@sub `.set_fd(` => `.set_fd(w, `
//@sub `.load(` => `.load(w, `
//@sub `poll::poll(&mut poll_fds,` => `poll::poll(&mut poll_fds, w,`
//@sub `.read(&mut buf)` => `.read(w, &mut buf)`
//@sub `.write_to(` => `.write_to(w, `
//@sub `client_stream.flush()` => `client_stream.flush(w)`
//@sub `pty_master.write_all(` => `pty_master.write_all(w, `
//@sub `pty_master.flush()` => `pty_master.flush(w)`
//@sub `assert!(nready > 0);` => ``
//@sub `Err(PagerError::ClientHangup)` => `Err(mk_hangup())`
//@spec
    requires
        !old(w).v().child, !old(w).v().broke, !old(w).v().gone, !old(w).v().drained, !old(w).v().exited, !old(w).v().refused, old(w).v().helpers == 0,
        old(w).v().written.len() == 0 && old(w).v().shown.len() == 0 && old(w).v().typed.len() == 0 && old(w).v().fed.len() == 0, told($4),
    ensures
        !final(w).v().child,
        // it goes on until everything the pager wrote has been shown, or the user has gone
        r is Ok ==> final(w).v().shown == final(w).v().written && (final(w).v().drained || final(w).v().gone || final(w).v().refused)
            && told(r->Ok_0) && !final(w).v().broke && (final(w).v().fed == final(w).v().typed || final(w).v().refused),
        r is Err ==> anyhow::marked(r->Err_0) == final(w).v().broke,
//@at loopbefore 0
    // it starts with the terminal the client has, and somebody looks after its exit and changes of size
    assert(w.v().size == Some($4) && w.v().helpers == 2 && w.v().registered && !w.v().child);
//@loop 0 kind=loop
    invariant
        !w.v().child, !w.v().broke, !w.v().gone, !w.v().refused, buf@.len() == consts::BUF_SIZE,
        w.v().shown == w.v().written, w.v().fed == w.v().typed,
//@endfn
}

impl PagerCltGuard {
//@fn libshpool/src/daemon/pager.rs :: PagerCltGuard :: drop
//@sub `(&mut self)` => `(&mut self, w: &mut World)`
//@sub `self.ctl_slot.lock()` => `self.ctl_slot.held(w)`
//@spec
    // nobody waits for a pager that is gone to handle a change of size
    ensures final(w).v() == (Dv { registered: false, ..old(w).v() })
//@endfn
}
pub mod unistd { #[derive(Clone, Copy)] pub struct Pid { pub pid: i32 } impl Pid { pub fn from_raw(p: i32) -> (r: Pid) ensures r.pid == p { Pid { pid: p } } } }
pub uninterp spec fn pager() -> i32;
pub mod signal {
    use vstd::prelude::*;
    use super::*;
    pub use super::Sig as Signal;
    #[verifier::external_body]
    pub struct Errno { _p: () }
    impl From<Errno> for anyhow::Error { #[verifier::external_body] fn from(e: Errno) -> (r: Self) { unimplemented!() } }
    #[verifier::external_body]
    pub fn kill(w: &mut World, p: unistd::Pid, s: Option<Signal>) -> (r: Result<(), Errno>)
        // nobody but the pager is signalled
        requires p.pid == pager(), s is Some
        ensures r is Ok ==> final(w).v() == (Dv { signals: old(w).v().signals.push(s->0), ..old(w).v() }), r is Err ==> final(w).v() == old(w).v()
    { unimplemented!() }
}
pub open spec fn two(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * two(n - 1) } }
impl<'a> PagerProcGuard<'a> {
    pub open spec fn ours(&self) -> bool { *self.pager_proc is Parent && self.pager_proc->Parent_0 == pager() }
//@fn libshpool/src/daemon/pager.rs :: PagerProcGuard :: drop
//@sub `(&mut self)` => `(&mut self, w: &mut World)`
//@sub `.load(` => `.load(w, `
//@sub `self.kill()` => `self.kill(w)`
//@spec
    requires old(self).ours(), old(w).v().signals.len() == 0
    ensures
        // a pager that was seen to have exited is left alone: its number may be somebody else's by now
        old(w).v().exited ==> final(w).v().signals == old(w).v().signals,
//@endfn
//@fn libshpool/src/daemon/pager.rs :: PagerProcGuard :: kill
//@ret r
//@sub `(&self)` => `(&self, w: &mut World)`
//@sub `.load(` => `.load(w, `
//@sub `signal::kill(` => `signal::kill(w, `
//@bind MS `let mut ? = 10`
//@spec
    requires self.ours(), old(w).v().signals.len() == 0
    ensures
        r is Ok ==> final(w).v().signals.len() > 0 && final(w).v().signals[0] is SIGTERM
            && (final(w).v().exited || final(w).v().signals.last() is SIGKILL),
//@at loopbefore 0
    let ghost s0 = w.v().signals;
    assert(two(0) == 1 && two(1) == 2 && two(2) == 4 && two(3) == 8 && two(4) == 16 && two(5) == 32 && two(6) == 64 && two(7) == 128) by { reveal_with_fuel(two, 9); }
//@loop 0 iter=it kind=for
    invariant
        s0 == w.v().signals, s0.len() == 1, s0[0] is SIGTERM, $MS == 10 * two(it.index()), 0 <= it.index() <= 7, $MS <= 1280,
        two(0) == 1 && two(1) == 2 && two(2) == 4 && two(3) == 8 && two(4) == 16 && two(5) == 32 && two(6) == 64 && two(7) == 128,
//@endfn
}
// ---- the helper threads
pub struct Hv { pub waited: bool, pub raised: bool, pub got: nat, pub acked: nat, pub last: Option<TtySize>, pub applied: Option<TtySize>, pub kept: Option<TtySize> }
#[verifier::external_body]
pub struct Helper { _p: () }
impl Helper { pub uninterp spec fn v(&self) -> Hv; }
#[verifier::external_body]
pub struct Waitable { _p: () }
impl Waitable { #[verifier::external_body] pub fn wait_for_exit(&self, h: &mut Helper) -> (r: Result<(i32, Option<i32>), io::Error>) ensures final(h).v() == (Hv { waited: true, ..old(h).v() }) { unimplemented!() } }
#[verifier::external_body]
pub struct Raise { _p: () }
impl Raise { #[verifier::external_body] pub fn store(&self, h: &mut Helper, v: bool, o: Ordering) requires v ==> old(h).v().waited ensures final(h).v() == (Hv { raised: v, ..old(h).v() }) { unimplemented!() } }

//@closure libshpool/src/daemon/pager.rs :: display :: `let waitable_child = fork.clone(); thread::spawn(move ||`
//@sub `let _s = span!(Level::INFO, "pager_exit_monitor").entered();` => ``
//@sub `.wait_for_exit()` => `.wait_for_exit(h)`
//@sub `.store(` => `.store(h, `
//@sig
fn exit_monitor(h: &mut Helper, waitable_child: Waitable, pager_exited_ref: Raise)
//@spec
    requires !old(h).v().raised
    // the pager's end is noticed, however it ended, and not before
    ensures final(h).v().waited && final(h).v().raised
//@endfn
#[verifier::external_body]
pub struct SizeRx { _p: () }
pub struct Closed;
impl SizeRx {
    /// a change of size that is not yet dealt with is not overtaken by the next
    #[verifier::external_body]
    pub fn recv(&self, h: &mut Helper) -> (r: Result<TtySize, Closed>)
        requires old(h).v().got == old(h).v().acked, old(h).v().applied == old(h).v().last, old(h).v().kept == old(h).v().last
        ensures r is Ok ==> final(h).v() == (Hv { got: old(h).v().got + 1, last: Some(r->Ok_0), ..old(h).v() }), r is Err ==> final(h).v() == old(h).v()
    { unimplemented!() }
}
#[verifier::external_body]
pub struct AckTx { _p: () }
impl AckTx {
    #[verifier::external_body]
    pub fn send(&self, h: &mut Helper, v: ()) -> (r: Result<(), Closed>)
        requires old(h).v().applied == old(h).v().last, old(h).v().kept == old(h).v().last
        ensures r is Ok ==> final(h).v() == (Hv { acked: old(h).v().acked + 1, ..old(h).v() }), r is Err ==> final(h).v() == old(h).v()
    { unimplemented!() }
}
#[verifier::external_body]
pub struct KeptSize { _p: () }
impl KeptSize {
    #[verifier::external_body]
    pub fn held<'a>(&self, h: &'a mut Helper) -> (r: &'a mut TtySize)
        ensures final(h).v() == (Hv { kept: Some(*final(r)), ..old(h).v() })
    { unimplemented!() }
}
impl TtySize {
    #[verifier::external_body]
    pub fn apply(&self, h: &mut Helper, fd: RawFd) -> (r: anyhow::Result<()>) ensures final(h).v() == (Hv { applied: Some(*self), ..old(h).v() }) { unimplemented!() }
}
//@closure libshpool/src/daemon/pager.rs :: display :: `info!("spawning pager size change listener"); thread::spawn(move ||`
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `let _s = span!(Level::INFO, "pager_size_change").entered();` => ``
//@sub `.recv()` => `.recv(h)`
//@sub `.set_fd(` => `.apply(h, `
//@sub `.lock()` => `.held(h)`
//@sub `.send(` => `.send(h, `
//@sig
fn size_changes(h: &mut Helper, tty_size_change_rx: SizeRx, tty_size_change_ack_tx: AckTx, tty_size_ref: KeptSize, pty_master_fd: RawFd)
//@spec
    requires old(h).v() == (Hv { waited: false, raised: false, got: 0, acked: 0, last: None, applied: None, kept: None })
    // the pager's terminal, and what is told the session afterwards, have the size told last
    ensures final(h).v().applied == final(h).v().last && final(h).v().kept == final(h).v().last
//@loop 0 kind=while
    invariant_except_break
        h.v().got == h.v().acked, h.v().applied == h.v().last, h.v().kept == h.v().last,
    ensures
        h.v().applied == h.v().last, h.v().kept == h.v().last,
//@endfn
}
fn main() {}
