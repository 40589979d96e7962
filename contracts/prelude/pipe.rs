// The attach command: what is typed goes to the daemon, what comes from it is shown, and the exit status is reported.
macro_rules! sleep_unless { ($w:expr, $total:expr, || $b:block, $($s:tt)*) => { { let __f = $w.pause($total); let __r = $b; $w.woke(__f, __r); __r } } }
verus! {
pub open spec fn MAX_WAIT() -> nat { 100_000_000 }
/// client side of one attachment
pub struct Pv {
    /// read from the terminal, given to the daemon
    pub typed: Seq<u8>,
    pub told: Seq<u8>,
    pub stdin_eof: bool,
    /// the payloads of the data frames that came, and what went to the terminal
    pub came: Seq<u8>,
    pub shown: Seq<u8>,
    /// the frame that came last, and whether it makes this client go
    pub last: Option<(ChunkKind, Seq<u8>)>,
    pub leave: bool,
    /// news of a variable came which nobody was asked about yet
    pub unasked: bool,
    /// threads seen to have finished; the output side was given this long to catch up
    pub in_done: bool,
    pub out_done: bool,
    pub waited: nat,
    /// the terminal is as it was
    pub restored: bool,
    /// what the slot held when it was looked at last
    pub res: Option<PipeBytesResult>,
}
#[verifier::external_body]
pub struct World { _p: () }
impl World {
    pub uninterp spec fn v(&self) -> Pv;
    #[verifier::external_body]
    pub fn pause(&mut self, d: Duration) -> (full: bool)
        ensures final(self).v() == (Pv { waited: if full { old(self).v().waited + d.ns as nat } else { old(self).v().waited }, ..old(self).v() })
    { unimplemented!() }
    /// common::sleep_unless: it ends when its condition holds, or the time is over
    #[verifier::external_body]
    pub fn woke(&mut self, full: bool, stopped: bool)
        ensures full || stopped, final(self).v() == old(self).v()
    { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u128 }
pub mod time { pub use super::Duration; }
pub mod thread {
    use vstd::prelude::*;
    use super::Duration;
    #[verifier::external_body]
    pub fn sleep(d: Duration) { unimplemented!() }
}
pub mod consts {
    use super::*;
//@item libshpool/src/consts.rs :: const BUF_SIZE
//@item libshpool/src/consts.rs :: const JOIN_POLL_DURATION sub `time::Duration::from_millis(` => `whole_ms!(`
}
//@item libshpool/src/protocol.rs :: const MAX_DETACH_WAIT_DUR sub `time::Duration::from_millis(` => `whole_ms!(`
//@item libshpool/src/protocol.rs :: const DETACH_BACKOFF_INITIAL_DUR sub `time::Duration::from_millis(` => `whole_ms!(`
//@item libshpool/src/protocol.rs :: const DETACH_BACKOFF_MAX_STEP_DUR sub `time::Duration::from_millis(` => `whole_ms!(`
//@item libshpool/src/protocol.rs :: const STDIN_READ_POLL_MS
//@item shpool-protocol/src/lib.rs :: enum ChunkKind
#[verifier::external_body]
pub struct MaybeSwitch { _p: () }
pub enum PipeBytesResult { Exit(i32), MaybeSwitch(MaybeSwitch) }
#[derive(Clone, Copy)]
pub struct Fd { pub fd: i32 }
pub mod poll {
    use vstd::prelude::*;
    use super::{Fd, io};
    pub struct PollFlags;
    impl PollFlags { pub const POLLIN: PollFlags = PollFlags; }
    pub struct PollFd { pub fd: Fd }
    impl PollFd { pub fn new(fd: Fd, f: PollFlags) -> PollFd { PollFd { fd } } }
    #[verifier::external_body]
    pub fn poll(fds: &mut [PollFd; 1], ms: u16) -> (r: io::Result<i32>) { unimplemented!() }
}
pub proof fn lemma_le_injective(a: i32, b: i32)
    requires le(a) == le(b)
    ensures a == b
{
    reveal(le32);
    let (x, y) = (a as u32, b as u32);
    assert(le(a)[0] == le(b)[0] && le(a)[1] == le(b)[1] && le(a)[2] == le(b)[2] && le(a)[3] == le(b)[3]);
    assert(x == y) by (bit_vector)
        requires (x & 0xff) as u8 == (y & 0xff) as u8, ((x >> 8) & 0xff) as u8 == ((y >> 8) & 0xff) as u8,
            ((x >> 16) & 0xff) as u8 == ((y >> 16) & 0xff) as u8, ((x >> 24) & 0xff) as u8 == ((y >> 24) & 0xff) as u8;
    assert(a == b) by (bit_vector) requires a as u32 == b as u32;
}
pub open spec fn le(s: i32) -> Seq<u8> { le32(s as u32) }
/// the exit status the daemon told
pub uninterp spec fn exit_of(p: Seq<u8>) -> i32;
pub uninterp spec fn switch_of(p: Seq<u8>) -> MaybeSwitch;

// ---- the user's end
#[verifier::external_body]
pub struct Stdin { _p: () }
impl Stdin {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Stdin) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_fd(&self) -> (r: Fd) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, w: &mut World, b: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures
            final(b)@.len() == old(b)@.len(),
            r is Ok ==> r->Ok_0 <= old(b)@.len() && final(w).v() == (Pv { typed: old(w).v().typed + final(b)@.take(r->Ok_0 as int), stdin_eof: r->Ok_0 == 0 && old(b)@.len() > 0, ..old(w).v() }),
            r is Err ==> final(w).v() == old(w).v(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn stdin() -> Stdin { unimplemented!() }
#[verifier::external_body]
pub struct Stdout { _p: () }
impl Stdout {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Stdout) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, w: &mut World, b: &[u8]) -> (r: io::Result<()>)
        requires P05() ==> old(w).v().shown + b@ == old(w).v().came
        ensures final(w).v() == (Pv { shown: final(w).v().shown, ..old(w).v() }), r is Ok ==> final(w).v().shown == old(w).v().shown + b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
#[verifier::external_body]
pub fn stdout() -> Stdout { unimplemented!() }
pub enum ErrorKind { WouldBlock, Interrupted, BrokenPipe, Other }
impl io::Error { #[verifier::external_body] pub fn kind(&self) -> ErrorKind { unimplemented!() } }
impl PartialEq for ErrorKind { #[verifier::external_body] fn eq(&self, o: &ErrorKind) -> bool { unimplemented!() } }
#[verifier::external_body]
pub struct UnixStream { _p: () }
impl UnixStream {
    #[verifier::external_body]
    pub fn as_fd(&self) -> (r: Fd) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all(&mut self, w: &mut World, b: &[u8]) -> (r: io::Result<()>)
        requires P04() ==> old(w).v().told + b@ == old(w).v().typed
        ensures final(w).v() == (Pv { told: final(w).v().told, ..old(w).v() }), r is Ok ==> final(w).v().told == old(w).v().told + b@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
pub struct Chunk<'a> { pub kind: ChunkKind, pub buf: &'a [u8] }
impl<'a> Chunk<'a> {
    /// proved for P01
    #[verifier::external_body]
    pub fn read_into(s: &mut UnixStream, w: &mut World, b: &'a mut Vec<u8>) -> (r: anyhow::Result<Chunk<'a>>)
        requires
            // nothing is read past the end
            P13() ==> !old(w).v().leave,
            // all news was passed on
            P20() ==> !old(w).v().unasked,
            // a buffer that fits every frame the daemon sends
            old(b)@.len() == consts::BUF_SIZE,
        ensures
            final(b)@.len() == old(b)@.len(),
            r is Ok ==> final(w).v() == (Pv {
                    came: if r->Ok_0.kind is Data { old(w).v().came + r->Ok_0.buf@ } else { old(w).v().came },
                    last: Some((r->Ok_0.kind, r->Ok_0.buf@)), unasked: r->Ok_0.kind is MaybeSwitch, ..old(w).v() })
                && (r->Ok_0.kind is ExitStatus ==> r->Ok_0.buf@ == le(exit_of(r->Ok_0.buf@))),
            r is Err ==> final(w).v() == (Pv { last: None, ..old(w).v() }),
    { unimplemented!() }
}
pub struct Cursor<'a> { pub b: &'a [u8] }
pub fn cursor<'a>(b: &'a [u8]) -> (r: Cursor<'a>) ensures r.b@ == b@ { Cursor { b } }
impl<'a> Cursor<'a> {
    /// byteorder, in the given byte order
    #[verifier::external_body]
    pub fn read_i32<B: ByteOrder>(&mut self) -> (r: io::Result<i32>)
        ensures
            (r is Ok) == (old(self).b@.len() >= 4),
            r is Ok ==> old(self).b@.take(4) == B::enc32(r->Ok_0 as u32),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn decode_from(c: Cursor) -> (r: anyhow::Result<MaybeSwitch>)
    ensures r is Ok ==> r->Ok_0 == switch_of(c.b@)
{ unimplemented!() }
/// what the caller says to new variables
#[verifier::external_body]
pub struct Asker { _p: () }
impl Asker {
    #[verifier::external_body]
    pub fn ask(&self, w: &mut World, m: &MaybeSwitch) -> (r: bool)
        // what the daemon said, and that only
        requires P20() ==> old(w).v().unasked && old(w).v().last is Some && (old(w).v().last->0).0 is MaybeSwitch && *m == switch_of((old(w).v().last->0).1)
        ensures final(w).v() == (Pv { leave: r, unasked: false, ..old(w).v() })
    { unimplemented!() }
}
// ---- the slot both sides share
#[verifier::external_body]
pub struct ResultSlot { _p: () }
/// where a result may come from
pub open spec fn from_daemon(v: Pv, r: PipeBytesResult) -> bool {
    v.last is Some && match r {
        PipeBytesResult::Exit(s) => (v.last->0).0 is ExitStatus && s == exit_of((v.last->0).1),
        PipeBytesResult::MaybeSwitch(m) => (v.last->0).0 is MaybeSwitch && v.leave && m == switch_of((v.last->0).1),
    }
}
/// reading a status back gives the one that was told
pub proof fn told_right(v: Pv, g: Option<PipeBytesResult>)
    ensures v.last is Some && (v.last->0).1 == le(exit_of((v.last->0).1)) && g is Some && g->0 is Exit && v.last is Some && (v.last->0).0 is ExitStatus && (v.last->0).1.take(4) == le(g->0->Exit_0) ==> g->0->Exit_0 == exit_of((v.last->0).1)
{
    if v.last is Some && (v.last->0).1 == le(exit_of((v.last->0).1)) && g is Some && g->0 is Exit && v.last is Some && (v.last->0).0 is ExitStatus && (v.last->0).1.take(4) == le(g->0->Exit_0) {
        reveal(le32);
        assert((v.last->0).1.take(4) =~= (v.last->0).1);
        lemma_le_injective(g->0->Exit_0, exit_of((v.last->0).1));
    }
}
pub struct Locked { pub v: Option<PipeBytesResult>, pub main: bool }
impl ResultSlot {
    #[verifier::external_body]
    pub fn lock(&self, w: &mut World) -> (r: Result<Locked, ()>)
        ensures r is Ok, !r->Ok_0.main, final(w).v() == (Pv { res: r->Ok_0.v, ..old(w).v() }),
            old(w).v().res is Some ==> r->Ok_0.v is Some
    { unimplemented!() }
    #[verifier::external_body]
    pub fn lock_main(&self, w: &mut World) -> (r: Result<Locked, ()>)
        ensures r is Ok, r->Ok_0.main, final(w).v() == (Pv { res: r->Ok_0.v, ..old(w).v() }),
            old(w).v().res is Some ==> r->Ok_0.v is Some
    { unimplemented!() }
}
impl Locked {
    pub fn is_some(&self) -> (r: bool) ensures r == (self.v is Some) { self.v.is_some() }
    pub fn is_none(&self) -> (r: bool) ensures r == (self.v is None) { self.v.is_none() }
    #[verifier::external_body]
    pub fn copy(&self) -> (r: Option<PipeBytesResult>) ensures r == self.v { unimplemented!() }
}
impl World {
    #[verifier::external_body]
    pub fn release(&mut self, g: &Locked)
        requires
            P20() && g.v != old(self).v().res && g.v is Some && g.v->0 is MaybeSwitch ==> !g.main && from_daemon(old(self).v(), g.v->0),
            P13() && g.v != old(self).v().res ==> g.v is Some && (
                if g.main {
                    // nothing came from the daemon, which had the time to say it
                    old(self).v().res is None && g.v == Some(PipeBytesResult::Exit(1)) && (old(self).v().out_done || (old(self).v().in_done && old(self).v().waited >= MAX_WAIT()))
                } else { from_daemon(old(self).v(), g.v->0) }),
        ensures final(self).v() == (Pv { res: g.v, leave: old(self).v().leave || (g.v is Some && g.v->0 is Exit), ..old(self).v() })
    { unimplemented!() }
}
// ---- threads
#[verifier::external_body]
pub struct Handle { _p: () }
#[verifier::external_body]
pub struct Panic { _p: () }
#[verifier::external_body]
pub fn resume_unwind(p: Panic) -> (r: anyhow::Result<PipeBytesResult>) ensures r is Err { unimplemented!() }
impl Handle {
    pub uninterp spec fn out(&self) -> bool;
    #[verifier::external_body]
    pub fn is_finished(&self, w: &mut World) -> (r: bool)
        ensures
            (if self.out() { old(w).v().out_done } else { old(w).v().in_done }) ==> r,
            final(w).v() == (if self.out() { Pv { out_done: r, ..old(w).v() } } else { Pv { in_done: r, ..old(w).v() } }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn join(self) -> (r: Result<anyhow::Result<()>, Panic>) { unimplemented!() }
}
#[verifier::external_body]
pub fn spawn_in() -> (r: Handle) ensures !r.out() { unimplemented!() }
#[verifier::external_body]
pub fn spawn_out() -> (r: Handle) ensures r.out() { unimplemented!() }
#[verifier::external_body]
pub struct TtyGuard { _p: () }
#[verifier::external_body]
pub fn give_back(w: &mut World, t: TtyGuard) ensures final(w).v() == (Pv { restored: true, ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn exit_now(w: &mut World, s: i32) -> !
    requires
        P24() ==> old(w).v().restored,
        P13() ==> old(w).v().res is Some && (old(w).v().res->0 is Exit ==> s == old(w).v().res->0->Exit_0),
{ unimplemented!() }

//@closure libshpool/src/protocol.rs :: pipe_bytes :: `stdin_to_sock_h = s.spawn(|| -> anyhow::Result<()>`
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sig
pub fn stdin_to_sock(w: &mut World, result_slot: &ResultSlot, write_client_stream: &mut UnixStream) -> (r: anyhow::Result<()>)
//@sub `let _s = span!(Level::INFO, "stdin->sock").entered();` => ``
//@sub `std::io::stdin()` => `stdin()`
//@sub `result_slot.lock(` => `result_slot.lock(w`
//@sub `.read(` => `.read(w, `
//@sub `.write_all(` => `.write_all(w, `
//@scoped `result_slot.lock(` => `w.release(&$g);`
//@spec
    requires old(w).v().typed.len() == 0 && old(w).v().told.len() == 0, old(w).v().res is None, !old(w).v().stdin_eof
    ensures
        // it goes on for as long as there is somebody to talk to
        P04() && r is Ok ==> final(w).v().told == final(w).v().typed && (final(w).v().stdin_eof || final(w).v().res is Some)
//@loop 0 kind=loop
    invariant w.v().told == w.v().typed, buf@.len() == consts::BUF_SIZE,
//@endfn

//@closure libshpool/src/protocol.rs :: pipe_bytes :: `sock_to_stdout_h = s.spawn(|| -> anyhow::Result<()>`
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sig
pub fn sock_to_stdout(w: &mut World, result_slot: &ResultSlot, read_client_stream: &mut UnixStream, on_maybe_switch: &Asker) -> (r: anyhow::Result<()>)
//@sub `let _s = span!(Level::INFO, "sock->stdout").entered();` => ``
//@sub `std::io::stdout()` => `stdout()`
//@sub `std::io::ErrorKind` => `ErrorKind`
//@sub `result_slot.lock(` => `result_slot.lock(w`
//@sub `*res` => `res.v`
//@sub `&mut read_client_stream, ` => `read_client_stream, w, `
//@sub `io::Cursor::new(` => `cursor(`
//@sub `shpool_protocol::MaybeSwitch` => `MaybeSwitch`
//@sub `on_maybe_switch(` => `on_maybe_switch.ask(w, `
//@sub `.write_all(` => `.write_all(w, `
//@scoped `result_slot.lock(` => `proof { told_right(w.v(), $g.v); } w.release(&$g);`
//@spec
    requires old(w).v().came.len() == 0 && old(w).v().shown.len() == 0, old(w).v().res is None, old(w).v().last is None && !old(w).v().leave && !old(w).v().unasked
    ensures
        // everything is shown, and only a reason to go ends it
        P05() && r is Ok ==> final(w).v().shown == final(w).v().came,
        P13() && r is Ok ==> final(w).v().res is Some,
        // having said it would go it has a reason to give
        P20() && r is Ok ==> (final(w).v().leave ==> final(w).v().res is Some),
//@loop 0 kind=loop
    invariant w.v().shown == w.v().came, buf@.len() == consts::BUF_SIZE, w.v().leave ==> w.v().res is Some, !w.v().unasked,
//@endfn

//@closure libshpool/src/protocol.rs :: pipe_bytes :: `thread::scope(|s|`
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sig
pub fn pipe_main(w: &mut World, result_slot: &ResultSlot, tty_guard: TtyGuard) -> (r: anyhow::Result<PipeBytesResult>)
//@elide `let stdin_to_sock_h = s.spawn(` => ``
//@elide `let sock_to_stdout_h = s.spawn(` => ``
//@sub `let stdin_to_sock_h = s.spawn(` => `let stdin_to_sock_h = spawn_in(`
//@sub `let sock_to_stdout_h = s.spawn(` => `let sock_to_stdout_h = spawn_out(`
//@sub `common::sleep_unless(` => `sleep_unless!(w, `
//@sub `.is_finished()` => `.is_finished(w)`
//@sub `result_slot.lock(` => `result_slot.lock_main(w`
//@sub `*res` => `res.v`
//@sub `res.clone()` => `res.copy()`
//@sub `std::process::exit(` => `exit_now(w, `
//@sub `std::panic::resume_unwind(` => `return resume_unwind(`
//@sub `drop(tty_guard)` => `give_back(w, tty_guard)`
//@scoped `result_slot.lock(` => `w.release(&$g);`
//@spec
    requires old(w).v() == (Pv { typed: Seq::empty(), told: Seq::empty(), stdin_eof: false, came: Seq::empty(), shown: Seq::empty(), last: None, leave: false, unasked: false, in_done: false, out_done: false, waited: 0, restored: false, res: None })
    ensures
        // what was told is what is reported
        P13() && r is Ok ==> final(w).v().res is Some && r->Ok_0 == final(w).v().res->0,
//@loop 0 kind=loop
    invariant_except_break w.v() == (Pv { res: w.v().res, in_done: false, out_done: false, ..old(w).v() }), !stdin_to_sock_h.out(), sock_to_stdout_h.out(),
    ensures w.v().res is Some,
//@endfn
} // verus!
