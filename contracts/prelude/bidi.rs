// One attachment from start to end: the thread that serves a client.
verus! {
pub mod bidi {
    use vstd::prelude::*;
    use std::sync::Arc;
    use super::{anyhow, Context};
    use super::{P10, P13, P19, P20};
    pub mod test_hooks {
        use vstd::prelude::*;
        pub fn emit(s: &str) {}
        pub fn scoped(s: &str) {}
    }
    #[derive(Clone, Copy)]
    pub struct Duration { pub ns: u128 }
    impl Duration {
        pub fn from_secs(n: u64) -> (r: Duration) ensures r.ns == n * 1_000_000_000 { Duration { ns: n as u128 * 1_000_000_000 } }
        pub fn from_millis(n: u64) -> (r: Duration) ensures r.ns == n * 1_000_000 { Duration { ns: n as u128 * 1_000_000 } }
    }
    pub mod time {
        pub use super::Duration;
    }
    pub mod consts {
        use super::*;
//@item libshpool/src/consts.rs :: const JOIN_POLL_DURATION sub `time::Duration::from_millis(` => `whole_ms!(`
    }
//@item libshpool/src/daemon/shell.rs :: const SHELL_TO_CLIENT_CTL_TIMEOUT sub `time::Duration::from_millis(` => `whole_ms!(`
//@item libshpool/src/daemon/shell.rs :: const SUPERVISOR_POLL_DUR sub `time::Duration::from_millis(` => `whole_ms!(`
    #[verifier::external_body]
    pub struct IoError { _p: () }
    impl From<IoError> for anyhow::Error { #[verifier::external_body] fn from(e: IoError) -> (r: Self) { unimplemented!() } }
    pub mod net { pub enum Shutdown { Read, Write, Both } }
    #[verifier::external_body]
    pub struct UnixStream { _p: () }
    impl UnixStream {
        /// which connection
        pub uninterp spec fn id(&self) -> int;
        #[verifier::external_body]
        pub fn try_clone(&self) -> (r: Result<UnixStream, IoError>) ensures r is Ok ==> r->Ok_0.id() == self.id() { unimplemented!() }
    }
    pub mod io {
        use vstd::prelude::*;
        use super::UnixStream;
        #[verifier::external_body]
        #[verifier::accept_recursive_types(W)]
        pub struct BufWriter<W> { _p: core::marker::PhantomData<W> }
        impl<W> BufWriter<W> { pub uninterp spec fn id(&self) -> int; }
        impl BufWriter<UnixStream> {
            #[verifier::external_body]
            pub fn new(s: UnixStream) -> (r: Self) ensures r.id() == s.id() { unimplemented!() }
        }
    }
    #[verifier::external_body]
    pub fn shutdown_socket(w: &mut World, s: &UnixStream, how: net::Shutdown) -> (r: anyhow::Result<()>)
        requires P10() ==> s.id() == old(w).v().client
        ensures final(w).v() == (Bv { closed: old(w).v().closed || how is Both, ..old(w).v() })
    { unimplemented!() }
//@item shpool-protocol/src/lib.rs :: struct TtySize
    impl Clone for TtySize { fn clone(&self) -> (r: TtySize) ensures r == *self { TtySize { rows: self.rows, cols: self.cols, xpixel: self.xpixel, ypixel: self.ypixel } } }
//@item libshpool/src/daemon/shell.rs :: struct ClientConnection
//@item libshpool/src/daemon/shell.rs :: enum ClientConnectionMsg
//@item libshpool/src/daemon/shell.rs :: enum ClientConnectionStatus

    // ---- the shell's end
    /// the shell of this session has exited and was reaped
    pub uninterp spec fn exited(id: int) -> bool;
    pub uninterp spec fn status_of(id: int) -> i32;
    pub struct Bv {
        /// the session, its client's connection and the size of its terminal
        pub session: int,
        pub client: int,
        pub size: TtySize,
        /// the shell was seen to have exited; the flag was seen up
        pub seen: bool,
        pub up: bool,
        /// messages to the thread that carries the output
        pub given: bool,
        pub ended: bool,
        /// the helpers were told to stop; the client's connection is closed, or the thread that carries the output was told to close it
        pub stop: bool,
        pub closed: bool,
        /// the caller was told that the session can tell its client of changes from now on
        pub linked: bool,
        /// the thread that carries the output has taken what it was sent last
        pub acked: bool,
    }
    pub fn connected<F: FnOnce()>(w: &mut World, f: F)
        requires call_requires(f, ()), P20() ==> old(w).v().given && old(w).v().acked && !old(w).v().ended
        ensures final(w).v() == (Bv { linked: true, ..old(w).v() })
    { f(); link(w); }
    #[verifier::external_body]
    fn link(w: &mut World) ensures final(w).v() == (Bv { linked: true, ..old(w).v() }) { unimplemented!() }
    #[verifier::external_body]
    pub struct World { _p: () }
    impl World { pub uninterp spec fn v(&self) -> Bv; }
    #[verifier::external_body]
    pub struct ExitNotifier { _p: () }
    impl ExitNotifier {
        pub uninterp spec fn id(&self) -> int;
        /// proved for P13
        #[verifier::external_body]
        pub fn wait(&self, w: &mut World, t: Option<Duration>) -> (r: Option<i32>)
            ensures
                r is Some ==> exited(self.id()) && r->0 == status_of(self.id()),
                old(w).v().seen ==> r is Some,
                final(w).v() == (Bv { seen: old(w).v().seen || r is Some, ..old(w).v() }),
        { unimplemented!() }
    }
    #[derive(Clone, Copy)]
    pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
    /// another thread may raise it at any time; nobody ever lowers it
    #[verifier::external_body]
    pub struct Stop { _p: () }
    impl Stop {
        #[verifier::external_body]
        pub fn new(b: bool) -> (r: Stop) { unimplemented!() }
        #[verifier::external_body]
        pub fn load(&self, o: Ordering) -> (r: bool) { unimplemented!() }
        #[verifier::external_body]
        pub fn store(&self, w: &mut World, v: bool, o: Ordering) ensures final(w).v() == (Bv { stop: v || old(w).v().stop, ..old(w).v() }) { unimplemented!() }
    }
    /// it is only ever raised once the shell has exited
    #[verifier::external_body]
    pub struct Done { _p: () }
    impl Done {
        pub uninterp spec fn id(&self) -> int;
        #[verifier::external_body]
        pub fn new(b: bool, n: &Arc<ExitNotifier>) -> (r: Done)
            requires b ==> exited(n.id())
            ensures r.id() == n.id()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn load(&self, w: &mut World, o: Ordering) -> (r: bool)
            ensures r ==> exited(self.id()), old(w).v().up ==> r,
                final(w).v() == (Bv { up: old(w).v().up || r, seen: old(w).v().seen || r, ..old(w).v() }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn store(&self, w: &mut World, v: bool, o: Ordering)
            requires P10() || P13() ==> v && exited(self.id())
            ensures final(w).v() == old(w).v()
        { unimplemented!() }
    }
    // ---- the thread that carries the output
    #[verifier::external_body]
    pub struct CtlLock { _p: () }
    pub struct Ctl { pub client_connection: Sender, pub client_connection_ack: Receiver, pub client_stream: Option<UnixStream> }
    impl CtlLock { #[verifier::external_body] pub fn lock(&self) -> (r: Ctl) { unimplemented!() } }
    #[verifier::external_body]
    pub struct Sender { _p: () }
    impl Sender {
        #[verifier::external_body]
        pub fn send_timeout(&self, m: ClientConnectionMsg, t: Duration, w: &mut World) -> (r: Result<(), IoError>)
            requires
                // a client is given its own terminal's size and nobody else's output
                P19() && m is New ==> m->New_0.size == old(w).v().size,
                P10() && m is New ==> m->New_0.stream.id() == old(w).v().client && m->New_0.sink.id() == old(w).v().client && !old(w).v().given,
                // it is told the shell's exit status if, and only if, the shell has exited
                P13() && m is DisconnectExit ==> exited(old(w).v().session) && m->DisconnectExit_0 == status_of(old(w).v().session),
                P13() && m is Disconnect ==> !old(w).v().up,
                P10() && !(m is New) ==> old(w).v().given,
            ensures final(w).v() == (match m { ClientConnectionMsg::New(_) => Bv { given: true, acked: false, ..old(w).v() }, _ => Bv { ended: true, acked: false, closed: old(w).v().closed || r is Ok, ..old(w).v() } })
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Receiver { _p: () }
    impl Receiver { #[verifier::external_body] pub fn recv_timeout(&self, t: Duration, w: &mut World) -> (r: Result<ClientConnectionStatus, IoError>)
        ensures final(w).v() == (Bv { acked: old(w).v().acked || r is Ok, ..old(w).v() }) { unimplemented!() } }
    // ---- the helper threads
    #[verifier::external_body]
    pub struct Handle { _p: () }
    #[verifier::external_body]
    pub struct Panic { _p: () }
    impl Handle {
        #[verifier::external_body]
        pub fn is_finished(&self) -> (r: bool) { unimplemented!() }
        #[verifier::external_body]
        pub fn join(self, w: &mut World) -> (r: Result<anyhow::Result<()>, Panic>)
            // or it would never end
            requires P10() ==> old(w).v().stop && old(w).v().closed
            ensures final(w).v() == old(w).v()
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Scope { _p: () }
    #[verifier::external_body]
    pub struct Pty { _p: () }
    impl Pty { #[verifier::external_body] pub fn is_parent(&self) -> (r: Result<Master, IoError>) { unimplemented!() } }
    #[verifier::external_body]
    pub struct Master { _p: () }
    impl Master { #[verifier::external_body] pub fn raw_fd(&self) -> (r: Option<i32>) { unimplemented!() } }
    pub mod thread {
        use vstd::prelude::*;
        use super::*;
        #[verifier::external_body]
        pub fn sleep(d: Duration) { unimplemented!() }
    }
    pub struct SessionInner { pub name: String, pub client_stream: Option<UnixStream>, pub shell_to_client_ctl: CtlLock, pub pty_master: Pty, pub needs_initial_motd_dump: bool, pub supports_sentinels: bool,
        pub shell_to_client_join_h: Option<Handle> }
    impl SessionInner {
        #[verifier::external_body]
        pub fn spawn_client_to_shell(&self, s: &Scope, conn_id: usize, stop: &Stop, m: &Master, c: &mut UnixStream) -> (r: anyhow::Result<Handle>)
            requires P10() ==> true
            ensures final(c).id() == old(c).id()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn spawn_heartbeat(&self, s: &Scope, conn_id: usize, stop: &Stop) -> (r: anyhow::Result<Handle>) { unimplemented!() }
        #[verifier::external_body]
        pub fn spawn_supervisor(&self, s: &Scope, conn_id: usize, stop: &Stop, d: &Done, m: &Master, n: Arc<ExitNotifier>) -> (r: anyhow::Result<Handle>)
            requires n.id() == d.id()
        { unimplemented!() }

//@closure libshpool/src/daemon/shell.rs :: spawn_supervisor :: `spawn_scoped(scope, move || -> anyhow::Result<()>`
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `let _s1 = span!(Level::INFO, "supervisor", s = self.name, cid = conn_id).entered();` => ``
//@sub `child_exit_notifier.wait(` => `child_exit_notifier.wait(w, `
//@sub `child_done.store(` => `child_done.store(w, `
//@sig
        pub fn supervise(&self, w: &mut World, stop: &Stop, child_done: &Done, pty_master: &Master, child_exit_notifier: Arc<ExitNotifier>) -> (r: anyhow::Result<()>)
//@spec
            requires child_exit_notifier.id() == child_done.id()
//@loop 0 kind=loop
                invariant child_exit_notifier.id() == child_done.id()
//@endfn

//@closure libshpool/src/daemon/shell.rs :: bidi_stream :: `thread::scope(|s| -> anyhow::Result<()>`
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `let _s = span!(Level::INFO, "disconnect_lock(shell_to_client_ctl)").entered();` => ``
//@sub `child_done.load(` => `child_done.load(w, `
//@append `.send_timeout(` => `w`
//@append `.recv_timeout(` => `w`
//@append `.join(` => `w`
//@sub `stop.store(` => `stop.store(w, `
//@sub `shutdown_socket(` => `shutdown_socket(w, `
//@sub `.wait(` => `.wait(w, `
//@sub `std::panic::resume_unwind(panic_err)` => `return Err(anyhow::mk_error())`
//@sig
        pub fn during(&self, w: &mut World, s: &Scope, conn_id: usize, stop: &Stop, child_done: &Done, pty_master: &Master, client_stream: &UnixStream,
            client_to_shell_client_stream_in: UnixStream, child_exit_notifier: Arc<ExitNotifier>) -> (r: anyhow::Result<()>)
//@spec
            requires
                old(w).v().session == child_exit_notifier.id(), child_done.id() == child_exit_notifier.id(),
                P10() ==> old(w).v().given && client_stream.id() == old(w).v().client && client_to_shell_client_stream_in.id() == old(w).v().client,
            ensures
                r is Ok ==> final(w).v().ended, final(w).v().client == old(w).v().client, final(w).v().linked == old(w).v().linked,
//@pre {let mut client_to_shell_client_stream = client_to_shell_client_stream_in;
//@post }
//@loop 0 kind=loop
                invariant w.v().session == child_exit_notifier.id(), child_done.id() == child_exit_notifier.id(), w.v().given == old(w).v().given, w.v().client == old(w).v().client, w.v().linked == old(w).v().linked,
                ensures w.v().stop || !P10()
//@endfn

//@fn libshpool/src/daemon/shell.rs :: SessionInner :: bidi_stream
//@ret r
//@attr pubfn
//@sub `&mut self,` => `&mut self, w: &mut World, sc: &Scope, `
//@elide `thread::scope(` => ``
//@sub `thread::scope()` => `self.during(w, sc, conn_id, &stop, &child_done, &pty_master, &client_stream, client_to_shell_client_stream, child_exit_notifier)`
//@sub `child_done = AtomicBool::new(false)` => `child_done = Done::new(false, &child_exit_notifier)`
//@sub `stop = AtomicBool::new(false)` => `stop = Stop::new(false)`
//@sub `let _s = span!(Level::INFO, "initial_attach_lock(shell_to_client_ctl)").entered();` => ``
//@sub `let _s = span!(Level::INFO, "clear_lock(shell_to_client_ctl)").entered();` => ``
//@sub `child_done.load(` => `child_done.load(w, `
//@sub `shutdown_socket(` => `shutdown_socket(w, `
//@append `.send_timeout(` => `w`
//@append `.recv_timeout(` => `w`
//@sub `std::net::Shutdown` => `net::Shutdown`
//@sub `$p4()` => `connected(w, $p4)`
//@spec
            requires
                call_requires($6, ()), !old(w).v().linked,
                !old(w).v().given && !old(w).v().ended && !old(w).v().seen && !old(w).v().up && !old(w).v().stop && !old(w).v().closed,
                old(w).v().size == $4, $5.id() == old(w).v().session,
                old(self).client_stream is Some ==> old(self).client_stream->0.id() == old(w).v().client,
            ensures
                // "done" means the shell has exited
                P10() ==> r is Ok && r->Ok_0 ==> exited(old(w).v().session),
                P10() ==> final(self).client_stream is None,
                P20() && r is Ok ==> final(w).v().linked,
//@endfn
    }
}
} // verus!
