// The other side of every call the daemon's request handlers make.
//
// `World` is a ghost token threaded through the handlers: what this thread has
// done to the session table, told its client and announced to subscribers.
// Other threads may change the table whenever this one does not hold its lock.
verus! {
use std::sync::Arc;
pub struct SpanShim;
impl SpanShim { pub fn entered(self) -> (r: SpanShim) { self } }
pub fn mk_span() -> (r: SpanShim) { SpanShim }
#[verifier::external_body]
pub fn mk_text() -> (r: String) { unimplemented!() }
pub mod test_hooks {
    use vstd::prelude::*;
    pub fn emit(s: &str) {}
}
pub struct Level;
} // verus!
macro_rules! span { ($($t:tt)*) => { crate::mk_span() } }
macro_rules! format { ($($t:tt)*) => { crate::mk_text() } }

verus! {
pub mod io {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
}
impl From<io::Error> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: io::Error) -> (r: Self) { unimplemented!() }
}
pub assume_specification<T, E> [Result::<T, E>::unwrap_or](a: Result<T, E>, d: T) -> (r: T)
    where E: core::marker::Destruct, T: core::marker::Destruct,
    ensures r == (match a { Ok(v) => v, Err(_) => d });
pub mod time {
    use vstd::prelude::*;
    pub use super::Duration;
}
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u128 }
impl Duration {
    pub fn from_millis(n: u64) -> (r: Duration) ensures r.ns == n * 1_000_000 { Duration { ns: n as u128 * 1_000_000 } }
    pub fn from_secs(n: u64) -> (r: Duration) ensures r.ns == n * 1_000_000_000 { Duration { ns: n as u128 * 1_000_000_000 } }
}
pub mod net { pub enum Shutdown { Read, Write, Both } }
pub mod libc { pub type pid_t = i32; }

/// an accepted connection
#[verifier::external_body]
pub struct UnixStream { _p: () }
impl UnixStream {
    /// which connection
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn try_clone(&self) -> (r: io::Result<UnixStream>) ensures r is Ok ==> r->Ok_0.id() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&self, how: net::Shutdown) -> (r: io::Result<()>) { unimplemented!() }
}

pub mod events {
    use vstd::prelude::*;
//@item libshpool/src/daemon/events.rs :: enum Event
}
pub use events::Event;

/// what a reply tells the client
pub enum Rep { Status(AttachStatus), Detach(Seq<Seq<char>>, Seq<Seq<char>>), Kill(Seq<Seq<char>>), Vars(Option<Seq<char>>, Seq<(Seq<char>, Seq<char>)>), Ack, List(Seq<Session0>), Msg(SessionMessageReply) }
pub trait Reply { spec fn rep(&self) -> Rep; }
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub open spec fn pairs(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
impl Reply for AttachReplyHeader { open spec fn rep(&self) -> Rep { Rep::Status(self.status) } }
impl Reply for DetachReply { open spec fn rep(&self) -> Rep { Rep::Detach(texts(self.not_found_sessions@), texts(self.not_attached_sessions@)) } }
impl Reply for KillReply { open spec fn rep(&self) -> Rep { Rep::Kill(texts(self.not_found_sessions@)) } }
impl Reply for MaybeSwitch { open spec fn rep(&self) -> Rep { Rep::Vars(match self.switch_to { Some(s) => Some(s@), None => None }, pairs(self.vars@)) } }
impl Reply for ModifyVarReply { open spec fn rep(&self) -> Rep { Rep::Ack } }
impl Reply for ListReply { open spec fn rep(&self) -> Rep { Rep::List(self.sessions@) } }
impl Reply for SessionMessageReply { open spec fn rep(&self) -> Rep { Rep::Msg(*self) } }

//@item shpool-protocol/src/lib.rs :: struct AttachReplyHeader
//@item shpool-protocol/src/lib.rs :: enum AttachStatus
impl Clone for AttachStatus { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item shpool-protocol/src/lib.rs :: struct DetachRequest
//@item shpool-protocol/src/lib.rs :: struct DetachReply
//@item shpool-protocol/src/lib.rs :: struct KillRequest
//@item shpool-protocol/src/lib.rs :: struct KillReply
//@item shpool-protocol/src/lib.rs :: struct ModifyVarRequest
//@item shpool-protocol/src/lib.rs :: struct ModifyVarReply
//@item shpool-protocol/src/lib.rs :: struct MaybeSwitch
//@item shpool-protocol/src/lib.rs :: struct AttachHeader
//@item shpool-protocol/src/lib.rs :: struct Attachment
//@item shpool-protocol/src/lib.rs :: struct TtySize
impl Clone for TtySize { fn clone(&self) -> (r: TtySize) ensures r == *self { TtySize { rows: self.rows, cols: self.cols, xpixel: self.xpixel, ypixel: self.ypixel } } }
//@item shpool-protocol/src/lib.rs :: enum SessionMessageReply
//@item shpool-protocol/src/lib.rs :: enum SessionMessageDetachReply
//@item shpool-protocol/src/lib.rs :: enum ResizeReply
//@item shpool-protocol/src/lib.rs :: enum SessionStatus
pub mod wire {
    use vstd::prelude::*;
    use super::{Attachment, SessionStatus};
//@item shpool-protocol/src/lib.rs :: struct Session
//@item shpool-protocol/src/lib.rs :: struct ListReply
}
pub use wire::{ListReply, Session as Session0};

// ---- what happens to sessions
/// its shell has been reaped
pub uninterp spec fn exited(id: int) -> bool;
/// the thread that carries its output is gone
pub uninterp spec fn unserved(id: int) -> bool;
/// its time to live is over
pub uninterp spec fn expired(id: int) -> bool;
pub open spec fn stale(id: int) -> bool { exited(id) || unserved(id) }
/// when last looked at, somebody was using it, or the thread that carries its output was running
pub uninterp spec fn lively(id: int) -> bool;

/// a session that must not outlive its time
pub struct Reg { pub id: int, pub name: Seq<char>, pub at: int }
pub uninterp spec fn deadline(id: int) -> int;
#[derive(Clone, Copy)]
pub struct Instant { pub ns: u128 }
/// what the clock said
pub uninterp spec fn clock(t: Instant) -> bool;
impl Instant {
    #[verifier::external_body]
    pub fn now() -> (r: Instant) ensures clock(r) { unimplemented!() }
    /// there is an end of time
    #[verifier::external_body]
    pub fn checked_add(&self, d: Duration) -> (r: Option<Instant>)
        ensures r is Some ==> r->0.ns == self.ns + d.ns, r is None ==> self.ns + d.ns > 0x7fff_ffff_ffff_ffff * 1_000_000_000
    { unimplemented!() }
}
pub open spec fn told(r: (String, Instant, Arc<ExitNotifier>)) -> Reg { Reg { id: r.2.id(), name: r.0@, at: r.1.ns as int } }
#[verifier::external_body]
pub struct RegSender { _p: () }
impl RegSender {
    #[verifier::external_body]
    pub fn send(&self, w: &mut World, v: (String, Instant, Arc<ExitNotifier>)) -> (r: Result<(), io::Error>)
        ensures r is Ok ==> final(w).v() == (Wv { open: old(w).v().open.insert(told(v)), ..old(w).v() }), r is Err ==> final(w).v() == (Wv { deaf: true, ..old(w).v() })
    { unimplemented!() }
}
pub struct Wv {
    /// changes to the table that subscribers have not been told of
    pub owed: Seq<Event>,
    /// clients recorded as coming to (true) or leaving (false) a listed session
    pub noted: Seq<bool>,
    /// Attached (true) and Detached (false) events published
    pub said: Seq<bool>,
    /// the listed session this thread's client is recorded at
    pub present: Option<int>,
    /// a client was recorded at a session not listed yet
    pub early: Option<int>,
    /// what was recorded about the clients
    pub who: Seq<Attachment>,
    /// sessions started that are neither listed nor killed
    pub loose: Set<int>,
    /// sessions this thread has listed
    pub listed: Set<int>,
    /// sessions seen with their shell running
    pub alive: Set<int>,
    /// sessions this thread has tried to kill, and killed
    pub tried: Set<int>,
    pub killed: Set<int>,
    /// sessions told to let go of their client, in order, and those that did
    pub asked: Seq<int>,
    pub freed: Seq<int>,
    pub replies: Seq<Rep>,
    /// sessions whose lock somebody else had
    pub held: Set<int>,
    /// registrations taken and not acted upon yet; nobody can make any more; the time it is
    pub open: vstd::multiset::Multiset<Reg>,
    /// sessions whose time to live was made known
    pub sched: Seq<int>,
    /// nobody hears of times to live any more
    pub deaf: bool,
    pub closed: bool,
    pub now: int,
    /// the table as it was when last locked, and when last unlocked
    pub took: Map<Seq<char>, int>,
    /// the table is locked by this thread: nobody else can look at it, or announce anything
    pub locked: bool,
    pub left: Map<Seq<char>, int>,
}
#[verifier::external_body]
pub struct World { _p: () }
impl World {
    pub uninterp spec fn v(&self) -> Wv;
    /// the table's lock is given up (or was not held)
    #[verifier::external_body]
    pub fn unlock(&mut self, t: &Table)
        requires P23() ==> old(self).v().owed.len() == 0,
        ensures final(self).v() == (Wv { locked: false, left: t@, ..old(self).v() }),
    { unimplemented!() }
}
pub open spec fn fresh_world(v: Wv) -> bool {
    v == (Wv { locked: false, open: vstd::multiset::Multiset::empty(), sched: Seq::empty(), deaf: false, closed: false, now: v.now, held: Set::empty(), took: v.took, left: v.left, owed: Seq::empty(), noted: Seq::empty(), said: Seq::empty(), who: Seq::empty(), present: None, early: None, loose: Set::empty(), listed: Set::empty(), alive: Set::empty(),
        tried: Set::empty(), killed: Set::empty(), asked: Seq::empty(), freed: Seq::empty(), replies: Seq::empty() })
}

#[verifier::external_body]
pub struct ExitNotifier { _p: () }
impl ExitNotifier {
    /// which session it belongs to
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn wait(&self, w: &mut World, t: Option<Duration>) -> (r: Option<i32>)
        ensures
            r is Some ==> exited(self.id()) && final(w).v() == old(w).v(),
            r is None ==> final(w).v() == (Wv { alive: old(w).v().alive.insert(self.id()), ..old(w).v() }),
    { unimplemented!() }
}
/// Arc::ptr_eq: the same notifier is the same session
#[verifier::external_body]
pub fn same_notifier(a: &Arc<ExitNotifier>, b: &Arc<ExitNotifier>) -> (r: bool) ensures r == (a.id() == b.id()) { unimplemented!() }

/// the thread that carries a session's output
#[verifier::external_body]
pub struct JoinHandle { _p: () }
impl JoinHandle {
    pub uninterp spec fn id(&self) -> int;
    /// was still running when last asked
    pub uninterp spec fn ran(&self) -> bool;
    #[verifier::external_body]
    pub fn is_finished(&self) -> (r: bool) ensures r ==> unserved(self.id()), !r ==> self.ran() && lively(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(self) -> (r: Result<anyhow::Result<()>, io::Error>) { unimplemented!() }
}
/// what a session's lock guards (the fields the handlers use)
pub struct SessionInner {
    pub client_stream: Option<UnixStream>,
    pub shell_to_client_join_h: Option<JoinHandle>,
    pub shell_to_client_ctl: Arc<CtlLock>,
}
/// the lock on it: whoever has the contents has the lock
#[verifier::external_body]
pub struct InnerLock { _p: () }
impl InnerLock {
    pub uninterp spec fn id(&self) -> int;
    /// the connection it was made with
    pub uninterp spec fn manned(&self) -> int;
    #[verifier::external_body]
    pub fn try_lock_arc(&self, w: &mut World) -> (r: Option<SessionInner>)
        ensures
            final(w).v() == (if r is Some { old(w).v() } else { Wv { held: old(w).v().held.insert(self.id()), ..old(w).v() } }),
            r is Some && r->0.shell_to_client_join_h is Some ==> r->0.shell_to_client_join_h->0.id() == self.id(),
            r is Some ==> r->0.shell_to_client_ctl.id() == self.id(),
            r is None ==> lively(self.id()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_lock(&self) -> (r: Option<SessionInner>)
        ensures
            r is Some && r->0.shell_to_client_join_h is Some ==> r->0.shell_to_client_join_h->0.id() == self.id(),
            // the handle is only taken from a thread that is gone
            r is Some && r->0.shell_to_client_join_h is None ==> unserved(self.id()),
            r is None ==> lively(self.id()),
    { unimplemented!() }
    /// nobody else can have taken the lock of a session that is not listed yet
    #[verifier::external_body]
    pub fn lock_arc(&self, w: &World) -> (r: SessionInner)
        requires P10() ==> w.v().loose.contains(self.id())
        ensures
            r.shell_to_client_join_h is Some ==> r.shell_to_client_join_h->0.id() == self.id(),
            r.shell_to_client_ctl.id() == self.id(),
            w.v().loose.contains(self.id()) ==> r.client_stream is Some && r.client_stream->0.id() == self.manned(),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Lifecycle { _p: () }
impl Lifecycle {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn record_attached(&self, w: &mut World, a: Attachment)
        requires P10() ==> old(w).v().present is None && old(w).v().early is None,
        ensures final(w).v() == (if old(w).v().loose.contains(self.id()) { Wv { who: old(w).v().who.push(a), early: Some(self.id()), ..old(w).v() } }
            else { Wv { who: old(w).v().who.push(a), noted: old(w).v().noted.push(true), present: Some(self.id()), ..old(w).v() } }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn record_detached(&self, w: &mut World)
        ensures final(w).v() == (Wv { noted: old(w).v().noted.push(false), present: if old(w).v().present == Some(self.id()) { None } else { old(w).v().present }, ..old(w).v() }),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct PagerSlot { _p: () }
pub mod shell {
    use vstd::prelude::*;
    use super::*;
    pub use super::SessionInner;
    #[verifier::external_body]
    pub struct Ctl { _p: () }
    /// a session (its other fields are not used by the handlers)
    pub struct Session {
        pub lifecycle: Lifecycle,
        pub child_exit_notifier: Arc<ExitNotifier>,
        pub shell_to_client_ctl: CtlLock,
        pub pager_ctl: Arc<PagerSlot>,
        pub inner: InnerLock,
    }
    impl Session {
        pub open spec fn id(&self) -> int { self.child_exit_notifier.id() }
        /// the parts belong together
        pub open spec fn whole(&self) -> bool { self.lifecycle.id() == self.id() && self.inner.id() == self.id() && self.shell_to_client_ctl.id() == self.id() }
        /// signals the shell and waits for it (P14)
        #[verifier::external_body]
        pub fn kill(&self, w: &mut World) -> (r: anyhow::Result<()>)
            requires
                P12() ==> old(w).v().now >= deadline(self.id()),
                // attaching ends no session that can be attached to
                P10() ==> stale(self.id()) || old(w).v().loose.contains(self.id()),
            ensures final(w).v() == (Wv { tried: old(w).v().tried.insert(self.id()), loose: old(w).v().loose.remove(self.id()),
                killed: if r is Ok { old(w).v().killed.insert(self.id()) } else { old(w).v().killed }, ..old(w).v() })
        { unimplemented!() }
//@fn libshpool/src/daemon/shell.rs :: Session :: is_stale
//@ret r
//@sub `is_stale(&self)` => `is_stale(&self, w: &mut World)`
//@sub `.wait(` => `.wait(w, `
//@mapor
//@spec
            requires self.whole()
            ensures
                P10() ==> r ==> stale(self.id()), !r ==> final(w).v().alive.contains(self.id()) && final(w).v().alive.len() > 0,
                P10() && !r ==> lively(self.id()),
                final(w).v() == (Wv { alive: final(w).v().alive, ..old(w).v() }),
                forall|i: int| old(w).v().alive.contains(i) ==> final(w).v().alive.contains(i),
//@endfn
    }
    pub enum ClientConnectionMsg { New(NewClient), Disconnect, DisconnectExit(i32) }
    #[verifier::external_body]
    pub struct NewClient { _p: () }
//@item libshpool/src/daemon/shell.rs :: enum ClientConnectionStatus
}

/// the lock on the channels to the thread that carries a session's output
#[verifier::external_body]
pub struct CtlLock { _p: () }
#[verifier::external_body]
pub struct ShellToClientCtl { _p: () }
impl CtlLock {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn lock(&self) -> (r: ShellToClientCtl) ensures r.id() == self.id() { unimplemented!() }
}
impl ShellToClientCtl {
    pub uninterp spec fn id(&self) -> int;
    /// proved in P15ctl
    #[verifier::external_body]
    pub fn disconnect_client(&self, w: &mut World) -> (r: shell::ClientConnectionStatus)
        ensures final(w).v() == (Wv { asked: old(w).v().asked.push(self.id()),
            freed: if r is DetachNone { old(w).v().freed } else { old(w).v().freed.push(self.id()) }, ..old(w).v() }),
    { unimplemented!() }
}

// ---- the session table
pub struct Table { pub t: TableBody }
#[verifier::external_body]
pub struct TableBody { _p: () }
impl View for Table { type V = Map<Seq<char>, int>; uninterp spec fn view(&self) -> Map<Seq<char>, int>; }
/// once our session is seen not to be listed under its name it is gone
pub open spec fn sees(v: Wv, name: Seq<char>, found: Option<int>) -> Wv {
    if v.present is Some && name == name_of(v.present->0) && found != v.present { Wv { present: None, ..v } } else { v }
}
/// the name a session was listed under
pub uninterp spec fn name_of(id: int) -> Seq<char>;
pub open spec fn at(t: Map<Seq<char>, int>, name: Seq<char>) -> Option<int> { if t.contains_key(name) { Some(t[name]) } else { None } }
pub struct Shells { pub _p: () }
impl Shells {
    #[verifier::external_body]
    pub fn lock(&self, w: &mut World) -> (r: Table)
        requires P23() ==> old(w).v().owed.len() == 0,
        ensures final(w).v() == (Wv { locked: true, took: r@, ..old(w).v() }),
            forall|n: Seq<char>| r@.contains_key(n) ==> !final(w).v().loose.contains(r@[n]),
            forall|n: Seq<char>| #[trigger] r@.contains_key(n) ==> name_of(r@[n]) == n,
    { unimplemented!() }
}
impl Table {
    #[verifier::external_body]
    pub fn get(&self, w: &mut World, name: &String) -> (r: Option<&shell::Session>)
        ensures
            (r is Some) == self@.contains_key(name@),
            r is Some ==> r->0.id() == self@[name@] && r->0.whole(),
            final(w).v() == sees(old(w).v(), name@, at(self@, name@)),
    { unimplemented!() }
    /// a session that is in use is never dropped from the table by starting another
    #[verifier::external_body]
    pub fn insert(&mut self, w: &mut World, name: String, s: Box<shell::Session>) -> (r: Option<Box<shell::Session>>)
        requires
            P10() ==> !old(self)@.contains_key(name@) || stale(old(self)@[name@]),
            P10() ==> old(w).v().loose.contains(s.id()),
        ensures
            (r is Some) == old(self)@.contains_key(name@),
            final(self)@ == old(self)@.insert(name@, s.id()),
            name_of(s.id()) == name@,
            final(w).v() == (Wv {
                owed: if r is Some { old(w).v().owed.push(Event::SessionRemoved).push(Event::SessionCreated) } else { old(w).v().owed.push(Event::SessionCreated) },
                loose: old(w).v().loose.remove(s.id()), listed: old(w).v().listed.insert(s.id()),
                noted: if old(w).v().early == Some(s.id()) { old(w).v().noted.push(true) } else { old(w).v().noted },
                present: if old(w).v().early == Some(s.id()) { Some(s.id()) } else { old(w).v().present },
                early: None, ..old(w).v() }),
    { unimplemented!() }
    /// only sessions that are over are dropped from the table
    #[verifier::external_body]
    pub fn remove(&mut self, w: &mut World, name: &String) -> (r: Option<Box<shell::Session>>)
        requires
            P10() ==> !old(self)@.contains_key(name@) || exited(old(self)@[name@]) || old(w).v().tried.contains(old(self)@[name@]),
            P12() ==> !old(self)@.contains_key(name@) || (old(w).v().now >= deadline(old(self)@[name@]) && old(w).v().tried.contains(old(self)@[name@])),
            P14() ==> !old(self)@.contains_key(name@) || exited(old(self)@[name@]) || old(w).v().killed.contains(old(self)@[name@]),
        ensures
            (r is Some) == old(self)@.contains_key(name@),
            r is Some ==> r->0.id() == old(self)@[name@],
            final(self)@ == old(self)@.remove(name@),
            final(w).v() == ({ let u = sees(old(w).v(), name@, None); Wv { owed: if r is Some { u.owed.push(Event::SessionRemoved) } else { u.owed }, ..u } }),
    { unimplemented!() }
}

pub struct EventBus { pub _p: () }
/// table changes are announced in the order they happened in, comings and goings when they are recorded
pub open spec fn due(v: Wv, e: Event) -> bool {
    v.locked && match e {
        Event::SessionCreated | Event::SessionRemoved => v.owed.len() > 0 && v.owed[0] == e,
        Event::SessionAttached => v.owed.len() == 0 && v.noted == v.said.push(true),
        Event::SessionDetached => v.owed.len() == 0 && v.noted == v.said.push(false),
    }
}
impl EventBus {
    #[verifier::external_body]
    pub fn publish(&self, w: &mut World, e: &Event)
        requires P23() ==> due(old(w).v(), *e)
        ensures final(w).v() == (match *e {
            Event::SessionCreated | Event::SessionRemoved => Wv { owed: old(w).v().owed.drop_first(), ..old(w).v() },
            Event::SessionAttached => Wv { said: old(w).v().said.push(true), ..old(w).v() },
            Event::SessionDetached => Wv { said: old(w).v().said.push(false), ..old(w).v() },
        })
    { unimplemented!() }
}

// ---- the rest of the daemon
pub struct Hooks { pub _p: () }
impl Hooks {
    #[verifier::external_body] pub fn on_new_session(&self, n: &str) -> (r: anyhow::Result<()>) { unimplemented!() }
    #[verifier::external_body] pub fn on_reattach(&self, n: &str) -> (r: anyhow::Result<()>) { unimplemented!() }
    #[verifier::external_body] pub fn on_busy(&self, n: &str) -> (r: anyhow::Result<()>) { unimplemented!() }
    #[verifier::external_body] pub fn on_client_disconnect(&self, n: &str) -> (r: anyhow::Result<()>) { unimplemented!() }
    #[verifier::external_body] pub fn on_shell_disconnect(&self, n: &str) -> (r: anyhow::Result<()>) { unimplemented!() }
}
pub mod user {
    use vstd::prelude::*;
    use super::*;
    pub struct Info { pub _p: () }
    #[verifier::external_body] pub fn info() -> (r: anyhow::Result<Info>) { unimplemented!() }
}
pub enum MotdDisplayMode { Never, Pager { bin: Option<String>, show_every: Option<String> }, Dump }
pub struct Config { pub _p: () }
impl Config {
    #[verifier::external_body] pub fn motd_mode(&self) -> (r: MotdDisplayMode) { unimplemented!() }
}
#[derive(PartialEq, Eq)]
pub enum PagerError { ClientHangup }
impl anyhow::Error {
    #[verifier::external_body]
    pub fn downcast<T>(self) -> (r: Result<T, anyhow::Error>) { unimplemented!() }
    /// it is ShellSelectionError::BusyShellSession
    #[verifier::external_body]
    pub fn is_busy(&self) -> (r: bool) { unimplemented!() }
}
/// nobody is turned away without being told, or unless somebody else has the session
#[verifier::external_body]
pub fn mk_busy(w: &World) -> (r: anyhow::Error)
    requires P10() ==> w.v().replies == seq![Rep::Status(AttachStatus::Busy)] && (w.v().held.len() > 0 || (w.v().alive.len() > 0 && w.v().tried.len() > 0))
{ unimplemented!() }
#[verifier::external_body]
pub struct Envs { _p: () }
pub struct DailyMessenger { pub _p: () }
impl DailyMessenger {
    #[verifier::external_body]
    pub fn display_in_pager(&self, s: &mut UnixStream, slot: Arc<PagerSlot>, size: TtySize, env: &Envs) -> (r: anyhow::Result<Option<TtySize>>)
        ensures final(s).id() == old(s).id()
    { unimplemented!() }
}
impl SessionInner {
    /// carries bytes until the client is gone (false) or the shell has ended (true); calls f once the client can be told of changes
    #[verifier::external_body]
    pub fn bidi_stream<F: FnOnce()>(&mut self, w: &World, conn_id: usize, size: TtySize, n: Arc<ExitNotifier>, f: F) -> (r: anyhow::Result<bool>)
        requires
            call_requires(f, ()),
            P20() ==> forall|u: ()| call_ensures(f, (), u) ==> caught_up(n.id(), name_of(n.id()), w.v().who[0].session_name_template@),
        ensures r is Ok && r->Ok_0 ==> exited(n.id())
    { unimplemented!() }
}
#[verifier::external_body]
pub fn write_reply<R: Reply>(w: &mut World, s: &mut UnixStream, r: R) -> (o: anyhow::Result<()>)
    ensures
        final(s).id() == old(s).id(),
        final(w).v() == (Wv { replies: old(w).v().replies.push(r.rep()), ..old(w).v() }),
{ unimplemented!() }
/// a client of this session that uses this template was offered the variables if the name of the session is not what the template says any more (proved in prelude/srv_vars.rs)
pub uninterp spec fn caught_up(id: int, name: Seq<char>, tmpl: Seq<char>) -> bool;
pub struct Vars { pub _p: () }
pub struct Server {
    pub shells: Shells,
    pub hooks: Hooks,
    pub events_bus: EventBus,
    pub daily_messenger: DailyMessenger,
    pub config: Config,
    pub vars: Vars,
    pub register_new_reapable_session: RegSender,
}
pub open spec fn is_ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
/// how many bytes a text takes in UTF-8
pub uninterp spec fn byte_len(s: Seq<char>) -> nat;
pub assume_specification[ std::string::String::len ](s: &String) -> (r: usize) ensures r == byte_len(s@);
/// String == &str
#[verifier::external_body]
pub fn text_is(s: &String, l: &str) -> (r: bool) ensures r == (s@ == l@) { unimplemented!() }
/// str::chars().any(..)
#[verifier::external_body]
pub fn any_char<F: Fn(char) -> bool>(s: &String, f: F) -> (r: bool)
    requires forall|c: char| call_requires(f, (c,)),
    ensures r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (#[trigger] s@[i],), true),
        !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (#[trigger] s@[i],), false),
{ unimplemented!() }
//@item libshpool/src/daemon/server.rs :: const MAX_SESSION_NAME_BYTES
/// a name that can be a file name and an environment variable's value
pub open spec fn ok_name(s: Seq<char>) -> bool {
    s.len() > 0 && s != "."@ && s != ".."@ && byte_len(s) <= 255 && forall|i: int| 0 <= i < s.len() ==> s[i] != '/' && s[i] != '\0' && !is_ws(s[i])
}
impl Server {
    #[verifier::external_body]
    pub fn send_missed_vars(&self, h: &AttachHeader, c: &Arc<CtlLock>)
        ensures caught_up(c.id(), h.name@, h.name_template@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn build_shell_env(&self, u: &user::Info, h: &AttachHeader) -> (r: anyhow::Result<Envs>)
        requires P11() ==> ok_name(h.name@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn link_ssh_auth_sock(&self, h: &AttachHeader) -> (r: anyhow::Result<()>)
        requires P11() ==> ok_name(h.name@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn populate_session_env_file(&self, h: &AttachHeader) -> (r: anyhow::Result<()>)
        requires P11() ==> ok_name(h.name@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn_subshell(&self, w: &mut World, conn_id: usize, s: UnixStream, h: &AttachHeader, u: &user::Info, e: &Envs, dump: bool) -> (r: anyhow::Result<shell::Session>)
        requires P11() ==> ok_name(h.name@)
        ensures
            r is Ok ==> r->Ok_0.whole() && !old(w).v().loose.contains(r->Ok_0.id()) && r->Ok_0.inner.manned() == s.id()
                && final(w).v() == (Wv { loose: old(w).v().loose.insert(r->Ok_0.id()), ..old(w).v() }),
            r is Err ==> final(w).v() == old(w).v(),
    { unimplemented!() }
}
} // verus!
