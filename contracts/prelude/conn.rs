// Accepting connections: who is let in, and what becomes of the connection.
//
// `Conn` is a ghost token for one accepted connection.
macro_rules! format { ($($t:tt)*) => { crate::conn::mk_text() } }
macro_rules! span { ($($t:tt)*) => { crate::conn::mk_span() } }
verus! {
pub mod conn {
use vstd::prelude::*;
use super::*;
use std::sync::Arc;
#[verifier::external_body]
pub fn mk_text() -> (r: String) { unimplemented!() }
pub struct SpanShim;
impl SpanShim { pub fn entered(self) -> (r: SpanShim) { self } }
pub fn mk_span() -> (r: SpanShim) { SpanShim }
pub struct Level;
pub mod test_hooks { use vstd::prelude::*; pub fn emit(s: &str) {} }
pub mod net { pub enum Shutdown { Read, Write, Both } }
pub mod libc { pub type pid_t = i32; pub type uid_t = u32; }
#[derive(Clone, Copy)]
pub struct Duration { pub ns: u128 }
#[verifier::external_body]
pub fn sock_timeout() -> (r: Duration) ensures r.ns > 0 { unimplemented!() }
pub mod io {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub enum ErrorKind { BrokenPipe, WouldBlock, TimedOut, UnexpectedEof, ConnectionReset, Other }
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    impl Error { #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) { unimplemented!() } }
}
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct Cause { _p: () }
impl anyhow::Error {
    #[verifier::external_body]
    pub fn root_cause(&self) -> (r: &Cause) { unimplemented!() }
}
impl Cause {
    #[verifier::external_body]
    pub fn downcast_ref<T>(&self) -> (r: Option<&T>) { unimplemented!() }
}

//@item shpool-protocol/src/lib.rs :: struct VersionHeader
//@item shpool-protocol/src/lib.rs :: struct AttachReplyHeader
//@item shpool-protocol/src/lib.rs :: enum AttachStatus
pub struct AttachHeader { pub id: Ghost<int> }
pub struct DetachRequest { pub id: Ghost<int> }
pub struct KillRequest { pub id: Ghost<int> }
pub struct SessionMessageRequest { pub id: Ghost<int> }
pub struct SetLogLevelRequest { pub id: Ghost<int> }
pub struct ModifyVarRequest { pub id: Ghost<int> }
//@item shpool-protocol/src/lib.rs :: enum ConnectHeader
pub mod shpool_protocol {
    use vstd::prelude::*;
    pub uninterp spec fn own_version() -> Seq<char>;
}
#[verifier::external_body]
pub fn version_text() -> (r: &'static str) ensures r@ == shpool_protocol::own_version() { unimplemented!() }
#[verifier::external_body]
pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
/// a version the environment makes the daemon claim, for tests
pub uninterp spec fn claimed() -> Option<Seq<char>>;
pub mod env {
    use vstd::prelude::*;
    pub struct VarError { pub _p: () }
    #[verifier::external_body]
    pub fn var(n: &str) -> (r: Result<String, VarError>)
        ensures n@ == "SHPOOL_TEST__OVERRIDE_VERSION"@ ==> (r is Ok) == (super::claimed() is Some) && (r is Ok ==> r->Ok_0@ == super::claimed()->0)
    { unimplemented!() }
}
pub open spec fn advertised() -> Seq<char> { match claimed() { Some(v) => v, None => shpool_protocol::own_version() } }

/// what the daemon writes
pub enum Out { Version(Seq<char>), Status(AttachStatus), Other }
pub trait Msg { spec fn out(&self) -> Out; }
impl Msg for VersionHeader { open spec fn out(&self) -> Out { Out::Version(self.version@) } }
impl Msg for AttachReplyHeader { open spec fn out(&self) -> Out { Out::Status(self.status) } }
/// the user this daemon runs as, its process and executable
pub uninterp spec fn own_uid() -> u32;
pub uninterp spec fn own_pid() -> i32;
pub struct Cv {
    /// the process at the other end, as the kernel saw it when it connected
    pub uid: u32, pub pid: i32,
    pub sent: Seq<Out>,
    /// the request, once read
    pub read: Option<ConnectHeader>,
    /// a time limit is set on reads, on writes
    pub rlimit: bool, pub wlimit: bool,
    /// requests carried out
    pub done: Seq<ConnectHeader>,
    /// the connection is closed
    pub shut: bool,
    /// a call into the system, or on the connection, failed
    pub failed: bool,
    /// served by a thread of its own
    pub own_thread: bool,
}
#[verifier::external_body]
pub struct Conn { _p: () }
impl Conn { pub uninterp spec fn v(&self) -> Cv; }
#[verifier::external_body]
pub struct UnixStream { _p: () }
impl UnixStream {
    #[verifier::external_body]
    pub fn set_read_timeout(&self, w: &mut Conn, t: Option<Duration>) -> (r: io::Result<()>)
        ensures final(w).v() == (if r is Ok { Cv { rlimit: t is Some, ..old(w).v() } } else { Cv { failed: true, ..old(w).v() } })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_write_timeout(&self, w: &mut Conn, t: Option<Duration>) -> (r: io::Result<()>)
        ensures final(w).v() == (if r is Ok { Cv { wlimit: t is Some, ..old(w).v() } } else { Cv { failed: true, ..old(w).v() } })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shutdown(&self, w: &mut Conn, how: net::Shutdown) -> (r: io::Result<()>)
        ensures final(w).v() == (if r is Err { Cv { failed: true, ..old(w).v() } } else if how is Both { Cv { shut: true, ..old(w).v() } } else { old(w).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_clone(&self, w: &mut Conn) -> (r: io::Result<UnixStream>)
        ensures final(w).v() == (if r is Ok { old(w).v() } else { Cv { failed: true, ..old(w).v() } })
    { unimplemented!() }
}
pub trait Sink {}
impl Sink for UnixStream {}
impl<'a> Sink for &'a mut UnixStream {}
impl<'a> Sink for &'a UnixStream {}
pub mod protocol {
    use vstd::prelude::*;
    use super::*;
    /// the peer hears from the daemon first; what it is not entitled to hear is not written
    #[verifier::external_body]
    pub fn encode_to<T: Msg, S: Sink>(w: &mut Conn, t: &T, s: S) -> (r: anyhow::Result<()>)
        requires
            old(w).v().sent.len() == 0 ==> t.out() == Out::Version(advertised()),
            old(w).v().uid != own_uid() ==> t.out() is Version || (t.out() is Status && t.out()->Status_0 is Forbidden),
        ensures final(w).v() == (if r is Ok { Cv { sent: old(w).v().sent.push(t.out()), ..old(w).v() } } else { Cv { failed: true, ..old(w).v() } })
    { unimplemented!() }
    /// a peer that sends nothing cannot hold the thread up for good
    #[verifier::external_body]
    pub fn decode_from(w: &mut Conn, s: &mut UnixStream) -> (r: anyhow::Result<ConnectHeader>)
        requires old(w).v().rlimit, old(w).v().read is None, old(w).v().sent.len() == 1
        ensures final(w).v() == (if r is Ok { Cv { read: Some(r->Ok_0), ..old(w).v() } } else { Cv { failed: true, ..old(w).v() } })
    { unimplemented!() }
}
// ---- the kernel's word on who is at the other end
pub mod socket {
    use vstd::prelude::*;
    use super::*;
    pub mod sockopt { pub struct PeerCredentials; }
    pub struct UnixCredentials { pub uid: u32, pub pid: i32, pub gid: u32 }
    impl UnixCredentials {
        pub fn uid(&self) -> (r: u32) ensures r == self.uid { self.uid }
        pub fn pid(&self) -> (r: i32) ensures r == self.pid { self.pid }
        pub fn gid(&self) -> (r: u32) ensures r == self.gid { self.gid }
    }
    #[verifier::external_body]
    pub fn getsockopt(w: &mut Conn, s: &UnixStream, o: sockopt::PeerCredentials) -> (r: Result<UnixCredentials, io::Error>)
        ensures r is Ok ==> final(w).v() == old(w).v() && r->Ok_0.uid == old(w).v().uid && r->Ok_0.pid == old(w).v().pid,
            r is Err ==> final(w).v() == (Cv { failed: true, ..old(w).v() })
    { unimplemented!() }
}
pub mod unistd {
    use vstd::prelude::*;
    use super::*;
    #[derive(Clone, Copy)]
    pub struct Uid { pub n: u32 }
    impl Uid {
        pub fn from_raw(n: u32) -> (r: Uid) ensures r.n == n { Uid { n } }
        pub fn as_raw(self) -> (r: u32) ensures r == self.n { self.n }
        #[verifier::external_body]
        pub fn current() -> (r: Uid) ensures r.n == own_uid() { unimplemented!() }
        /// the daemon is not a set-user-id program
        #[verifier::external_body]
        pub fn effective() -> (r: Uid) ensures r.n == own_uid() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn getuid() -> (r: Uid) ensures r.n == own_uid() { unimplemented!() }
    #[derive(Clone, Copy)]
    pub struct Pid { pub n: i32 }
    impl Pid {
        pub fn from_raw(n: i32) -> (r: Pid) ensures r.n == n { Pid { n } }
        pub fn as_raw(self) -> (r: i32) ensures r == self.n { self.n }
        #[verifier::external_body]
        pub fn this() -> (r: Pid) ensures r.n == own_pid() { unimplemented!() }
    }
}
impl PartialEq<io::ErrorKind> for io::ErrorKind { #[verifier::external_body] fn eq(&self, o: &io::ErrorKind) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<io::ErrorKind> for io::ErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &io::ErrorKind) -> bool { *self == *o }
}
impl PartialEq<unistd::Uid> for unistd::Uid { #[verifier::external_body] fn eq(&self, o: &unistd::Uid) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<unistd::Uid> for unistd::Uid {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &unistd::Uid) -> bool { *self == *o }
}
impl PartialEq<unistd::Pid> for unistd::Pid { #[verifier::external_body] fn eq(&self, o: &unistd::Pid) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<unistd::Pid> for unistd::Pid {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &unistd::Pid) -> bool { *self == *o }
}
#[verifier::external_body]
pub struct PathBuf { _p: () }
/// paths compare somehow
impl PartialEq<PathBuf> for PathBuf { #[verifier::external_body] fn eq(&self, o: &PathBuf) -> (r: bool) { unimplemented!() } }
/// reads a link in /proc
#[verifier::external_body]
pub fn exe_for_pid(w: &mut Conn, p: unistd::Pid) -> (r: anyhow::Result<PathBuf>)
    ensures final(w).v() == (if r is Ok { old(w).v() } else { Cv { failed: true, ..old(w).v() } })
{ unimplemented!() }

//@fn libshpool/src/daemon/server.rs :: - :: check_peer
//@ret r
//@sub `sock: &UnixStream` => `w: &mut Conn, sock: &UnixStream`
//@sub `use nix::sys::socket;` => ``
//@sub `socket::getsockopt(` => `socket::getsockopt(w, `
//@sub `exe_for_pid(` => `exe_for_pid(w, `
//@spec
    ensures
        // a process of another user is never let in; one of this user always, whatever its executable
        r is Ok ==> final(w).v() == old(w).v() && old(w).v().uid == own_uid() && r->Ok_0 == old(w).v().pid,
        r is Err ==> (final(w).v() == old(w).v() && old(w).v().uid != own_uid()) || final(w).v() == (Cv { failed: true, ..old(w).v() }),
//@endfn
//@fn libshpool/src/daemon/server.rs :: - :: parse_connect_header
//@ret r
//@sub `stream: &mut UnixStream` => `w: &mut Conn, stream: &mut UnixStream`
//@sub `protocol::decode_from(` => `protocol::decode_from(w, `
//@spec
    requires old(w).v().rlimit, old(w).v().read is None, old(w).v().sent.len() == 1
    ensures final(w).v() == (if r is Ok { Cv { read: Some(r->Ok_0), ..old(w).v() } } else { Cv { failed: true, ..old(w).v() } })
//@endfn
//@fn libshpool/src/daemon/server.rs :: - :: write_reply
//@ret r
//@sub `stream: &mut UnixStream` => `w: &mut Conn, stream: &mut UnixStream`
//@sub `serde::Serialize` => `Msg`
//@sub `.set_write_timeout(` => `.set_write_timeout(w, `
//@sub `consts::SOCK_STREAM_TIMEOUT` => `sock_timeout()`
//@sub `.try_clone(` => `.try_clone(w`
//@sub `protocol::encode_to(` => `protocol::encode_to(w, `
//@spec
    requires old(w).v().sent.len() > 0, old(w).v().uid != own_uid() ==> header.out() is Version || (header.out() is Status && header.out()->Status_0 is Forbidden),
    ensures
        // said once, and no time limit left behind
        r is Ok ==> final(w).v() == (Cv { sent: old(w).v().sent.push(header.out()), wlimit: false, ..old(w).v() }),
        r is Err ==> final(w).v().failed && final(w).v() == (Cv { failed: true, wlimit: final(w).v().wlimit, sent: final(w).v().sent, ..old(w).v() })
            && (final(w).v().sent == old(w).v().sent || final(w).v().sent == old(w).v().sent.push(header.out())),
//@endfn

#[verifier::external_body]
pub struct Server { _p: () }
/// who may have a request carried out, and how the connection is handed over: the request read from it, no read limit left
pub open spec fn ready(v: Cv, h: ConnectHeader) -> bool {
    v.uid == own_uid() && v.read == Some(h) && !v.rlimit && v.done.len() == 0 && v.sent =~= seq![Out::Version(advertised())] && !v.shut && v.own_thread
}
pub open spec fn carried(v: Cv, h: ConnectHeader) -> Cv { Cv { done: v.done.push(h), ..v } }
impl Server {
    #[verifier::external_body]
    fn handle_attach(&self, w: &mut Conn, s: UnixStream, id: usize, h: AttachHeader, peer_pid: libc::pid_t) -> (r: anyhow::Result<()>)
        requires ready(old(w).v(), ConnectHeader::Attach(h)), peer_pid == old(w).v().pid
        ensures final(w).v() == carried(old(w).v(), ConnectHeader::Attach(h))
    { unimplemented!() }
    #[verifier::external_body]
    fn handle_detach(&self, w: &mut Conn, s: UnixStream, h: DetachRequest) -> (r: anyhow::Result<()>)
        requires ready(old(w).v(), ConnectHeader::Detach(h))
        ensures final(w).v() == carried(old(w).v(), ConnectHeader::Detach(h))
    { unimplemented!() }
    #[verifier::external_body]
    fn handle_kill(&self, w: &mut Conn, s: UnixStream, h: KillRequest) -> (r: anyhow::Result<()>)
        requires ready(old(w).v(), ConnectHeader::Kill(h))
        ensures final(w).v() == carried(old(w).v(), ConnectHeader::Kill(h))
    { unimplemented!() }
    #[verifier::external_body]
    fn handle_list(&self, w: &mut Conn, s: UnixStream) -> (r: anyhow::Result<()>)
        requires ready(old(w).v(), ConnectHeader::List)
        ensures final(w).v() == carried(old(w).v(), ConnectHeader::List)
    { unimplemented!() }
    #[verifier::external_body]
    fn handle_session_message(&self, w: &mut Conn, s: UnixStream, h: SessionMessageRequest) -> (r: anyhow::Result<()>)
        requires ready(old(w).v(), ConnectHeader::SessionMessage(h))
        ensures final(w).v() == carried(old(w).v(), ConnectHeader::SessionMessage(h))
    { unimplemented!() }
    #[verifier::external_body]
    fn handle_set_log_level(&self, w: &mut Conn, s: UnixStream, h: SetLogLevelRequest) -> (r: anyhow::Result<()>)
        requires ready(old(w).v(), ConnectHeader::SetLogLevel(h))
        ensures final(w).v() == carried(old(w).v(), ConnectHeader::SetLogLevel(h))
    { unimplemented!() }
    #[verifier::external_body]
    fn handle_get_vars(&self, w: &mut Conn, s: UnixStream) -> (r: anyhow::Result<()>)
        requires ready(old(w).v(), ConnectHeader::GetVars)
        ensures final(w).v() == carried(old(w).v(), ConnectHeader::GetVars)
    { unimplemented!() }
    #[verifier::external_body]
    fn handle_modify_var(&self, w: &mut Conn, s: UnixStream, h: ModifyVarRequest) -> (r: anyhow::Result<()>)
        requires ready(old(w).v(), ConnectHeader::ModifyVar(h))
        ensures final(w).v() == carried(old(w).v(), ConnectHeader::ModifyVar(h))
    { unimplemented!() }

//@fn libshpool/src/daemon/server.rs :: impl Server :: handle_conn
//@ret r
//@sub `&self, mut stream` => `&self, w: &mut Conn, mut stream`
//@sub `.set_read_timeout(` => `.set_read_timeout(w, `
//@sub `.shutdown(` => `.shutdown(w, `
//@sub `protocol::encode_to(` => `protocol::encode_to(w, `
//@sub `parse_connect_header(` => `parse_connect_header(w, `
//@sub `check_peer(` => `check_peer(w, `
//@sub `write_reply(` => `write_reply(w, `
//@sub `.handle_attach(` => `.handle_attach(w, `
//@sub `.handle_detach(` => `.handle_detach(w, `
//@sub `.handle_kill(` => `.handle_kill(w, `
//@sub `.handle_list(` => `.handle_list(w, `
//@sub `.handle_session_message(` => `.handle_session_message(w, `
//@sub `.handle_set_log_level(` => `.handle_set_log_level(w, `
//@sub `.handle_get_vars(` => `.handle_get_vars(w, `
//@sub `.handle_modify_var(` => `.handle_modify_var(w, `
//@sub `consts::SOCK_STREAM_TIMEOUT` => `sock_timeout()`
//@sub `shpool_protocol::VERSION` => `version_text()`
//@sub `String::from(` => `owned(`
//@spec
        requires fresh(old(w).v())
        ensures served(old(w).v(), final(w).v(), r is Ok),
//@endfn
    /// handle_conn, on a connection the acceptor hands over: it is on its own from here on
    #[verifier::external_body]
    fn serve_conn(&self, acc: &mut Acceptor, w: &mut Conn, s: UnixStream, id: usize) -> (r: anyhow::Result<()>)
        requires fresh(old(w).v())
        ensures final(acc).served() == old(acc).served().push(s.id())
    { unimplemented!() }
//@fn libshpool/src/daemon/server.rs :: impl Server :: serve
//@ret r
//@sub `server: Arc<Self>` => `acc: &mut Acceptor, server: Arc<Self>`
//@sub `thread::spawn(move || {` => `in_thread({ let mut w = own_conn(&stream);`
//@sub `.handle_conn(` => `.serve_conn(acc, &mut w, `
//@spec
        requires old(acc).served().len() == 0
        ensures
            // every connection there is gets served, whatever happened to the others
            final(acc).served() == good($3.coming()),
//@at start
        let mut w = shared_conn();
        let ghost n = $3.coming().len();
        proof { assert(good($3.coming().take(0)).len() == 0); }
//@loop 0 iter=it kind=for
            invariant
                it.seq() == $3.coming(), 0 <= it.index() <= it.seq().len(), n == it.seq().len(), n <= usize::MAX,
                conn_counter <= it.index(), acc.served() =~= good(it.seq().take(it.index() as int)),
//@at loopstart 0
            proof { assert(it.seq().take(it.index() + 1).drop_last() =~= it.seq().take(it.index() as int)); }
//@at loopafter 0
        proof { assert($3.coming().take(n as int) =~= $3.coming()); }
//@endfn
}
/// the thread that accepts connections: those it has handed over, in order
#[verifier::external_body]
pub struct Acceptor { _p: () }
impl Acceptor { pub uninterp spec fn served(&self) -> Seq<int>; }
#[verifier::external_body]
pub struct UnixListener { _p: () }
impl UnixListener {
    /// all the connections there will be
    pub uninterp spec fn coming(&self) -> Seq<io::Result<UnixStream>>;
    #[verifier::external_body]
    pub fn incoming(&self) -> (r: Vec<io::Result<UnixStream>>) ensures r@ == self.coming(), self.coming().len() <= usize::MAX { unimplemented!() }
}
impl UnixStream { pub uninterp spec fn id(&self) -> int; }
pub open spec fn good(s: Seq<io::Result<UnixStream>>) -> Seq<int> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() is Ok { good(s.drop_last()).push((s.last()->Ok_0).id()) } else { good(s.drop_last()) }
}
/// a connection in the hands of a thread of its own
#[verifier::external_body]
pub fn own_conn(s: &UnixStream) -> (r: Conn) ensures fresh(r.v()) { unimplemented!() }
/// a connection the accepting thread would deal with itself, keeping the others waiting
#[verifier::external_body]
pub fn shared_conn() -> (r: Conn) ensures !r.v().own_thread { unimplemented!() }
pub fn in_thread<T>(t: T) {}
pub open spec fn fresh(v: Cv) -> bool { v.sent.len() == 0 && v.read is None && !v.rlimit && !v.wlimit && v.done.len() == 0 && !v.shut && !v.failed && v.own_thread }
/// what has become of a connection
pub open spec fn served(a: Cv, z: Cv, ok: bool) -> bool {
    &&& z.uid == a.uid && z.pid == a.pid
    // every peer hears the daemon's version first
    &&& z.sent.len() > 0 ==> z.sent[0] == Out::Version(advertised())
    // nothing but the request that was read is carried out, once, for this user only
    &&& z.done.len() > 0 ==> a.uid == own_uid() && z.read is Some && z.done =~= seq![z.read->0]
    // unless something failed, a request of this user is carried out
    &&& z.failed || a.uid != own_uid() || (z.read is Some && z.done.len() == 1)
    // and anyone else is turned away: told so if they wanted to attach, and cut off
    &&& z.failed || a.uid == own_uid() || (!ok && z.shut && z.done.len() == 0
        && z.sent.len() == (if z.read->0 is Attach { 2int } else { 1int })
        && (z.read->0 is Attach ==> z.sent[1] is Status && z.sent[1]->Status_0 is Forbidden))
}
}
} // verus!
