// How a daemon comes to be, and goes.
//
// `Launch` is a ghost token for one process: what it holds, has changed about
// itself and has done to the files that daemons share.
macro_rules! put_line { ($w:expr, $f:expr, "{}", $e:expr) => { $f.put_line($w, $e) } }
macro_rules! format { ($($t:tt)*) => { crate::launch::mk_text() } }
verus! {
pub mod launch {
use vstd::prelude::*;
use super::*;
use std::sync::Arc;
#[verifier::external_body]
pub fn mk_text() -> (r: String) { unimplemented!() }

// ---- paths
#[verifier::external_body]
pub struct PathBuf { _p: () }
pub type Path = PathBuf;
/// the events socket that goes with a control socket
pub uninterp spec fn events_of(p: int) -> int;
/// the file of that name in the same directory
pub uninterp spec fn sibling(p: int, name: Seq<char>) -> int;
/// the same file, whatever the working directory
pub uninterp spec fn absolute_of(p: int) -> int;
pub trait AsPath { spec fn pid(&self) -> int; fn as_ref(&self) -> (r: &PathBuf) ensures r.id() == self.pid(); }
impl PathBuf {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn with_file_name(&self, n: &str) -> (r: PathBuf) ensures r.id() == sibling(self.id(), n@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures r.word() == Word::Path(self.id()) { unimplemented!() }
}
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: PathBuf) ensures r.id() == self.id() { unimplemented!() } }
impl AsPath for PathBuf { open spec fn pid(&self) -> int { self.id() } fn as_ref(&self) -> (r: &PathBuf) { self } }
impl<'a> AsPath for &'a PathBuf { open spec fn pid(&self) -> int { self.id() } fn as_ref(&self) -> (r: &PathBuf) { *self } }
pub uninterp spec fn path_of(s: Seq<char>) -> int;
impl<'a> AsPath for &'a String { open spec fn pid(&self) -> int { path_of(self@) } #[verifier::external_body] fn as_ref(&self) -> (r: &PathBuf) { unimplemented!() } }
#[verifier::external_body]
pub fn absolute<P: AsPath>(p: P) -> (r: Result<PathBuf, io::Error>) ensures r is Ok ==> r->Ok_0.id() == absolute_of(p.pid()) { unimplemented!() }

pub mod io {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub enum ErrorKind { ConnectionRefused, NotFound, AddrInUse, PermissionDenied, Other }
    #[verifier::external_body]
    pub struct Error { _p: () }
    impl Error {
        pub uninterp spec fn is(&self) -> ErrorKind;
        #[verifier::external_body]
        pub fn kind(&self) -> (r: ErrorKind) ensures r == self.is() { unimplemented!() }
    }
    pub type Result<T> = core::result::Result<T, Error>;
}
impl PartialEq<io::ErrorKind> for io::ErrorKind { #[verifier::external_body] fn eq(&self, o: &io::ErrorKind) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<io::ErrorKind> for io::ErrorKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &io::ErrorKind) -> bool { *self == *o }
}
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) { unimplemented!() } }

// ---- the environment
pub struct AutoVar {}
pub fn auto_var() -> (r: AutoVar) { AutoVar {} }
#[verifier::external_body]
pub struct EnvVal { _p: () }
impl EnvVal {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn parse<T: Parsed>(&self) -> (r: Result<T, ParseError>) ensures (r is Ok) == (T::of(self.text()) is Some), r is Ok ==> r->Ok_0 == T::of(self.text())->0 { unimplemented!() }
}
pub trait Parsed: Sized { spec fn of(s: Seq<char>) -> Option<Self>; }
pub uninterp spec fn number(s: Seq<char>) -> Option<isize>;
impl Parsed for isize { open spec fn of(s: Seq<char>) -> Option<isize> { number(s) } }
pub struct ParseError {}
impl PartialEq<&'static str> for EnvVal { #[verifier::external_body] fn eq(&self, o: &&'static str) -> (r: bool) ensures r == (self.text() == o@) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<&'static str> for EnvVal {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'static str) -> bool { self.text() == o@ }
}
pub struct VarError {}
pub trait EnvName { spec fn value(&self, v: Lv) -> Option<Seq<char>>; spec fn gone(&self, v: Lv) -> Lv; }
impl EnvName for AutoVar {
    open spec fn value(&self, v: Lv) -> Option<Seq<char>> { v.marker }
    open spec fn gone(&self, v: Lv) -> Lv { Lv { marker: None, ..v } }
}
impl EnvName for &'static str {
    open spec fn value(&self, v: Lv) -> Option<Seq<char>> { environ(self@) }
    open spec fn gone(&self, v: Lv) -> Lv { v }
}
pub uninterp spec fn environ(n: Seq<char>) -> Option<Seq<char>>;
pub mod env {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn var<N: EnvName>(w: &Launch, n: N) -> (r: Result<EnvVal, VarError>)
        ensures (r is Ok) == (n.value(w.v()) is Some), r is Ok ==> r->Ok_0.text() == n.value(w.v())->0
    { unimplemented!() }
    #[verifier::external_body]
    pub unsafe fn remove_var<N: EnvName>(w: &mut Launch, n: N) requires !old(w).v().threads ensures final(w).v() == n.gone(old(w).v()) { unimplemented!() }
}

// ---- the process
pub struct Lv {
    /// what the variable that a command sets for the daemon it launches says
    pub marker: Option<Seq<char>>,
    /// the control socket, as this process was told
    pub sock: int,
    /// a connection to the control socket was refused: nobody listens on it any more
    pub refused: bool,
    /// this process listens on the control socket: made by itself, or handed over by systemd
    pub bound: bool, pub given: bool,
    /// it has other threads
    pub threads: bool,
    /// the events socket is its own; its session table is there
    pub events: bool, pub table: bool,
    /// files that go when it is ended by a signal
    pub watched: Option<Seq<int>>,
    pub served: bool,
    pub removed: Seq<int>,
    // about the process itself
    pub umask: bool, pub dir_free: bool, pub forks: int, pub leader: bool, pub own_session: bool, pub me: i32, pub parent: bool,
    pub waited: Option<int>,
    /// standard input, output and error are /dev/null
    pub nulls: (bool, bool, bool),
    /// the pid file, its lock, and what it says
    pub pidfile: Option<int>, pub lock: bool, pub said: Seq<i32>, pub at_start: bool,
    // about a launching command
    pub answered: bool, pub launched: Seq<Seq<Word>>,
}
#[verifier::external_body]
pub struct Launch { _p: () }
impl Launch {
    pub uninterp spec fn v(&self) -> Lv;
    /// signals that end it at once when they find the flag set, and those that set it
    pub uninterp spec fn shut(&self) -> Set<i32>;
    pub uninterp spec fn armed(&self) -> Set<i32>;
}
pub uninterp spec fn new_pid(v: Lv) -> i32;
/// it listens nowhere yet, has served nobody and taken nothing away
pub open spec fn fresh(v: Lv) -> bool { !v.bound && !v.given && !v.events && !v.table && v.watched is None && !v.served && v.removed.len() == 0 }
pub open spec fn unborn(v: Lv) -> bool { fresh(v) && !v.threads && !v.parent && v.waited is None && v.forks == 0 && v.pidfile is None }
/// it holds on to nothing of the command that launched it (not its directory, its terminal, its process group),
/// and is the only one: the pid file is locked and says who
pub open spec fn in_background(v: Lv) -> bool { v.dir_free && v.nulls == (true, true, true) && v.forks == 2 && v.own_session && !v.leader && v.lock && v.said == seq![v.me] }
/// the same as far as its sockets and sessions go
pub open spec fn like(a: Lv, z: Lv) -> bool {
    a.marker == z.marker && a.sock == z.sock && a.refused == z.refused && a.bound == z.bound && a.given == z.given && a.threads == z.threads && a.events == z.events
        && a.table == z.table && a.watched == z.watched && a.served == z.served && a.removed == z.removed
}

#[verifier::external_body]
pub struct UnixStream { _p: () }
impl UnixStream {
    #[verifier::external_body]
    pub fn connect<P: AsPath>(w: &mut Launch, p: P) -> (r: io::Result<UnixStream>)
        ensures final(w).v() == (Lv { answered: r is Ok && (p.pid() == old(w).v().sock || p.pid() == absolute_of(old(w).v().sock)),
            refused: r is Err && r->Err_0.is() is ConnectionRefused && p.pid() == old(w).v().sock, ..old(w).v() })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixListener { _p: () }
impl UnixListener {
    pub uninterp spec fn is_main(&self) -> bool;
    #[verifier::external_body]
    pub fn bind<P: AsPath>(w: &mut Launch, p: P) -> (r: io::Result<UnixListener>)
        requires p.pid() == old(w).v().sock, !old(w).v().bound && !old(w).v().given
        ensures final(w).v() == (Lv { bound: r is Ok, ..old(w).v() }), r is Ok ==> r->Ok_0.is_main()
    { unimplemented!() }
}
pub mod fs {
    use vstd::prelude::*;
    use super::*;
    /// only a socket nobody listens on, before having made one's own, or one's own
    #[verifier::external_body]
    pub fn remove_file<P: AsPath>(w: &mut Launch, p: P) -> (r: io::Result<()>)
        requires p.pid() == old(w).v().sock && ((old(w).v().refused && !old(w).v().bound) || (old(w).v().bound && old(w).v().served))
        ensures final(w).v() == (Lv { refused: false, removed: old(w).v().removed.push(p.pid()), ..old(w).v() })
    { unimplemented!() }
    pub struct OpenOptions { pub trunc: bool, pub w: bool, pub c: bool }
    impl OpenOptions {
        pub fn new() -> (r: OpenOptions) ensures !r.trunc && !r.w && !r.c { OpenOptions { trunc: false, w: false, c: false } }
        #[verifier::external_body]
        pub fn read(self, b: bool) -> (r: OpenOptions) ensures r == self { unimplemented!() }
        #[verifier::external_body]
        pub fn append(self, b: bool) -> (r: OpenOptions) ensures r == self { unimplemented!() }
        #[verifier::external_body]
        pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { w: b, ..self }) { unimplemented!() }
        #[verifier::external_body]
        pub fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { c: b, ..self }) { unimplemented!() }
        #[verifier::external_body]
        pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { trunc: b, ..self }) { unimplemented!() }
        /// what another daemon wrote there is not touched without holding the lock
        #[verifier::external_body]
        pub fn open<P: AsPath>(self, w: &Launch, p: P) -> (r: io::Result<File>)
            requires !self.trunc && self.w && self.c
            ensures r is Ok ==> r->Ok_0.of() == p.pid()
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct File { _p: () }
    impl File { pub uninterp spec fn of(&self) -> int; }
}
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
pub mod nix { pub mod errno { pub use super::super::fcntl::Errno; } }
pub use fcntl::FlockArg;
pub mod fcntl {
    use vstd::prelude::*;
    use super::*;
    #[derive(Clone, Copy)]
    pub enum Errno { EWOULDBLOCK, EINTR, Other }
    impl Errno { #[verifier::external_body] pub fn last() -> (r: Errno) { unimplemented!() } }
    pub enum FlockArg { LockExclusiveNonblock, LockExclusive, LockShared, LockSharedNonblock }
    pub struct OFlag {}
    impl OFlag { #[verifier::external_body] pub fn cloexec() -> (r: OFlag) { unimplemented!() } }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Flock<T> { _p: core::marker::PhantomData<T> }
    impl Flock<fs::File> {
        /// locked for as long as this value lives, on that file
        pub uninterp spec fn of(&self) -> int;
        #[verifier::external_body]
        pub fn lock(w: &mut Launch, f: fs::File, a: FlockArg) -> (r: Result<Flock<fs::File>, (fs::File, Errno)>)
            requires a is LockExclusiveNonblock || a is LockExclusive
            ensures final(w).v() == (Lv { lock: r is Ok, pidfile: if r is Ok { Some(f.of()) } else { None }, ..old(w).v() }), r is Ok ==> r->Ok_0.of() == f.of()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn set_len(&mut self, w: &mut Launch, n: u64) -> (r: io::Result<()>)
            requires old(w).v().lock, n == 0
            ensures final(self).of() == old(self).of(), final(w).v() == (if r is Ok { Lv { said: Seq::empty(), ..old(w).v() } } else { old(w).v() })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn seek(&mut self, w: &mut Launch, n: SeekFrom) -> (r: io::Result<u64>)
            ensures final(self).of() == old(self).of(), final(w).v() == (Lv { at_start: r is Ok && n == SeekFrom::Start(0), ..old(w).v() })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn put_line(&mut self, w: &mut Launch, n: u32) -> (r: io::Result<()>)
            requires old(w).v().lock, old(w).v().at_start && old(w).v().said.len() == 0
            ensures final(self).of() == old(self).of(), final(w).v() == (if r is Ok { Lv { said: seq![n as i32], at_start: false, ..old(w).v() } } else { old(w).v() })
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct NullFd { _p: () }
    impl NullFd { pub uninterp spec fn n(&self) -> i32; #[verifier::external_body] pub fn as_raw_fd(&self) -> (r: i32) ensures r == self.n() { unimplemented!() } }
    #[verifier::external_body]
    pub fn open_null(p: &str, f: OFlag, m: u32) -> (r: Result<NullFd, Errno>) ensures r is Ok ==> is_null(r->Ok_0.n()) { unimplemented!() }
}
/// a descriptor of /dev/null
pub uninterp spec fn is_null(fd: i32) -> bool;
impl PartialEq<fcntl::Errno> for fcntl::Errno { #[verifier::external_body] fn eq(&self, o: &fcntl::Errno) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<fcntl::Errno> for fcntl::Errno {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &fcntl::Errno) -> bool { *self == *o }
}
impl From<fcntl::Errno> for anyhow::Error { #[verifier::external_body] fn from(e: fcntl::Errno) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub fn dup2(w: &mut Launch, from: i32, to: i32) -> (r: i32)
    ensures r == -1 || r == to, final(w).v() == (if r == to && to >= 0 && is_null(from) {
        let n = old(w).v().nulls;
        Lv { nulls: if to == 0 { (true, n.1, n.2) } else if to == 1 { (n.0, true, n.2) } else if to == 2 { (n.0, n.1, true) } else { n }, ..old(w).v() }
    } else { old(w).v() })
{ unimplemented!() }
/// another file creation mask would become that of every session
#[verifier::external_body]
pub fn set_umask<M>(w: &mut Launch, m: M) -> (r: M) ensures final(w).v() == (Lv { umask: false, ..old(w).v() }) { unimplemented!() }
#[verifier::external_body]
pub fn set_current_dir(w: &mut Launch, d: &str) -> (r: io::Result<()>)
    ensures final(w).v() == (if r is Ok { Lv { dir_free: d@ == "/"@, ..old(w).v() } } else { old(w).v() })
{ unimplemented!() }
#[verifier::external_body]
pub fn process_id(w: &Launch) -> (r: u32) ensures r as i32 == w.v().me { unimplemented!() }
#[derive(Clone, Copy)]
pub struct Pid { pub n: i32 }
pub mod unistd {
    use vstd::prelude::*;
    use super::*;
    pub enum ForkResult { Parent { child: Pid }, Child }
    #[verifier::external_body]
    pub unsafe fn fork(w: &mut Launch) -> (r: Result<ForkResult, fcntl::Errno>)
        requires !old(w).v().threads, !old(w).v().parent
        ensures
            r is Err ==> final(w).v() == old(w).v(),
            r is Ok && r->Ok_0 is Parent ==> final(w).v() == (Lv { parent: true, ..old(w).v() }),
            r is Ok && r->Ok_0 is Child ==> final(w).v() == (Lv { forks: old(w).v().forks + 1, leader: false, me: new_pid(old(w).v()), ..old(w).v() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn setsid(w: &mut Launch) -> (r: Result<Pid, fcntl::Errno>)
        requires !old(w).v().leader
        ensures final(w).v() == (if r is Ok { Lv { leader: true, own_session: true, ..old(w).v() } } else { old(w).v() })
    { unimplemented!() }
}
pub use unistd::ForkResult;
pub mod wait {
    use vstd::prelude::*;
    use super::*;
    pub enum WaitStatus { Exited(Pid, i32), Signaled(Pid, i32, bool), StillAlive }
    /// without options it returns only once the child has ended
    #[verifier::external_body]
    pub fn waitpid(w: &mut Launch, p: Pid, o: Option<i32>) -> (r: Result<WaitStatus, fcntl::Errno>)
        requires o is None
        ensures r is Ok ==> !(r->Ok_0 is StillAlive), final(w).v() == (Lv { waited: if r is Ok { Some(match r->Ok_0 { WaitStatus::Exited(_, s) => s as int, _ => 1 }) } else { None }, ..old(w).v() })
    { unimplemented!() }
}
pub use wait::WaitStatus;
/// the parent's part ends here, with what became of the child if it waited for it
#[verifier::external_body]
pub fn exit_parent(w: &Launch, s: i32) -> ! requires w.v().parent, s == (match w.v().waited { Some(x) => x, None => 0 }) { unimplemented!() }

//@item libshpool/src/daemonize.rs :: struct PidFileGuard
impl PidFileGuard {
//@fn libshpool/src/daemonize.rs :: PidFileGuard :: path
//@ret r
//@spec
        ensures r.id() == self.p.id()
//@endfn
}
//@fn libshpool/src/daemonize.rs :: - :: become_child
//@ret r
//@sub `fn become_child(` => `fn become_child(w: &mut Launch, `
//@sub `unistd::fork(` => `unistd::fork(w`
//@sub `wait::waitpid(` => `wait::waitpid(w, `
//@sub `std::process::exit(` => `exit_parent(w, `
//@spec
    requires !old(w).v().threads, !old(w).v().parent, old(w).v().waited is None
    ensures
        // only the child goes on
        r is Ok ==> final(w).v() == (Lv { forks: old(w).v().forks + 1, leader: false, me: new_pid(old(w).v()), ..old(w).v() }),
        r is Err ==> final(w).v().removed == old(w).v().removed && final(w).v().served == old(w).v().served,
//@endfn
//@fn libshpool/src/daemonize.rs :: - :: redirect_std_fds_to_null
//@ret r
//@sub `fn redirect_std_fds_to_null(` => `fn redirect_std_fds_to_null(w: &mut Launch`
//@sub `fcntl::open(` => `fcntl::open_null(`
//@sub `fcntl::OFlag::O_CLOEXEC` => `fcntl::OFlag::cloexec()`
//@sub `stat::Mode::S_IRUSR | stat::Mode::S_IWUSR` => `0o600`
//@sub `libc::dup2(` => `dup2(w, `
//@sub `libc::STDIN_FILENO` => `0`
//@sub `libc::STDOUT_FILENO` => `1`
//@sub `libc::STDERR_FILENO` => `2`
//@spec
    ensures
        r is Ok ==> final(w).v() == (Lv { nulls: (true, true, true), ..old(w).v() }),
        r is Err ==> final(w).v().removed == old(w).v().removed && final(w).v().served == old(w).v().served,
//@endfn
//@fn libshpool/src/daemonize.rs :: - :: daemonize
//@ret r
//@sub `pid_path: PathBuf` => `w: &mut Launch, pid_path: PathBuf`
//@sub `nix::sys::stat::umask(` => `set_umask(w, `
//@sub `stat::umask(` => `set_umask(w, `
//@sub `nix::sys::stat::Mode::empty()` => `0`
//@sub `stat::Mode::empty()` => `0`
//@sub `std::env::set_current_dir(` => `set_current_dir(w, `
//@sub `become_child(` => `become_child(w, `
//@sub `unistd::setsid(` => `unistd::setsid(w`
//@sub `.open(` => `.open(w, `
//@sub `fcntl::Flock::lock(` => `fcntl::Flock::lock(w, `
//@sub `.set_len(` => `.set_len(w, `
//@sub `.seek(` => `.seek(w, `
//@sub `writeln!(*` => `put_line!(w, `
//@sub `std::process::id()` => `process_id(w)`
//@sub `redirect_std_fds_to_null(` => `redirect_std_fds_to_null(w`
//@spec
    requires !old(w).v().threads, !old(w).v().parent, old(w).v().waited is None, old(w).v().forks == 0
    ensures
        r is Ok ==> ({
            let (a, z) = (old(w).v(), final(w).v());
            // it holds on to nothing of the command that launched it: not its directory, its terminal, its process group
            &&& z.dir_free && z.nulls == (true, true, true) && z.forks == 2 && z.own_session && !z.leader
            // and takes its user's file creation mask along to the sessions
            &&& z.umask == a.umask
            // it is the only one: the pid file is locked for as long as the guard lives, and says who
            &&& z.lock && z.pidfile == Some($2.id()) && r->Ok_0.p.id() == $2.id() && r->Ok_0._lock.of() == $2.id()
            &&& z.said == seq![z.me]
            &&& like(a, z)
        }),
        r is Err ==> final(w).v().removed == old(w).v().removed && final(w).v().served == old(w).v().served,
//@endfn

// ---- the daemon
pub mod config { pub struct Manager {} }
pub mod hooks { pub struct Hooks {} }
pub struct LogHandle {}
pub mod systemd {
    use vstd::prelude::*;
    use super::*;
    /// descriptor 3 is a socket
    pub uninterp spec fn fd3_is_socket() -> bool;
    #[verifier::external_body]
    pub struct OwnedFd { _p: () }
    impl OwnedFd {
        pub uninterp spec fn n(&self) -> i32;
        /// taken over from systemd: only what it says it passes
        #[verifier::external_body]
        pub unsafe fn from_raw_fd(n: i32) -> (r: OwnedFd) requires n == 3, handed() ensures r.n() == n { unimplemented!() }
        #[verifier::external_body]
        pub fn into(self, w: &mut Launch) -> (r: UnixListener)
            requires self.n() == 3, fd3_is_socket(), handed()
            ensures final(w).v() == (Lv { given: true, ..old(w).v() }), r.is_main()
        { unimplemented!() }
    }
    /// one socket was passed
    pub open spec fn handed() -> bool { environ("LISTEN_FDS"@) is Some && number(environ("LISTEN_FDS"@)->0) == Some(1isize) }
    pub struct Stat { pub st_mode: u32 }
    pub mod stat {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body]
        pub fn fstat(fd: &super::OwnedFd) -> (r: Result<super::Stat, fcntl::Errno>) ensures r is Ok && fd.n() == 3 ==> sock_mode(r->Ok_0.st_mode) == super::fd3_is_socket() { unimplemented!() }
        pub uninterp spec fn sock_mode(m: u32) -> bool;
        #[verifier::external_body]
        pub fn is_sock(m: u32) -> (r: bool) ensures r == sock_mode(m) { unimplemented!() }
    }
//@item libshpool/src/daemon/systemd.rs :: const FIRST_ACTIVATION_SOCKET_FD sub `RawFd` => `i32`
//@fn libshpool/src/daemon/systemd.rs :: - :: activation_socket
//@ret r
//@sub `fn activation_socket(` => `fn activation_socket(w: &mut Launch`
//@sub `env::var(` => `env::var(w, `
//@sub `stat::SFlag::from_bits_truncate(sock_stat.st_mode).contains(stat::SFlag::S_IFSOCK)` => `stat::is_sock(sock_stat.st_mode)`
//@sub `.into()` => `.into(w)`
//@spec
        ensures
            r is Ok ==> handed() && fd3_is_socket() && r->Ok_0.is_main() && final(w).v() == (Lv { given: true, ..old(w).v() }),
            r is Err ==> final(w).v() == old(w).v(),
//@endfn
}
pub mod events {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn socket_path(p: &PathBuf) -> (r: PathBuf) ensures r.id() == events_of(p.id()) { unimplemented!() }
    pub struct EventBus {}
    pub struct EventBusHandle {}
    impl EventBus {
        /// takes the place of whatever events socket there is: that of the daemon on this control socket
        #[verifier::external_body]
        pub fn start(w: &mut Launch, p: PathBuf) -> (r: anyhow::Result<(Arc<EventBus>, EventBusHandle)>)
            requires p.id() == events_of(old(w).v().sock), old(w).v().bound || old(w).v().given
            ensures final(w).v() == (Lv { threads: true, events: r is Ok, ..old(w).v() })
        { unimplemented!() }
    }
}
pub mod server {
    use vstd::prelude::*;
    use super::*;
    pub struct Server {}
    impl Server {
        #[verifier::external_body]
        pub fn new(w: &mut Launch, c: config::Manager, h: Box<hooks::Hooks>, d: PathBuf, l: LogHandle, b: Arc<events::EventBus>) -> (r: anyhow::Result<Arc<Server>>)
            requires old(w).v().events
            ensures final(w).v() == (Lv { threads: true, table: r is Ok, ..old(w).v() })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn serve(w: &mut Launch, s: Arc<Server>, l: UnixListener) -> (r: anyhow::Result<()>)
            requires l.is_main(), old(w).v().events && old(w).v().table, old(w).v().marker != Some("true"@), old(w).v().watched is Some
            ensures final(w).v() == (Lv { served: true, ..old(w).v() })
        { unimplemented!() }
    }
}
pub open spec fn goes(v: Lv, x: int) -> bool { x == events_of(v.sock) || (v.bound && x == v.sock) || (v.pidfile is Some && x == v.pidfile->0) }
pub open spec fn has(s: Seq<PathBuf>, x: int) -> bool { exists|k: int| 0 <= k < s.len() && #[trigger] s[k].id() == x }
pub open spec fn covers(s: Seq<PathBuf>, v: Lv) -> bool { has(s, events_of(v.sock)) && (v.bound ==> has(s, v.sock)) && (v.pidfile is Some ==> has(s, v.pidfile->0)) }
pub open spec fn ids(s: Seq<PathBuf>) -> Seq<int> { s.map_values(|p: PathBuf| p.id()) }
pub mod signals {
    use vstd::prelude::*;
    use super::*;
    /// the signals that end the daemon
    #[verifier::external_body]
    pub fn term_signals() -> (r: Vec<&'static i32>) ensures r@ == terms() { unimplemented!() }
    pub uninterp spec fn terms() -> Seq<&'static i32>;
    pub struct AtomicBool {}
    impl AtomicBool { pub fn new(b: bool) -> (r: AtomicBool) requires !b { AtomicBool {} } }
    pub mod flag {
        use vstd::prelude::*;
        use super::*;
        /// the process ends at once when this signal finds the flag set
        #[verifier::external_body]
        pub fn register_conditional_shutdown(w: &mut Launch, sig: i32, code: i32, f: Arc<AtomicBool>) -> (r: io::Result<()>)
            ensures final(w).v() == old(w).v(), final(w).shut() == old(w).shut().insert(sig), final(w).armed() == old(w).armed()
        { unimplemented!() }
        /// set by this signal: after what looks at it, or the first signal would already end the process
        #[verifier::external_body]
        pub fn register(w: &mut Launch, sig: i32, f: Arc<AtomicBool>) -> (r: io::Result<()>)
            requires old(w).shut().contains(sig)
            ensures final(w).v() == old(w).v(), final(w).shut() == old(w).shut(), final(w).armed() == old(w).armed().insert(sig)
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Signals { _p: () }
    impl Signals {
        pub uninterp spec fn all(&self) -> bool;
        #[verifier::external_body]
        pub fn of_all(v: Vec<&'static i32>) -> (r: io::Result<Signals>) ensures r is Ok && v@ == terms() ==> r->Ok_0.all() { unimplemented!() }
        #[verifier::external_body]
        pub fn as_they_come(&self) -> (r: Vec<i32>) requires self.all() { unimplemented!() }
    }
    /// the thread that waits for a signal
    #[verifier::external_body]
    pub struct Waiting { _p: () }
    impl Waiting { pub uninterp spec fn of(&self) -> Seq<int>; pub uninterp spec fn gone(&self) -> Seq<int>; }
    #[verifier::external_body]
    pub fn waiting(h: &Handler) -> (r: Waiting) ensures r.of() == ids(h.socks_to_clean@), r.gone().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(t: &mut Waiting, p: &PathBuf) -> (r: io::Result<()>) ensures final(t).of() == old(t).of(), final(t).gone() == old(t).gone().push(p.id()) { unimplemented!() }
    /// it ends the process only when all that is to go has gone, and as it should
    #[verifier::external_body]
    pub fn exit_signalled(t: &Waiting, code: i32) -> ! requires code == 0, t.gone() =~= t.of() { unimplemented!() }
    #[verifier::external_body]
    pub fn start_waiting(w: &mut Launch, h: &Handler, b: ())
        requires forall|i: int| 0 <= i < terms().len() ==> old(w).shut().contains(*#[trigger] terms()[i]) && old(w).armed().contains(*terms()[i])
        ensures final(w).v() == (Lv { threads: true, watched: Some(ids(h.socks_to_clean@)), ..old(w).v() })
    { unimplemented!() }
    pub struct Socks<'a> { pub v: &'a Vec<PathBuf> }
    #[verifier::external_body]
    pub fn each<'a>(v: &'a Vec<PathBuf>) -> (r: Vec<&'a PathBuf>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == v@[i] { unimplemented!() }
//@item libshpool/src/daemon/signals.rs :: struct Handler
    impl Handler {
//@fn libshpool/src/daemon/signals.rs :: Handler :: new
//@ret r
//@spec
            ensures r.socks_to_clean@ == $1@
//@endfn
//@fn libshpool/src/daemon/signals.rs :: Handler :: spawn
//@ret r
//@sub `spawn(self` => `spawn(self, w: &mut Launch`
//@sub `in TERM_SIGNALS` => `in term_signals()`
//@sub `flag::register_conditional_shutdown(` => `flag::register_conditional_shutdown(w, `
//@sub `flag::register(` => `flag::register(w, `
//@sub `Signals::new(TERM_SIGNALS)` => `Signals::of_all(term_signals())`
//@sub `thread::spawn(move || {` => `start_waiting(w, &self, { let mut t = waiting(&self);`
//@sub `in &mut signals` => `in signals.as_they_come()`
//@sub `assert!(TERM_SIGNALS.contains(&signal));` => ``
//@sub `in &self.socks_to_clean` => `in each(&self.socks_to_clean)`
//@sub `std::fs::remove_file(` => `remove(&mut t, `
//@sub `std::io::ErrorKind` => `io::ErrorKind`
//@sub `std::process::exit(` => `exit_signalled(&t, `
//@spec
            requires
                // what goes when a signal ends the daemon: everything that is its own, and nothing else
                forall|i: int| 0 <= i < self.socks_to_clean@.len() ==> goes(old(w).v(), (#[trigger] self.socks_to_clean@[i]).id()),
                covers(self.socks_to_clean@, old(w).v()),
            ensures
                r is Ok ==> final(w).v() == (Lv { threads: true, watched: Some(ids(self.socks_to_clean@)), ..old(w).v() }),
                r is Err ==> final(w).v() == old(w).v(),
//@loop 0 iter=it kind=for
            invariant
                it.seq() == terms(), 0 <= it.index() <= it.seq().len(),
                forall|i: int| 0 <= i < it.index() ==> w.shut().contains(*#[trigger] terms()[i]) && w.armed().contains(*terms()[i]),
                w.v() == old(w).v(),
//@loop 1 kind=for
            invariant t.gone().len() == 0, t.of() == ids(self.socks_to_clean@),
//@loop 2 iter=it kind=for
            invariant
                t.of() == ids(self.socks_to_clean@), it.seq().len() == self.socks_to_clean@.len(), 0 <= it.index() <= it.seq().len(), t.gone().len() == it.index(),
                forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == self.socks_to_clean@[i],
                forall|i: int| 0 <= i < it.index() ==> t.gone()[i] == (#[trigger] self.socks_to_clean@[i]).id(),
//@endfn
    }
}
#[verifier::external_body]
pub fn opt_vec(o: &Option<PathBuf>) -> (r: Vec<PathBuf>) ensures o is Some ==> r@.len() == 1 && r@[0].id() == o->0.id(), o is None ==> r@.len() == 0 { unimplemented!() }
//@fn libshpool/src/daemon/mod.rs :: - :: maybe_daemonize
//@ret r
//@sub `socket: &Path` => `w: &mut Launch, socket: &Path`
//@sub `daemonize::PidFileGuard` => `PidFileGuard`
//@sub `consts::AUTODAEMONIZE_VAR` => `auto_var()`
//@sub `env::var(` => `env::var(w, `
//@sub `env::remove_var(` => `env::remove_var(w, `
//@sub `daemonize::daemonize(` => `crate::launch::daemonize(w, `
//@spec
    requires unborn(old(w).v()), old(w).v().sock == $2.id(), old(w).v().umask, !old(w).v().refused
    ensures
        // one that a command launched is in the background, the only one, and won't launch further ones
        r is Ok && old(w).v().marker == Some("true"@) ==> ({
            let z = final(w).v();
            &&& r->Ok_0 is Some && z.marker is None && in_background(z)
            &&& z.pidfile == Some(sibling($2.id(), "daemonized-shpool.pid"@)) && r->Ok_0->0.p.id() == z.pidfile->0 && r->Ok_0->0._lock.of() == z.pidfile->0
            &&& like(Lv { marker: None, ..old(w).v() }, z) && z.umask
        }),
        // any other stays what it is
        r is Ok && old(w).v().marker != Some("true"@) ==> r->Ok_0 is None && final(w).v() == old(w).v(),
        r is Err ==> final(w).v().removed == old(w).v().removed && final(w).v().served == old(w).v().served,
//@endfn
//@fn libshpool/src/daemon/mod.rs :: - :: run
//@ret r
//@sub `config_manager: config::Manager` => `w: &mut Launch, config_manager: config::Manager`
//@sub `Box<dyn hooks::Hooks + Send + Sync>` => `Box<hooks::Hooks>`
//@sub `tracing_subscriber::reload::Handle<tracing_subscriber::filter::LevelFilter,tracing_subscriber::registry::Registry,>` => `LogHandle`
//@sub `daemonize::PidFileGuard` => `PidFileGuard`
//@sub `std::os::unix::net::UnixStream::connect(` => `UnixStream::connect(w, `
//@sub `std::io::ErrorKind` => `io::ErrorKind`
//@sub `std::fs::remove_file(` => `fs::remove_file(w, `
//@sub `UnixListener::bind(` => `UnixListener::bind(w, `
//@sub `systemd::activation_socket(` => `systemd::activation_socket(w`
//@sub `events::EventBus::start(` => `events::EventBus::start(w, `
//@sub `server::Server::new(` => `server::Server::new(w, `
//@sub `server::Server::serve(` => `server::Server::serve(w, `
//@sub `.spawn()` => `.spawn(w)`
//@sub `cleanup_socket.iter().cloned().collect()` => `opt_vec(&cleanup_socket)`
//@cl 0 (q: PathBuf) ensures q.id() == $c1.p.id()
//@bind SC `let mut ? : Vec`
//@bind CS `let ( ? , listener )`
//@spec
    requires
        fresh(old(w).v()), old(w).v().sock == $6.id(), old(w).v().umask, !old(w).v().refused, old(w).v().marker != Some("true"@),
        $7 is Some ==> in_background(old(w).v()) && old(w).v().pidfile == Some($7->0.p.id()),
        $7 is None ==> old(w).v().pidfile is None && old(w).v().forks == 0,
    ensures
        final(w).v().served ==> final(w).v().umask && final(w).v().forks == old(w).v().forks && final(w).v().lock == old(w).v().lock,
        r is Ok ==> final(w).v().served,
//@at before 0 `let events_socket`
    proof {
        let v = w.v();
        assert(v.bound == ($CS is Some));
        assert($CS is Some ==> ($CS->0).id() == v.sock);
        assert(v.bound || v.given);
    }
//@at before 0 `signals :: Handler :: new`
    proof {
        let s = $SC@;
        let v = w.v();
        let n: int = if v.bound { 1 } else { 0 };
        let m: int = if v.pidfile is Some { 1 } else { 0 };
        assert(v.bound == ($CS is Some) && (v.pidfile is Some) == ($7 is Some));
        assert(s.len() == n + 1 + m);
        assert(s[n].id() == events_of(v.sock));
        assert(v.bound ==> s[0].id() == v.sock);
        assert(v.pidfile is Some ==> s[n + 1].id() == v.pidfile->0);
        assert(has(s, events_of(v.sock)));
        assert(covers(s, v));
        assert forall|i: int| 0 <= i < s.len() implies goes(v, (#[trigger] s[i]).id()) by {
            assert(i == n || i < n || i == n + 1);
        }
    }
//@endfn

// ---- a command that needs a daemon
pub struct Args { pub config_file: Option<String> }
pub enum Word { Lit(Seq<char>), Path(int) }
pub trait AsWord { spec fn word(&self) -> Word; }
#[verifier::external_body]
pub struct OsStr { _p: () }
impl OsStr { pub uninterp spec fn word(&self) -> Word; }
impl<'a> AsWord for &'a OsStr { open spec fn word(&self) -> Word { OsStr::word(*self) } }
impl AsWord for &'static str { open spec fn word(&self) -> Word { Word::Lit(self@) } }
impl AsWord for PathBuf { open spec fn word(&self) -> Word { Word::Path(self.id()) } }
impl<'a> AsWord for &'a PathBuf { open spec fn word(&self) -> Word { Word::Path(self.id()) } }
impl<'a> AsWord for &'a String { open spec fn word(&self) -> Word { Word::Path(path_of(self@)) } }
pub struct Stdio {}
impl Stdio { pub fn null() -> (r: Stdio) { Stdio {} } pub fn inherit() -> (r: Stdio) { Stdio {} } pub fn piped() -> (r: Stdio) { Stdio {} } }
pub mod process {
    use vstd::prelude::*;
    use super::*;
    pub use super::Stdio;
    pub struct Cmd { pub args: Seq<Word>, pub auto: bool }
    #[verifier::external_body]
    pub struct Command { _p: () }
    pub struct Child {}
    impl Command {
        pub uninterp spec fn v(&self) -> Cmd;
        #[verifier::external_body]
        pub fn new<B>(b: B) -> (r: Command) ensures r.v() == (Cmd { args: Seq::empty(), auto: false }) { unimplemented!() }
        #[verifier::external_body]
        pub fn arg<T: AsWord>(&mut self, a: T) -> (r: &mut Command)
            ensures r.v() == (Cmd { args: old(self).v().args.push(a.word()), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn env(&mut self, k: AutoVar, v: &str) -> (r: &mut Command)
            ensures r.v() == (Cmd { auto: v@ == "true"@, ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn stdout(&mut self, s: Stdio) -> (r: &mut Command) ensures r.v() == old(self).v(), *final(self) == *final(r) { unimplemented!() }
        #[verifier::external_body]
        pub fn stdin(&mut self, s: Stdio) -> (r: &mut Command) ensures r.v() == old(self).v(), *final(self) == *final(r) { unimplemented!() }
        #[verifier::external_body]
        pub fn stderr(&mut self, s: Stdio) -> (r: &mut Command) ensures r.v() == old(self).v(), *final(self) == *final(r) { unimplemented!() }
        /// launched to run in the background, when nobody answers
        #[verifier::external_body]
        pub fn spawn(&mut self, w: &mut Launch) -> (r: io::Result<Child>)
            requires old(self).v().auto, !old(w).v().answered, old(w).v().launched.len() == 0
            ensures final(w).v() == (if r is Ok { Lv { launched: old(w).v().launched.push(old(self).v().args), ..old(w).v() } } else { old(w).v() })
        { unimplemented!() }
    }
}
pub struct Duration { pub ms: u64 }
impl Duration { pub fn from_millis(n: u64) -> (r: Duration) { Duration { ms: n } } pub fn from_secs(n: u64) -> (r: Duration) { Duration { ms: 0 } } }
pub mod thread { use vstd::prelude::*; #[verifier::external_body] pub fn sleep(d: super::Duration) { unimplemented!() } }
pub struct Conf { pub nodaemonize_timeout: Option<bool> }
#[verifier::external_body]
pub struct ConfManager { _p: () }
impl ConfManager { #[verifier::external_body] pub fn get(&self) -> (r: Conf) { unimplemented!() } }
use vstd::arithmetic::power2::{pow2, lemma_pow2_unfold, lemma2_to64};
/// the words that make a background daemon of the same configuration on the same socket
pub open spec fn as_daemon(a: Seq<Word>, conf: Option<String>, sock: int) -> bool {
    let n: int = if conf is Some { 2 } else { 0 };
    &&& a.len() == n + 5
    &&& conf is Some ==> a[0] == Word::Lit("--config-file"@) && a[1] == Word::Path(absolute_of(path_of(conf->0@)))
    &&& a[n] == Word::Lit("--log-file"@)
    &&& a[n + 2] == Word::Lit("--socket"@) && a[n + 3] == Word::Path(absolute_of(sock))
    &&& a[n + 4] == Word::Lit("daemon"@)
}
//@fn libshpool/src/daemonize.rs :: - :: maybe_launch_daemon
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `config_manager: &config::Manager` => `w: &mut Launch, config_manager: &ConfManager`
//@sub `<B, P>` => `<B, P: AsPath>`
//@sub `where B: AsRef<OsStr>, P: AsRef<Path>,` => ``
//@sub `UnixStream::connect(` => `UnixStream::connect(w, `
//@sub `std::io::ErrorKind` => `io::ErrorKind`
//@sub `std::fs::remove_file(` => `fs::remove_file(w, `
//@sub `std::path::absolute(` => `absolute(`
//@sub `consts::AUTODAEMONIZE_VAR` => `auto_var()`
//@sub `.spawn()` => `.spawn(w)`
//@bind MS `let mut ? = 10`
//@spec
    requires old(w).v().launched.len() == 0, old(w).v().removed.len() == 0, old(w).v().sock == $5.pid(), !old(w).v().answered
    ensures
        // it goes on only when a daemon answers
        r is Ok ==> final(w).v().answered,
        // a daemon that answers at once is left alone; otherwise one is launched, the same whatever the working directory
        final(w).v().launched.len() <= 1,
        final(w).v().launched.len() == 1 ==> as_daemon(final(w).v().launched[0], $3.config_file, old(w).v().sock),
        // and a socket file is left to the daemon
        final(w).v().removed.len() == 0,
//@loop 0 kind=loop
            invariant
                w.v().launched.len() == 1, as_daemon(w.v().launched[0], args.config_file, old(w).v().sock), w.v().removed.len() == 0, w.v().sock == old(w).v().sock,
                control_sock.id() == absolute_of(w.v().sock), 0 < sleep_ms <= 2000, max_sleep_ms == 2000,
//@loop 1 iter=it kind=for
            invariant
                w.v().launched.len() == 1, as_daemon(w.v().launched[0], args.config_file, old(w).v().sock), w.v().removed.len() == 0, w.v().sock == old(w).v().sock,
                control_sock.id() == absolute_of(w.v().sock), sleep_ms <= 10 * pow2(it.index() as nat), it.index() <= 9,
//@at loopbefore 1
            proof { lemma2_to64(); }
//@at loopstart 1
            proof { lemma2_to64(); }
//@endfn
}
} // verus!
