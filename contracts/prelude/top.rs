// From the command line to the handler of a command.
//
// `Top` is a ghost token for the process: whether it has threads, whether a
// daemon answered, what was carried out.
macro_rules! format { ($($t:tt)*) => { crate::top::mk_text() } }
macro_rules! matches_cmd { ($e:expr, $p:pat) => { match $e { $p => true, _ => false } } }
verus! {
pub mod top {
use vstd::prelude::*;
use super::*;
use std::sync::Arc;
#[verifier::external_body]
pub fn mk_text() -> (r: String) { unimplemented!() }

// ---- paths and the environment
#[verifier::external_body]
pub struct PathBuf { _p: () }
pub uninterp spec fn path_of(s: Seq<char>) -> int;
pub uninterp spec fn under(p: int, n: Seq<char>) -> int;
pub uninterp spec fn events_of(p: int) -> int;
pub trait Part { spec fn text(&self) -> Seq<char>; }
impl<'a> Part for &'a str { open spec fn text(&self) -> Seq<char> { (*self)@ } }
impl Part for String { open spec fn text(&self) -> Seq<char> { self@ } }
pub trait Src { spec fn src(&self) -> Seq<char>; }
impl<'a> Src for &'a String { open spec fn src(&self) -> Seq<char> { (*self)@ } }
impl Src for String { open spec fn src(&self) -> Seq<char> { self@ } }
impl PathBuf {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn from<S: Src>(s: S) -> (r: PathBuf) ensures r.id() == path_of(s.src()) { unimplemented!() }
    #[verifier::external_body]
    pub fn join<S: Part>(&self, s: S) -> (r: PathBuf) ensures r.id() == under(self.id(), s.text()) { unimplemented!() }
}
pub uninterp spec fn environ(n: Seq<char>) -> Option<Seq<char>>;
pub struct VarError {}
impl From<VarError> for anyhow::Error { #[verifier::external_body] fn from(e: VarError) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct EnvArgs { _p: () }
impl EnvArgs { #[verifier::external_body] pub fn next(&mut self) -> (r: Option<String>) { unimplemented!() } }
pub mod env {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn var(n: &str) -> (r: Result<String, VarError>)
        ensures (r is Ok) == (environ(n@) is Some), r is Ok ==> r->Ok_0@ == environ(n@)->0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn args() -> (r: EnvArgs) { unimplemented!() }
}
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
}
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) { unimplemented!() } }
pub mod fs {
    use vstd::prelude::*;
    use super::*;
    pub struct File {}
    impl File { #[verifier::external_body] pub fn create(p: &String) -> (r: Result<File, io::Error>) { unimplemented!() } }
    #[verifier::external_body]
    pub fn create_dir_all(p: &PathBuf) -> (r: Result<(), io::Error>) { unimplemented!() }
}
#[verifier::external_body]
pub struct DefaultHasher { _p: () }
impl DefaultHasher { #[verifier::external_body] pub fn new() -> (r: DefaultHasher) { unimplemented!() } #[verifier::external_body] pub fn finish(&self) -> (r: u64) { unimplemented!() } }
#[verifier::external_body]
pub fn hash_into(s: &String, h: &mut DefaultHasher) { unimplemented!() }

// ---- logging
pub struct Mutex<T> { pub t: T }
impl<T> Mutex<T> { pub fn new(t: T) -> (r: Mutex<T>) { Mutex { t } } }
pub struct LogWriterBuilder { pub log_file: Option<Mutex<fs::File>>, pub is_daemon: bool }
pub struct LogHandle {}
pub struct Logging {}
/// sets up what is logged and where; starts no threads
pub mod tracing_subscriber {
    pub mod filter { pub enum LevelFilter { INFO, DEBUG, TRACE } }
    pub mod reload {
        use vstd::prelude::*;
        use super::super::*;
        pub struct Layer {}
        impl Layer { #[verifier::external_body] pub fn new(l: super::filter::LevelFilter) -> (r: (Layer, LogHandle)) { unimplemented!() } }
    }
    pub mod fmt {
        use vstd::prelude::*;
        pub struct Lines {}
        impl Lines {
            #[verifier::external_body] pub fn with_ansi(self, b: bool) -> (r: Lines) { unimplemented!() }
            #[verifier::external_body] pub fn with_thread_ids(self, b: bool) -> (r: Lines) { unimplemented!() }
            #[verifier::external_body] pub fn with_target(self, b: bool) -> (r: Lines) { unimplemented!() }
            #[verifier::external_body] pub fn with_span_events<T>(self, b: T) -> (r: Lines) { unimplemented!() }
            #[verifier::external_body] pub fn with_writer<T>(self, b: T) -> (r: Lines) { unimplemented!() }
        }
        pub fn layer() -> (r: Lines) { Lines {} }
    }
    pub mod registry {
        use vstd::prelude::*;
        pub struct Registry {}
        impl Registry {
            pub fn default() -> (r: Registry) { Registry {} }
            #[verifier::external_body] pub fn with<T>(self, t: T) -> (r: Registry) { unimplemented!() }
            #[verifier::external_body] pub fn init(self) { unimplemented!() }
        }
    }
}

// ---- what may be asked
//@item shpool-protocol/src/lib.rs :: enum LogLevel
//@item libshpool/src/lib.rs :: struct Args
//@item libshpool/src/lib.rs :: enum VarCommands
//@item libshpool/src/lib.rs :: enum Commands sub `shpool_protocol::LogLevel` => `LogLevel`
/// one request of the user's, with everything that goes into it
pub enum Did {
    Daemon { sock: int },
    Attach { sock: int, force: bool, background: bool, ttl: Option<String>, cmd: Option<String>, dir: Option<String>, start_cmd: Option<String>, name: String },
    Detach { sock: int, sessions: Vec<String> },
    Kill { sock: int, sessions: Vec<String> },
    List { sock: int, json: bool },
    Level { sock: int, level: LogLevel },
    Var { sock: int, command: VarCommands },
    Events { sock: int },
}
pub open spec fn asked(c: Commands, sock: int) -> Did {
    match c {
        Commands::Attach { force, background, ttl, cmd, dir, start_cmd, name } => Did::Attach { sock, force, background, ttl, cmd, dir, start_cmd, name },
        Commands::Detach { sessions } => Did::Detach { sock, sessions },
        Commands::Kill { sessions } => Did::Kill { sock, sessions },
        Commands::List { json } => Did::List { sock, json },
        Commands::SetLogLevel { level } => Did::Level { sock, level },
        Commands::Var { command } => Did::Var { sock, command },
        Commands::Events => Did::Events { sock: events_of(sock) },
        _ => Did::Daemon { sock },
    }
}
/// where a user's daemon listens
pub open spec fn sock_of(a: Args) -> int {
    match a.socket {
        Some(s) => path_of(s@),
        None => under(under(
            match environ("XDG_RUNTIME_DIR"@) { Some(d) => path_of(d), None => under(under(path_of(environ("HOME"@)->0), ".local"@), "run"@) }, "shpool"@), "shpool.socket"@),
    }
}
pub struct Tv {
    pub threads: bool,
    /// a process that is launched as the daemon of a command has gone to the background
    pub asked_to: bool,
    /// a daemon answered
    pub answered: bool,
    /// what was carried out, and whether it worked
    pub did: Option<(Did, bool)>,
}
#[verifier::external_body]
pub struct Top { _p: () }
impl Top { pub uninterp spec fn v(&self) -> Tv; }
pub struct Config { pub nodaemonize: Option<bool> }
pub mod config {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct Manager { _p: () }
    impl Manager {
        pub uninterp spec fn nodaemonize(&self) -> bool;
        /// starts threads that watch the files
        #[verifier::external_body]
        pub fn new(w: &mut Top, f: Option<&str>) -> (r: anyhow::Result<Manager>)
            ensures final(w).v() == (Tv { threads: true, ..old(w).v() }), r is Ok ==> r->Ok_0.nodaemonize() == conf_no(match f { Some(s) => Some(s@), None => None })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get(&self) -> (r: Config) ensures r.nodaemonize == Some(true) <==> self.nodaemonize() { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn as_deref(o: &Option<String>) -> (r: Option<&str>) ensures (r is Some) == (o is Some), r is Some ==> r->0@ == o->0@ { unimplemented!() }
/// whether this command may start a daemon
pub open spec fn may_launch(a: Args, conf_no: bool) -> bool { !a.no_daemonize && (a.daemonize || !conf_no) }
/// whether the configuration (the one named, or the user's) says not to
pub uninterp spec fn conf_no(f: Option<Seq<char>>) -> bool;
pub open spec fn conf_of(a: Args) -> Option<Seq<char>> { match a.config_file { Some(s) => Some(s@), None => None } }
pub mod daemonize {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub struct PidFileGuard { _p: () }
    /// proved in launch.rs: goes on only when a daemon answers
    #[verifier::external_body]
    pub fn maybe_launch_daemon(w: &mut Top, m: &config::Manager, a: &Args, arg0: String, sock: &PathBuf) -> (r: anyhow::Result<()>)
        requires !(a.command is Daemon), may_launch(*a, m.nodaemonize()), sock.id() == sock_of(*a), old(w).v().did is None
        ensures final(w).v() == (Tv { answered: r is Ok, ..old(w).v() })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct NoopHooks { _p: () }
#[verifier::external_body]
pub fn no_hooks() -> (r: NoopHooks) { unimplemented!() }
/// this one request, once, on the daemon's socket
pub open spec fn carries(a: Tv, z: Tv, d: Did, ok: bool) -> bool { a.did is None && z == (Tv { did: Some((d, ok)), ..a }) }
pub mod daemon {
    use vstd::prelude::*;
    use super::*;
    pub mod events {
        use vstd::prelude::*;
        use super::super::*;
        #[verifier::external_body]
        pub fn socket_path(p: &PathBuf) -> (r: PathBuf) ensures r.id() == events_of(p.id()) { unimplemented!() }
    }
    /// proved in launch.rs: this forks
    #[verifier::external_body]
    pub unsafe fn maybe_daemonize(w: &mut Top, sock: &PathBuf) -> (r: anyhow::Result<Option<daemonize::PidFileGuard>>)
        requires !old(w).v().threads
        ensures final(w).v() == (Tv { asked_to: r is Ok, ..old(w).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn run(w: &mut Top, m: config::Manager, d: PathBuf, h: Box<NoopHooks>, l: LogHandle, sock: PathBuf, g: Option<daemonize::PidFileGuard>) -> (r: anyhow::Result<()>)
        requires old(w).v().asked_to, old(w).v().did is None
        ensures carries(old(w).v(), final(w).v(), Did::Daemon { sock: sock.id() }, r is Ok)
    { unimplemented!() }
}
pub mod attach {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn run(w: &mut Top, socket: PathBuf, m: config::Manager, name: String, force: bool, background: bool, ttl: Option<String>, cmd: Option<String>, dir: Option<String>, start_cmd: Option<String>) -> (r: anyhow::Result<()>)
        requires old(w).v().did is None
        ensures carries(old(w).v(), final(w).v(), Did::Attach { sock: socket.id(), force, background, ttl, cmd, dir, start_cmd, name }, r is Ok)
    { unimplemented!() }
}
pub mod detach {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn run(w: &mut Top, sessions: Vec<String>, socket: PathBuf) -> (r: anyhow::Result<()>)
        requires old(w).v().did is None
        ensures carries(old(w).v(), final(w).v(), Did::Detach { sock: socket.id(), sessions }, r is Ok)
    { unimplemented!() }
}
pub mod kill {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn run(w: &mut Top, sessions: Vec<String>, socket: PathBuf) -> (r: anyhow::Result<()>)
        requires old(w).v().did is None
        ensures carries(old(w).v(), final(w).v(), Did::Kill { sock: socket.id(), sessions }, r is Ok)
    { unimplemented!() }
}
pub mod list {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn run(w: &mut Top, socket: PathBuf, json: bool) -> (r: anyhow::Result<()>)
        requires old(w).v().did is None
        ensures carries(old(w).v(), final(w).v(), Did::List { sock: socket.id(), json }, r is Ok)
    { unimplemented!() }
}
pub mod set_log_level {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn run(w: &mut Top, level: LogLevel, socket: PathBuf) -> (r: anyhow::Result<()>)
        requires old(w).v().did is None
        ensures carries(old(w).v(), final(w).v(), Did::Level { sock: socket.id(), level }, r is Ok)
    { unimplemented!() }
}
pub mod var {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn run(w: &mut Top, socket: PathBuf, command: VarCommands) -> (r: anyhow::Result<()>)
        requires old(w).v().did is None
        ensures carries(old(w).v(), final(w).v(), Did::Var { sock: socket.id(), command }, r is Ok)
    { unimplemented!() }
}
pub mod events {
    use vstd::prelude::*;
    use super::*;
    #[verifier::external_body]
    pub fn run(w: &mut Top, p: &PathBuf) -> (r: anyhow::Result<()>)
        requires old(w).v().did is None
        ensures carries(old(w).v(), final(w).v(), Did::Events { sock: p.id() }, r is Ok)
    { unimplemented!() }
}
/// the process ends here: what did not work is told by its exit status
#[verifier::external_body]
pub fn exit_with(w: &Top, code: i32) -> ! requires w.v().did is Some, (w.v().did->0).1 == (code == 0) { unimplemented!() }

//@fn libshpool/src/lib.rs :: - :: run
//@ret r
//@elide `match (&args.command, env::var(consts::SENTINEL_FLAG_VAR).as_deref()) {` => `_ => {}`
//@sub `(&args.command, env::var(consts::SENTINEL_FLAG_VAR).as_deref())` => `()`
//@sub `args: Args` => `w: &mut Top, args: Args`
//@sub `Option<Box<dyn hooks::Hooks + Send + Sync>>` => `Option<Box<NoopHooks>>`
//@sub `NoopHooks {}` => `no_hooks()`
//@sub `s.hash(&mut hasher)` => `hash_into(s, &mut hasher)`
//@sub `config::Manager::new(` => `config::Manager::new(w, `
//@sub `daemon::maybe_daemonize(` => `daemon::maybe_daemonize(w, `
//@sub `daemonize::maybe_launch_daemon(` => `daemonize::maybe_launch_daemon(w, `
//@sub `matches!(` => `matches_cmd!(`
//@sub `daemon::run(` => `daemon::run(w, `
//@sub `attach::run(` => `attach::run(w, `
//@sub `detach::run(` => `detach::run(w, `
//@sub `kill::run(` => `kill::run(w, `
//@sub `list::run(` => `list::run(w, `
//@sub `set_log_level::run(` => `set_log_level::run(w, `
//@sub `var::run(` => `var::run(w, `
//@sub `events::run(` => `events::run(w, `
//@sub `&crate::daemon::events::socket_path(` => `&daemon::events::socket_path(`
//@sub `args.config_file.as_deref()` => `as_deref(&args.config_file)`
//@sub `FmtSpan::NEW | FmtSpan::CLOSE` => `()`
//@sub `std::process::exit(` => `exit_with(w, `
//@spec
    requires !old(w).v().threads, !old(w).v().asked_to, !old(w).v().answered, old(w).v().did is None
    ensures
        // what was asked for was done, on the socket that was meant, and it worked
        r is Ok ==> final(w).v().did == Some((asked($2.command, sock_of($2)), true)),
        // after a daemon answered, unless the user wants none to be started
        r is Ok && !($2.command is Daemon) ==> final(w).v().answered || !may_launch($2, conf_no(conf_of($2))),
        // or it was not begun
        r is Err ==> final(w).v().did is None,
//@endfn
}
} // verus!
