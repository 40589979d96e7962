// Starting a session's shell.
macro_rules! eprintln { ($($t:tt)*) => { () } }
verus! {
use std::sync::Arc;
use core::result::Result;
//@item libshpool/src/daemon/server.rs :: const DEFAULT_OUTPUT_SPOOL_LINES
//@item libshpool/src/daemon/server.rs :: const DEFAULT_PROMPT_PREFIX sub `&str` => `&'static prim_str`
impl Clone for TtySize { fn clone(&self) -> (r: TtySize) ensures r == *self { TtySize { rows: self.rows, cols: self.cols, xpixel: self.xpixel, ypixel: self.ypixel } } }
impl Clone for ConfigManager { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEq<str> for OsString { #[verifier::external_body] fn eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl<'a> PartialEq<&'a str> for OsString { #[verifier::external_body] fn eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
impl Pathy for String { open spec fn p(&self) -> Seq<char> { self@ } }

/// what a program is started with
pub struct Prog {
    pub exe: Seq<char>,
    pub args: Seq<Seq<char>>,
    /// what it is told its name is, if not exe
    pub name: Option<Seq<char>>,
    pub dir: Option<Seq<char>>,
    /// nothing of the daemon's own environment is passed on
    pub bare: bool,
    pub env: Map<Seq<char>, Seq<char>>,
    /// stdin, stdout and stderr are those of the terminal
    pub tty: (bool, bool, bool),
}
pub mod process { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub struct Command { _p: () }
    pub struct Stdio { pub inherited: bool }
    impl Stdio {
        pub fn inherit() -> (r: Stdio) ensures r.inherited { Stdio { inherited: true } }
        pub fn null() -> (r: Stdio) ensures !r.inherited { Stdio { inherited: false } }
        pub fn piped() -> (r: Stdio) ensures !r.inherited { Stdio { inherited: false } }
    }
    impl Command {
        pub uninterp spec fn v(&self) -> Prog;
        #[verifier::external_body]
        pub fn new<T: Pathy>(exe: T) -> (r: Command)
            ensures r.v() == (Prog { exe: exe.p(), args: Seq::empty(), name: None, dir: None, bare: false, env: Map::empty(), tty: (true, true, true) })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn arg<T: Pathy>(&mut self, a: T) -> (r: &mut Command)
            ensures r.v() == (Prog { args: old(self).v().args.push(a.p()), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn args(&mut self, a: &[String]) -> (r: &mut Command)
            ensures r.v() == (Prog { args: old(self).v().args + string_views(a@), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn arg0<T: Pathy>(&mut self, a: T) -> (r: &mut Command)
            ensures r.v() == (Prog { name: Some(a.p()), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn current_dir<T: Pathy>(&mut self, d: T) -> (r: &mut Command)
            ensures r.v() == (Prog { dir: Some(d.p()), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn stdin(&mut self, s: Stdio) -> (r: &mut Command)
            ensures r.v() == (Prog { tty: (s.inherited, old(self).v().tty.1, old(self).v().tty.2), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn stdout(&mut self, s: Stdio) -> (r: &mut Command)
            ensures r.v() == (Prog { tty: (old(self).v().tty.0, s.inherited, old(self).v().tty.2), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn stderr(&mut self, s: Stdio) -> (r: &mut Command)
            ensures r.v() == (Prog { tty: (old(self).v().tty.0, old(self).v().tty.1, s.inherited), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn env_clear(&mut self) -> (r: &mut Command)
            ensures r.v() == (Prog { bare: true, env: Map::empty(), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn envs(&mut self, e: Vec<(OsString, OsString)>) -> (r: &mut Command)
            ensures r.v() == (Prog { env: old(self).v().env.union_prefer_right(settled(osv(e@))), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn env<K: Pathy, V: Pathy>(&mut self, k: K, v: V) -> (r: &mut Command)
            ensures r.v() == (Prog { env: old(self).v().env.insert(k.p(), v.p()), ..old(self).v() }), *final(self) == *final(r)
        { unimplemented!() }
        /// becomes the program: only the forked child may, and only as asked
        #[verifier::external_body]
        pub fn exec(&mut self, w: &mut Start) -> (r: io::Error)
            requires
                P17() ==> old(w).v().child && old(w).v().fds_closed,
                P17() ==> old(w).v().mute == on(old(w).v().ask.conf.noecho),
                P17() ==> as_asked(old(self).v(), old(w).v().ask),
            ensures final(w).v() == old(w).v()
        { unimplemented!() }
    }
    /// only the child ends here
    #[verifier::external_body]
    pub fn exit(code: i32, w: &Start) -> ! requires w.v().child, code != 0 ensures false { unimplemented!() }
}
pub trait ToVec<T> { fn to_vec(&self) -> Vec<T>; }
impl<T> ToVec<T> for Vec<T> { #[verifier::external_body] fn to_vec(&self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() } }

// ---- what is asked for
pub struct Ask { pub conf: Config, pub user: user::Info, pub head: AttachHeader, pub env: Map<Seq<char>, Seq<char>> }
/// the words of a command line; none if it is not well formed
pub uninterp spec fn words(s: Seq<char>) -> Option<Seq<Seq<char>>>;
pub mod shell_words { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub fn split(s: &str) -> (r: Result<Vec<String>, io::Error>) ensures (r is Ok) == (words(s@) is Some), r is Ok ==> string_views(r->Ok_0@) == words(s@)->0 { unimplemented!() }
}
pub open spec fn ends(s: Seq<char>, t: Seq<char>) -> bool { t.len() <= s.len() && s.subrange(s.len() - t.len(), s.len() as int) == t }
pub open spec fn the_shell(a: Ask) -> Seq<char> { match a.conf.shell { Some(s) => s@, None => a.user.default_shell@ } }
/// what keeps a shell from reading its startup files
pub open spec fn norc_args(shell: Seq<char>) -> Seq<Seq<char>> {
    if ends(shell, "bash"@) { seq!["--norc"@, "--noprofile"@] } else if ends(shell, "zsh"@) { seq!["--no-rcs"@] } else if ends(shell, "fish"@) { seq!["--no-config"@] } else { seq![] }
}
/// a path's last component
pub uninterp spec fn base_of(p: Seq<char>) -> Option<Seq<char>>;
pub open spec fn as_asked(p: Prog, a: Ask) -> bool {
    &&& match a.head.cmd {
        Some(c) => words(c@) is Some && words(c@)->0.len() > 0 && p.exe == words(c@)->0[0] && p.args =~= words(c@)->0.skip(1) && p.name is None,
        // a login shell
        None => p.exe == the_shell(a) && p.args =~= (if on(a.conf.norc) { norc_args(the_shell(a)) } else { Seq::empty() })
            && base_of(the_shell(a)) is Some && p.name == Some(seq!['-'] + base_of(the_shell(a))->0),
    }
    &&& p.dir == Some(match a.head.dir { Some(d) => d@, None => a.user.home_dir@ })
    &&& p.bare && p.env =~= a.env && p.tty == (true, true, true)
}
/// the prompt is set up, with this prefix and this first command
pub struct Setup { pub prefix: Seq<char>, pub first: Seq<char>, pub name: Seq<char> }
pub open spec fn prepared(a: Ask) -> Option<Setup> {
    let first = match a.head.start_cmd { Some(c) => c@, None => Seq::empty() };
    let prefix = match a.conf.prompt_prefix { Some(p) => p@, None => DEFAULT_PROMPT_PREFIX@ };
    if a.head.cmd is None && (first.len() > 0 || a.conf.prompt_prefix is None || prefix.len() > 0) && !ends(the_shell(a), "nu"@) {
        Some(Setup { prefix, first, name: a.head.name@ })
    } else { None }
}
pub open spec fn spool_lines(c: Config) -> int {
    match c.output_spool_lines { Some(l) => l as int, None => match c.session_restore_mode { Some(SessionRestoreMode::Lines(l)) => l as int, _ => DEFAULT_OUTPUT_SPOOL_LINES as int } }
}

// ---- what happens
pub struct Sv {
    pub ask: Ask,
    /// this is the forked child
    pub child: bool,
    pub fds_closed: bool,
    pub mute: bool,
    /// the shell's process
    pub pid: Option<i32>,
    /// who is waited for, and who is told
    pub watched: Option<(i32, int)>,
    pub setup: Option<Setup>,
    /// the thread that carries the output has been started for
    pub serving: Option<Serving>,
}
pub struct Serving { pub size: TtySize, pub lines: int, pub id: int, pub chans: (int, int, int, int, int, int, int) }
#[verifier::external_body]
pub struct Start { _p: () }
impl Start { pub uninterp spec fn v(&self) -> Sv; }
pub open spec fn fresh_start(v: Sv, a: Ask) -> bool {
    v == (Sv { ask: a, child: false, fds_closed: false, mute: false, pid: None, watched: None, setup: None, serving: None })
}
pub struct BorrowedFd { pub _p: () }
pub mod shpool_pty { pub mod fork { use vstd::prelude::*; use super::super::*;
    #[verifier::external_body]
    pub struct Fork { _p: () }
    #[verifier::external_body]
    pub struct Slave { _p: () }
    impl Slave { #[verifier::external_body] pub fn borrow_fd(&self) -> BorrowedFd { unimplemented!() } }
    impl Fork {
        /// the process at the other end of the terminal; in that process itself, none
        pub uninterp spec fn pid(&self) -> Option<i32>;
        #[verifier::external_body]
        pub fn from_ptmx(w: &mut Start) -> (r: Result<Fork, io::Error>)
            requires old(w).v().pid is None && !old(w).v().child
            ensures
                r is Err ==> final(w).v() == old(w).v(),
                r is Ok ==> final(w).v() == (Sv { child: r->Ok_0.pid() is None, pid: r->Ok_0.pid(), ..old(w).v() })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_child(&self) -> (r: Result<Slave, io::Error>) ensures (r is Ok) == (self.pid() is None) { unimplemented!() }
        #[verifier::external_body]
        pub fn is_parent(&self) -> (r: Result<Slave, io::Error>) ensures (r is Ok) == (self.pid() is Some) { unimplemented!() }
        #[verifier::external_body]
        pub fn child_pid(&self) -> (r: Option<i32>) ensures r == self.pid() { unimplemented!() }
    }
} }
pub mod tty { use vstd::prelude::*; use super::*;
    /// does not fail on a terminal that was just made
    #[verifier::external_body]
    pub fn disable_echo(w: &mut Start, fd: BorrowedFd) -> (r: anyhow::Result<()>)
        requires old(w).v().child
        ensures r is Ok, final(w).v() == (Sv { mute: true, ..old(w).v() })
    { unimplemented!() }
}
pub mod common { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub fn close_inherited_fds(w: &mut Start)
        requires old(w).v().child
        ensures final(w).v() == (Sv { fds_closed: true, ..old(w).v() })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ExitNotifier { _p: () }
impl ExitNotifier {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new() -> ExitNotifier { unimplemented!() }
}
pub mod thread { use vstd::prelude::*; use super::*;
    /// the thread that waits for the shell (proved in P13)
    #[verifier::external_body]
    pub fn spawn(w: &mut Start, pid: i32, n: &Arc<ExitNotifier>)
        requires old(w).v().watched is None && !old(w).v().child
        ensures final(w).v() == (Sv { watched: Some((pid, n.id())), ..old(w).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub struct JoinHandle { _p: () }
}
pub mod termini { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub struct TermInfo { _p: () }
    impl TermInfo {
        #[verifier::external_body] pub fn from_name(n: &str) -> Result<TermInfo, io::Error> { unimplemented!() }
        #[verifier::external_body] pub fn from_env() -> Result<TermInfo, io::Error> { unimplemented!() }
        #[verifier::external_body] pub fn parse(c: Cursor) -> Result<TermInfo, io::Error> { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Cursor { _p: () }
}
#[verifier::external_body]
pub fn cursor(v: Vec<u8>) -> termini::Cursor { unimplemented!() }
impl OsString {
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> String { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r is Some ==> r->0@ == self@ { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn new<'a>(t: &'a String) -> (r: &'a PathBuf) ensures r@ == t@ { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsString>) ensures (r is Some) == (base_of(self@) is Some), r is Some ==> r->0@ == base_of(self@)->0 { unimplemented!() }
}
impl<T> Items<T> {
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Items<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
    { unimplemented!() }
}
impl String {
    #[verifier::external_body]
    pub fn as_ref0(o: &Option<String>) -> (r: Option<&str>) ensures (r is Some) == (o is Some), r is Some ==> r->0@ == o->0@ { unimplemented!() }
}
#[verifier::external_body]
pub fn as_deref(o: &Option<String>) -> (r: Option<&str>) ensures (r is Some) == (o is Some), r is Some ==> r->0@ == o->0@ { unimplemented!() }
/// format!("-{..}")
#[verifier::external_body]
pub fn dashed(s: &str) -> (r: String) ensures r@ == seq!['-'] + s@ { unimplemented!() }
pub mod shell_inject { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub fn maybe_setup(w: &mut Start, f: &mut shpool_pty::fork::Fork, prefix: &str, first: &str, name: &str) -> (r: anyhow::Result<()>)
        requires old(w).v().setup is None && !old(w).v().child && old(w).v().serving is None
        ensures final(w).v() == (Sv { setup: Some(Setup { prefix: prefix@, first: first@, name: name@ }), ..old(w).v() }), final(f).pid() == old(f).pid()
    { unimplemented!() }
}
pub mod crossbeam_channel { use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Sender<T> { _p: core::marker::PhantomData<T> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct Receiver<T> { _p: core::marker::PhantomData<T> }
    impl<T> Sender<T> { pub uninterp spec fn id(&self) -> int; }
    impl<T> Receiver<T> { pub uninterp spec fn id(&self) -> int; }
    #[verifier::external_body]
    pub fn bounded<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id() == r.1.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn unbounded<T>() -> (r: (Sender<T>, Receiver<T>)) ensures r.0.id() == r.1.id() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { _t: T }
impl<T> Mutex<T> {
    pub uninterp spec fn holds(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Mutex<T>) ensures r.holds() == t { unimplemented!() }
}
pub mod show_motd { #[verifier::external_body] pub struct DailyMessenger { _p: () } }
pub mod pager { #[verifier::external_body] pub struct PagerCtl { _p: () } }
pub mod config { pub use super::SessionRestoreMode; pub use super::ConfigManager as Manager; }
#[verifier::external_body]
pub struct UnixStream { _p: () }
pub struct SystemTime { pub ns: i128 }
pub uninterp spec fn wall(t: SystemTime) -> bool;
impl SystemTime { #[verifier::external_body] pub fn now() -> (r: SystemTime) ensures wall(r) { unimplemented!() } }
pub mod shell { use vstd::prelude::*; use super::*; use super::pager::PagerCtl; pub mod libc { pub type pid_t = i32; }
    #[verifier::external_body] pub struct ClientConnectionMsg { _p: () }
    #[verifier::external_body] pub struct ClientConnectionStatus { _p: () }
    #[verifier::external_body] pub struct SessionLifecycle { _p: () }
    impl SessionLifecycle {
        /// nobody has ever been attached
        pub uninterp spec fn blank(&self) -> bool;
        #[verifier::external_body] pub fn default() -> (r: SessionLifecycle) ensures r.blank() { unimplemented!() }
    }
    #[verifier::external_body] pub struct MaybeSwitch { _p: () }
//@item libshpool/src/daemon/shell.rs :: struct ShellToClientCtl
//@item libshpool/src/daemon/shell.rs :: struct ShellToClientArgs
//@item libshpool/src/daemon/shell.rs :: struct SessionInner sub `thread::JoinHandle<anyhow::Result<()>>` => `thread::JoinHandle`
//@item libshpool/src/daemon/shell.rs :: struct Session sub `time::SystemTime` => `SystemTime`
    pub open spec fn serves(c: ShellToClientCtl) -> (int, int, int, int, int, int, int) {
        (c.client_connection.id(), c.client_connection_ack.id(), c.tty_size_change.id(), c.tty_size_change_ack.id(), c.heartbeat.id(), c.heartbeat_ack.id(), c.maybe_switch.id())
    }
    pub open spec fn served(c: ShellToClientArgs) -> (int, int, int, int, int, int, int) {
        (c.client_connection.id(), c.client_connection_ack.id(), c.tty_size_change.id(), c.tty_size_change_ack.id(), c.heartbeat.id(), c.heartbeat_ack.id(), c.maybe_switch.id())
    }
    impl SessionInner {
        #[verifier::external_body]
        pub fn spawn_shell_to_client(&self, w: &mut Start, a: ShellToClientArgs) -> (r: anyhow::Result<thread::JoinHandle>)
            requires old(w).v().serving is None && !old(w).v().child
            ensures final(w).v() == (Sv { serving: if r is Ok { Some(Serving { size: a.tty_size, lines: a.scrollback_lines as int, id: a.child_exit_notifier.id(), chans: served(a) }) } else { None }, ..old(w).v() })
        { unimplemented!() }
    }
}
pub struct RegSender { pub _p: () }
pub struct Daemon { pub config: ConfigManager, pub daily_messenger: Arc<show_motd::DailyMessenger>, pub register_new_reapable_session: RegSender }
//@fn libshpool/src/daemon/server.rs :: does_not_support_sentinels
//@ret r
//@spec
    ensures r == ends($1@, "nu"@)
//@endfn
impl Daemon {
//@fn libshpool/src/daemon/server.rs :: spawn_subshell
//@ret r
//@sub `&self, conn_id` => `&self, w: &mut Start, conn_id`
//@sub `shell_env: &[(OsString, OsString)]` => `shell_env: &Vec<(OsString, OsString)>`
//@sub `shell_env.iter()` => `items(shell_env)`
//@sub `header.dir.as_deref()` => `as_deref(&header.dir)`
//@sub `io::Cursor::new(` => `cursor(`
//@sub `from_ptmx()` => `from_ptmx(w)`
//@sub `tty::disable_echo(` => `tty::disable_echo(w, `
//@sub `close_inherited_fds()` => `close_inherited_fds(w)`
//@sub `.exec()` => `.exec(w)`
//@sub `std::process::exit(1)` => `process::exit(1, w)`
//@sub `shell_inject::maybe_setup(` => `shell_inject::maybe_setup(w, `
//@sub `.spawn_shell_to_client(` => `.spawn_shell_to_client(w, `
//@sub `time::SystemTime::now` => `SystemTime::now`
//@sub `format!("-{shell_basename}")` => `dashed(shell_basename)`
//@sub `DEFAULT_PROMPT_PREFIX` => `lit(DEFAULT_PROMPT_PREFIX)`
//@at start
proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@cl 3 (b: bool) ensures b == ($c1@.len() == 0)
//@cl 4 (b: bool) ensures b == !($c1@.len() == 0)
//@cl 5 (s: &str) ensures s@ == $c1@
//@elide `thread::spawn(` => `w, waitable_child_pid, &notifiable_child_exit_notifier`
//@spec
        requires fresh_start(old(w).v(), Ask { conf: self.config.now, user: *$5, head: *$4, env: settled(osv($6@)) })
        ensures
            // only the child becomes the shell, and nothing else goes on in it
            !final(w).v().child,
            r is Ok ==> ({
                let (v, s) = (final(w).v(), r->Ok_0);
                let id = s.child_exit_notifier.id();
                &&& v.pid == Some(s.child_pid)
                // whoever asks for its end is told by the one who waits for this shell
                &&& P13() ==> v.watched == Some((s.child_pid, id))
                &&& P17() ==> v.setup == prepared(v.ask)
                &&& P17() ==> v.serving is Some && v.serving->0.size == $4.local_tty_size && v.serving->0.lines == spool_lines(self.config.now)
                // the session's parts work for one another
                &&& P13() ==> v.serving is Some && v.serving->0.id == id && v.serving->0.chans == shell::serves(s.shell_to_client_ctl.holds())
                &&& P17() ==> s.lifecycle.blank() && s.pager_ctl.holds() is None && wall(s.started_at)
                &&& P17() ==> ({
                    let i = s.inner.holds();
                    &&& i.client_stream == Some($3) && i.name@ == $4.name@ && i.needs_initial_motd_dump == $7 && i.supports_sentinels == (prepared(v.ask) is Some)
                    &&& i.shell_to_client_ctl == s.shell_to_client_ctl && i.shell_to_client_join_h is Some && i.pty_master.pid() == Some(s.child_pid) && i.config == self.config
                })
            }),
            // words that cannot be understood start nothing
            P17() && $4.cmd is Some && (words($4.cmd->0@) is None || words($4.cmd->0@)->0.len() == 0) ==> r is Err && final(w).v().pid is None,
//@endfn
}
} // verus!
