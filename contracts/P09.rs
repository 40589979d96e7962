//@lits
//@include prelude/std.rs
//@include prelude/str.rs
//@include prelude/map.rs
//@include prelude/opt.rs

verus! {
global size_of usize == 8; // 64-bit targets

pub mod keybindings { use vstd::prelude::*;
//@item libshpool/src/daemon/keybindings.rs :: enum Action
}
//@item libshpool/src/config.rs :: struct Config
//@item libshpool/src/config.rs :: struct Keybinding
//@item libshpool/src/config.rs :: enum SessionRestoreMode
//@item libshpool/src/config.rs :: enum SessionRestoreEngine
//@item libshpool/src/config.rs :: enum MotdDisplayMode
//@item libshpool/src/config.rs :: struct VarSetting

// ---------------------------------------------------------------- spec
pub open spec fn first<T>(a: Option<T>, b: Option<T>) -> Option<T> { if a is Some { a } else { b } }
/// every option set by the stronger file, the rest from the weaker
pub open spec fn over(a: Config, b: Config) -> Config {
    Config {
        norc: first(a.norc, b.norc),
        noecho: first(a.noecho, b.noecho),
        nosymlink_ssh_auth_sock: first(a.nosymlink_ssh_auth_sock, b.nosymlink_ssh_auth_sock),
        noread_etc_environment: first(a.noread_etc_environment, b.noread_etc_environment),
        nodaemonize: first(a.nodaemonize, b.nodaemonize),
        nodaemonize_timeout: first(a.nodaemonize_timeout, b.nodaemonize_timeout),
        shell: first(a.shell, b.shell),
        env: first(a.env, b.env),
        default_dir: first(a.default_dir, b.default_dir),
        forward_env: first(a.forward_env, b.forward_env),
        initial_path: first(a.initial_path, b.initial_path),
        session_restore_mode: first(a.session_restore_mode, b.session_restore_mode),
        session_restore_engine: first(a.session_restore_engine, b.session_restore_engine),
        output_spool_lines: first(a.output_spool_lines, b.output_spool_lines),
        vt100_output_spool_width: first(a.vt100_output_spool_width, b.vt100_output_spool_width),
        keybinding: first(a.keybinding, b.keybinding),
        prompt_prefix: first(a.prompt_prefix, b.prompt_prefix),
        motd: first(a.motd, b.motd),
        motd_args: first(a.motd_args, b.motd_args),
        var_default: first(a.var_default, b.var_default),
    }
}
pub open spec fn unset() -> Config {
    Config {
        norc: None, noecho: None, nosymlink_ssh_auth_sock: None, noread_etc_environment: None, nodaemonize: None, nodaemonize_timeout: None,
        shell: None, env: None, default_dir: None, forward_env: None, initial_path: None, session_restore_mode: None, session_restore_engine: None,
        output_spool_lines: None, vt100_output_spool_width: None, keybinding: None, prompt_prefix: None, motd: None, motd_args: None, var_default: None,
    }
}
/// #[derive(Default)]: every option unset
impl Config {
    #[verifier::external_body]
    pub fn default() -> (r: Config) ensures r == unset() { unimplemented!() }
}
/// contents of the file while it is loaded; None when it cannot be read
pub uninterp spec fn text_of(p: Seq<char>) -> Option<Seq<char>>;
/// the options a TOML text sets; None when it is not a valid configuration
pub uninterp spec fn toml_config(t: Seq<char>) -> Option<Config>;
/// later files win; an unreadable file is skipped; an invalid one makes the load fail
pub open spec fn loaded(ps: Seq<Seq<char>>) -> Option<Config>
    decreases ps.len()
{
    if ps.len() == 0 { Some(unset()) } else {
        match (loaded(ps.drop_last()), text_of(ps.last())) {
            (None, _) => None,
            (Some(c), None) => Some(c),
            (Some(c), Some(t)) => match toml_config(t) { None => None, Some(n) => Some(over(n, c)) },
        }
    }
}
proof fn lemma_loaded_none(ps: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ps.len(), loaded(ps.take(n)) is None
    ensures loaded(ps) is None
    decreases ps.len()
{
    if n == ps.len() { assert(ps.take(n) =~= ps); } else { assert(ps.drop_last().take(n) =~= ps.take(n)); lemma_loaded_none(ps.drop_last(), n); }
}

// ---------------------------------------------------------------- paths, files, toml
#[verifier::external_body]
pub struct PathShown { _p: () }
#[verifier::external_body]
pub struct Path { _p: () }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// anything that names a path
pub trait Pathy: View<V = Seq<char>> + Sized {
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
pub uninterp spec fn joined(dir: Seq<char>, name: Seq<char>) -> Seq<char>;
impl Path {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: &Path) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> PathShown { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> PathShown { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { _p: () }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Pathy for PathBuf {}
impl PathBuf {
    #[verifier::external_body]
    pub fn from<T: View<V = Seq<char>>>(s: T) -> (r: PathBuf) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, s: &str) ensures final(self)@ == joined(old(self)@, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf) ensures r@ == joined(self@, s@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Cow { _p: () }
impl View for Cow { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Pathy for Cow {}
impl Cow {
    #[verifier::external_body]
    pub fn from<T: View<V = Seq<char>>>(s: T) -> (r: Cow) ensures r@ == s@ { unimplemented!() }
}
pub mod fs { use super::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    #[verifier::external_body]
    pub fn read_to_string(p: &Path) -> (r: core::result::Result<String, Error>)
        ensures (r is Ok) == (text_of(p@) is Some), r is Ok ==> r->Ok_0@ == text_of(p@)->0
    { unimplemented!() }
}
pub mod toml { use super::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: core::result::Result<Config, Error>)
        ensures (r is Ok) == (toml_config(s@) is Some), r is Ok ==> r->Ok_0 == toml_config(s@)->0
    { unimplemented!() }
}
#[verifier::external_body]
pub fn each<T>(v: &Vec<T>) -> (r: Items<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
#[verifier::external_body]
pub fn each_owned<T>(v: Vec<T>) -> (r: Items<T>) ensures r@ == v@ { unimplemented!() }
pub open spec fn paths<T: View<V = Seq<char>>>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|p: T| p@) }

/// the process environment
pub uninterp spec fn env_of(name: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn home_of_user() -> Seq<char>;
#[verifier::external_body]
pub struct VarError { _p: () }
#[verifier::external_body]
pub fn env_var(name: &str) -> (r: core::result::Result<String, VarError>)
    ensures (r is Ok) == (env_of(name@) is Some), r is Ok ==> r->Ok_0@ == env_of(name@)->0
{ unimplemented!() }
pub mod user { use super::*;
//@item libshpool/src/user.rs :: struct Info
    #[verifier::external_body]
    pub fn info() -> (r: anyhow::Result<Info>) ensures r is Ok ==> r->Ok_0.home_dir@ == home_of_user() { unimplemented!() }
}
/// $XDG_CONFIG_HOME (or what older releases read instead), else the user's ~/.config
pub open spec fn base_dir() -> Seq<char> {
    match env_of("XDG_CONFIG_HOME"@) {
        Some(d) => d,
        None => match env_of("XDG_CONFIG_DIR"@) { Some(d) => d, None => joined(home_of_user(), ".config"@) },
    }
}
pub open spec fn user_file() -> Seq<char> { joined(joined(base_dir(), "shpool"@), "config.toml"@) }
pub open spec fn system_file() -> Seq<char> { "/etc/shpool/config.toml"@ }
/// the files that count, weakest first
pub open spec fn files(explicit: Option<&str>) -> Seq<Seq<char>> {
    match explicit { Some(f) => seq![f@], None => seq![system_file(), user_file()] }
}
/// the value a lock was created with
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { _p: T }
impl<T> RwLock<T> {
    pub uninterp spec fn initial(&self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: RwLock<T>) ensures r.initial() == t { unimplemented!() }
}
#[verifier::external_body]
pub struct Handler { _p: () }
#[verifier::external_body]
pub fn reload_handler() -> Handler { unimplemented!() }
#[verifier::external_body]
pub struct ConfigWatcher { _p: () }
impl ConfigWatcher {
    pub uninterp spec fn watching(&self, p: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn new(h: Handler) -> (r: Result<ConfigWatcher>) { unimplemented!() }
    #[verifier::external_body]
    pub fn watch<P: Pathy>(&self, p: P) -> (r: Result<()>) ensures r is Ok ==> self.watching(p@) { unimplemented!() }
}
impl Config {
//@fn libshpool/src/config.rs :: impl Config :: merge
//@ret r
//@spec
    ensures r == over(self, $1)
//@endfn
}
pub struct Manager { pub config: Arc<RwLock<Config>>, pub _watcher: Arc<ConfigWatcher> }
use std::sync::Arc;
pub type Result<T, E = anyhow::Error> = core::result::Result<T, E>;
impl Manager {
//@fn libshpool/src/config.rs :: impl Manager :: new
//@ret r
//@elide `ConfigWatcher :: new (` => `reload_handler ( )`
//@sub `let config_files : Vec < _ > = config_files . iter ( ) . map ( | f | f . to_path_buf ( ) ) . collect ( ) ;` => ``
//@bind FILES `let ? = match config_file`
//@spec
    ensures r is Ok ==> {
        // the daemon starts with the merge of the files that count, and watches every one of them
        &&& loaded(files($1)) == Some(r->Ok_0.config.initial())
        &&& forall|i: int| 0 <= i < files($1).len() ==> r->Ok_0._watcher.watching(#[trigger] files($1)[i])
    }
//@loop 0 next=each_owned
    invariant
        0 <= n <= fs0.len(), __it0@ == fs0.skip(n), paths(fs0) =~= files($1),
        forall|i: int| 0 <= i < n ==> watcher.watching(#[trigger] fs0[i]@),
    ensures
        forall|i: int| 0 <= i < fs0.len() ==> watcher.watching(#[trigger] fs0[i]@),
    decreases __it0@.len()
//@at loopbefore 0
    let ghost mut n: int = 0;
    let ghost fs0 = $FILES@;
    proof { assert(paths(fs0) =~= files($1)); }
//@at loopstart 0
    proof { n = n + 1; }
//@endfn
//@closure libshpool/src/config.rs :: new @ impl Manager :: `ConfigWatcher :: new ( move | |`
//@sig
pub fn reload(config: &mut Config, config_files: &Vec<PathBuf>)
//@sub `let mut config = config . write ( ) . unwrap ( ) ;` => ``
//@sub `test_hooks :: emit ( "daemon-reload-config" ) ;` => ``
//@sub `Self :: load ( & config_files )` => `Self :: load ( config_files )`
//@spec
    // a reload that fails leaves the configuration in effect alone
    ensures match loaded(paths(config_files@)) { Some(c) => *final(config) == c, None => *final(config) == *old(config) }
//@endfn
//@fn libshpool/src/config.rs :: impl Manager :: config_dir
//@ret r
//@spec
    ensures r is Ok ==> r->Ok_0@ == joined(base_dir(), "shpool"@)
//@endfn
//@fn libshpool/src/config.rs :: impl Manager :: config_base_dir
//@ret r
//@sub `std :: env :: var` => `env_var`
//@sub `|_|` => `|_e : VarError|`
//@cl 0 (q: core::result::Result<String, VarError>) ensures (q is Ok) == (env_of("XDG_CONFIG_DIR"@) is Some), q is Ok ==> q->Ok_0@ == env_of("XDG_CONFIG_DIR"@)->0
//@spec
    ensures r is Ok ==> r->Ok_0@ == base_dir()
//@endfn
//@fn libshpool/src/config.rs :: impl Manager :: load
//@ret r
//@sub `load < T > ( config_files : T )` => `load < P : Pathy > ( config_files : & Vec < P > )`
//@sub `where T : IntoIterator , T :: Item : AsRef < Path > ,` => ``
//@bind CF `let mut ? = Config :: default`
//@spec
    ensures match loaded(paths($1@)) {
        Some(c) => r is Ok && r->Ok_0 == c,
        None => r is Err,
    }
//@loop 0 next=each
    invariant
        0 <= n <= $1@.len(),
        __it0@.len() == $1@.len() - n, forall|i: int| 0 <= i < __it0@.len() ==> *(#[trigger] __it0@[i]) == $1@[n + i],
        loaded(paths($1@).take(n)) == Some($CF),
    ensures loaded(paths($1@)) == Some($CF)
    decreases __it0@.len()
//@at start
    let ghost mut n: int = 0;
//@at loophead 0
    proof { if __it0@.len() == 0 { assert(paths($1@).take(n) =~= paths($1@)); } else if n < $1@.len() {
        let ps = paths($1@);
        assert(ps.take(n + 1).drop_last() =~= ps.take(n));
        if loaded(ps.take(n + 1)) is None { lemma_loaded_none(ps, n + 1); }
    } }
//@at loopstart 0
    proof {
        let ps = paths($1@);
        n = n + 1;
        assert(ps.take(n).drop_last() =~= ps.take(n - 1));
        assert(ps.take(n).last() == $1@[n - 1]@);
    }
//@endfn
}
}
fn main() {}
