// The shell's environment and the files kept for a session.
//@include prelude/conf.rs
verus! {
// ---- what there is besides
pub mod io { use vstd::prelude::*; #[verifier::external_body] pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    pub struct BufReader { pub f: super::fs::File }
    impl BufReader { pub fn new(f: super::fs::File) -> (r: BufReader) ensures r.f == f { BufReader { f } } }
}
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) { unimplemented!() } }
/// a variable of the daemon's own environment
pub uninterp spec fn own_env(k: Seq<char>) -> Option<Seq<char>>;
pub mod env { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub fn var_os(k: &str) -> (r: Option<OsString>) ensures (r is Some) == (own_env(k@) is Some), r is Some ==> r->0@ == own_env(k@)->0 { unimplemented!() }
}
/// what /etc/environment sets (P08); nothing if it cannot be read
pub uninterp spec fn etc() -> Option<Seq<(Seq<char>, Seq<char>)>>;
/// it can be read to its end
pub uninterp spec fn etc_reads() -> bool;
pub mod etc_environment { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub fn parse_compat(f: io::BufReader) -> (r: anyhow::Result<Vec<(String, String)>>)
        requires f.f.name() == "/etc/environment"@
        ensures etc() is Some, (r is Ok) == etc_reads(), r is Ok ==> pair_views(r->Ok_0@) == etc()->0
    { unimplemented!() }
}
/// what is done to the file system
pub struct Files {
    /// directories that only their owner may use
    pub private: Set<Seq<char>>,
    pub made: Set<Seq<char>>,
    pub links: Map<Seq<char>, Seq<char>>,
    pub texts: Map<Seq<char>, Seq<char>>,
    /// something the kernel was asked for went wrong
    pub failed: bool,
}
#[verifier::external_body]
pub struct Disk { _p: () }
impl Disk { pub uninterp spec fn v(&self) -> Files; }
pub struct Permissions { pub m: u32 }
impl Permissions {
    /// the permission bits, without the file type
    pub fn mode(&self) -> (r: u32) ensures r == self.m { self.m }
    pub fn set_mode(&mut self, m: u32) ensures final(self).m == m { self.m = m; }
}
pub mod fs { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub struct File { _p: () }
    impl File {
        pub uninterp spec fn name(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn open(n: &str) -> (r: io::Result<File>) ensures r is Ok ==> r->Ok_0.name() == n@, r is Err && n@ == "/etc/environment"@ ==> etc() is None { unimplemented!() }
    }
    pub struct Metadata { pub p: Ghost<Seq<char>>, pub m: u32 }
    impl Metadata { pub fn permissions(&self) -> (r: Permissions) ensures r.m == self.m { Permissions { m: self.m } } }
    #[verifier::external_body]
    pub fn create_dir_all<T: Pathy>(w: &mut Disk, p: T) -> (r: io::Result<()>)
        ensures final(w).v() == (Files { made: if r is Ok { old(w).v().made.insert(p.p()) } else { old(w).v().made }, failed: old(w).v().failed || r is Err, ..old(w).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata<T: Pathy>(w: &mut Disk, p: T) -> (r: io::Result<Metadata>)
        ensures r is Ok ==> r->Ok_0.p@ == p.p(),
            final(w).v() == (Files { private: if r is Ok && r->Ok_0.m == 0o700 { old(w).v().private.insert(p.p()) } else { old(w).v().private }, failed: old(w).v().failed || r is Err, ..old(w).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set_permissions<T: Pathy>(w: &mut Disk, p: T, m: Permissions) -> (r: io::Result<()>)
        requires P11() ==> m.m == 0o700
        ensures final(w).v() == (Files { private: if r is Ok { old(w).v().private.insert(p.p()) } else { old(w).v().private }, failed: old(w).v().failed || r is Err, ..old(w).v() })
    { unimplemented!() }
    /// afterwards the name is free, unless it is not a link
    #[verifier::external_body]
    pub fn remove_file<T: Pathy>(w: &mut Disk, p: T) -> (r: io::Result<()>)
        ensures final(w).v() == (Files { links: old(w).v().links.remove(p.p()), ..old(w).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn symlink<T: Pathy, U: Pathy>(w: &mut Disk, to: T, p: U) -> (r: io::Result<()>)
        requires P11() ==> !old(w).v().links.contains_key(p.p())
        ensures final(w).v() == (Files { links: if r is Ok { old(w).v().links.insert(p.p(), to.p()) } else { old(w).v().links }, failed: old(w).v().failed || r is Err, ..old(w).v() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write<T: Pathy>(w: &mut Disk, p: T, c: String) -> (r: io::Result<()>)
        ensures final(w).v() == (Files { texts: if r is Ok { old(w).v().texts.insert(p.p(), c@) } else { old(w).v().texts }, failed: old(w).v().failed || r is Err, ..old(w).v() })
    { unimplemented!() }
}
/// the files of a session
pub open spec fn session_path(rt: Seq<char>, name: Seq<char>) -> Seq<char> { joined(joined(rt, "sessions"@), name) }
pub open spec fn agent_path(rt: Seq<char>, name: Seq<char>) -> Seq<char> { joined(session_path(rt, name), "ssh-auth-sock.socket"@) }
pub open spec fn forward_path(rt: Seq<char>, name: Seq<char>) -> Seq<char> { joined(session_path(rt, name), "forward.env"@) }
/// k=v lines
pub open spec fn lines(s: Seq<(Seq<char>, Seq<char>)>) -> Seq<Seq<char>> { s.map_values(|p: (Seq<char>, Seq<char>)| p.0 + seq!['='] + p.1) }
pub open spec fn glued(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { glued(s.drop_last(), sep) + sep + s.last() }
}
pub open spec fn string_views(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
pub trait Join { spec fn jv(&self) -> Seq<Seq<char>>; fn join(&self, sep: &str) -> (r: String) ensures r@ == glued(self.jv(), sep@); }
impl Join for Vec<String> {
    open spec fn jv(&self) -> Seq<Seq<char>> { string_views(self@) }
    #[verifier::external_body]
    fn join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
/// format!("{k}={v}")
#[verifier::external_body]
pub fn kv(k: &str, v: &str) -> (r: String) ensures r@ == k@ + seq!['='] + v@ { unimplemented!() }

// ---- the rules
/// what TERM is in the shell, before /etc/environment
pub open spec fn term_of(c: Config, h: AttachHeader) -> Option<Seq<char>> {
    let cenv = conf_env(c);
    if cenv.contains_key("TERM"@) { if cenv["TERM"@].len() == 0 { None } else { Some(cenv["TERM"@]) } } else { local(h.local_env@, "TERM"@) }
}
pub open spec fn conf_env(c: Config) -> Map<Seq<char>, Seq<char>> { match c.env { Some(e) => e.texts(), None => Map::empty() } }
pub open spec fn base_env(c: Config, u: user::Info, h: AttachHeader, rt: Seq<char>) -> Map<Seq<char>, Seq<char>> {
    Map::<Seq<char>, Seq<char>>::empty()
        .insert("HOME"@, u.home_dir@)
        .insert("PATH"@, match c.initial_path { Some(p) => p@, None => DEFAULT_INITIAL_SHELL_PATH@ })
        .insert("SHPOOL_SESSION_NAME"@, h.name@)
        .insert("SHPOOL_SESSION_DIR"@, session_path(rt, h.name@))
        .insert("SHELL"@, u.default_shell@)
        .insert("USER"@, u.user@)
        .insert("SSH_AUTH_SOCK"@, agent_path(rt, h.name@))
}
pub open spec fn with(m: Map<Seq<char>, Seq<char>>, k: Seq<char>, v: Option<Seq<char>>) -> Map<Seq<char>, Seq<char>> { match v { Some(v) => m.insert(k, v), None => m } }
/// the client's variables that are passed on as they are
pub open spec fn passed(s: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = passed(s.drop_last());
        if s.last().0@ == "TERM"@ || s.last().0@ == "SSH_AUTH_SOCK"@ { p } else { p.push((s.last().0@, s.last().1@)) }
    }
}
pub open spec fn full_env(c: Config, u: user::Info, h: AttachHeader, rt: Seq<char>) -> Map<Seq<char>, Seq<char>> {
    let m1 = with(base_env(c, u, h, rt), "XDG_RUNTIME_DIR"@, own_env("XDG_RUNTIME_DIR"@));
    let m2 = m1.union_prefer_right(conf_env(c).remove("TERM"@));
    let m3 = with(m2, "TERM"@, term_of(c, h));
    let m4 = m3.union_prefer_right(settled(passed(h.local_env@)));
    if !on(c.noread_etc_environment) && etc() is Some { m4.union_prefer_right(settled(etc()->0)) } else { m4 }
}
pub struct Server { pub config: ConfigManager, pub runtime_dir: PathBuf }
impl Server {
//@fn libshpool/src/daemon/server.rs :: build_shell_env
//@ret r
//@vecs
//@sub `.extend(` => `.extend_all(`
//@sub `DEFAULT_INITIAL_SHELL_PATH` => `lit(DEFAULT_INITIAL_SHELL_PATH)`
//@sub `let s = OsString::from;` => ``
//@sub ` s(` => ` os(`
//@sub `.into()` => `.os()`
//@cl 0 (t: &str) ensures t@ == x@
//@bind env `let mut ? = Vec::new(`
//@cl 1 (p: (OsString, OsString)) ensures p.0@ == $c1.0@, p.1@ == $c1.1@
//@spec
        ensures
            r is Ok ==> settled(osv(r->Ok_0@)) == full_env(self.config.now, *user_info, *header, self.runtime_dir@),
            r is Err ==> !utf8(agent_path(self.runtime_dir@, header.name@)) || (!on(self.config.now.noread_etc_environment) && etc() is Some && !etc_reads()),
//@bind EX 0 `let ? = if term.is_none()`
//@at start
        broadcast use {env_facts::lemma_push, env_facts::lemma_add, env_facts::lemma_none};
        let ghost (c, h, rt) = (self.config.now, *header, self.runtime_dir@);
        let ghost m1 = with(base_env(c, *user_info, h, rt), "XDG_RUNTIME_DIR"@, own_env("XDG_RUNTIME_DIR"@));
        let ghost m3 = with(m1.union_prefer_right(conf_env(c).remove("TERM"@)), "TERM"@, term_of(c, h));
        let ghost m4 = m3.union_prefer_right(settled(passed(h.local_env@)));
//@at before 0 `let mut term`
        proof { assert(settled(osv($env@)) == m1); }
//@at before 0 `extend_all`
            proof {
                assert forall|i: Items<(&String, &String)>, o: Seq<(OsString, OsString)>| lists(#[trigger] entries(i@), $EX.texts()) && o.len() == i@.len()
                    && (forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).0@ == i@[j].0@ && o[j].1@ == i@[j].1@)
                    implies #[trigger] settled(osv(o)) == $EX.texts() by { assert(osv(o) =~= entries(i@)); lemma_settled_lists(osv(o), $EX.texts()); }
            }
//@at loopbefore 0
        proof {
            assert(settled(osv($env@)) =~= m3);
            assert(settled(passed(h.local_env@.take(0))) =~= Map::empty());
            assert(m3.union_prefer_right(Map::empty()) =~= m3);
        }
//@loop 0 iter=it
            invariant
                h == *header,
                it.seq().len() == h.local_env@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger h.local_env@[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == h.local_env@[i],
                settled(osv($env@)) == m3.union_prefer_right(settled(passed(h.local_env@.take(it.index() as int)))),
//@at loopstart 0
            broadcast use {env_facts::lemma_push, env_facts::lemma_add, env_facts::lemma_none};
            proof {
                let i = it.index() as int;
                let t = h.local_env@.take(i + 1);
                assert(t.drop_last() =~= h.local_env@.take(i));
                assert(t.last() == h.local_env@[i]);
                assert(*it.seq()[i] == h.local_env@[i]);
                let p = passed(h.local_env@.take(i));
                let x = (t.last().0@, t.last().1@);
                assert(p.push(x).drop_last() =~= p);
                assert(settled(p.push(x)) == settled(p).insert(x.0, x.1));
                assert(m3.union_prefer_right(settled(p).insert(x.0, x.1)) =~= m3.union_prefer_right(settled(p)).insert(x.0, x.1));
            }
//@at loopafter 0
        proof { assert(h.local_env@.take(h.local_env@.len() as int) =~= h.local_env@); }
//@at loopbefore 1
                    proof {
                        assert(settled(etc()->0.take(0)) =~= Map::empty());
                        assert(m4.union_prefer_right(Map::empty()) =~= m4);
                    }
//@at loopstart 1
                        broadcast use {env_facts::lemma_push, env_facts::lemma_add, env_facts::lemma_none};
                        proof {
                            let i = it.index() as int;
                            let s = etc()->0;
                            assert(s.take(i + 1).drop_last() =~= s.take(i));
                            assert(pair_views(it.seq())[i] == s[i]);
                            assert(m4.union_prefer_right(settled(s.take(i)).insert(s[i].0, s[i].1)) =~= m4.union_prefer_right(settled(s.take(i))).insert(s[i].0, s[i].1));
                        }
//@at loopafter 1
                    proof { assert(etc()->0.take(etc()->0.len() as int) =~= etc()->0); }
//@loop 1 iter=it
            invariant
                pair_views(it.seq()) == etc()->0,
                settled(osv($env@)) == m4.union_prefer_right(settled(etc()->0.take(it.index() as int))),
//@endfn
//@fn libshpool/src/daemon/server.rs :: session_env_file
//@ret r
//@sub `<P: AsRef<Path>>` => ``
//@sub `: P)` => `: PathBuf)`
//@spec
        ensures r@ == forward_path(self.runtime_dir@, $1@)
//@endfn
//@fn libshpool/src/daemon/server.rs :: ssh_auth_sock_symlink
//@ret r
//@sub `<P: AsRef<Path>>` => ``
//@sub `: P)` => `: PathBuf)`
//@spec
        ensures r@ == agent_path(self.runtime_dir@, $1@)
//@endfn
//@fn libshpool/src/daemon/server.rs :: session_dir
//@ret r
//@sub `<P: AsRef<Path>>` => ``
//@sub `: P)` => `: PathBuf)`
//@spec
        ensures r@ == session_path(self.runtime_dir@, $1@)
//@endfn
}
} // verus!
