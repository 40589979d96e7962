// The files kept for a session.
verus! {
/// a directory that can be named
pub open spec fn dir_ok(p: Seq<char>) -> bool { p.len() > 0 && p.last() != '/' }
pub proof fn lemma_paths(rt: Seq<char>, name: Seq<char>)
    requires dir_ok(rt), part(name)
    ensures
        session_path(rt, name) == joined(joined(rt, "sessions"@), name), part("sessions"@), part("ssh-auth-sock.socket"@), part("forward.env"@),
        dir_ok(joined(rt, "sessions"@)), dir_ok(session_path(rt, name)),
        forward_path(rt, name) != agent_path(rt, name),
{
    reveal_strlit("sessions"); reveal_strlit("ssh-auth-sock.socket"); reveal_strlit("forward.env"); reveal_strlit("."); reveal_strlit("..");
    let d = joined(rt, "sessions"@);
    assert(d.last() == 's');
    assert(session_path(rt, name).last() == name.last());
    assert(forward_path(rt, name).last() == 'v');
    assert(agent_path(rt, name).last() == 't');
}
impl Server {
//@fn libshpool/src/daemon/server.rs :: link_ssh_auth_sock
//@ret r
//@sub `(&self, header` => `(&self, w: &mut Disk, header`
//@sub `fs::create_dir_all(` => `fs::create_dir_all(w, `
//@sub `fs::metadata(` => `fs::metadata(w, `
//@sub `fs::set_permissions(` => `fs::set_permissions(w, `
//@sub `fs::remove_file(` => `fs::remove_file(w, `
//@sub `os::unix::fs::symlink(` => `fs::symlink(w, `
//@cl 0 (b: bool) ensures b == ($c1@.len() != 0)
//@cl 1 (z: Option<&PathBuf>) ensures forall|q: Seq<char>, f: Seq<char>| $c1@ == #[trigger] joined(q, f) && part(f) && q.len() > 0 && q.last() != '/' ==> z is Some && z->0@ == q
//@spec
        requires dir_ok(self.runtime_dir@), part(header.name@)
        ensures
            ({
                let (rt, name, a, b) = (self.runtime_dir@, header.name@, old(w).v(), final(w).v());
                let sock = local(header.local_env@, "SSH_AUTH_SOCK"@);
                if on(self.config.now.nosymlink_ssh_auth_sock) || sock is None || sock->0.len() == 0 { r is Ok && b == a }
                else {
                    // the link points to the client's agent, in a directory nobody else can enter
                    &&& r is Ok ==> b.links == a.links.insert(agent_path(rt, name), sock->0) && b.private.contains(joined(rt, "sessions"@)) && b.made == a.made.insert(session_path(rt, name))
                    &&& r is Err ==> b.failed
                    &&& b.texts == a.texts
                }
            }),
//@at start
        proof { lemma_paths(self.runtime_dir@, header.name@); }
//@endfn
//@fn libshpool/src/daemon/server.rs :: populate_session_env_file
//@ret r
//@sub `(&self, header` => `(&self, w: &mut Disk, header`
//@sub `fs::create_dir_all(` => `fs::create_dir_all(w, `
//@sub `fs::write(` => `fs::write(w, `
//@sub `header.local_env.iter()` => `items(&header.local_env)`
//@sub `format!("{k}={v}")` => `kv(k, v)`
//@cl 0 (z: String) ensures z@ == $c1.0@ + seq!['='] + $c1.1@
//@spec
        ensures
            ({
                let (rt, name, a, b) = (self.runtime_dir@, header.name@, old(w).v(), final(w).v());
                &&& r is Ok ==> b.texts == a.texts.insert(forward_path(rt, name), glued(lines(pair_views(header.local_env@)), "\n"@)) && b.made == a.made.insert(session_path(rt, name))
                &&& r is Err ==> b.failed
                &&& b.links == a.links
            }),
//@at start
        proof {
            let le = header.local_env@;
            assert forall|v: Seq<String>| v.len() == le.len() && (forall|j: int| #![trigger v[j]] 0 <= j < le.len() ==> v[j]@ == le[j].0@ + seq!['='] + le[j].1@)
                implies #[trigger] string_views(v) == lines(pair_views(le)) by { assert(string_views(v) =~= lines(pair_views(le))); }
        }
//@endfn
}
} // verus!
