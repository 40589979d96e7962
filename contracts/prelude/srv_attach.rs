verus! {
impl Server {
    /// (proved in prelude/srv_reaper.rs) the reaper takes no notice of sessions that are not listed
    #[verifier::external_body]
    pub fn schedule_reaping(&self, w: &mut World, h: &AttachHeader, n: &Arc<ExitNotifier>)
        requires SCHED() ==> old(w).v().listed.contains(n.id()) && name_of(n.id()) == h.name@
        ensures final(w).v() == (Wv { sched: old(w).v().sched.push(n.id()), ..old(w).v() })
    { unimplemented!() }
//@fn libshpool/src/daemon/server.rs :: select_shell_desc
//@ret r
//@attr #[verifier::rlimit(80)]
//@scoped `self.shells.lock(` => `w.unlock(&$g);`
//@sub `&self, mut stream` => `&self, w: &mut World, mut stream`
//@sub `shell_env: &[(OsString, OsString)]` => `shell_env: &Envs`
//@sub `ArcMutexGuard<RawMutex, shell::SessionInner>` => `SessionInner`
//@sub `Arc<Mutex<Option<pager::PagerCtl>>>` => `Arc<PagerSlot>`
//@sub `self.config.get().motd.clone().unwrap_or_default()` => `self.config.motd_mode()`
//@sub `return Err(ShellSelectionError::BusyShellSession)?` => `return Err(mk_busy(w))`
//@sub `Err(ShellSelectionError::BusyShellSession)?` => `return Err(mk_busy(w))`
//@sub `self.shells.lock(` => `self.shells.lock(w`
//@sub `shells.get(` => `shells.get(w, `
//@sub `shells.insert(` => `shells.insert(w, `
//@sub `shells.remove(` => `shells.remove(w, `
//@sub `write_reply(` => `write_reply(w, `
//@sub `.wait(` => `.wait(w, `
//@sub `.publish(` => `.publish(w, `
//@sub `.record_attached(` => `.record_attached(w, `
//@sub `self.spawn_subshell(` => `self.spawn_subshell(w, `
//@sub `.try_lock_arc()` => `.try_lock_arc(w)`
//@sub `.lock_arc()` => `.lock_arc(w)`
//@sub `.kill()` => `.kill(w)`
//@sub `.schedule_reaping(` => `.schedule_reaping(w, `
//@mapor
//@sub `.is_stale()` => `.is_stale(w)`
//@spec
        requires
            fresh_world(old(w).v()),
            P11() ==> ok_name(header.name@),
        ensures
            // every session that was started is either listed or gone
            P10() ==> final(w).v().loose.len() == 0,
            // the client gets the one session that has the name
            P10() && r is Ok ==> ({
                let (parts, status) = r->Ok_0;
                &&& parts is Some && parts->Some_0.1.client_stream is Some && parts->Some_0.1.client_stream->0.id() == stream.id()
                &&& final(w).v().replies.len() == 0
                &&& final(w).v().present == Some(parts->Some_0.0.id()) && name_of(parts->Some_0.0.id()) == header.name@
                &&& match status {
                    AttachStatus::Attached { warnings } => final(w).v().alive.contains(parts->Some_0.0.id()) && final(w).v().listed.len() == 0
                        && (parts->Some_0.1.shell_to_client_join_h is Some ==> parts->Some_0.1.shell_to_client_join_h->0.ran()),
                    AttachStatus::Created { warnings } => final(w).v().listed =~= set![parts->Some_0.0.id()],
                    _ => false,
                }
            }),
            // the session this starts, and no other, ends when its time to live is over
            SCHED() && r is Ok && r->Ok_0.0 is Some ==> (if r->Ok_0.1 is Created { final(w).v().sched == seq![r->Ok_0.0->Some_0.0.id()] } else { final(w).v().sched.len() == 0 }),
            SCHED() && r is Err ==> final(w).v().sched.len() == 0,
            SCHED() ==> final(w).v().listed.len() == final(w).v().sched.len(),
            // or is told that it is in use
            P10() && r is Err ==> final(w).v().replies.len() == 0 || final(w).v().replies =~= seq![Rep::Status(AttachStatus::Busy)],
            P10() && r is Err ==> final(w).v().present is None && final(w).v().listed.len() == 0,
            P10() && r is Err && final(w).v().replies.len() > 0 ==> exists|id: int| lively(id) && name_of(id) == header.name@,
            // the list can tell who is attached to it
            P16() && r is Ok ==> r->Ok_0.0 is Some && r->Ok_0.0->Some_0.1.client_stream is Some && final(w).v().present == Some(r->Ok_0.0->Some_0.0.id()) && name_of(r->Ok_0.0->Some_0.0.id()) == header.name@,
            P16() && r is Ok ==> final(w).v().who.len() == 1 && final(w).v().who[0].session_name_template@ == header.name_template@ && final(w).v().who[0].pid == $7,
            P16() && r is Err ==> final(w).v().present is None,
            P20() && r is Ok && r->Ok_0.0 is Some ==> ({
                let (n, i, _) = r->Ok_0.0->Some_0;
                name_of(n.id()) == header.name@ && i.shell_to_client_ctl.id() == n.id()
                    && final(w).v().who.len() == 1 && final(w).v().who[0].session_name_template@ == header.name_template@
            }),
            P23() ==> final(w).v().owed.len() == 0 && final(w).v().noted == final(w).v().said,
//@endfn

//@fn libshpool/src/daemon/server.rs :: note_client_disconnect
//@scoped `self.shells.lock(` => `w.unlock(&$g);`
//@sub `&self, name: &str` => `&self, w: &mut World, name: &String`
//@sub `Arc::ptr_eq(` => `same_notifier(`
//@sub `self.shells.lock(` => `self.shells.lock(w`
//@sub `shells.get(` => `shells.get(w, `
//@sub `.publish(` => `.publish(w, `
//@sub `.record_detached(` => `.record_detached(w`
//@spec
        requires
            P23() ==> old(w).v().owed.len() == 0 && old(w).v().noted == old(w).v().said,
            P10() || P16() ==> (old(w).v().present is Some ==> old(w).v().present == Some($3.id()) && name_of($3.id()) == $2@),
        ensures
            P10() || P16() ==> final(w).v().present is None,
            P23() ==> final(w).v().owed.len() == 0 && final(w).v().noted == final(w).v().said,
            final(w).v().loose == old(w).v().loose, final(w).v().replies == old(w).v().replies,
//@endfn

//@fn libshpool/src/daemon/server.rs :: handle_attach
//@ret r
//@attr #[verifier::rlimit(80)]
//@andthen
//@mapor
//@scoped `self.shells.lock(` => `w.unlock(&$g);`
//@sub `&self, mut stream` => `&self, w: &mut World, mut stream`
//@sub `Arc::ptr_eq(` => `same_notifier(`
//@sub `err.downcast_ref::<ShellSelectionError>().map(|e| e == &ShellSelectionError::BusyShellSession).unwrap_or(false)` => `err.is_busy()`
//@sub `self.config.get().motd.clone().unwrap_or_default()` => `self.config.motd_mode()`
//@sub `header.name == "."` => `text_is(&header.name, ".")`
//@sub `header.name == ".."` => `text_is(&header.name, "..")`
//@cl 0 (b: bool) ensures b == (c == '/' || c == '\0' || is_ws(c))
//@cl 1 (u: ()) ensures P20() ==> caught_up($ctl.id(), header.name@, header.name_template@)
//@bind ctl `let ? = Arc::clone(&inner.shell_to_client_ctl)`
//@sub `.bidi_stream(` => `.bidi_stream(w, `
//@sub `|c|` => `|c: char|`
//@sub `header.name.chars().any(` => `any_char(&header.name, `
//@sub `self.shells.lock(` => `self.shells.lock(w`
//@sub `shells.get(` => `shells.get(w, `
//@sub `shells.remove(` => `shells.remove(w, `
//@sub `write_reply(` => `write_reply(w, `
//@sub `.publish(` => `.publish(w, `
//@sub `self.select_shell_desc(` => `self.select_shell_desc(w, `
//@sub `self.note_client_disconnect(` => `self.note_client_disconnect(w, `
//@spec
        requires
            fresh_world(old(w).v()),
        ensures
            // whatever happens, no client is left recorded at a listed session
            P10() || P16() ==> final(w).v().present is None,
            P10() ==> final(w).v().replies.len() <= 1,
            P23() ==> final(w).v().owed.len() == 0 && final(w).v().noted == final(w).v().said,
//@endfn
}
} // verus!
