// How an exit becomes known: the thread that waits for the shell, and everybody who waits for that.
verus! {
pub mod exitn {
    use vstd::prelude::*;
    use std::sync::Arc;
    pub struct Ev {
        /// what waitpid(2) said at last: the shell is gone, with this raw status (none: there is nobody to wait for)
        pub reaped: bool,
        pub raw: Option<i32>,
        /// what the exit notifier holds, as far as this thread knows; somebody was woken
        pub slot: Option<i32>,
        pub woken: bool,
        /// the notifier was told, how often
        pub told: nat,
        /// how long this thread waited
        pub waited: nat,
    }
    #[verifier::external_body]
    pub struct World { _p: () }
    impl World { pub uninterp spec fn v(&self) -> Ev; }
    pub uninterp spec fn exited(raw: i32) -> bool;
    pub uninterp spec fn code(raw: i32) -> i32;
    /// the status the shell ended with: 1 if it did not end by itself
    pub open spec fn outcome(v: Ev) -> i32 { if v.raw is Some && exited(v.raw->0) { code(v.raw->0) } else { 1 } }
    #[derive(Clone, Copy)]
    pub struct Duration { pub ns: u128 }

    // ---- the notifier's monitor: what it holds is the shell's outcome and is never taken back
    #[verifier::external_body]
    pub struct Mutex { _p: () }
    #[verifier::external_body]
    pub struct Condvar { _p: () }
    pub struct Locked { pub v: Option<i32> }
    impl Locked { pub fn is_some(&self) -> (r: bool) ensures r == (self.v is Some) { self.v.is_some() } 
        pub fn is_none(&self) -> (r: bool) ensures r == (self.v is None) { self.v.is_none() } }
    pub struct WaitResult { pub t: bool }
    impl WaitResult { pub fn timed_out(&self) -> (r: bool) ensures r == self.t { self.t } }
    impl Mutex {
        #[verifier::external_body]
        pub fn new(v: Option<i32>) -> (r: Mutex) requires v is None { unimplemented!() }
        #[verifier::external_body]
        pub fn lock(&self, w: &mut World) -> (r: Locked)
            ensures old(w).v().slot is Some ==> r.v == old(w).v().slot,
                final(w).v() == (Ev { slot: r.v, woken: false, ..old(w).v() })
        { unimplemented!() }
    }
    impl Condvar {
        #[verifier::external_body]
        pub fn new() -> Condvar { unimplemented!() }
        #[verifier::external_body]
        pub fn notify_all(&self, w: &mut World)
            ensures final(w).v() == (Ev { woken: true, ..old(w).v() })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn notify_one(&self, w: &mut World) -> (r: bool) ensures final(w).v() == old(w).v() { unimplemented!() }
        /// parking_lot's condition variables do not wake up for nothing, and the notifier only wakes when there is a status
        #[verifier::external_body]
        pub fn wait_for(&self, w: &mut World, g: &mut Locked, t: Duration) -> (r: WaitResult)
            ensures
                old(g).v is Some ==> final(g).v == old(g).v, !r.t ==> final(g).v is Some,
                final(w).v() == (Ev { slot: final(g).v, waited: if r.t { old(w).v().waited + t.ns as nat } else { old(w).v().waited }, ..old(w).v() }),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn wait(&self, w: &mut World, g: &mut Locked)
            requires old(g).v is None
            ensures final(g).v is Some, final(w).v() == (Ev { slot: final(g).v, ..old(w).v() }),
        { unimplemented!() }
    }
    impl World {
        #[verifier::external_body]
        pub fn release(&mut self, g: &Locked)
            requires g.v != old(self).v().slot ==> g.v is Some && g.v->0 == outcome(old(self).v()) && old(self).v().reaped && old(self).v().woken
            ensures final(self).v() == (Ev { slot: g.v, ..old(self).v() })
        { unimplemented!() }
    }
    pub struct ExitNotifier { pub slot: Mutex, pub cond: Condvar }
    impl ExitNotifier {
//@fn libshpool/src/daemon/exit_notify.rs :: ExitNotifier :: new
//@ret r
//@attr pubfn
//@spec
//@endfn
//@fn libshpool/src/daemon/exit_notify.rs :: ExitNotifier :: notify_exit
//@attr pubfn
//@sub `&self,` => `&self, w: &mut World,`
//@sub `*slot` => `slot.v`
//@sub `notify_all(` => `notify_all(w`
//@sub `notify_one(` => `notify_one(w`
//@sub `self.slot.lock(` => `self.slot.lock(w`
//@scoped `self.slot.lock(` => `@fn w.release(&$g);`
//@spec
            requires old(w).v().reaped && $2 == outcome(old(w).v())
            ensures final(w).v().slot == Some($2), final(w).v().reaped == old(w).v().reaped && final(w).v().raw == old(w).v().raw
//@endfn
//@fn libshpool/src/daemon/exit_notify.rs :: ExitNotifier :: wait
//@ret r
//@attr pubfn
//@sub `&self,` => `&self, w: &mut World,`
//@sub `*slot` => `slot.v`
//@sub `.wait_for(` => `.wait_for(w, `
//@sub `.wait(` => `.wait(w, `
//@sub `self.slot.lock(` => `self.slot.lock(w`
//@scoped `self.slot.lock(` => `@fn w.release(&$g);`
//@spec
            ensures
                // it yields what the notifier holds, and nothing only once the time is over
                r is Some ==> final(w).v().slot == r,
                r is None ==> $2 is Some && final(w).v().waited == old(w).v().waited + $2->0.ns,
                old(w).v().slot is Some ==> r == old(w).v().slot,
//@endfn
    }

    // ---- the thread that waits for the shell
    #[verifier::external_body]
    pub struct Teller { _p: () }
    impl Teller {
        /// as above
        #[verifier::external_body]
        pub fn notify_exit(&self, w: &mut World, s: i32)
            requires old(w).v().reaped && s == outcome(old(w).v())
            ensures final(w).v() == (Ev { told: old(w).v().told + 1, ..old(w).v() })
        { unimplemented!() }
    }
    pub mod libc {
        use vstd::prelude::*;
        use super::*;
        pub const WNOHANG: i32 = 1;
        pub const WUNTRACED: i32 = 2;
        pub const WCONTINUED: i32 = 8;
        /// it is asked for the shell, and only for its end
        #[verifier::external_body]
        pub fn waitpid(w: &mut World, pid: i32, status: &mut i32, flags: i32) -> (r: i32)
            requires flags == 0 || flags == WNOHANG, pid == shell_pid(), !old(w).v().reaped
            ensures
                r == 0 ==> final(w).v() == old(w).v() && *final(status) == *old(status),
                r == -1 ==> final(w).v() == (Ev { reaped: true, raw: None, ..old(w).v() }) && *final(status) == *old(status),
                r != 0 && r != -1 ==> final(w).v() == (Ev { reaped: true, raw: Some(*final(status)), ..old(w).v() }),
        { unimplemented!() }
        #[allow(non_snake_case)]
        #[verifier::external_body]
        pub fn WIFEXITED(s: i32) -> (r: bool) ensures r == exited(s) { unimplemented!() }
        #[allow(non_snake_case)]
        #[verifier::external_body]
        pub fn WEXITSTATUS(s: i32) -> (r: i32) ensures exited(s) ==> r == code(s) { unimplemented!() }
    }
    pub uninterp spec fn shell_pid() -> i32;
//@closure libshpool/src/daemon/server.rs :: spawn_subshell :: `thread::spawn(move ||`
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `let _s = span!(Level::INFO, "child_watcher", s = session_name, cid = conn_id).entered();` => ``
//@sub `libc::waitpid(` => `libc::waitpid(w, `
//@sub `.notify_exit(` => `.notify_exit(w, `
//@sig
    pub fn watch(w: &mut World, waitable_child_pid: i32, notifiable_child_exit_notifier: &Teller)
//@spec
        requires waitable_child_pid == shell_pid(), !old(w).v().reaped, old(w).v().told == 0
        ensures
            // once the shell has ended, and not before, that is told, once
            final(w).v().reaped && final(w).v().told == 1,
//@loop 0 kind=loop
            invariant_except_break waitable_child_pid == shell_pid(), !w.v().reaped, w.v().told == 0, err is None, unpacked_status is None
            ensures w.v().reaped, w.v().told == 0, (unpacked_status is Some) == (w.v().raw is Some && exited(w.v().raw->0)), unpacked_status is Some ==> unpacked_status->0 == code(w.v().raw->0),
//@endfn
}
} // verus!
