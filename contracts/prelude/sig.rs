// Ending a session's shell: signals and waiting.
macro_rules! millis { ($n:expr) => { Duration { ns: $n as u128 * 1_000_000 } } }
verus! {
pub mod nix {
    pub mod errno {
        pub enum Errno { ESRCH, EPERM, Other }
    }
}
pub mod sig {
    use vstd::prelude::*;
    use super::*;
    pub struct Sv {
        /// signals delivered, to whom
        pub sent: Seq<(i32, signal::Signal)>,
        /// the shell was seen to have exited, or there was no such process
        pub over: bool,
        /// somebody looked whether the shell had exited before anything else
        pub looked: bool,
        /// how long the shell was given since the last signal
        pub patience: nat,
    }
    #[verifier::external_body]
    pub struct Sigs { _p: () }
    impl Sigs { pub uninterp spec fn v(&self) -> Sv; }
    #[verifier::external_body]
    pub struct ExitNotifier { _p: () }
    impl ExitNotifier {
        /// a None means the shell was still there, and its pid its own
        #[verifier::external_body]
        pub fn wait(&self, s: &mut Sigs, t: Option<Duration>) -> (r: Option<i32>)
            ensures final(s).v() == (Sv { looked: true, over: old(s).v().over || r is Some,
                patience: if r is None && t is Some { old(s).v().patience + t->0.ns as nat } else { old(s).v().patience }, ..old(s).v() })
        { unimplemented!() }
    }
    pub mod signal {
        use vstd::prelude::*;
        use super::super::nix;
        use super::*;
        pub enum Signal { SIGHUP, SIGTERM, SIGINT, SIGKILL, SIGSTOP, SIGCONT }
        /// a process is signalled only while it is known to be the session's shell, and killed only after it was given time to end by itself
        #[verifier::external_body]
        pub fn kill(s: &mut Sigs, p: Pid, g: Option<Signal>) -> (r: Result<(), nix::errno::Errno>)
            requires
                old(s).v().looked && !old(s).v().over,
                g == Some(Signal::SIGKILL) ==> old(s).v().sent == seq![(p.pid, Signal::SIGHUP)] && old(s).v().patience >= 100_000_000,
                g is Some && g != Some(Signal::SIGKILL) ==> g == Some(Signal::SIGHUP) && old(s).v().sent.len() == 0,
            ensures final(s).v() == (Sv { sent: if r is Ok && g is Some { old(s).v().sent.push((p.pid, g->0)) } else { old(s).v().sent },
                patience: if g is Some { 0 } else { old(s).v().patience },
                over: old(s).v().over || (r is Err && r->Err_0 is ESRCH), ..old(s).v() })
        { unimplemented!() }
    }
    pub struct Pid { pub pid: i32 }
    impl Pid { pub fn from_raw(p: i32) -> (r: Pid) ensures r.pid == p { Pid { pid: p } } }
    use super::libc;
    pub struct Session { pub child_pid: libc::pid_t, pub child_exit_notifier: Arc<ExitNotifier> }
//@item libshpool/src/daemon/shell.rs :: const SHELL_KILL_TIMEOUT sub `time::Duration::from_millis(` => `millis!(`
    impl Session {
//@fn libshpool/src/daemon/shell.rs :: Session :: kill
//@ret r
//@sub `kill(&self)` => `kill(&self, s: &mut Sigs)`
//@sub `.wait(` => `.wait(s, `
//@sub `signal::kill(` => `signal::kill(s, `
//@spec
            requires old(s).v() == (Sv { sent: Seq::empty(), over: false, looked: false, patience: 0 }),
            ensures
                // nobody but the shell is signalled
                forall|i: int| 0 <= i < final(s).v().sent.len() ==> (#[trigger] final(s).v().sent[i]).0 == self.child_pid,
                // and it is gone, or has been killed for good
                r is Ok ==> final(s).v().over || (final(s).v().sent.len() > 0 && final(s).v().sent.last().1 is SIGKILL),
//@endfn
    }
}
} // verus!
