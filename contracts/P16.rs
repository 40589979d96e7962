//@include prelude/std.rs
verus! {
pub open spec fn P10() -> bool { false }
pub open spec fn P11() -> bool { false }
pub open spec fn P12() -> bool { false }
pub open spec fn P14() -> bool { false }
pub open spec fn P15() -> bool { false }
pub open spec fn P16() -> bool { true }
pub open spec fn SCHED() -> bool { false }
pub open spec fn P20() -> bool { false }
pub open spec fn P23() -> bool { false }
}
//@include prelude/srv.rs
//@include prelude/srv_attach.rs
verus! {
/// what is recorded about a session's clients
pub mod life {
    use vstd::prelude::*;
    use super::*;
    pub mod time {
        use vstd::prelude::*;
        #[derive(Clone, Copy)]
        pub struct SystemTime { pub ns: i128 }
        pub struct Before { pub _p: () }
        pub struct Since { pub ns: u128 }
        pub const UNIX_EPOCH: SystemTime = SystemTime { ns: 0 };
        /// what the clock said
        pub uninterp spec fn clock(t: SystemTime) -> bool;
        impl SystemTime {
            #[verifier::external_body]
            pub fn now() -> (r: SystemTime) ensures clock(r) { unimplemented!() }
            #[verifier::external_body]
            pub fn duration_since(self, e: SystemTime) -> (r: Result<Since, Before>)
                ensures (r is Ok) == (self.ns >= e.ns), r is Ok ==> r->Ok_0.ns == self.ns - e.ns
            { unimplemented!() }
        }
        impl Since { pub fn as_millis(&self) -> (r: u128) ensures r == self.ns / 1_000_000 { self.ns / 1_000_000 } }
    }
    pub use self::time::SystemTime;
    impl From<time::Before> for anyhow::Error { #[verifier::external_body] fn from(e: time::Before) -> (r: Self) { unimplemented!() } }
//@item libshpool/src/daemon/shell.rs :: struct SessionLifecycleState
    impl Clone for SessionLifecycleState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    /// what the lock guards: taken out while it is held, put back when it is given up
    pub struct Kept { pub now: SessionLifecycleState, pub held: bool }
    #[verifier::external_body]
    pub struct Ledger { _p: () }
    impl Ledger {
        pub uninterp spec fn v(&self) -> Kept;
        #[verifier::external_body]
        pub fn put(&mut self, g: &SessionLifecycleState)
            requires old(self).v().held
            ensures final(self).v() == (Kept { now: *g, held: false })
        { unimplemented!() }
    }
    pub struct StateLock { pub _p: () }
    impl StateLock {
        #[verifier::external_body]
        pub fn lock(&self, w: &mut Ledger) -> (r: SessionLifecycleState)
            requires !old(w).v().held
            ensures r == old(w).v().now, final(w).v() == (Kept { held: true, ..old(w).v() })
        { unimplemented!() }
        /// lock, copy, unlock
        #[verifier::external_body]
        pub fn copy(&self, w: &Ledger) -> (r: SessionLifecycleState) requires !w.v().held ensures r == w.v().now { unimplemented!() }
    }
    pub struct SessionLifecycle { pub state: StateLock }
    impl SessionLifecycle {
//@fn libshpool/src/daemon/shell.rs :: SessionLifecycle :: record_attached
//@sub `&self` => `&self, w: &mut Ledger`
//@sub `self.state.lock()` => `self.state.lock(w)`
//@bind g `let mut ? = self.state.lock`
//@spec
            requires !old(w).v().held
            ensures
                final(w).v().now.attachment == Some($2),
                final(w).v().now.last_connected_at is Some && time::clock(final(w).v().now.last_connected_at->0),
                final(w).v().now.last_disconnected_at == old(w).v().now.last_disconnected_at,
                !final(w).v().held,
//@at end
            w.put(&$g);
//@endfn
//@fn libshpool/src/daemon/shell.rs :: SessionLifecycle :: record_detached
//@sub `&self` => `&self, w: &mut Ledger`
//@sub `self.state.lock()` => `self.state.lock(w)`
//@bind g `let mut ? = self.state.lock`
//@spec
            requires !old(w).v().held
            ensures
                final(w).v().now.attachment is None,
                final(w).v().now.last_disconnected_at is Some && time::clock(final(w).v().now.last_disconnected_at->0),
                final(w).v().now.last_connected_at == old(w).v().now.last_connected_at,
                !final(w).v().held,
//@at end
            w.put(&$g);
//@endfn
//@fn libshpool/src/daemon/shell.rs :: SessionLifecycle :: snapshot
//@ret r
//@sub `&self` => `&self, w: &Ledger`
//@sub `self.state.lock().clone()` => `self.state.copy(w)`
//@spec
            requires !w.v().held
            ensures r == w.v().now
//@endfn
    }
}

/// the report on one session
pub mod report {
    use vstd::prelude::*;
    use super::*;
    use super::life::{time, SessionLifecycleState, SystemTime};
    pub use super::wire::Session;
    /// a session as the table holds it when it is listed
    pub struct Facts { pub started_at: time::SystemTime, pub state: SessionLifecycleState, pub in_use: bool }
    pub uninterp spec fn facts(id: int) -> Facts;
    pub struct Lc { pub id: Ghost<int> }
    impl Lc {
        #[verifier::external_body]
        pub fn snapshot(&self) -> (r: SessionLifecycleState) ensures r == facts(self.id@).state { unimplemented!() }
    }
    pub struct In { pub id: Ghost<int> }
    impl In {
        /// fails exactly while a client is served
        #[verifier::external_body]
        pub fn try_lock(&self) -> (r: Option<SessionInner>) ensures (r is None) == facts(self.id@).in_use { unimplemented!() }
    }
    pub struct Entry { pub started_at: time::SystemTime, pub lifecycle: Lc, pub inner: In }
    impl Entry { pub open spec fn is(&self, id: int) -> bool { self.started_at == facts(id).started_at && self.lifecycle.id@ == id && self.inner.id@ == id } }
    pub open spec fn ms(t: SystemTime) -> int { t.ns / 1_000_000 }
    /// no clock gets that far
    pub open spec fn sane(t: SystemTime) -> bool { t.ns / 1_000_000 < 0x7fff_ffff_ffff_ffff }
    pub open spec fn sane_opt(t: Option<SystemTime>) -> bool { t is Some ==> sane(t->0) }
    pub open spec fn stamp(t: Option<SystemTime>, r: Option<i64>) -> bool { match t { None => r is None, Some(t) => r == Some(ms(t) as i64) && ms(t) == ms(t) as i64 } }
    pub open spec fn truthful(name: Seq<char>, f: Facts, r: Session) -> bool {
        &&& r.name@ == name
        &&& r.started_at_unix_ms == ms(f.started_at)
        &&& stamp(f.state.last_connected_at, r.last_connected_at_unix_ms)
        &&& stamp(f.state.last_disconnected_at, r.last_disconnected_at_unix_ms)
        &&& r.status == (if f.in_use { SessionStatus::Attached } else { SessionStatus::Disconnected })
        &&& r.attachments@ == (match f.state.attachment { Some(a) => seq![a], None => seq![] })
    }
    pub assume_specification<T, E> [Option::<Result<T, E>>::transpose](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
        ensures r == (match o { None => Ok::<Option<T>, E>(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
    /// Option<T>::into_iter().collect()
    #[verifier::external_body]
    pub fn as_list<T>(o: Option<T>) -> (r: Vec<T>) ensures r@ == (match o { Some(a) => seq![a], None => seq![] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn same_text(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
//@closure libshpool/src/daemon/server.rs :: handle_list :: `.map(|(k, v)|`
//@cl 0 (d: Result<i64, time::Before>) ensures (d is Ok) == (t.ns >= 0), d is Ok && sane(t) ==> d->Ok_0 == ms(t)
//@cl 1 (d1: i64) ensures d.ns / 1_000_000 < 0x7fff_ffff_ffff_ffff ==> d1 == d.ns / 1_000_000
//@cl 2 (d: Result<i64, time::Before>) ensures (d is Ok) == (t.ns >= 0), d is Ok && sane(t) ==> d->Ok_0 == ms(t)
//@cl 3 (d1: i64) ensures d.ns / 1_000_000 < 0x7fff_ffff_ffff_ffff ==> d1 == d.ns / 1_000_000
//@sub `k.to_string()` => `same_text(k)`
//@sub `lifecycle_state.attachment.into_iter().collect()` => `as_list(lifecycle_state.attachment)`
//@sig
    pub fn row(k: &String, v: &Entry, id: Ghost<int>) -> (r: anyhow::Result<Session>)
//@spec
        requires
            v.is(id@), sane(facts(id@).started_at), sane_opt(facts(id@).state.last_connected_at), sane_opt(facts(id@).state.last_disconnected_at),
        ensures
            r is Ok ==> truthful(k@, facts(id@), r->Ok_0),
            // the list only fails on a clock set to before 1970
            r is Err ==> facts(id@).started_at.ns < 0 || (facts(id@).state.last_connected_at is Some && facts(id@).state.last_connected_at->0.ns < 0)
                || (facts(id@).state.last_disconnected_at is Some && facts(id@).state.last_disconnected_at->0.ns < 0),
//@endfn
    /// one row per table entry
    pub open spec fn complete(t: Map<Seq<char>, int>, rows: Seq<Session>) -> bool {
        &&& forall|i: int, j: int| 0 <= i < j < rows.len() ==> (#[trigger] rows[i]).name@ != (#[trigger] rows[j]).name@
        &&& forall|i: int| 0 <= i < rows.len() ==> t.contains_key((#[trigger] rows[i]).name@) && truthful(rows[i].name@, facts(t[rows[i].name@]), rows[i])
        &&& forall|n: Seq<char>| t.contains_key(n) ==> exists|i: int| 0 <= i < rows.len() && (#[trigger] rows[i]).name@ == n
    }
    impl Table {
        /// .iter().map(row).collect()
        #[verifier::external_body]
        pub fn rows(&self) -> (r: anyhow::Result<Vec<Session>>) ensures r is Ok ==> complete(self@, r->Ok_0@) { unimplemented!() }
    }
}
use report::*;
impl Server {
//@fn libshpool/src/daemon/server.rs :: handle_list
//@ret r
//@elide `shells.iter().map(` => ``
//@sub `shells.iter().map().collect()` => `shells.rows()`
//@sub `&self, mut stream` => `&self, w: &mut World, mut stream`
//@sub `self.shells.lock(` => `self.shells.lock(w`
//@sub `write_reply(` => `write_reply(w, `
//@spec
        requires fresh_world(old(w).v())
        ensures
            r is Ok ==> final(w).v().replies.len() == 1 && final(w).v().replies[0] is List && complete(final(w).v().took, final(w).v().replies[0]->List_0),
//@endfn
}
} // verus!
//@include prelude/cli.rs
//@include prelude/cli_list.rs
fn main() {}
