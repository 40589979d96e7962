verus! {
pub mod crossbeam_channel {
    use vstd::prelude::*;
    use super::*;
    pub struct RecvError;
    pub struct Receiver<T> { pub _p: Option<T> }
    // a registration tells the session's own name and deadline (registration is under contract below)
    impl Receiver<(String, Instant, Arc<ExitNotifier>)> {
        #[verifier::external_body]
        pub fn recv(&self, w: &mut World) -> (r: Result<(String, Instant, Arc<ExitNotifier>), RecvError>)
            ensures r is Ok ==> final(w).v() == (Wv { open: old(w).v().open.insert(told(r->Ok_0)), ..old(w).v() })
                    && deadline(told(r->Ok_0).id) == told(r->Ok_0).at && name_of(told(r->Ok_0).id) == told(r->Ok_0).name,
                r is Err ==> final(w).v() == (Wv { closed: true, ..old(w).v() }),
                forall|x: Reg| #[trigger] final(w).v().open.contains(x) ==> old(w).v().open.contains(x) || (r is Ok && x == told(r->Ok_0)),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn recv_any(&self, w: &mut World) -> (r: Result<(String, Instant, Arc<ExitNotifier>), RecvError>)
            ensures r is Ok ==> final(w).v() == (Wv { open: old(w).v().open.insert(told(r->Ok_0)), ..old(w).v() })
                    && deadline(told(r->Ok_0).id) == told(r->Ok_0).at && name_of(told(r->Ok_0).id) == told(r->Ok_0).name,
                r is Err ==> final(w).v() == (Wv { closed: true, ..old(w).v() }),
                forall|x: Reg| #[trigger] final(w).v().open.contains(x) ==> old(w).v().open.contains(x) || (r is Ok && x == told(r->Ok_0)),
        { unimplemented!() }
    }
    pub struct At { pub when: Instant }
    pub fn at(t: Instant) -> (r: At) ensures r.when == t { At { when: t } }
    impl At {
        /// it is then
        #[verifier::external_body]
        pub fn recv_any(&self, w: &mut World) -> (r: Instant)
            ensures final(w).v() == (Wv { now: final(w).v().now, ..old(w).v() }), final(w).v().now >= old(w).v().now, final(w).v().now >= self.when.ns
        { unimplemented!() }
    }
}
#[verifier::external_body]
pub fn select_any() -> (r: usize) { unimplemented!() }

//@item libshpool/src/daemon/ttl_reaper.rs :: struct Reapable
impl Reapable {
    pub open spec fn reg(&self) -> Reg { Reg { id: self.exit_notifier.id(), name: self.session_name@, at: self.reap_at.ns as int } }
}
pub enum Cmp { Less, Equal, Greater }
pub mod cmp { pub use super::Cmp as Ordering; }
pub open spec fn order(a: int, b: int) -> Cmp { if a < b { Cmp::Less } else if a == b { Cmp::Equal } else { Cmp::Greater } }
impl Instant {
    /// Ord for Instant
    pub fn cmp(&self, o: &Instant) -> (r: Cmp) ensures r == order(self.ns as int, o.ns as int)
    { if self.ns < o.ns { Cmp::Less } else if self.ns == o.ns { Cmp::Equal } else { Cmp::Greater } }
}
impl Reapable {
//@fn libshpool/src/daemon/ttl_reaper.rs :: Ord for Reapable :: cmp
//@ret r
//@attr pubfn
//@spec
        // what comes first is the greatest
        ensures r == order(-self.reg().at, -$1.reg().at)
//@endfn
}
/// std's heap: its top is a greatest element by the order above
#[verifier::external_body]
pub struct BinaryHeap { _p: () }
impl BinaryHeap {
    pub uninterp spec fn view(&self) -> vstd::multiset::Multiset<Reg>;
    pub uninterp spec fn top(&self) -> Reg;
    #[verifier::external_body]
    pub fn new() -> (r: BinaryHeap) ensures r@ == vstd::multiset::Multiset::<Reg>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&Reapable>)
        ensures (r is Some) == (self@.len() > 0), r is Some ==> r->0.reg() == self.top() && self@.contains(self.top())
            && forall|x: Reg| self@.contains(x) ==> order(-self.top().at, -x.at) !is Less
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self, w: &mut World) -> (r: Option<Reapable>)
        ensures (r is Some) == (old(self)@.len() > 0), r is Some ==> r->0.reg() == old(self).top() && old(self)@.contains(r->0.reg()) && final(self)@ == old(self)@.remove(r->0.reg())
            && final(w).v() == (Wv { open: old(w).v().open.remove(r->0.reg()), left: old(w).v().left.insert(r->0.reg().name, r->0.reg().id), ..old(w).v() }),
            r is None ==> final(w).v() == old(w).v() && final(self)@ == old(self)@,
            forall|x: Reg| #[trigger] final(w).v().open.contains(x) ==> old(w).v().open.contains(x),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, x: Reapable) ensures final(self)@ == old(self)@.insert(x.reg()) { unimplemented!() }
}
impl Server {
//@fn libshpool/src/daemon/server.rs :: schedule_reaping
//@sub `&self, header` => `&self, w: &mut World, header`
//@sub `register_new_reapable_session.send(` => `register_new_reapable_session.send(w, `
//@spec
        // a session with a time to live is registered under its own name, for that time from now
        ensures P12() && $2.ttl_secs is Some ==> final(w).v() == (Wv { deaf: true, ..old(w).v() }) || exists|now: Instant| #[trigger] clock(now) && ({
                let at = now.ns + $2.ttl_secs->0 * 1_000_000_000;
                ||| final(w).v().open == old(w).v().open.insert(Reg { id: $3.id(), name: $2.name@, at })
                // it would end after the end of time
                ||| final(w).v().open == old(w).v().open && at > 0x7fff_ffff_ffff_ffff * 1_000_000_000
            }),
            P12() && $2.ttl_secs is None ==> final(w).v() == old(w).v()
//@endfn
}
//@fn libshpool/src/daemon/ttl_reaper.rs :: run
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
//@select w
//@scoped `shells.lock(` => `w.unlock(&$g);`
//@sub `fn run(` => `fn run(w: &mut World, `
//@sub `events::EventBus` => `EventBus`
//@sub `shells: Arc<Mutex<HashMap<String, Box<shell::Session>>>>` => `shells: Shells`
//@sub `new_sess.recv()` => `new_sess.recv(w)`
//@sub `heap.pop()` => `heap.pop(w)`
//@sub `Arc::ptr_eq(` => `same_notifier(`
//@sub `shells.lock(` => `shells.lock(w`
//@sub `shells.get(` => `shells.get(w, `
//@sub `shells.remove(` => `shells.remove(w, `
//@sub `.publish(` => `.publish(w, `
//@sub `.kill()` => `.kill(w)`
//@spec
        requires fresh_world(old(w).v()),
        ensures
            // it gives up only when nobody can register any more
            P12() ==> r is Ok && final(w).v().closed,
            P23() ==> final(w).v().owed.len() == 0 && final(w).v().said.len() == 0,
//@loop 0 kind=loop
            invariant
                P12() ==> heap@ == w.v().open && !w.v().closed && forall|x: Reg| #[trigger] w.v().open.contains(x) ==> deadline(x.id) == x.at, w.v().present is None,
                P23() ==> w.v().owed.len() == 0 && w.v().said.len() == 0,
//@loop 1 kind=while
            invariant
                P12() ==> heap@ == w.v().open && !w.v().closed && forall|x: Reg| #[trigger] w.v().open.contains(x) ==> deadline(x.id) == x.at, w.v().present is None,
                P23() ==> w.v().owed.len() == 0 && w.v().said.len() == 0,
//@loop 2 kind=while
            invariant
                P12() ==> heap@ == w.v().open && !w.v().closed && forall|x: Reg| #[trigger] w.v().open.contains(x) ==> deadline(x.id) == x.at, w.v().present is None,
                P23() ==> w.v().owed.len() == 0 && w.v().said.len() == 0,
                // whoever's time was up is not listed any more
                P12() ==> popped is Some ==> at(w.v().left, popped->0.name) != Some(popped->0.id),
//@at loopbefore 2
                let ghost mut popped = None::<Reg>;
//@at after 0 `.expect("there to be an entry in a non-empty heap");`
                    proof { popped = Some(reapable.reg()); }
//@endfn
} // verus!
