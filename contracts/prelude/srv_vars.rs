// The daemon's variables: who may change them, and who hears of a change.
//
// `World` is a ghost token: what this thread has done while it had the lock on
// the variables, and whom it told what.
verus! {
impl PartialEq<String> for String { #[verifier::external_body] fn eq(&self, o: &String) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<String> for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ }
}
}
macro_rules! whole_ms { ($n:expr) => { crate::time::Duration { s: $n as u64 / 1000, n: ($n as u64 % 1000) as u32 * 1_000_000 } } }
verus! {
pub type Text = Seq<char>;
pub type Vars = Map<Text, Text>;
//@item shpool-protocol/src/lib.rs :: struct MaybeSwitch
//@item shpool-protocol/src/lib.rs :: struct ModifyVarRequest
//@item shpool-protocol/src/lib.rs :: struct ModifyVarReply
impl Clone for MaybeSwitch {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures pair_views(r.vars@) == pair_views(self.vars@), (r.switch_to is Some) == (self.switch_to is Some) { unimplemented!() }
}
pub mod shpool_protocol { pub use super::MaybeSwitch; }
pub enum Rep { Vars(Seq<(Text, Text)>), Ack }
pub trait Reply { spec fn rep(&self) -> Rep; }
impl Reply for MaybeSwitch { open spec fn rep(&self) -> Rep { Rep::Vars(pair_views(self.vars@)) } }
impl Reply for ModifyVarReply { open spec fn rep(&self) -> Rep { Rep::Ack } }

pub struct Offer { pub to: int, pub vars: Seq<(Text, Text)> }
pub struct Sv {
    /// this thread has the lock on the variables
    pub held: bool,
    /// the variables when it got it, and when it gave it up
    pub took: Option<Vars>,
    pub left: Option<Vars>,
    /// the sessions that were listed meanwhile
    pub table: Option<Set<int>>,
    /// what was offered to whom, in order
    pub offers: Seq<Offer>,
    pub replies: Seq<Rep>,
}
#[verifier::external_body]
pub struct World { _p: () }
impl World {
    pub uninterp spec fn v(&self) -> Sv;
    #[verifier::external_body]
    pub fn unlock(&mut self, m: &HashMap<String, String>)
        ensures final(self).v() == (if old(self).v().held { Sv { held: false, left: Some(m.texts()), ..old(self).v() } } else { old(self).v() })
    { unimplemented!() }
}
pub open spec fn fresh(v: Sv) -> bool { v == (Sv { held: false, took: None, left: None, table: None, offers: Seq::empty(), replies: Seq::empty() }) }
/// a lock and what it guards
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { _p: std::marker::PhantomData<T> }
impl<T> Mutex<T> {
    pub uninterp spec fn starts(&self) -> T;
    #[verifier::external_body]
    pub fn new(v: T) -> (r: Self) ensures r.starts() == v { unimplemented!() }
}
impl Mutex<HashMap<String, String>> {
    #[verifier::external_body]
    pub fn lock(&self, w: &mut World) -> (r: HashMap<String, String>)
        requires !old(w).v().held
        ensures final(w).v() == (Sv { held: true, took: Some(r.texts()), ..old(w).v() })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct CtlLock { _p: () }
pub struct ShellToClientCtl { pub maybe_switch: Sender }
impl CtlLock {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn lock(&self) -> (r: ShellToClientCtl) ensures r.maybe_switch.id() == self.id() { unimplemented!() }
}
#[verifier::external_body]
pub struct Sender { _p: () }
#[verifier::external_body]
pub struct TimeoutError { _p: () }
impl Sender {
    pub uninterp spec fn id(&self) -> int;
    /// sessions are told in the order in which the changes are made: whoever tells them has the lock
    #[verifier::external_body]
    pub fn send_timeout(&self, m: MaybeSwitch, d: time::Duration, w: &mut World) -> (r: Result<(), TimeoutError>)
        requires old(w).v().held, d.s > 0 || d.n > 0
        ensures final(w).v() == (Sv { offers: old(w).v().offers.push(Offer { to: self.id(), vars: pair_views(m.vars@) }), ..old(w).v() }),
            final(w).v().offers[old(w).v().offers.len() as int].to == self.id(),
    { unimplemented!() }
}
//@item libshpool/src/daemon/server.rs :: const SESSION_MSG_TIMEOUT sub `time::Duration::from_millis(` => `whole_ms!(`
pub struct Session { pub shell_to_client_ctl: std::sync::Arc<CtlLock> }
#[verifier::external_body]
pub struct Table { _p: () }
impl Table {
    pub uninterp spec fn ids(&self) -> Set<int>;
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&Session>)
        ensures forall|id: int| #[trigger] self.ids().contains(id) <==> to_come(r@, 0, id)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Entry { _p: () }
impl Mutex<HashMap<String, Entry>> {
    #[verifier::external_body]
    pub fn lock(&self, w: &mut World) -> (r: Table)
        ensures final(w).v() == (if old(w).v().held { Sv { table: Some(r.ids()), ..old(w).v() } } else { old(w).v() })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct UnixStream { _p: () }
#[verifier::external_body]
pub fn write_reply<R: Reply>(w: &mut World, s: &mut UnixStream, r: R) -> (o: anyhow::Result<()>)
    requires r.rep() is Ack ==> old(w).v().left is Some
    ensures final(w).v() == (Sv { replies: old(w).v().replies.push(r.rep()), ..old(w).v() })
{ unimplemented!() }
/// what it takes to be told the text a template stands for (P07)
pub mod template { use vstd::prelude::*; use super::*;
    pub uninterp spec fn meaning(src: Text, m: Vars) -> Text;
    pub uninterp spec fn wf(src: Text) -> bool;
    #[verifier::external_body]
    pub struct Template { _p: () }
    impl Template {
        pub uninterp spec fn text(&self) -> Text;
        #[verifier::external_body]
        pub fn new(src: &String) -> (r: anyhow::Result<Template>) ensures (r is Ok) == wf(src@), r is Ok ==> r->Ok_0.text() == src@ { unimplemented!() }
        #[verifier::external_body]
        pub fn apply(&self, m: &HashMap<String, String>) -> (r: String) ensures r@ == meaning(self.text(), m.texts()) { unimplemented!() }
    }
}
// ---- the start of the daemon
pub mod crossbeam_channel { use vstd::prelude::*;
    #[verifier::external_body] pub struct Tx { _p: () }
    #[verifier::external_body] pub struct Rx { _p: () }
    #[verifier::external_body] pub fn bounded(n: usize) -> (r: (Tx, Rx)) { unimplemented!() }
}
pub mod show_motd { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub struct DailyMessenger { _p: () }
    impl DailyMessenger { #[verifier::external_body] pub fn new(c: ConfigManager) -> (r: anyhow::Result<DailyMessenger>) { unimplemented!() } }
}
impl Clone for ConfigManager { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for VarSetting { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.var@ == self.var@, r.value@ == self.value@ { unimplemented!() } }
#[verifier::external_body] pub struct HooksBox { _p: () }
#[verifier::external_body] pub struct LogHandle { _p: () }
#[verifier::external_body] pub struct EventBus { _p: () }
pub struct Server {
    pub config: ConfigManager,
    pub shells: Arc<Mutex<HashMap<String, Entry>>>,
    pub runtime_dir: PathBuf,
    pub register_new_reapable_session: crossbeam_channel::Tx,
    pub hooks: HooksBox,
    pub events_bus: Arc<EventBus>,
    pub daily_messenger: Arc<show_motd::DailyMessenger>,
    pub log_level_handle: LogHandle,
    pub vars: Mutex<HashMap<String, String>>,
}
use std::sync::Arc;
impl FromItems<(String, String)> for HashMap<String, String> {
    open spec fn built(s: Seq<(String, String)>, r: Self) -> bool { r.texts() == settled(pair_views(s)) }
}
pub trait CopiedOut: Sized { fn copied_out(&self) -> Self; }
impl CopiedOut for Option<Vec<VarSetting>> {
    #[verifier::external_body]
    fn copied_out(&self) -> (r: Self)
        ensures (r is Some) == (self is Some), r is Some ==> r->0@.len() == self->0@.len() && forall|i: int| 0 <= i < r->0@.len() ==> (#[trigger] r->0@[i]).var@ == self->0@[i].var@ && r->0@[i].value@ == self->0@[i].value@
    { unimplemented!() }
}
pub trait IntoItems<T> { spec fn all(&self) -> Seq<T>; fn into_items(self) -> (r: Items<T>) where Self: Sized ensures r@ == self.all(); }
impl<T> IntoItems<T> for Vec<T> {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_items(self) -> (r: Items<T>) { unimplemented!() }
}
pub fn each_of_none() -> (r: Vec<VarSetting>) ensures r@.len() == 0 { Vec::new() }
pub open spec fn settings(c: Config) -> Seq<(Text, Text)> {
    match c.var_default { Some(v) => v@.map_values(|s: VarSetting| (s.var@, s.value@)), None => Seq::empty() }
}
pub open spec fn changed(m: Vars, k: Text, v: Option<String>) -> Vars { match v { Some(v) => m.insert(k, v@), None => m.remove(k) } }
/// the session was told of the variables as they are
pub open spec fn knows(offers: Seq<Offer>, id: int, m: Vars) -> bool { exists|i: int| 0 <= i < offers.len() && (#[trigger] offers[i]).to == id && lists(offers[i].vars, m) }
pub open spec fn current(offers: Seq<Offer>, m: Vars) -> bool { forall|i: int| 0 <= i < offers.len() ==> lists((#[trigger] offers[i]).vars, m) }

pub mod var_facts { use super::*;
/// copying the entries of a table one by one
pub broadcast proof fn lemma_copied(s: Seq<(String, String)>, e: Seq<(&String, &String)>, m: Vars)
    requires #[trigger] lists(entries(e), m), s.len() == e.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == e[i].0@ && s[i].1@ == e[i].1@
    ensures lists(#[trigger] pair_views(s), m)
{ assert(pair_views(s) =~= entries(e)); }
pub broadcast proof fn lemma_settings(s: Seq<(String, String)>, r: HashMap<String, String>, c: Config)
    requires #[trigger] <HashMap<String, String> as FromItems<(String, String)>>::built(s, r), s.len() == settings(c).len(),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == settings(c)[i].0 && s[i].1@ == settings(c)[i].1
    ensures r.texts() == settled(#[trigger] settings(c))
{ assert(pair_views(s) =~= settings(c)); }
}
/// each of these sessions is among v or still to come
pub open spec fn among(v: Vec<Arc<CtlLock>>, id: int) -> bool { exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).id() == id }
pub open spec fn to_come(s: Seq<&Session>, n: int, id: int) -> bool { exists|i: int| n <= i < s.len() && (#[trigger] s[i]).shell_to_client_ctl.id() == id }
pub proof fn lemma_gather(v0: Vec<Arc<CtlLock>>, v: Vec<Arc<CtlLock>>, s: Seq<&Session>, n: int, ids: Set<int>)
    requires forall|id: int| #[trigger] ids.contains(id) ==> among(v0, id) || to_come(s, n, id),
        0 <= n < s.len(), v@.len() == v0@.len() + 1, v@.last().id() == s[n].shell_to_client_ctl.id(), forall|i: int| 0 <= i < v0@.len() ==> v@[i] == #[trigger] v0@[i]
    ensures forall|id: int| #[trigger] ids.contains(id) ==> among(v, id) || to_come(s, n + 1, id)
{
    assert forall|id: int| #[trigger] ids.contains(id) implies among(v, id) || to_come(s, n + 1, id) by {
        if among(v0, id) {
            let i = choose|i: int| 0 <= i < v0@.len() && (#[trigger] v0@[i]).id() == id;
            assert(v@[i].id() == id);
        } else {
            let i = choose|i: int| n <= i < s.len() && (#[trigger] s[i]).shell_to_client_ctl.id() == id;
            if i == n { assert(v@[v@.len() - 1].id() == id); } else { assert(s[i].shell_to_client_ctl.id() == id); }
        }
    }
}
impl Server {
//@fn libshpool/src/daemon/server.rs :: handle_get_vars
//@ret r
//@scoped `self.vars.lock(` => `@fn w.unlock(&$g);`
//@sub `&self, mut stream` => `&self, w: &mut World, mut stream`
//@sub `self.vars.lock(` => `self.vars.lock(w`
//@sub `write_reply(` => `write_reply(w, `
//@cl 0 (r: (String, String)) ensures r.0@ == $c1.0@ && r.1@ == $c1.1@
//@at start
        broadcast use var_facts::lemma_copied;
//@spec
        requires fresh(old(w).v())
        ensures
            r is Ok ==> final(w).v().replies.len() == 1 && final(w).v().replies[0] is Vars && final(w).v().took is Some
                && lists(final(w).v().replies[0]->Vars_0, final(w).v().took->0),
            // nobody changes them here
            final(w).v().left == final(w).v().took, final(w).v().offers.len() == 0,
//@endfn

//@fn libshpool/src/daemon/server.rs :: handle_modify_var
//@ret r
//@scoped `self.vars.lock(` => `@fn w.unlock(&$g);`
//@sub `&self, mut stream` => `&self, w: &mut World, mut stream`
//@sub `self.vars.lock(` => `self.vars.lock(w`
//@sub `self.shells.lock(` => `self.shells.lock(w`
//@sub `write_reply(` => `write_reply(w, `
//@append `.send_timeout(` => `w`
//@cl 0 (r: (String, String)) ensures r.0@ == $c1.0@ && r.1@ == $c1.1@
//@at start
        broadcast use var_facts::lemma_copied;
//@bind ctls `let mut ? = Vec::new();`
//@bind ms `let ? = MaybeSwitch {`
//@spec
        requires fresh(old(w).v())
        ensures
            final(w).v().took is Some && final(w).v().left == Some(changed(final(w).v().took->0, $3.var@, $3.val)),
            // all sessions hear of it, and of it only
            final(w).v().table is Some && forall|id: int| final(w).v().table->0.contains(id) ==> #[trigger] knows(final(w).v().offers, id, final(w).v().left->0),
            current(final(w).v().offers, final(w).v().left->0),
            r is Ok ==> final(w).v().replies == seq![Rep::Ack],
//@bind vs `let mut ? = self.vars.lock(w`
//@at loopbefore 0
                proof { assert($vs.texts() =~= changed(w.v().took->0, $3.var@, $3.val)); }
//@loop 0 iter=it kind=for
            invariant
                forall|id: int| #[trigger] w.v().table->0.contains(id) ==> among($ctls, id) || to_come(it.seq(), it.index() as int, id),
//@at loopstart 0
                    let ghost before = $ctls;
//@at loopend 0
                    proof { lemma_gather(before, $ctls, it.seq(), it.index() as int, w.v().table->0); }
//@at loopbefore 1
            let ghost v1 = w.v();
            let ghost cs = $ctls@;
            assert(forall|id: int| #[trigger] w.v().table->0.contains(id) ==> among($ctls, id));
            assert forall|id: int| #[trigger] w.v().table->0.contains(id) implies exists|i: int| 0 <= i < cs.len() && (#[trigger] cs[i]).id() == id by { assert(among($ctls, id)); }
//@at loopend 1
                proof {
                    let (o, x) = (offs, w.v().offers.last());
                    assert(w.v().offers == o.push(x));
                    assert(w.v().offers[o.len() as int] == x);
                    assert forall|i: int| 0 <= i < it.index() implies knows(w.v().offers, (#[trigger] it.seq()[i]).id(), $vs.texts()) by {
                        let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).to == it.seq()[i].id() && lists(o[j].vars, $vs.texts());
                        assert(w.v().offers[j] == o[j]);
                    }
                }
//@at loopstart 1
                let ghost offs = w.v().offers;
//@loop 1 iter=it kind=for
            invariant
                it.seq() == cs, w.v() == (Sv { offers: w.v().offers, ..v1 }),
                lists(pair_views($ms.vars@), $vs.texts()), w.v().held, current(w.v().offers, $vs.texts()),
                forall|i: int| 0 <= i < it.index() ==> knows(w.v().offers, (#[trigger] it.seq()[i]).id(), $vs.texts()),
//@endfn

//@fn libshpool/src/daemon/server.rs :: send_missed_vars
//@scoped `self.vars.lock(` => `@fn w.unlock(&$g);`
//@sub `&self,` => `&self, w: &mut World,`
//@sub `&Mutex<shell::ShellToClientCtl>` => `&CtlLock`
//@sub `self.vars.lock(` => `self.vars.lock(w`
//@append `.send_timeout(` => `w`
//@cl 0 (r: (String, String)) ensures r.0@ == $c1.0@ && r.1@ == $c1.1@
//@at start
        broadcast use var_facts::lemma_copied;
//@spec
        requires fresh(old(w).v())
        ensures
            template::wf($2.name_template@) && $2.name_template@.len() > 0 ==> final(w).v().took is Some && final(w).v().left == final(w).v().took
                && (template::meaning($2.name_template@, final(w).v().took->0) == $2.name@ || knows(final(w).v().offers, $3.id(), final(w).v().took->0)),
            final(w).v().took is Some ==> current(final(w).v().offers, final(w).v().took->0) && final(w).v().left == final(w).v().took,
            final(w).v().took is None ==> final(w).v().offers.len() == 0,
//@endfn

//@fn libshpool/src/daemon/server.rs :: Server :: new
//@ret r
//@sub `config::Manager` => `ConfigManager`
//@sub `Box<dyn hooks::Hooks + Send + Sync>` => `HooksBox`
//@sub `tracing_subscriber::reload::Handle<tracing_subscriber::filter::LevelFilter, tracing_subscriber::registry::Registry,>` => `LogHandle`
//@sub `Arc<events::EventBus>` => `Arc<EventBus>`
//@elide `thread::spawn(` => ``
//@sub `thread::spawn();` => ``
//@sub `.var_default.clone()` => `.var_default.copied_out()`
//@at start
        broadcast use var_facts::lemma_settings;
//@sub `.unwrap_or(vec![]).into_iter()` => `.unwrap_or(each_of_none()).into_items()`
//@cl 0 (r: (String, String)) ensures r.0@ == $c1.var@ && r.1@ == $c1.value@
//@spec
        // the daemon starts with what the configuration says
        ensures r is Ok ==> r->Ok_0.vars.starts().texts() == settled(settings($1.now))
//@endfn
}
} // verus!
