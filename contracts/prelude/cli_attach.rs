// The attach command: whom it asks for what, and what it makes of the answers.
macro_rules! eprintln { ($($t:tt)*) => { () } }
verus! {
impl PartialEq<String> for String { #[verifier::external_body] fn eq(&self, o: &String) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<String> for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ }
}
pub type Text = Seq<char>;
pub type Vars = Map<Text, Text>;
pub open spec fn opt(o: Option<String>) -> Option<Text> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn texts(v: Seq<String>) -> Seq<Text> { v.map_values(|s: String| s@) }

// ---- what goes over the connections
pub struct Asked { pub name: Text, pub size: TtySize, pub env: Seq<(Text, Text)>, pub ttl: Option<u64>, pub cmd: Option<Text>, pub dir: Option<Text>, pub start_cmd: Option<Text>, pub tmpl: Text }
pub enum Req { Vars, Attach(Asked), Detach(Seq<Text>), Resize(Text, TtySize) }
pub enum St { Busy, Attached, Created, Forbidden, Error }
pub enum Ans { Vars(Vars), Attach(St), Detach, Message }
pub enum Got { Exit(i32), Switch(Vars), Error }
/// Ask: what is asked, and the variables as this process was last told
pub enum Ev { Ask(Req, Option<Vars>), Ans(Ans), Hup, Serve(Got) }
pub struct Nv {
    pub log: Seq<Ev>,
    /// what the user typed that was taken to answer a question
    pub eaten: Seq<u8>,
    /// the session resizes are meant for
    pub slot: Option<Text>,
    /// the variables as this process was last told
    pub told: Option<Vars>,
}
#[verifier::external_body]
pub struct Net { _p: () }
impl Net { pub uninterp spec fn v(&self) -> Nv; }
pub struct Cs { pub asked: Option<Req>, pub ans: Option<Ans> }

//@item shpool-protocol/src/lib.rs :: struct MaybeSwitch sub `Vec<(String, String)>` => `Pairs`
//@item shpool-protocol/src/lib.rs :: struct AttachReplyHeader
//@item shpool-protocol/src/lib.rs :: enum AttachStatus
//@item shpool-protocol/src/lib.rs :: struct DetachRequest
//@item shpool-protocol/src/lib.rs :: struct DetachReply
//@item shpool-protocol/src/lib.rs :: struct ResizeRequest
//@item shpool-protocol/src/lib.rs :: enum ResizeReply
//@item shpool-protocol/src/lib.rs :: struct SessionMessageRequest
//@item shpool-protocol/src/lib.rs :: enum SessionMessageRequestPayload
//@item shpool-protocol/src/lib.rs :: enum SessionMessageReply
//@item shpool-protocol/src/lib.rs :: enum SessionMessageDetachReply
use AttachStatus::*;
pub struct Pairs { pub v: Vec<(String, String)> }
impl Pairs {
    pub open spec fn vars(&self) -> Vars { settled(pair_views(self.v@)) }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<&(String, String)>) ensures ref_views(r@) == pair_views(self.v@) { unimplemented!() }
}
pub open spec fn ref_views(s: Seq<&(String, String)>) -> Seq<(Text, Text)> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@)) }
impl<'a> Items<&'a (String, String)> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: Items<(String, String)>) ensures pair_views(r@) == ref_views(self@) { unimplemented!() }
}
impl FromItems<(String, String)> for HashMap<String, String> {
    open spec fn built(s: Seq<(String, String)>, r: Self) -> bool { r.texts() == settled(pair_views(s)) }
}
pub open spec fn asked(h: AttachHeader) -> Asked {
    Asked { name: h.name@, size: h.local_tty_size, env: pair_views(h.local_env@), ttl: h.ttl_secs, cmd: opt(h.cmd), dir: opt(h.dir), start_cmd: opt(h.start_cmd), tmpl: h.name_template@ }
}
pub enum ConnectHeader { GetVars, Attach(AttachHeader), Detach(DetachRequest), SessionMessage(SessionMessageRequest) }
pub open spec fn req(h: ConnectHeader) -> Req {
    match h {
        ConnectHeader::GetVars => Req::Vars,
        ConnectHeader::Attach(a) => Req::Attach(asked(a)),
        ConnectHeader::Detach(d) => Req::Detach(texts(d.sessions@)),
        ConnectHeader::SessionMessage(m) => match m.payload { SessionMessageRequestPayload::Resize(r) => Req::Resize(m.session_name@, r.tty_size), SessionMessageRequestPayload::Detach => Req::Detach(seq![m.session_name@]) },
    }
}
pub open spec fn st(s: AttachStatus) -> St {
    match s { AttachStatus::Busy => St::Busy, AttachStatus::Attached { warnings } => St::Attached, AttachStatus::Created { warnings } => St::Created, AttachStatus::Forbidden(m) => St::Forbidden, AttachStatus::UnexpectedError(m) => St::Error }
}
pub trait Answer: Sized { spec fn ans(&self) -> Ans; spec fn to(q: Req) -> bool; }
impl Answer for MaybeSwitch { open spec fn ans(&self) -> Ans { Ans::Vars(self.vars.vars()) } open spec fn to(q: Req) -> bool { q is Vars } }
impl Answer for AttachReplyHeader { open spec fn ans(&self) -> Ans { Ans::Attach(st(self.status)) } open spec fn to(q: Req) -> bool { q is Attach } }
impl Answer for DetachReply { open spec fn ans(&self) -> Ans { Ans::Detach } open spec fn to(q: Req) -> bool { q is Detach } }
impl Answer for SessionMessageReply { open spec fn ans(&self) -> Ans { Ans::Message } open spec fn to(q: Req) -> bool { q is Resize } }

pub open spec fn plus(v: Nv, e: Ev) -> Nv { Nv { log: v.log.push(e), told: match e { Ev::Ans(Ans::Vars(m)) => Some(m), Ev::Serve(Got::Switch(m)) => Some(m), _ => v.told }, ..v } }
pub open spec fn ask(v: Nv, q: Req) -> Nv { plus(v, Ev::Ask(q, v.told)) }
pub open spec fn meaning_of(tmpl: Text, m: Vars) -> Text { template::meaning(tmpl, m) }
/// what it takes to be told the text a template stands for (P07)
pub mod template { use vstd::prelude::*; use super::*;
    pub uninterp spec fn meaning(src: Text, m: Vars) -> Text;
    pub uninterp spec fn wf(src: Text) -> bool;
    #[verifier::external_body]
    pub struct Template { _p: () }
    impl Template {
        pub uninterp spec fn text(&self) -> Text;
        #[verifier::external_body]
        pub fn new(src: &String) -> (r: anyhow::Result<Template>) ensures (r is Ok) == wf(src@), r is Ok ==> r->Ok_0.text() == src@ { unimplemented!() }
        #[verifier::external_body]
        pub fn apply(&self, m: &HashMap<String, String>) -> (r: String) ensures r@ == meaning(self.text(), m.texts()) { unimplemented!() }
        #[verifier::external_body]
        pub fn source(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
    }
    impl Clone for Template { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.text() == self.text() { unimplemented!() } }
}

// ---- the system
/// the size of the user's terminal
pub uninterp spec fn tty() -> Option<TtySize>;
impl TtySize { #[verifier::external_body] pub fn from_fd(fd: i32) -> (r: anyhow::Result<TtySize>) requires P19() ==> fd == 0 ensures r is Ok ==> tty() == Some(r->Ok_0), r is Err ==> tty() is None && !anyhow::marked(r->Err_0) { unimplemented!() } }
impl Clone for TtySize { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// a variable of this process, if it is set to text
pub uninterp spec fn own_env(k: Text) -> Option<Text>;
/// the directory this process is in
pub uninterp spec fn here() -> Text;
pub mod env { use vstd::prelude::*; use super::*;
    pub struct VarError { pub _p: () }
    #[verifier::external_body]
    pub fn var(n: &str) -> (r: Result<String, VarError>) ensures (r is Ok) == (own_env(n@) is Some), r is Ok ==> r->Ok_0@ == own_env(n@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn current_dir() -> (r: Result<PathBuf, io::Error>) ensures r is Ok ==> r->Ok_0@ == here(), r is Err ==> !anyhow::marked(r->Err_0) { unimplemented!() }
}
impl PathBuf { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: &str) ensures utf8(self@) ==> r@ == self@ { unimplemented!() } }
pub mod io { use vstd::prelude::*; use super::*;
    #[verifier::external_body] pub struct Error { _p: () }
    #[verifier::external_body] pub struct Stdin { _p: () }
    pub fn stdin() -> (r: Stdin) { stdin0() }
    #[verifier::external_body] fn stdin0() -> (r: Stdin) { unimplemented!() }
    impl Stdin { pub fn as_fd(&self) -> (r: &Stdin) { self } }
}
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) ensures anyhow::marked(r) == anyhow::marked(e) { unimplemented!() } }
pub mod nix { pub mod errno { pub enum Errno { EINTR, Other } } }
impl From<nix::errno::Errno> for anyhow::Error { #[verifier::external_body] fn from(e: nix::errno::Errno) -> (r: Self) ensures !anyhow::marked(r) { unimplemented!() } }
pub mod unistd { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub fn read(w: &mut Net, f: &io::Stdin, buf: &mut [u8; 1]) -> (r: Result<usize, nix::errno::Errno>)
        // no more than the one line that answers the question
        requires P04() ==> (old(w).v().eaten.len() == 0 || old(w).v().eaten.last() != 10)
        ensures
            final(w).v() == (Nv { eaten: if r == Ok::<usize, nix::errno::Errno>(1) { old(w).v().eaten.push(final(buf)@[0]) } else { old(w).v().eaten }, ..old(w).v() }),
            r is Ok ==> r->Ok_0 <= 1,
    { unimplemented!() }
}
pub mod config { use super::*; pub type Manager = super::ConfigManager; }
#[verifier::external_body]
pub fn is_not_found(e: &io::Error) -> (r: bool) { unimplemented!() }
impl anyhow::Error {
    #[verifier::external_body]
    pub fn as_io(self) -> (r: Result<io::Error, anyhow::Error>)
        ensures r is Ok ==> !anyhow::marked(r->Ok_0), r is Err ==> r->Err_0 == self
    { unimplemented!() }
    /// the mark on an error is that it is a BusyError
    #[verifier::external_body]
    pub fn as_busy(self) -> (r: Result<BusyError, anyhow::Error>)
        ensures (r is Ok) == anyhow::marked(self), r is Err ==> r->Err_0 == self
    { unimplemented!() }
}
//@item libshpool/src/attach.rs :: struct BusyError
impl From<BusyError> for anyhow::Error { #[verifier::external_body] fn from(e: BusyError) -> (r: Self) ensures anyhow::marked(r) { unimplemented!() } }
impl BusyError { #[verifier::external_body] pub fn into(self) -> (r: anyhow::Error) ensures anyhow::marked(r) { unimplemented!() } }
/// the text a duration stands for (P06)
pub mod duration { use vstd::prelude::*; use super::*;
    pub uninterp spec fn secs(t: Text) -> Option<u64>;
    #[verifier::external_body]
    pub fn parse(src: &str) -> (r: anyhow::Result<time::Duration>) ensures (r is Ok) == (secs(src@) is Some), r is Ok ==> secs(src@) == Some((r->Ok_0).s) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Mutex<T> { _p: std::marker::PhantomData<T> }
pub struct Held<T> { pub v: T }
impl Mutex<String> {
    pub uninterp spec fn starts(&self) -> Text;
    /// what a look at it shows
    pub uninterp spec fn holds(&self) -> Text;
    #[verifier::external_body]
    pub fn new(s: String) -> (r: Self) ensures r.starts() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Result<Held<String>, ()>) ensures r is Ok && (r->Ok_0).v@ == self.holds() { unimplemented!() }
    #[verifier::external_body]
    pub fn put(&self, w: &mut Net, s: String) ensures final(w).v() == (Nv { slot: Some(s@), ..old(w).v() }) { unimplemented!() }
}
impl Held<String> { pub fn clone(&self) -> (r: String) ensures r@ == self.v@ { self.v.clone() } }
pub struct Arc<T> { pub v: T }
impl<T> Arc<T> { pub fn new(v: T) -> (r: Self) ensures r.v == v { Arc { v } } }
impl Arc<Mutex<String>> {
    pub open spec fn starts(&self) -> Text { self.v.starts() }
    pub open spec fn holds(&self) -> Text { self.v.holds() }
    pub fn lock(&self) -> (r: Result<Held<String>, ()>) ensures r is Ok && (r->Ok_0).v@ == self.holds() { self.v.lock() }
    pub fn put(&self, w: &mut Net, s: String) ensures final(w).v() == (Nv { slot: Some(s@), ..old(w).v() }) { self.v.put(w, s) }
}
pub mod thread { use super::*; #[verifier::external_body] pub fn sleep(d: super::time::Duration) { unimplemented!() } }
impl time::Duration { pub fn as_secs(&self) -> (r: u64) ensures r == self.s { self.s }
    pub fn as_millis(&self) -> (r: u128) requires self.n < 1_000_000_000 ensures r == self.s * 1000 + self.n / 1_000_000 { self.s as u128 * 1000 + (self.n / 1_000_000) as u128 } }

pub mod protocol { use vstd::prelude::*; use super::*;
    #[verifier::external_body]
    pub struct Client { _p: () }
    pub enum ClientResult { JustClient(Client), VersionMismatch { warning: String, client: Client } }
    /// how the life of an attached client ends (protocol.rs)
    pub enum PipeBytesResult { Exit(i32), MaybeSwitch(MaybeSwitch) }
    pub open spec fn got(r: anyhow::Result<PipeBytesResult>) -> Got { match r { Ok(PipeBytesResult::Exit(s)) => Got::Exit(s), Ok(PipeBytesResult::MaybeSwitch(m)) => Got::Switch(m.vars.vars()), Err(_) => Got::Error } }
    impl View for Client { type V = Cs; uninterp spec fn view(&self) -> Cs; }
    pub open spec fn attached(c: Cs) -> bool { c.asked is Some && c.asked->0 is Attach && (c.ans == Some(Ans::Attach(St::Attached)) || c.ans == Some(Ans::Attach(St::Created))) }
    impl Client {
        #[verifier::external_body]
        pub fn new(p: &PathBuf) -> (r: anyhow::Result<ClientResult>)
            ensures r is Ok ==> (match r->Ok_0 { ClientResult::JustClient(c) => c@ == (Cs { asked: None, ans: None }), ClientResult::VersionMismatch { warning, client } => client@ == (Cs { asked: None, ans: None }) }),
                r is Err ==> !anyhow::marked(r->Err_0)
        { unimplemented!() }
        /// one request per connection
        #[verifier::external_body]
        pub fn write_connect_header(&mut self, w: &mut Net, h: ConnectHeader) -> (r: anyhow::Result<()>)
            requires old(self)@.asked is None
            ensures
                // a request that was not written whole is none
                r is Ok ==> final(self)@ == (Cs { asked: Some(req(h)), ans: None }) && final(w).v() == ask(old(w).v(), req(h)),
                r is Err ==> final(w).v() == old(w).v() && !anyhow::marked(r->Err_0)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_reply<A: Answer>(&mut self, w: &mut Net) -> (r: anyhow::Result<A>)
            requires old(self)@.asked is Some && A::to(old(self)@.asked->0) && old(self)@.ans is None
            ensures
                r is Ok ==> final(self)@ == (Cs { ans: Some(r->Ok_0.ans()), ..old(self)@ }) && final(w).v() == plus(old(w).v(), Ev::Ans(r->Ok_0.ans())),
                r is Err ==> final(self)@ == old(self)@ && final(w).v() == old(w).v() && !anyhow::marked(r->Err_0),
        { unimplemented!() }
        /// serves the user until the daemon says it is over (protocol.rs; P04, P05, P13)
        #[verifier::external_body]
        pub fn pipe_bytes<F: Fn(&MaybeSwitch) -> bool>(self, w: &mut Net, f: F) -> (r: anyhow::Result<PipeBytesResult>)
            requires
                P10() || P20() ==> attached(self@),
                forall|m: MaybeSwitch| call_requires(f, (&m,)),
                // a client moves on exactly when its template stands for another name now
                P20() ==> forall|m: MaybeSwitch, b: bool| #[trigger] call_ensures(f, (&m,), b) ==> b == (meaning_of(self@.asked->0->Attach_0.tmpl, m.vars.vars()) != self@.asked->0->Attach_0.name),
            ensures final(w).v() == plus(old(w).v(), Ev::Serve(got(r)))
        { unimplemented!() }
        #[verifier::external_body]
        pub fn hang_up(self, w: &mut Net)
            ensures final(w).v() == plus(old(w).v(), Ev::Hup)
        { unimplemented!() }
    }
}
pub use protocol::{Client, ClientResult, PipeBytesResult};
/// the process is over, with the status of the shell
#[verifier::external_body]
pub fn exit_now(w: &mut Net, s: i32) -> !
    requires P13() ==> old(w).v().log.len() > 0 && old(w).v().log.last() == Ev::Serve(Got::Exit(s))
{ unimplemented!() }

pub trait IntoItems<T> { spec fn all(&self) -> Seq<T>; fn into_items(self) -> (r: Items<T>) where Self: Sized ensures r@ == self.all(); }
impl<T> IntoItems<T> for Vec<T> {
    open spec fn all(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_items(self) -> (r: Items<T>) { unimplemented!() }
}
pub open spec fn somes<T>(s: Seq<Option<T>>) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if s.last() is Some { somes(s.drop_last()).push(s.last()->0) } else { somes(s.drop_last()) }
}
pub open spec fn answers<T, U, F: Fn(T) -> Option<U>>(f: F, s: Seq<T>, o: Seq<Option<U>>) -> bool {
    o.len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger o[i]] 0 <= i < s.len() ==> call_ensures(f, (s[i],), o[i])
}
impl<T> Items<T> {
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Items<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures exists|o: Seq<Option<U>>| #[trigger] answers(f, self@, o) && r@ == somes(o)
    { unimplemented!() }
}
pub open spec fn looked_up(k: Seq<Text>, o: Seq<Option<(String, String)>>) -> bool {
    o.len() == k.len() && forall|i: int| #![trigger k[i]] #![trigger o[i]] 0 <= i < k.len() ==> (o[i] is Some) == (own_env(k[i]) is Some) && (o[i] is Some ==> (o[i]->0).0@ == k[i] && (o[i]->0).1@ == own_env(k[i])->0)
}
pub proof fn lemma_forwarded(k: Seq<Text>, o: Seq<Option<(String, String)>>)
    requires looked_up(k, o)
    ensures settled(pair_views(somes(o))) =~= forwarded(k.to_set())
    decreases k.len()
{
    if k.len() == 0 {
        assert(pair_views(somes(o)) =~= Seq::empty());
        assert(forwarded(k.to_set()) =~= Map::empty());
    } else {
        let (k1, o1) = (k.drop_last(), o.drop_last());
        assert forall|i: int| #![trigger k1[i]] #![trigger o1[i]] 0 <= i < k1.len() implies (o1[i] is Some) == (own_env(k1[i]) is Some) && (o1[i] is Some ==> (o1[i]->0).0@ == k1[i] && (o1[i]->0).1@ == own_env(k1[i])->0) by { assert(k1[i] == k[i] && o1[i] == o[i]); }
        lemma_forwarded(k1, o1);
        let (x, y) = (k.last(), o.last());
        assert(x == k[k.len() - 1] && y == o[o.len() - 1]);
        assert(k =~= k1.push(x));
        assert forall|t: Text| k.to_set().contains(t) <==> #[trigger] k1.to_set().contains(t) || t == x by {
            if k.contains(t) { let i = choose|i: int| 0 <= i < k.len() && k[i] == t; if i < k1.len() { assert(k1[i] == t); } }
            if k1.contains(t) { let i = choose|i: int| 0 <= i < k1.len() && k1[i] == t; assert(k[i] == t); }
            if t == x { assert(k[k.len() - 1] == t); }
        }
        if y is Some {
            assert(pair_views(somes(o)) =~= pair_views(somes(o1)).push((x, own_env(x)->0)));
            assert(pair_views(somes(o)).drop_last() =~= pair_views(somes(o1)));
        } else { assert(somes(o) == somes(o1)); }
    }
}
pub proof fn lemma_keys(keys: Seq<Text>, c: Config)
    requires keys == seq!["TERM"@, "DISPLAY"@, "LANG"@, "SSH_AUTH_SOCK"@] + (match c.forward_env { Some(f) => texts(f@), None => Seq::empty() })
    ensures keys.to_set() =~= forwarded_keys(c)
{
    let a = seq!["TERM"@, "DISPLAY"@, "LANG"@, "SSH_AUTH_SOCK"@];
    let b = match c.forward_env { Some(f) => texts(f@), None => Seq::empty() };
    assert forall|t: Text| keys.to_set().contains(t) <==> #[trigger] forwarded_keys(c).contains(t) by {
        if keys.contains(t) { let i = choose|i: int| 0 <= i < keys.len() && keys[i] == t; if i >= 4 { assert(b[i - 4] == t); assert(b.contains(t)); } }
        assert(keys[0] == a[0] && keys[1] == a[1] && keys[2] == a[2] && keys[3] == a[3]);
        if b.contains(t) { let i = choose|i: int| 0 <= i < b.len() && b[i] == t; assert(keys[i + 4] == t); }
    }
}

// ---- the rules
pub open spec fn forwarded_keys(c: Config) -> Set<Text> {
    Set::<Text>::empty().insert("TERM"@).insert("DISPLAY"@).insert("LANG"@).insert("SSH_AUTH_SOCK"@).union(match c.forward_env { Some(f) => texts(f@).to_set(), None => Set::empty() })
}
/// the variables an attach passes on
pub open spec fn forwarded(keys: Set<Text>) -> Vars { Map::new(keys.filter(|k: Text| own_env(k) is Some), |k: Text| own_env(k)->0) }
/// the directory an attach asks for; None leaves it to the daemon, which takes the home directory
pub open spec fn asked_dir(c: Config, dir: Option<Text>) -> Option<Text> {
    match dir {
        Some(d) => if d == "."@ { Some(here()) } else { Some(d) },
        None => match c.default_dir { None => None, Some(d) => if d@ == "$HOME"@ { None } else if d@ == "."@ { Some(here()) } else { Some(d@) } },
    }
}
pub proof fn lemma_words() ensures "$HOME"@ != "."@ { reveal_strlit("$HOME"); reveal_strlit("."); assert("$HOME"@.len() == 5 && "."@.len() == 1); }
/// what the user said: the templates, how long the session may live
pub struct Given { pub name: Text, pub cmd: Option<Text>, pub dir: Option<Text>, pub start_cmd: Option<Text>, pub ttl: Option<u64>, pub force: bool, pub background: bool }
pub open spec fn stands_for(t: Option<Text>, m: Vars) -> Option<Text> { match t { Some(t) => Some(meaning_of(t, m)), None => None } }
pub struct Want { pub name: Text, pub cmd: Option<Text>, pub dir: Option<Text>, pub start_cmd: Option<Text>, pub tmpl: Text, pub ttl: Option<u64> }
/// what that means while the variables have these values
pub open spec fn want(g: Given, m: Vars) -> Want {
    Want { name: meaning_of(g.name, m), cmd: stands_for(g.cmd, m), dir: stands_for(g.dir, m), start_cmd: stands_for(g.start_cmd, m), tmpl: g.name, ttl: g.ttl }
}
/// the attach request for what the user wants
pub open spec fn as_wanted(c: Config, a: Asked, q: Want) -> bool {
    &&& P10() || P20() ==> a.name == q.name && a.tmpl == q.tmpl
    &&& P12() ==> a.ttl == q.ttl
    &&& P17() ==> a.cmd == q.cmd && a.start_cmd == q.start_cmd && (utf8(here()) ==> a.dir == asked_dir(c, q.dir)) && settled(a.env) == forwarded(forwarded_keys(c))
    &&& P19() ==> (tty() is Some ==> a.size == tty()->0)
}
/// the same for every name the user may mean: one request, one answer
pub open spec fn attach_tried(c: Config, a: Nv, b: Nv, q: Want) -> bool {
    let e = b.log[a.log.len() as int];
    ||| b == (Nv { eaten: b.eaten, ..a }) && (P04() ==> b.eaten == a.eaten)
    ||| {
        &&& e is Ask && e->Ask_0 is Attach && as_wanted(c, e->Ask_0->Attach_0, q)
        &&& b.log == a.log.push(e) || b.log == a.log.push(e).push(b.log.last()) && b.log.last() is Ans && b.log.last()->Ans_0 is Attach
        &&& e->Ask_1 == a.told && b.told == a.told && (P04() ==> b.eaten == a.eaten) && b.slot == a.slot
    }
}
pub open spec fn good_name(n: Text) -> bool {
    n.len() > 0 && n != "."@ && n != ".."@ && forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] != '/' && !is_whitespace(n[i])
}
pub open spec fn detaches(l: Seq<Ev>) -> nat
    decreases l.len()
{
    if l.len() == 0 { 0 } else { detaches(l.drop_last()) + if l.last() is Ask && l.last()->Ask_0 is Detach { 1nat } else { 0 } }
}
pub proof fn lemma_detaches(a: Seq<Ev>, e: Ev)
    ensures detaches(a.push(e)) == detaches(a) + if e is Ask && e->Ask_0 is Detach { 1nat } else { 0 }
{ assert(a.push(e).drop_last() =~= a); }
} // verus!
verus! {
//@item libshpool/src/attach.rs :: const MAX_FORCE_RETRIES
//@item libshpool/src/attach.rs :: const MAX_SWITCH_RETRIES
//@item libshpool/src/attach.rs :: struct Attach
//@item libshpool/src/attach.rs :: struct Templates
//@item libshpool/src/attach.rs :: struct ResolvedTemplates
//@item libshpool/src/attach.rs :: enum AttachResult
pub open spec fn text_of(t: Option<template::Template>) -> Option<Text> { match t { Some(t) => Some(t.text()), None => None } }
pub open spec fn given(a: Attach) -> Given {
    Given { name: a.tmpls.session_name.text(), cmd: text_of(a.tmpls.cmd), dir: text_of(a.tmpls.dir), start_cmd: text_of(a.tmpls.start_cmd), ttl: match a.ttl { Some(d) => Some(d.s), None => None }, force: a.force, background: a.background }
}
/// every template replaced by the text it stands for
pub open spec fn resolves(t: Templates, m: Vars, r: ResolvedTemplates) -> bool {
    &&& P10() || P20() ==> r.session_name@ == meaning_of(t.session_name.text(), m)
    &&& P17() ==> opt(r.cmd) == stands_for(text_of(t.cmd), m) && opt(r.dir) == stands_for(text_of(t.dir), m) && opt(r.start_cmd) == stands_for(text_of(t.start_cmd), m)
}
/// from position n on, the daemon is only asked to attach to, or to free, the session that is wanted now, and first of all to attach
pub open spec fn only_asks(l: Seq<Ev>, n: int, c: Config, g: Given) -> bool {
    forall|i: int| n <= i < l.len() && (#[trigger] l[i]) is Ask ==> l[i]->Ask_1 is Some && match l[i]->Ask_0 { Req::Attach(a) => as_wanted(c, a, want(g, l[i]->Ask_1->0)), Req::Detach(s) => P10() ==> s == seq![meaning_of(g.name, l[i]->Ask_1->0)] && (g.force || g.background), _ => !P10() && !P19() }
}
pub open spec fn starts_with_attach(l: Seq<Ev>, n: int) -> bool { P10() && n < l.len() ==> l[n] is Ask && l[n]->Ask_0 is Attach }
pub open spec fn got_in(o: Option<Client>, q: Want) -> bool { o is Some && (P10() || P20() ==> protocol::attached((o->0)@)) && (P10() || P20() ==> (o->0)@.asked->0->Attach_0.tmpl == q.tmpl && (o->0)@.asked->0->Attach_0.name == q.name) }
pub open spec fn not_yet(o: Option<Client>) -> bool { o is None }
impl Templates {
//@fn libshpool/src/attach.rs :: Templates :: apply
//@ret r
//@cl 0 (z: String) ensures z@ == meaning_of($c1.text(), var_map.texts())
//@cl 1 (z: String) ensures z@ == meaning_of($c1.text(), var_map.texts())
//@cl 2 (z: String) ensures z@ == meaning_of($c1.text(), var_map.texts())
//@spec
        ensures resolves(*self, var_map.texts(), r)
//@endfn
}
impl Attach {
//@fn libshpool/src/attach.rs :: Attach :: dial_client
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `(&self, silent` => `(&self, w: &mut Net, silent`
//@sub `unistd::read(` => `unistd::read(w, `
//@sub `err.downcast::<io::Error>()` => `err.as_io()`
//@sub `io_err.kind() == io::ErrorKind::NotFound` => `is_not_found(&io_err)`
//@loop 0
                        invariant_except_break
                            P04() ==> w.v().eaten.len() == 0 || w.v().eaten.last() != 10,
                        invariant
                            w.v() == (Nv { eaten: w.v().eaten, ..old(w).v() }), !silent && !self.background,
//@spec
        requires P04() && !silent ==> old(w).v().eaten.len() == 0
        ensures
            r is Ok ==> r->Ok_0@ == (Cs { asked: None, ans: None }),
            r is Err ==> !anyhow::marked(r->Err_0),
            final(w).v() == (Nv { eaten: final(w).v().eaten, ..old(w).v() }),
            silent || self.background ==> final(w).v() == old(w).v(),
//@endfn
//@fn libshpool/src/attach.rs :: Attach :: dial_attach
//@ret r
//@vecs
//@sub `(&self, resolved` => `(&self, w: &mut Net, resolved`
//@sub `.dial_client(` => `.dial_client(w, `
//@sub `.write_connect_header(` => `.write_connect_header(w, `
//@sub `.read_reply()` => `.read_reply(w)`
//@sub `use shpool_protocol::AttachStatus::*;` => ``
//@sub `.into_iter().filter_map(` => `.into_items().filter_map(`
//@bind KEYS `let mut ? = Vec::new(`
//@bind FE `if let Some(?) = &forward_env`
//@cl 0 (p: Option<(String, String)>) ensures (p is Some) == (own_env($c1@) is Some), p is Some ==> (p->0).0@ == $c1@ && (p->0).1@ == own_env($c1@)->0
//@cl 1 (n: u64) ensures n == $c1.s
//@at loopbefore 0
            let ghost base = views($KEYS@);
//@loop 0 iter=it
            invariant
                it.seq().len() == $FE@.len(), forall|i: int| #![trigger it.seq()[i]] #![trigger $FE@[i]] 0 <= i < it.seq().len() ==> *it.seq()[i] == $FE@[i],
                views($KEYS@) == base + texts($FE@.take(it.index() as int)),
//@at loopstart 0
            let ghost k0 = $KEYS@;
//@at loopend 0
            proof {
                let i = it.index() as int;
                assert(texts($FE@.take(i + 1)) =~= texts($FE@.take(i)).push($FE@[i]@));
                assert(views($KEYS@) =~= views(k0).push($FE@[i]@));
                assert(base + texts($FE@.take(i)).push($FE@[i]@) =~= (base + texts($FE@.take(i))).push($FE@[i]@));
            }
//@at before 0 `.write_connect_header`
        let ghost v0 = w.v();
        proof { if P17() {
            let c = self.config_manager.now;
            let keys = views($KEYS@);
            assert(c.forward_env is Some ==> texts((c.forward_env->0)@.take((c.forward_env->0)@.len() as int)) =~= texts((c.forward_env->0)@));
            assert(keys =~= seq!["TERM"@, "DISPLAY"@, "LANG"@, "SSH_AUTH_SOCK"@] + (match c.forward_env { Some(f) => texts(f@), None => Seq::empty() }));
            lemma_keys(keys, c);
            assert(resolved.dir is Some ==> (utf8(here()) ==> opt(start_dir) == asked_dir(c, opt(resolved.dir))));
            lemma_words();
            assert(utf8(here()) ==> opt(start_dir) == asked_dir(c, opt(resolved.dir)));
        } }
//@at before 0 `let attach_resp`
        proof { if P17() {
            let keys = views($KEYS@);
            let a = client@.asked->0->Attach_0;
            let o = choose|o: Seq<Option<(String, String)>>| a.env == pair_views(#[trigger] somes(o)) && o.len() == keys.len() && forall|i: int| #![trigger o[i]] 0 <= i < keys.len() ==> (o[i] is Some) == (own_env(keys[i]) is Some) && (o[i] is Some ==> (o[i]->0).0@ == keys[i] && (o[i]->0).1@ == own_env(keys[i])->0);
            lemma_forwarded(keys, o);
        } }
//@loop 1
            invariant true,
//@loop 2
            invariant true,
//@spec
        requires
            old(w).v().told is Some && resolves(self.tmpls, old(w).v().told->0, *resolved),
        ensures
            attach_tried(self.config_manager.now, old(w).v(), final(w).v(), want(given(*self), old(w).v().told->0)),
            r is Ok ==> (P10() || P20() ==> protocol::attached(r->Ok_0@)) && final(w).v().log.len() == old(w).v().log.len() + 2 && final(w).v().log.last() == Ev::Ans(r->Ok_0@.ans->0)
                && final(w).v().log[old(w).v().log.len() as int] == Ev::Ask(r->Ok_0@.asked->0, old(w).v().told),
            r is Err ==> (anyhow::marked(r->Err_0) <==> final(w).v().log.len() == old(w).v().log.len() + 2 && final(w).v().log.last() == Ev::Ans(Ans::Attach(St::Busy))),
//@endfn
//@fn libshpool/src/attach.rs :: Attach :: attach_resolved
//@ret r
//@vecs
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `(&self, resolved` => `(&self, w: &mut Net, resolved`
//@sub `.dial_client(` => `.dial_client(w, `
//@sub `.dial_attach(` => `.dial_attach(w, `
//@sub `.write_connect_header(` => `.write_connect_header(w, `
//@sub `.read_reply()` => `.read_reply(w)`
//@sub `err.downcast()` => `err.as_busy()`
//@sub `drop(attach_client)` => `attach_client.hang_up(w)`
//@sub `.pipe_bytes(move |` => `.pipe_bytes(w, |`
//@sub `std::process::exit(` => `exit_now(w, `
//@cl 0 (b: bool) ensures b == ($c1 == '/')
//@bind TMPL `let ? = self.tmpls.session_name.clone()`
//@cl 1 (b: bool) ensures P20() ==> b == (meaning_of($TMPL.text(), $c1.vars.vars()) != resolved.session_name@)
//@bind DET `let mut ? = false`
//@bind TR `let mut ? = 0`
//@at start
        let ghost c = self.config_manager.now;
        let ghost q = want(given(*self), old(w).v().told->0);
        let ghost n0 = old(w).v().log.len() as int;
        proof {
            assert forall|l: Seq<Ev>, e: Ev| #[trigger] detaches(l.push(e)) == detaches(l) + (if e is Ask && e->Ask_0 is Detach { 1nat } else { 0 }) by { lemma_detaches(l, e); }
            assert forall|v: Seq<String>| v.len() == 1 implies #[trigger] texts(v) == seq![v[0]@] by { assert(texts(v) =~= seq![v[0]@]); }
        }
//@loop 0
            invariant_except_break
                not_yet(__br0),
                P10() && self.force && $TR > 0 ==> $DET,
            invariant
                forall|l: Seq<Ev>, e: Ev| #[trigger] detaches(l.push(e)) == detaches(l) + (if e is Ask && e->Ask_0 is Detach { 1nat } else { 0 }),
                forall|v: Seq<String>| v.len() == 1 ==> #[trigger] texts(v) == seq![v[0]@],
                c == self.config_manager.now, q == want(given(*self), old(w).v().told->0), w.v().told == old(w).v().told, resolves(self.tmpls, old(w).v().told->0, resolved), old(w).v().told is Some, n0 == old(w).v().log.len() as int,
                P04() ==> w.v().eaten == old(w).v().eaten, w.v().slot == old(w).v().slot,
                n0 <= w.v().log.len() && old(w).v().log =~= w.v().log.take(n0),
                only_asks(w.v().log, n0, c, given(*self)), starts_with_attach(w.v().log, n0),
                P10() ==> detaches(w.v().log) == detaches(old(w).v().log) + (if $DET { 1nat } else { 0 }),
                P10() && $DET ==> self.force,
                $TR <= MAX_FORCE_RETRIES + 1,
                P11() ==> good_name(resolved.session_name@),
            ensures
                got_in(__br0, q) && n0 < w.v().log.len(),
//@spec
        requires
            old(w).v().told is Some && resolves(self.tmpls, old(w).v().told->0, resolved),
            P19() && !self.background ==> old(w).v().slot == Some(resolved.session_name@),
        ensures
            P04() ==> final(w).v().eaten == old(w).v().eaten, final(w).v().slot == old(w).v().slot,
            forall|i: int| 0 <= i < old(w).v().log.len() ==> #[trigger] final(w).v().log[i] == old(w).v().log[i],
            // nothing comes of a name that is no good
            P11() && !good_name(resolved.session_name@) ==> final(w).v() == old(w).v() && r is Ok && r->Ok_0 is Done,
            old(w).v().log =~= final(w).v().log.take(old(w).v().log.len() as int) && old(w).v().log.len() <= final(w).v().log.len(),
            only_asks(final(w).v().log, old(w).v().log.len() as int, self.config_manager.now, given(*self)),
            starts_with_attach(final(w).v().log, old(w).v().log.len() as int),
            // nobody is thrown out without being told to
            P10() && !self.force && !self.background ==> detaches(final(w).v().log) == detaches(old(w).v().log),
            P10() && self.force && !self.background ==> detaches(final(w).v().log) <= detaches(old(w).v().log) + 1,
            // moving on is what the daemon asked for
            r is Ok && r->Ok_0 is Switch ==> final(w).v().told == Some((r->Ok_0->Switch_0).vars.vars()) && final(w).v().log.last() == Ev::Serve(Got::Switch((r->Ok_0->Switch_0).vars.vars())),
            // an attach in the foreground that got through serves the user
            P10() && r is Ok && r->Ok_0 is Done && !self.background && good_name(resolved.session_name@) ==> final(w).v().log.last() == Ev::Ans(Ans::Attach(St::Busy)) && !self.force,
//@endfn
//@fn libshpool/src/attach.rs :: Attach :: run
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `(self)` => `(self, w: &mut Net)`
//@sub `.dial_client(` => `.dial_client(w, `
//@sub `.write_connect_header(` => `.write_connect_header(w, `
//@sub `.read_reply()` => `.read_reply(w)`
//@sub `.spawn()` => `.spawn(w)`
//@sub `.attach_resolved(` => `.attach_resolved(w, `
//@sub `let mut slot = slot.lock().unwrap();` => ``
//@sub `*slot = resolved.session_name.clone();` => `slot.put(w, resolved.session_name.clone());`
//@bind RES `let mut ? = self.tmpls.apply`
//@bind SLOT `let ? = if !self.background`
//@loop 0
            invariant
                $SLOT is Some == !self.background,
                w.v().log.len() >= 2 && w.v().log[0] == Ev::Ask(Req::Vars, old(w).v().told),
                only_asks(w.v().log, 1, self.config_manager.now, given(self)),
                w.v().told is Some && resolves(self.tmpls, w.v().told->0, $RES),
                P19() && !self.background ==> w.v().slot == Some($RES.session_name@),
//@spec
        requires old(w).v().log.len() == 0 && old(w).v().eaten.len() == 0
        ensures
            final(w).v().log.len() >= 1 ==> final(w).v().log[0] == Ev::Ask(Req::Vars, old(w).v().told),
            only_asks(final(w).v().log, 1, self.config_manager.now, given(self)),
//@endfn
}
//@item libshpool/src/attach.rs :: struct SignalHandler
impl SignalHandler {
//@fn libshpool/src/attach.rs :: SignalHandler :: new
//@ret r
//@spec
        ensures r.session_name.starts() == session_name@
//@endfn
    /// a thread that runs handle_sigwinch whenever the terminal's size changes
    #[verifier::external_body]
    fn spawn(self, w: &mut Net) -> (r: anyhow::Result<Arc<Mutex<String>>>)
        ensures r is Ok ==> final(w).v() == (Nv { slot: Some(self.session_name.starts()), ..old(w).v() }), r is Err ==> final(w).v() == old(w).v()
    { unimplemented!() }
//@fn libshpool/src/attach.rs :: SignalHandler :: handle_sigwinch
//@ret r
//@sub `(&self)` => `(&self, w: &mut Net)`
//@sub `.write_connect_header(` => `.write_connect_header(w, `
//@sub `.read_reply()` => `.read_reply(w)`
//@spec
        ensures
            P19() && final(w).v().log.len() > old(w).v().log.len() ==> {
                let e = final(w).v().log[old(w).v().log.len() as int];
                e == Ev::Ask(Req::Resize(self.session_name.holds(), tty()->0), old(w).v().told) && tty() is Some
                && forall|i: int| old(w).v().log.len() < i < final(w).v().log.len() ==> !((#[trigger] final(w).v().log[i]) is Ask)
            },
            r is Ok ==> final(w).v().log.len() > old(w).v().log.len(),
//@endfn
//@fn libshpool/src/attach.rs :: SignalHandler :: get_session_name
//@ret r
//@spec
        ensures r@ == self.session_name.holds()
//@endfn
}
//@fn libshpool/src/attach.rs :: - :: run
//@ret r
//@sub `(socket` => `(w: &mut Net, socket`
//@sub `attach.run()` => `attach.run(w)`
//@sub `test_hooks::emit("attach-startup");` => ``
//@spec
    requires old(w).v().log.len() == 0 && old(w).v().eaten.len() == 0
    ensures
        only_asks(final(w).v().log, 1, config_manager.now, Given { name: name@, cmd: opt(cmd), dir: opt(dir), start_cmd: opt(start_cmd), ttl: match ttl { Some(t) => duration::secs(t@), None => None }, force, background }),
        // nothing is asked of the daemon when the command makes no sense
        P20() && (!template::wf(name@) || cmd is Some && !template::wf((cmd->0)@) || dir is Some && !template::wf((dir->0)@) || start_cmd is Some && !template::wf((start_cmd->0)@)) || P12() && ttl is Some && duration::secs((ttl->0)@) is None ==> r is Err && final(w).v() == old(w).v(),
//@endfn
} // verus!
