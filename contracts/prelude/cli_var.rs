// The command line's side of variables.
macro_rules! eprintln { ($($t:tt)*) => { () } }
macro_rules! show {
    ($s:expr, "{}", $e:expr) => { $s.line($e) };
    ($s:expr, "{}\t{}", $k:expr, $v:expr) => { $s.pair($k, $v) };
}
verus! {
pub mod cmd_var {
    use vstd::prelude::*;
    use super::*;
//@item shpool-protocol/src/lib.rs :: struct ModifyVarRequest
//@item libshpool/src/lib.rs :: enum VarCommands
    pub struct MaybeSwitch { pub vars: Vec<(String, String)> }
    pub struct ModifyVarReply {}
    pub enum ConnectHeader { GetVars, ModifyVar(ModifyVarRequest), Other }
    pub enum Req { Get, Change(Seq<char>, Option<Seq<char>>), Other }
    pub open spec fn opt(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
    pub open spec fn req(h: ConnectHeader) -> Req { match h { ConnectHeader::GetVars => Req::Get, ConnectHeader::ModifyVar(r) => Req::Change(r.var@, opt(r.val)), ConnectHeader::Other => Req::Other } }
    pub enum Ans { Vars(Seq<(Seq<char>, Seq<char>)>), Done }
    pub open spec fn pairs(s: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { s.map_values(|p: (String, String)| (p.0@, p.1@)) }
    pub trait Answer: Sized { spec fn ans(&self) -> Ans; }
    impl Answer for MaybeSwitch { open spec fn ans(&self) -> Ans { Ans::Vars(pairs(self.vars@)) } }
    impl Answer for ModifyVarReply { open spec fn ans(&self) -> Ans { Ans::Done } }
    pub struct Cv { pub sent: Seq<Req>, pub got: Seq<Ans> }
    #[verifier::external_body]
    pub struct Conv { _p: () }
    impl Conv { pub uninterp spec fn v(&self) -> Cv; }
    #[verifier::external_body]
    pub fn same(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
    #[verifier::external_body]
    pub struct Path { _p: () }
    #[verifier::external_body]
    pub struct IoError { _p: () }
    impl From<IoError> for anyhow::Error { #[verifier::external_body] fn from(e: IoError) -> (r: Self) { unimplemented!() } }
    #[verifier::external_body]
    pub fn is_not_found(e: &IoError) -> (r: bool) { unimplemented!() }
    impl anyhow::Error {
        #[verifier::external_body]
        pub fn as_io(self) -> (r: Result<IoError, anyhow::Error>) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Client { _p: () }
    pub enum ClientResult { JustClient(Client), VersionMismatch { warning: String, client: Client } }
    impl Client {
        #[verifier::external_body]
        pub fn new(p: Path) -> (r: anyhow::Result<ClientResult>) { unimplemented!() }
        /// one request per connection
        #[verifier::external_body]
        pub fn write_connect_header(&mut self, c: &mut Conv, h: ConnectHeader) -> (r: anyhow::Result<()>)
            requires old(c).v().sent.len() == 0
            ensures final(c).v() == (Cv { sent: old(c).v().sent.push(req(h)), ..old(c).v() })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_reply<A: Answer>(&mut self, c: &mut Conv) -> (r: anyhow::Result<A>)
            requires old(c).v().sent.len() == 1 && old(c).v().got.len() == 0
            ensures final(c).v() == (if r is Ok { Cv { got: old(c).v().got.push(r->Ok_0.ans()), ..old(c).v() } } else { old(c).v() })
        { unimplemented!() }
    }
    pub enum Line { Text(Seq<char>), Pair(Seq<char>, Seq<char>), Json(Map<Seq<char>, Seq<char>>) }
    #[verifier::external_body]
    pub struct Screen { _p: () }
    pub trait Text: Sized { spec fn t(&self) -> Line; }
    impl Text for String { open spec fn t(&self) -> Line { Line::Text(self@) } }
    impl Text for Pretty { open spec fn t(&self) -> Line { Line::Json(self.m@) } }
    impl Screen {
        pub uninterp spec fn out(&self) -> Seq<Line>;
        #[verifier::external_body]
        pub fn line<T: Text>(&mut self, s: T) ensures final(self).out() == old(self).out().push(s.t()) { unimplemented!() }
        #[verifier::external_body]
        pub fn pair(&mut self, k: String, v: String) ensures final(self).out() == old(self).out().push(Line::Pair(k@, v@)) { unimplemented!() }
    }
    /// a JSON object
    pub struct Pretty { pub m: Ghost<Map<Seq<char>, Seq<char>>> }
    #[verifier::external_body]
    pub struct Obj { _p: () }
    impl Obj {
        pub uninterp spec fn m(&self) -> Map<Seq<char>, Seq<char>>;
        #[verifier::external_body]
        pub fn put(&mut self, k: String, v: String) ensures final(self).m() == old(self).m().insert(k@, v@) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn empty_object() -> (r: Obj) ensures r.m() == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    pub struct JsonError { pub _p: () }
    impl From<JsonError> for anyhow::Error { #[verifier::external_body] fn from(e: JsonError) -> (r: Self) { unimplemented!() } }
    #[verifier::external_body]
    pub fn to_string_pretty(o: &Obj) -> (r: Result<Pretty, JsonError>) ensures r is Ok ==> r->Ok_0.m@ == o.m() { unimplemented!() }

    /// as an object: the last value of a name
    pub open spec fn object(ps: Seq<(Seq<char>, Seq<char>)>) -> Map<Seq<char>, Seq<char>> decreases ps.len() {
        if ps.len() == 0 { Map::empty() } else { object(ps.drop_last()).insert(ps.last().0, ps.last().1) }
    }
    pub open spec fn rows(ps: Seq<(Seq<char>, Seq<char>)>) -> Seq<Line> { ps.map_values(|p: (Seq<char>, Seq<char>)| Line::Pair(p.0, p.1)) }
    /// the values of one name
    pub open spec fn of(ps: Seq<(Seq<char>, Seq<char>)>, n: Seq<char>) -> Seq<Line> decreases ps.len() {
        if ps.len() == 0 { Seq::empty() } else if ps.last().0 == n { of(ps.drop_last(), n).push(Line::Text(ps.last().1)) } else { of(ps.drop_last(), n) }
    }
    pub proof fn step(s: Seq<(String, String)>, i: int)
        requires 0 <= i < s.len()
        ensures pairs(s.take(i + 1)).drop_last() == pairs(s.take(i)), pairs(s.take(i + 1)).last() == (s[i].0@, s[i].1@), pairs(s.take(i + 1)).len() == i + 1,
            rows(pairs(s.take(i + 1))) == rows(pairs(s.take(i))).push(Line::Pair(s[i].0@, s[i].1@)),
    {
        assert(pairs(s.take(i + 1)).drop_last() =~= pairs(s.take(i)));
        assert(rows(pairs(s.take(i + 1))) =~= rows(pairs(s.take(i))).push(Line::Pair(s[i].0@, s[i].1@)));
    }
    pub mod whole { use super::*;
    pub broadcast proof fn lemma_all(s: Seq<(String, String)>, n: int)
        ensures n == s.len() ==> #[trigger] s.take(n) == s
    { if n == s.len() { assert(s.take(n) =~= s); } }
    }
//@fn libshpool/src/var.rs :: run
//@ret r
//@sub `socket: PathBuf` => `c: &mut Conv, scr: &mut Screen, socket: Path`
//@sub `protocol::Client` => `Client`
//@sub `err.downcast::<io::Error>()` => `err.as_io()`
//@sub `io_err.kind() == io::ErrorKind::NotFound` => `is_not_found(&io_err)`
//@sub `.write_connect_header(` => `.write_connect_header(c, `
//@sub `.read_reply()` => `.read_reply(c)`
//@sub `println!(` => `show!(scr, `
//@sub `serde_json::json!({})` => `empty_object()`
//@sub `obj[var] = serde_json::Value::String(val)` => `obj.put(var, val)`
//@sub `serde_json::to_string_pretty(` => `to_string_pretty(`
//@sub `key == var` => `same(&key, &var)`
//@sub `.vars.into_iter()` => `.vars`
//@spec
        requires old(c).v().sent.len() == 0 && old(c).v().got.len() == 0, old(scr).out().len() == 0
        ensures
            // the daemon is asked for what the user said, once
            final(c).v().sent.len() > 0 ==> final(c).v().sent == seq![match $4 {
                VarCommands::List { json } => Req::Get,
                VarCommands::Get { var } => Req::Get,
                VarCommands::Set { var, val } => Req::Change(var@, Some(val@)),
                VarCommands::Unset { var } => Req::Change(var@, None),
            }],
            r is Ok ==> final(c).v().got.len() == 1 && (match $4 {
                VarCommands::List { json } => final(c).v().got[0] is Vars && ({
                    let ps = final(c).v().got[0]->Vars_0;
                    if json { final(scr).out() == seq![Line::Json(object(ps))] } else { final(scr).out() == rows(ps) }
                }),
                VarCommands::Get { var } => final(c).v().got[0] is Vars && final(scr).out() == of(final(c).v().got[0]->Vars_0, var@),
                _ => final(c).v().got[0] is Done && final(scr).out().len() == 0,
            }),
            r is Err ==> final(scr).out().len() == 0,
//@at start
        broadcast use whole::lemma_all;
//@loop 0 iter=it kind=for
                invariant 0 <= it.index() <= it.seq().len(), obj.m() == object(pairs(it.seq().take(it.index() as int))),
//@at loopend 0
                    proof { step(it.seq(), it.index() as int); }
//@loop 1 iter=it kind=for
                invariant 0 <= it.index() <= it.seq().len(), scr.out() =~= rows(pairs(it.seq().take(it.index() as int))),
//@at loopend 1
                    proof { step(it.seq(), it.index() as int); }
//@loop 2 iter=it kind=for
                invariant 0 <= it.index() <= it.seq().len(), scr.out() == of(pairs(it.seq().take(it.index() as int)), var@),
//@at loopend 2
                    proof { step(it.seq(), it.index() as int); }
//@endfn
}
} // verus!
