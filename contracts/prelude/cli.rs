// The command line's side of kill and detach.
macro_rules! eprintln { ($($t:tt)*) => { () } }
verus! {
pub mod cli {
    use vstd::prelude::*;
    use super::*;
    /// what goes over the connection to the daemon
    pub enum Req { List, Kill(Seq<Seq<char>>), Detach(Seq<Seq<char>>) }
    pub enum Ans { Kill(Seq<Seq<char>>), Detach(Seq<Seq<char>>, Seq<Seq<char>>), List(Seq<Session0>) }
    pub struct Cv { pub sent: Seq<Req>, pub got: Seq<Ans> }
    #[verifier::external_body]
    pub struct Conv { _p: () }
    impl Conv { pub uninterp spec fn v(&self) -> Cv; }
    /// the session this command was started in
    pub uninterp spec fn here() -> Option<Seq<char>>;
    pub mod env {
        use vstd::prelude::*;
        pub struct VarError { pub _p: () }
        pub uninterp spec fn var_spec(n: Seq<char>) -> Option<Seq<char>>;
        #[verifier::external_body]
        pub fn var(n: &str) -> (r: Result<String, VarError>)
            ensures (r is Ok) == (var_spec(n@) is Some), r is Ok ==> r->Ok_0@ == var_spec(n@)->0
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Path { _p: () }
    pub enum ConnectHeader { List, Kill(KillRequest), Detach(DetachRequest) }
    pub open spec fn req(h: ConnectHeader) -> Req { match h { ConnectHeader::List => Req::List, ConnectHeader::Kill(r) => Req::Kill(texts(r.sessions@)), ConnectHeader::Detach(r) => Req::Detach(texts(r.sessions@)) } }
    pub trait Answer: Sized { spec fn ans(&self) -> Ans; }
    impl Answer for KillReply { open spec fn ans(&self) -> Ans { Ans::Kill(texts(self.not_found_sessions@)) } }
    impl Answer for ListReply { open spec fn ans(&self) -> Ans { Ans::List(self.sessions@) } }
    impl Answer for DetachReply { open spec fn ans(&self) -> Ans { Ans::Detach(texts(self.not_found_sessions@), texts(self.not_attached_sessions@)) } }
    pub enum ErrorKind { NotFound, Other }
    #[verifier::external_body]
    pub struct IoError { _p: () }
    impl IoError { #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) { unimplemented!() } }
    impl From<IoError> for anyhow::Error { #[verifier::external_body] fn from(e: IoError) -> (r: Self) { unimplemented!() } }
    #[verifier::external_body]
    pub fn is_not_found(e: &IoError) -> (r: bool) { unimplemented!() }
    impl anyhow::Error {
        #[verifier::external_body]
        pub fn as_io(self) -> (r: Result<IoError, anyhow::Error>) { unimplemented!() }
    }
    pub mod protocol {
        use vstd::prelude::*;
        use super::*;
        #[verifier::external_body]
        pub struct Client { _p: () }
        pub enum ClientResult { JustClient(Client), VersionMismatch { warning: String, client: Client } }
        impl Client {
            #[verifier::external_body]
            pub fn new(p: Path) -> (r: anyhow::Result<ClientResult>) { unimplemented!() }
            /// one request per connection
            #[verifier::external_body]
            pub fn write_connect_header(&mut self, c: &mut Conv, h: ConnectHeader) -> (r: anyhow::Result<()>)
                requires old(c).v().sent.len() == 0
                ensures final(c).v() == (Cv { sent: old(c).v().sent.push(req(h)), ..old(c).v() })
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_reply<A: Answer>(&mut self, c: &mut Conv) -> (r: anyhow::Result<A>)
                requires old(c).v().sent.len() == 1 && old(c).v().got.len() == 0
                ensures final(c).v() == (if r is Ok { Cv { got: old(c).v().got.push(r->Ok_0.ans()), ..old(c).v() } } else { old(c).v() })
            { unimplemented!() }
        }
    }
    pub use protocol::ClientResult;
    /// the names given, or else the session we are in
    pub open spec fn meant(s: Seq<Seq<char>>) -> Seq<Seq<char>> {
        if s.len() > 0 { s } else { match env::var_spec("SHPOOL_SESSION_NAME"@) { Some(n) => seq![n], None => s } }
    }
    pub mod common {
        use vstd::prelude::*;
        use super::*;
//@fn libshpool/src/common.rs :: resolve_sessions
//@ret r
//@spec
            ensures
                texts(final(sessions)@) == meant(texts(old(sessions)@)),
                r is Ok ==> final(sessions)@.len() > 0,
                r is Err ==> final(sessions)@.len() == 0,
//@at start
            proof { assert(texts(Seq::empty()) =~= Seq::empty()); }
//@at after 0 `sessions.push(current_session);`
                proof { assert(texts(sessions@) =~= meant(texts(old(sessions)@))); }
//@endfn
    }
    /// the daemon's answer: it did as it was told for all of them
    pub open spec fn did_all(v: Cv) -> bool {
        v.got.len() == 1 && match v.got[0] { Ans::List(_) => true, Ans::Kill(nf) => nf.len() == 0, Ans::Detach(nf, na) => nf.len() == 0 && na.len() == 0 }
    }
    pub open spec fn silent(v: Cv) -> bool { v.sent.len() == 0 && v.got.len() == 0 }
}
} // verus!
