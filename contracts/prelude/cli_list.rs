macro_rules! show {
    ($c:expr, "{}", $e:expr) => { $c.print_json($e) };
    ($c:expr, "NAME\tSTATUS") => { $c.print_head() };
    ($c:expr, "{}\t{}", $n:expr, $s:expr) => { $c.print_row(&$n, &$s) };
}
verus! {
pub mod cmd_list {
    use vstd::prelude::*;
    use super::*;
    pub use super::wire::{ListReply, Session};
    pub use super::cli::{is_not_found, ConnectHeader, protocol::{Client, ClientResult}};
    use super::cli::{Conv, Path};
    pub enum Line { Json(Seq<char>), Head, Row(Seq<char>, SessionStatus) }
    pub uninterp spec fn pretty(s: Seq<Session>) -> Seq<char>;
    pub mod serde_json {
        use vstd::prelude::*;
        use super::*;
        pub struct Error { pub _p: () }
        #[verifier::external_body]
        pub fn to_string_pretty(r: &ListReply) -> (o: Result<String, Error>) ensures o is Ok ==> o->Ok_0@ == pretty(r.sessions@) { unimplemented!() }
    }
    impl From<serde_json::Error> for anyhow::Error { #[verifier::external_body] fn from(e: serde_json::Error) -> (r: Self) { unimplemented!() } }
    #[verifier::external_body]
    pub struct Screen { _p: () }
    impl Screen {
        pub uninterp spec fn out(&self) -> Seq<Line>;
        #[verifier::external_body]
        pub fn print_json(&mut self, s: String) ensures final(self).out() == old(self).out().push(Line::Json(s@)) { unimplemented!() }
        #[verifier::external_body]
        pub fn print_head(&mut self) ensures final(self).out() == old(self).out().push(Line::Head) { unimplemented!() }
        #[verifier::external_body]
        pub fn print_row(&mut self, n: &String, s: &SessionStatus) ensures final(self).out() == old(self).out().push(Line::Row(n@, *s)) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn widest(v: &Vec<Session>) -> (r: usize) { unimplemented!() }
    pub open spec fn padded(name: Seq<char>, shown: Seq<char>) -> bool {
        exists|k: nat| #[trigger] rep(k) =~= shown.subrange(name.len() as int, shown.len() as int) && name.len() <= shown.len() && shown.subrange(0, name.len() as int) =~= name
    }
    pub open spec fn rep(k: nat) -> Seq<char> { Seq::new(k, |i: int| ' ') }
    pub open spec fn shows(row: Line, s: Session) -> bool { row is Row && padded(s.name@, row->Row_0) && row->Row_1 == s.status }
    pub proof fn lemma_pad(name: Seq<char>, a: Seq<char>)
        requires padded(name, a)
        ensures padded(name, a.push(' '))
    {
        let k = choose|k: nat| #[trigger] rep(k) =~= a.subrange(name.len() as int, a.len() as int);
        let b = a.push(' ');
        let (n, t) = (name.len() as int, a.subrange(name.len() as int, a.len() as int));
        assert(rep(k).len() == t.len());
        assert forall|i: int| 0 <= i < k + 1 implies #[trigger] rep(k + 1)[i] == b.subrange(n, b.len() as int)[i] by {
            if i < k { assert(rep(k)[i] == t[i]); }
        }
        assert(rep(k + 1) =~= b.subrange(n, b.len() as int));
        assert(b.subrange(0, name.len() as int) =~= a.subrange(0, name.len() as int));
    }
    #[verifier::external_body]
    pub fn bytes(s: &String) -> (r: usize) { unimplemented!() }
//@fn libshpool/src/list.rs :: run
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `socket: PathBuf` => `c: &mut Conv, scr: &mut Screen, socket: Path`
//@sub `protocol::Client` => `Client`
//@sub `err.downcast::<io::Error>()` => `err.as_io()`
//@sub `io_err.kind() == io::ErrorKind::NotFound` => `is_not_found(&io_err)`
//@sub `.write_connect_header(` => `.write_connect_header(c, `
//@sub `.read_reply()` => `.read_reply(c)`
//@sub `println!(` => `show!(scr, `
//@sub `reply.sessions.iter().map(|s| s.name.len()).max().unwrap_or(0)` => `widest(&reply.sessions)`
//@sub `name.len()` => `bytes(&name)`
//@spec
        requires cli::silent(old(c).v()), old(scr).out().len() == 0
        ensures
            final(c).v().sent.len() > 0 ==> final(c).v().sent == seq![cli::Req::List],
            final(c).v().got.len() > 0 ==> final(c).v().got.len() == 1 && final(c).v().got[0] is List,
            r is Ok ==> final(c).v().got.len() == 1 && ({
                let rows = final(c).v().got[0]->List_0;
                let out = final(scr).out();
                if json_output { out == seq![Line::Json(pretty(rows))] } else {
                    out.len() == rows.len() + 1 && out[0] is Head && forall|i: int| 0 <= i < rows.len() ==> shows(#[trigger] out[i + 1], rows[i])
                }
            }),
            r is Err ==> final(scr).out().len() == 0,
//@loop 0 iter=it
                invariant
                    it.seq() == reply.sessions@.map(|i: int, s: Session| &s),
                    scr.out().len() == it.index@ + 1, scr.out()[0] is Head,
                    forall|i: int| 0 <= i < it.index@ ==> shows(#[trigger] scr.out()[i + 1], reply.sessions@[i]),
//@loop 1
                    invariant padded(session.name@, name@)
//@at loopbefore 1
                proof { assert(rep(0) =~= name@.subrange(session.name@.len() as int, name@.len() as int)); assert(padded(session.name@, name@)); }
//@at before 0 `name.push`
                    proof { lemma_pad(session.name@, name@); }
//@endfn
}
} // verus!
