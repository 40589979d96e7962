//@lits
//@include prelude/std.rs
//@include prelude/str.rs

verus! {
global size_of usize == 8; // 64-bit targets
broadcast use {byte_facts::lemma_at_byte_unique, byte_facts::lemma_boundary, find_facts::lemma_first_matches};

// ---------------------------------------------------------------- spec
/// the text up to the first '#'
pub open spec fn uncomment(s: Seq<char>) -> Seq<char> { s.take(first_char(s, '#')) }
pub open spec fn export_word() -> Seq<char> { seq!['e', 'x', 'p', 'o', 'r', 't', ' '] }
pub open spec fn strip_pre(s: Seq<char>, p: Seq<char>) -> Seq<char> {
    if p.len() <= s.len() && s.take(p.len() as int) == p { s.skip(p.len() as int) } else { s }
}
pub open spec fn strip_pre_c(s: Seq<char>, c: char) -> Seq<char> { if s.len() > 0 && s[0] == c { s.skip(1) } else { s } }
pub open spec fn strip_suf_c(s: Seq<char>, c: char) -> Seq<char> { if s.len() > 0 && s.last() == c { s.drop_last() } else { s } }
/// pam_env's idea of quoting: a leading quote of each kind goes; trailing ones only when there was a leading one
pub open spec fn unquote(s: Seq<char>) -> Seq<char> {
    let lead = s.len() > 0 && (s[0] == '\'' || s[0] == '"');
    let a = strip_pre_c(strip_pre_c(s, '\''), '"');
    if lead { strip_suf_c(strip_suf_c(a, '\''), '"') } else { a }
}
pub open spec fn key_ok(k: Seq<char>) -> bool {
    k.len() > 0 && forall|i: int| 0 <= i < k.len() ==> is_ascii_alnum(#[trigger] k[i]) || k[i] == '_'
}
/// what one line sets, if anything
pub open spec fn setting(line: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let t = trim_spec(line);
    if t.len() == 0 || t[0] == '#' { None } else {
        let c = uncomment(strip_pre(t, export_word()));
        let e = first_char(c, '=');
        if 0 <= e < c.len() && key_ok(c.take(e)) { Some((c.take(e), unquote(c.skip(e + 1)))) } else { None }
    }
}
pub open spec fn settings(lines: Seq<Seq<char>>) -> Seq<(Seq<char>, Seq<char>)>
    decreases lines.len()
{
    if lines.len() == 0 { Seq::empty() } else {
        match setting(lines.last()) {
            Some(p) => settings(lines.drop_last()).push(p),
            None => settings(lines.drop_last()),
        }
    }
}
pub open spec fn pair_views(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }

// ---------------------------------------------------------------- the file
pub trait Read {}
/// the lines of the file, each with its newline
pub uninterp spec fn lines_of<R>(r: R) -> Seq<Seq<char>>;
pub mod io { use vstd::prelude::*; #[verifier::external_body] pub struct Error { _p: () } }
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { _r: R }
impl<R> BufReader<R> {
    /// lines already read
    pub uninterp spec fn done(&self) -> Seq<Seq<char>>;
    /// lines still to read
    pub uninterp spec fn todo(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new(r: R) -> (b: Self) ensures b.done().len() == 0, b.todo() == lines_of(r) { unimplemented!() }
    /// appends the next line, newline included; 0 only at the end of the file
    #[verifier::external_body]
    pub fn read_line(&mut self, buf: &mut String) -> (n: core::result::Result<usize, io::Error>)
        ensures
            n is Ok && old(self).todo().len() == 0 ==> n->Ok_0 == 0 && final(buf)@ == old(buf)@ && *final(self) == *old(self),
            n is Ok && old(self).todo().len() > 0 ==> n->Ok_0 > 0 && final(buf)@ == old(buf)@ + old(self).todo()[0]
                && final(self).done() == old(self).done().push(old(self).todo()[0]) && final(self).todo() == old(self).todo().skip(1),
    { unimplemented!() }
}

//@fn libshpool/src/daemon/etc_environment.rs :: parse_compat
//@ret r
//@bind PAIRS `let mut ? = vec! [ ]`
//@bind RD `let mut ? = BufReader :: new`
//@bind L `let mut ? = String :: new ( )`
//@cl 0 (q: bool) ensures q == (*$c1 != '#')
//@cl 1 (q: bool) ensures q == (is_ascii_alnum($c1) || $c1 == '_')
//@spec
    ensures r is Ok ==> pair_views(r->Ok_0@) == settings(lines_of($1))
//@loop 0
    invariant
        pair_views($PAIRS@) == settings($RD.done()),
        $RD.done() + $RD.todo() == lines_of($1),
    ensures
        pair_views($PAIRS@) == settings($RD.done()),
        $RD.done() + $RD.todo() == lines_of($1),
        $RD.todo().len() == 0,
    decreases $RD.todo().len()
//@bind IL `let mut ? = $L . trim ( )`
//@bind CL `let ? : String`
//@at loopstart 0
    let ghost d0 = $RD.done();
    let ghost t0 = $RD.todo();
//@at before 0 `. trim ( )`
    let ghost l0 = $L@;
    proof {
        assert(l0 =~= t0[0]);
        assert($RD.done().drop_last() =~= d0);
        assert($RD.done().last() == l0);
        assert($RD.done() + $RD.todo() =~= d0 + t0);
    }
//@at before 0 `. take_while`
    let ghost s1 = $IL@;
    proof {
        reveal_strlit("export "); assert("export "@ =~= export_word());
        let t = trim_spec(l0);
        if t.len() >= 7 { assert(t.subrange(0, 7) =~= t.take(7)); }
        assert(s1 == strip_pre(t, export_word()));
    }
//@at after 0 `. collect ( )`
    proof { assert($CL@ == uncomment(s1)); }
//@at before 0 `$PAIRS . push`
    let ghost p0 = $PAIRS@;
//@at after 0 `$PAIRS . push`
    proof {
        assert(pair_views($PAIRS@) =~= pair_views(p0).push(($PAIRS@.last().0@, $PAIRS@.last().1@)));
        let c = uncomment(s1);
        let v = c.skip(first_char(c, '=') + 1);
        assert($PAIRS@.last().1@ =~= unquote(v));
    }
//@endfn
}
fn main() {}
