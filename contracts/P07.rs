//@lits
//@include prelude/std.rs
//@include prelude/str.rs
//@include prelude/opt.rs
//@include prelude/map.rs

verus! {
global size_of usize == 8; // 64-bit targets
broadcast use {byte_facts::lemma_at_byte_unique, byte_facts::lemma_boundary, find_facts::lemma_first_matches};


// ---------------------------------------------------------------- spec
pub type Vars = Map<Seq<char>, Seq<char>>;
/// a variable's value; a variable nobody set is empty
pub open spec fn value(m: Vars, v: Seq<char>) -> Seq<char> { if m.contains_key(v) { m[v] } else { Seq::empty() } }
pub open spec fn ident(v: Seq<char>) -> bool {
    v.len() > 0 && !is_numeric(v[0]) && forall|i: int| 0 <= i < v.len() ==> is_alphanumeric(#[trigger] v[i]) || v[i] == '_'
}
/// every '{' starts a substitution that is closed and names a variable
pub open spec fn wf(s: Seq<char>) -> bool
    decreases s.len()
{
    let i = first_char(s, '{');
    if 0 <= i < s.len() {
        let rest = s.skip(i + 1);
        let j = first_char(rest, '}');
        0 <= j < rest.len() && ident(rest.take(j)) && wf(rest.skip(j + 1))
    } else { true }
}
/// the text a template stands for when the variables have these values
pub open spec fn meaning(s: Seq<char>, m: Vars) -> Seq<char>
    decreases s.len()
{
    let i = first_char(s, '{');
    if 0 <= i < s.len() {
        let rest = s.skip(i + 1);
        let j = first_char(rest, '}');
        if 0 <= j < rest.len() { s.take(i) + value(m, rest.take(j)) + meaning(rest.skip(j + 1), m) } else { s }
    } else { s }
}
pub proof fn lemma_blen_take(s: Seq<char>, i: int)
    requires 0 <= i <= s.len()
    ensures blen(s.take(i)) == boff(s, i)
{ lemma_boff_ext(s.take(i), s, i); }
/// what the compiled chunks stand for
spec fn rendered(cs: Seq<Chunk>, m: Vars) -> Seq<char>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else {
        rendered(cs.drop_last(), m) + match cs.last() { Chunk::Raw(t) => t@, Chunk::Var(v) => value(m, v@) }
    }
}
spec fn guess(cs: Seq<Chunk>) -> int
    decreases cs.len()
{
    if cs.len() == 0 { 0 } else { guess(cs.drop_last()) + match cs.last() { Chunk::Raw(t) => blen(t@), Chunk::Var(_) => 40 } }
}
proof fn lemma_guess_mono(cs: Seq<Chunk>, i: int)
    requires 0 <= i <= cs.len()
    ensures 0 <= guess(cs.take(i)) <= guess(cs)
    decreases cs.len()
{
    if cs.len() == 0 { assert(cs.take(i) =~= cs); }
    else {
        match cs.last() { Chunk::Raw(t) => lemma_blen_ge(t@), _ => {} }
        if i < cs.len() { lemma_guess_mono(cs.drop_last(), i); assert(cs.take(i) =~= cs.drop_last().take(i)); }
        else { lemma_guess_mono(cs.drop_last(), i - 1); assert(cs.take(i) =~= cs); }
    }
}
proof fn lemma_push(cs: Seq<Chunk>, c: Chunk, m: Vars)
    ensures
        rendered(cs.push(c), m) == rendered(cs, m) + match c { Chunk::Raw(t) => t@, Chunk::Var(v) => value(m, v@) },
        guess(cs.push(c)) == guess(cs) + match c { Chunk::Raw(t) => blen(t@), Chunk::Var(_) => 40 },
{
    assert(cs.push(c).drop_last() =~= cs);
}
//@item libshpool/src/template.rs :: const VAR_SIZE_GUESS
//@item libshpool/src/template.rs :: struct Template
//@item libshpool/src/template.rs :: enum Chunk
impl Template {
    /// a template stands for what its source text stands for
    pub closed spec fn inv(&self) -> bool { forall|m: Vars| #[trigger] rendered(self.chunks@, m) == meaning(self.src@, m) }
    pub closed spec fn text(&self) -> Seq<char> { self.src@ }

//@fn libshpool/src/template.rs :: impl Template :: new
//@ret r
//@bind CH `let mut ? = vec! [ ]`
//@bind REST `let mut ? = src`
//@cl 1 (q: bool) ensures q == !is_numeric($c1)
//@cl 2 (q: bool) ensures q == (is_alphanumeric($c1) || $c1 == '_')
//@bind GUESS `let mut ? = 0`
//@spec
    requires blen($1@) < 0x80_0000_0000_0000 // 2^55 bytes of source
    ensures
        r is Ok <==> wf($1@),
        r is Ok ==> r->Ok_0.inv() && r->Ok_0.text() == $1@,
//@loop 0
    invariant
        blen($1@) < 0x80_0000_0000_0000,
        wf($REST@) == wf($1@),
        forall|m: Vars| #[trigger] rendered($CH@, m) + meaning($REST@, m) == meaning($1@, m),
        guess($CH@) + 40 * blen($REST@) <= 40 * blen($1@),
    ensures first_char($REST@, '{') == $REST@.len()
    decreases $REST@.len()
//@bind START `while let Some ( ? )`
//@bind END `let ? = rest . find ( '}' )`
//@at loopstart 0
    let ghost r0 = $REST@;
    let ghost c0 = $CH@;
    let ghost i = first_char(r0, '{');
    proof {
        assert(at_byte(r0, $START as int, i));
        assert(at_byte(r0, $START as int + 1, i + 1));
        lemma_boff_mono(r0, 0, i);
        lemma_blen_take(r0, i);
    }
//@at before 0 `let $END`
    let ghost r1 = $REST@;
    let ghost j = first_char(r1, '}');
    proof {
        assert(r1 == r0.skip(i + 1));
        lemma_boff_skip(r0, i + 1, r1.len() as int);
    }
//@at after 0 `let $END`
    proof {
        assert(at_byte(r1, $END as int, j));
        assert(at_byte(r1, $END as int + 1, j + 1));
        lemma_boff_mono(r1, 0, j);
    }
//@at loopend 0
    proof {
        lemma_boff_skip(r1, j + 1, $REST@.len() as int);
        let c1 = $CH@.drop_last();
        assert($CH@ =~= c1.push($CH@.last()));
        if i > 0 { assert(c1 =~= c0.push(c1.last())); } else { assert(c1 =~= c0); }
        assert forall|m: Vars| #[trigger] rendered($CH@, m) + meaning($REST@, m) == meaning($1@, m) by {
            lemma_push(c1, $CH@.last(), m);
            if i > 0 { lemma_push(c0, c1.last(), m); }
            assert(rendered(c0, m) + meaning(r0, m) == meaning($1@, m));
            assert(rendered(c1, m) =~= rendered(c0, m) + r0.take(i));
            assert(rendered($CH@, m) + meaning($REST@, m) =~= rendered(c0, m) + meaning(r0, m));
        }
        lemma_push(c1, $CH@.last(), Map::empty());
        if i > 0 { lemma_push(c0, c1.last(), Map::empty()); }
    }
//@at loopafter 0
    let ghost c2 = $CH@;
    let ghost r2 = $REST@;
//@at loopbefore 1
    proof {
        lemma_blen_ge(r2);
        assert($CH@.take($CH@.len() as int) =~= $CH@);
        if r2.len() > 0 { 
            assert forall|m: Vars| #[trigger] rendered($CH@, m) == meaning($1@, m) by {
                lemma_push(c2, $CH@.last(), m); assert(rendered(c2, m) + meaning(r2, m) == meaning($1@, m));
            }
            lemma_push(c2, $CH@.last(), Map::empty());
        } else {
            assert forall|m: Vars| #[trigger] rendered($CH@, m) == meaning($1@, m) by {
                assert(rendered(c2, m) + meaning(r2, m) == meaning($1@, m)); assert(rendered(c2, m) + meaning(r2, m) =~= rendered(c2, m));
            }
        }
    }
//@loop 1 iter=it
    invariant
        blen($1@) < 0x80_0000_0000_0000,
        guess($CH@) <= 40 * blen($1@),
        it.seq().len() == $CH@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == $CH@[i],
        $GUESS == guess($CH@.take(it.index() as int)),
//@at loopstart 1
    proof {
        let n = it.index() as int;
        lemma_guess_mono($CH@, n + 1);
        assert(*it.seq()[n] == $CH@[n]);
        assert($CH@.take(n + 1).drop_last() =~= $CH@.take(n));
        assert($CH@.take(n + 1).last() == $CH@[n]);
        assert(*it.seq()[n] == $CH@[n]);
    }
//@endfn

//@fn libshpool/src/template.rs :: impl Template :: source
//@ret r
//@spec
    ensures r@ == self.text()
//@endfn

//@fn libshpool/src/template.rs :: impl Template :: apply
//@ret r
//@spec
    requires self.inv()
    // instantiating the text again from its source gives exactly this
    ensures r@ == meaning(self.text(), $1.texts())
//@cl 0 (q: &str) ensures q@ == $c1@
//@bind RES `let mut ?`
//@loop 0 iter=it
    invariant
        it.seq().len() == self.chunks@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.chunks@[i],
        $RES@ == rendered(self.chunks@.take(it.index() as int), $1.texts()),
//@at loopstart 0
    proof {
        let n = it.index() as int;
        assert(*it.seq()[n] == self.chunks@[n]);
        assert(self.chunks@.take(n + 1).drop_last() =~= self.chunks@.take(n));
        assert(self.chunks@.take(n + 1).last() == self.chunks@[n]);
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
    }
//@at loopafter 0
    proof { assert(self.chunks@.take(self.chunks@.len() as int) =~= self.chunks@); assert(rendered(self.chunks@, $1.texts()) == meaning(self.src@, $1.texts())); }
//@endfn
}
}
fn main() {}
