//@include prelude/std.rs
//@include prelude/trie.rs

verus! {

#[derive(Copy, Clone, PartialEq, Eq)]
//@item libshpool/src/daemon/keybindings.rs :: enum Action
//@item libshpool/src/daemon/keybindings.rs :: enum BindingResult
#[derive(Copy, Clone)]
//@item libshpool/src/daemon/keybindings.rs :: struct ChordAtom
pub enum Token { Key(String), Dash }
//@item libshpool/src/daemon/keybindings.rs :: struct Chord
//@item libshpool/src/daemon/keybindings.rs :: struct Sequence
//@item libshpool/src/daemon/keybindings.rs :: struct Bindings

impl TrieTab<ChordAtom> for Vec<Option<usize>> {
    open spec fn tab_wf(&self) -> bool { self@.len() == 256 }
    open spec fn find(&self, i: ChordAtom) -> Option<usize> { self@[i.0 as int] }
//@fn libshpool/src/daemon/keybindings.rs :: impl TrieTab < ChordAtom > for Vec :: new
//@ret r
//@endfn
//@fn libshpool/src/daemon/keybindings.rs :: impl TrieTab < ChordAtom > for Vec :: get
//@ret r
//@endfn
//@fn libshpool/src/daemon/keybindings.rs :: impl TrieTab < ChordAtom > for Vec :: set
//@endfn
}

// ---------------------------------------------------------------- spec
}
//@include prelude/keys.rs
verus! {
impl Bindings {
    /// the chord number of a key code
    pub open spec fn atom(&self, b: u8) -> Option<ChordAtom> { self.chords.at(seq![b]) }
    pub open spec fn atoms(&self, s: Seq<u8>) -> Seq<ChordAtom> { s.map_values(|b: u8| self.atom(b)->0) }
    pub open spec fn coded(&self, s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> self.atom(#[trigger] s[i]) is Some }

    /// the tries represent the table
    #[verifier::opaque]
    pub open spec fn represents(&self, t: Table) -> bool {
        &&& self.chords.wf() && self.sequences.wf()
        &&& forall|s: Seq<u8>| s.len() > 1 ==> !#[trigger] self.chords.known(s)
        &&& forall|b: u8| self.chords.known(seq![b]) ==> (#[trigger] self.atom(b)) is Some
        &&& forall|a: u8, b: u8| (#[trigger] self.atom(a)) is Some && (#[trigger] self.atom(b)) is Some && self.atom(a)->0 == self.atom(b)->0 ==> a == b
        &&& forall|i: int| 0 <= i < t.len() ==> self.coded((#[trigger] t[i]).0)
        &&& forall|s: Seq<u8>| #[trigger] self.coded(s) ==> self.sequences.at(self.atoms(s)) == bound(t, s)
        &&& forall|s: Seq<u8>| #[trigger] self.coded(s) ==> (self.sequences.known(self.atoms(s)) <==> s.len() == 0 || begun(t, s))
    }
    #[verifier::opaque]
    pub open spec fn standing(&self, t: Table, typed: Seq<u8>) -> bool {
        &&& self.represents(t)
        &&& self.chords_cursor is Start
        &&& self.coded(typed)
        &&& self.sequences.stands(self.sequences_cursor, self.atoms(typed))
        &&& typed.len() > 0 ==> bound(t, typed) is None && begun(t, typed)
    }

//@fn libshpool/src/daemon/keybindings.rs :: impl Bindings :: transition
//@ret r
//@spec
    requires exists|t: Table, typed: Seq<u8>| old(self).standing(t, typed)
    ensures
        forall|t: Table, typed: Seq<u8>| #[trigger] old(self).standing(t, typed) ==>
            r == press(t, typed, $1).0 && final(self).standing(t, press(t, typed, $1).1)
//@at start
    let ghost pre = *self;
    proof {
        let w = choose|w: (Table, Seq<u8>)| self.standing(w.0, w.1);
        assert(self.standing(w.0, w.1)) by {
            let (t, typed) = choose|t: Table, typed: Seq<u8>| self.standing(t, typed);
            assert(self.standing((t, typed).0, (t, typed).1));
        }
        lemma_ready(self, w.0, w.1);
        assert(self.chords.stands(TrieCursor::Start, Seq::<u8>::empty()));
        assert(Seq::<u8>::empty().push($1) =~= seq![$1]);
    }
//@at tail
    proof {
        assert(step(&pre, self, $1, __r));
        assert forall|t: Table, typed: Seq<u8>| #[trigger] pre.standing(t, typed) implies
            __r == press(t, typed, $1).0 && self.standing(t, press(t, typed, $1).1) by {
            lemma_press(&pre, self, __r, t, typed, $1);
        }
    }
//@endfn
}

pub open spec fn ready(k: &Bindings) -> bool {
    &&& k.chords.wf() && k.sequences.wf()
    &&& k.chords_cursor is Start
    &&& forall|s: Seq<u8>| s.len() > 1 ==> !#[trigger] k.chords.known(s)
    &&& forall|b: u8| k.chords.known(seq![b]) ==> (#[trigger] k.atom(b)) is Some
    &&& exists|q: Seq<ChordAtom>| #[trigger] k.sequences.stands(k.sequences_cursor, q)
}
pub open spec fn step(pre: &Bindings, post: &Bindings, b: u8, r: BindingResult) -> bool {
    &&& post.chords == pre.chords && post.sequences == pre.sequences && post.chords_cursor is Start
    &&& match pre.atom(b) {
        None => r is NoMatch && post.sequences_cursor is Start,
        Some(a) => forall|q: Seq<ChordAtom>| #[trigger] pre.sequences.stands(pre.sequences_cursor, q) ==> {
            let q2 = q.push(a);
            if !pre.sequences.known(q2) { r is NoMatch && post.sequences_cursor is Start }
            else if pre.sequences.at(q2) is Some { r == BindingResult::Match(pre.sequences.at(q2)->0) && post.sequences_cursor is Start }
            else { r is Partial && post.sequences.stands(post.sequences_cursor, q2) }
        },
    }
}
pub proof fn lemma_ready(k: &Bindings, t: Table, typed: Seq<u8>)
    requires k.standing(t, typed)
    ensures ready(k)
{ reveal(Bindings::standing); reveal(Bindings::represents); }

pub proof fn lemma_press(pre: &Bindings, post: &Bindings, r: BindingResult, t: Table, typed: Seq<u8>, b: u8)
    requires pre.standing(t, typed), step(pre, post, b, r)
    ensures r == press(t, typed, b).0, post.standing(t, press(t, typed, b).1)
{
    lemma_press_pre(pre, t, typed, b);
    reveal(Bindings::standing); reveal(Bindings::represents);
    let s = typed.push(b);
    assert(post.atoms(Seq::empty()) =~= Seq::empty());
    if pre.atom(b) is Some {
        assert(pre.coded(s));
        assert(post.coded(s)) by { assert forall|i: int| 0 <= i < s.len() implies post.atom(#[trigger] s[i]) is Some by { assert(pre.atom(s[i]) is Some); } }
        assert(post.atoms(s) =~= pre.atoms(s));
        assert(pre.sequences.stands(pre.sequences_cursor, pre.atoms(typed)));
        assert(pre.sequences.at(pre.atoms(s)) == bound(t, s));
    }
    assert forall|a: u8| post.atom(a) == pre.atom(a) by {}
    assert forall|q: Seq<u8>| #[trigger] post.coded(q) implies pre.coded(q) && post.atoms(q) == pre.atoms(q) by {
        assert forall|i: int| 0 <= i < q.len() implies pre.atom(#[trigger] q[i]) is Some by { assert(post.atom(q[i]) is Some); }
        assert(post.atoms(q) =~= pre.atoms(q));
    }
    assert forall|i: int| 0 <= i < t.len() implies post.coded((#[trigger] t[i]).0) by {
        assert(pre.coded(t[i].0));
        assert forall|j: int| 0 <= j < t[i].0.len() implies post.atom(#[trigger] t[i].0[j]) is Some by { assert(pre.atom(t[i].0[j]) is Some); }
    }
    assert(post.represents(t));
}

pub proof fn lemma_bound_begun(t: Table, s: Seq<u8>)
    ensures bound(t, s) is Some ==> begun(t, s)
    decreases t.len()
{
    if t.len() > 0 {
        if t.last().0 == s { assert(s.is_prefix_of(t[t.len() - 1].0)); }
        else {
            lemma_bound_begun(t.drop_last(), s);
            if begun(t.drop_last(), s) {
                let i = choose|i: int| 0 <= i < t.drop_last().len() && s.is_prefix_of((#[trigger] t.drop_last()[i]).0);
                assert(t[i] == t.drop_last()[i]);
            }
        }
    }
}
pub proof fn lemma_press_pre(k: &Bindings, t: Table, typed: Seq<u8>, b: u8)
    requires k.standing(t, typed)
    ensures
            k.coded(typed.push(b)) <==> k.atom(b) is Some,
            k.atom(b) is Some ==> k.atoms(typed.push(b)) == k.atoms(typed).push(k.atom(b)->0),
            k.atom(b) is None ==> bound(t, typed.push(b)) is None && !begun(t, typed.push(b)),
            bound(t, typed.push(b)) is Some ==> begun(t, typed.push(b))
{
    reveal(Bindings::standing); reveal(Bindings::represents);
    let s = typed.push(b);
    assert(s[typed.len() as int] == b);
    if k.atom(b) is Some {
        assert forall|i: int| 0 <= i < s.len() implies k.atom(#[trigger] s[i]) is Some by { if i < typed.len() { assert(s[i] == typed[i]); } }
        assert(k.atoms(s) =~= k.atoms(typed).push(k.atom(b)->0));
    }
    lemma_bound_begun(t, s);
    if begun(t, s) {
        let i = choose|i: int| 0 <= i < t.len() && s.is_prefix_of((#[trigger] t[i]).0);
        assert(k.coded(t[i].0));
        assert(t[i].0[typed.len() as int] == b);
    }
}

// ---------------------------------------------------------------- the binding language
pub enum Tk { Key(Seq<char>), Dash }
impl Token {
    pub open spec fn tk(&self) -> Tk { match self { Token::Key(k) => Tk::Key(k@), Token::Dash => Tk::Dash } }
}
pub open spec fn tks(s: Seq<Token>) -> Seq<Tk> { s.map_values(|t: Token| t.tk()) }
pub open spec fn keys_of(c: Chord) -> Seq<Seq<char>> { c.0@.map_values(|k: String| k@) }
pub open spec fn chords_view(s: Seq<Chord>) -> Seq<Seq<Seq<char>>> { s.map_values(|c: Chord| keys_of(c)) }

pub open spec fn word_ctrl() -> Seq<char> { seq!['C', 't', 'r', 'l'] }
pub open spec fn word_space() -> Seq<char> { seq!['S', 'p', 'a', 'c', 'e'] }
pub open spec fn is_word(s: Seq<char>) -> bool { s == word_ctrl() || s == word_space() }
pub open spec fn word_start(s: Seq<char>) -> bool { s.is_prefix_of(word_ctrl()) || s.is_prefix_of(word_space()) }
/// keys written as one character
pub open spec fn plain_key(c: char) -> bool {
    ('a' <= c <= 'z') || ('0' <= c <= '9') || c == '\\' || c == '[' || c == ']' || c == '@' || c == '^' || c == '_' || c == '?'
}
pub open spec fn single(c: char) -> Option<Tk> {
    if c == '-' { Some(Tk::Dash) } else if plain_key(c) { Some(Tk::Key(seq![c])) } else { None }
}
pub open spec fn singles(s: Seq<char>) -> Option<Seq<Tk>>
    decreases s.len()
{
    if s.len() == 0 { Some(Seq::empty()) }
    else { match (singles(s.drop_last()), single(s.last())) { (Some(a), Some(b)) => Some(a.push(b)), _ => None } }
}
/// (tokens, letters of a word still open) after the first n characters
pub open spec fn lexed(s: Seq<char>, n: int) -> Option<(Seq<Tk>, Seq<char>)>
    decreases n
{
    if n <= 0 { Some((Seq::empty(), Seq::empty())) }
    else {
        match lexed(s, n - 1) {
            None => None,
            Some((out, w)) => {
                let c = s[n - 1];
                if vstd::std_specs::char::is_white_space(c) { Some((out, w)) }
                else if is_word(w.push(c)) { Some((out.push(Tk::Key(w.push(c))), Seq::empty())) }
                else if word_start(w.push(c)) { Some((out, w.push(c))) }
                else { match singles(w.push(c)) { Some(x) => Some((out + x, Seq::empty())), None => None } }
            }
        }
    }
}
pub open spec fn lex(s: Seq<char>) -> Option<Seq<Tk>> {
    match lexed(s, s.len() as int) { Some((out, w)) => if w.len() == 0 { Some(out) } else { None }, None => None }
}
/// keys joined by dashes form a chord
pub open spec fn chorded(t: Seq<Tk>) -> Option<Seq<Seq<Seq<char>>>>
    decreases t.len()
{
    if t.len() == 0 { Some(Seq::empty()) }
    else {
        match t.last() {
            Tk::Dash => None,
            Tk::Key(k) =>
                if t.len() >= 2 && t[t.len() - 2] is Dash {
                    match chorded(t.take(t.len() - 2)) {
                        Some(cs) => if cs.len() == 0 { None } else { Some(cs.drop_last().push(cs.last().push(k))) },
                        None => None,
                    }
                } else {
                    match chorded(t.drop_last()) { Some(cs) => Some(cs.push(seq![k])), None => None }
                },
        }
    }
}
/// a key other than Ctrl
pub open spec fn is_special(c: char) -> bool { c == '\\' || c == '[' || c == ']' || c == '@' || c == '^' || c == '_' || c == '?' }
pub open spec fn alnum36(c: char) -> bool { ('0' <= c <= '9') || ('a' <= c <= 'z') || ('A' <= c <= 'Z') }
pub open spec fn sym(k: Seq<char>) -> bool { k == word_space() || (k.len() == 1 && (is_special(k[0]) || alnum36(k[0]))) }
/// what a terminal sends for a key held together with Ctrl
pub open spec fn ctrl_code(k: Seq<char>) -> Option<u8> {
    if k == word_space() { Some(0u8) }
    else if k.len() != 1 { None }
    else {
        let c = k[0];
        if 'a' <= c <= 'z' { Some((c as u8 - 96) as u8) }
        else if c == '@' || c == '2' { Some(0u8) }
        else if c == '[' || c == '3' { Some(27u8) }
        else if c == '\\' || c == '4' { Some(28u8) }
        else if c == ']' || c == '5' { Some(29u8) }
        else if c == '^' || c == '6' { Some(30u8) }
        else if c == '_' || c == '7' { Some(31u8) }
        else if c == '?' || c == '8' || c == '0' { Some(127u8) }
        else { None }
    }
}
/// the byte a terminal sends for a chord, if it is one shpool knows
pub open spec fn code_spec(keys: Seq<Seq<char>>) -> Option<u8> {
    if keys.len() == 1 && sym(keys[0]) { if keys[0] == word_space() { Some(32u8) } else { Some(keys[0][0] as u8) } }
    else if keys.len() == 2 && keys[0] == word_ctrl() && sym(keys[1]) { ctrl_code(keys[1]) }
    else { None }
}
pub open spec fn codes(cs: Seq<Seq<Seq<char>>>) -> Option<Seq<u8>> {
    if forall|i: int| 0 <= i < cs.len() ==> code_spec(#[trigger] cs[i]) is Some { Some(cs.map_values(|c: Seq<Seq<char>>| code_spec(c)->0)) } else { None }
}
/// what a binding text stands for: at least one chord, each with a key code
pub open spec fn meaning(s: Seq<char>) -> Option<Seq<u8>> {
    match lex(s) {
        Some(t) => match chorded(t) { Some(cs) => if cs.len() > 0 { codes(cs) } else { None }, None => None },
        None => None,
    }
}

pub open spec fn dashed(keys: Seq<Seq<char>>) -> Seq<char>
    decreases keys.len()
{
    if keys.len() == 0 { Seq::empty() } else if keys.len() == 1 { keys[0] } else { dashed(keys.drop_last()) + seq!['-'] + keys.last() }
}
#[verifier::external_body]
pub fn byte_len(s: &str) -> (r: usize) ensures r == vstd::utf8::encode_utf8(s@).len() { s.len() }
pub assume_specification[ char::is_digit ](c: char, r: u32) -> (b: bool) ensures r == 36 ==> b == alnum36(c);
/// fmt::Formatter, as far as Chord's Display uses it
pub struct Fmt { pub text: String }
#[verifier::external_body]
pub fn put(f: &mut Fmt, s: String) -> (r: anyhow::Result<()>) ensures final(f).text@ == old(f).text@ + s@, r is Ok { unimplemented!() }
#[verifier::external_body]
pub fn join_dash(v: &Vec<String>) -> (r: String) ensures r@ == dashed(v@.map_values(|k: String| k@)) { v.join("-") }
/// format!("{self}")
pub fn shown(c: &Chord) -> (r: String) ensures r@ == dashed(keys_of(*c))
{
    let mut f = Fmt { text: String::new() };
    let _ = c.fmt(&mut f);
    proof { assert(Seq::<char>::empty() + dashed(keys_of(*c)) =~= dashed(keys_of(*c))); }
    f.text
}
/// String == &str compares the characters
pub axiom fn string_eq() ensures
    <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(), forall|a: String, b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@),
    <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(), forall|a: String, b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
/// a str is its characters
pub axiom fn str_ext() ensures forall|a: &str, b: &str| #[trigger] a@ == #[trigger] b@ ==> a == b;
pub proof fn lemma_words()
    ensures "Ctrl"@ == word_ctrl(), "Space"@ == word_space()
{
    reveal_strlit("Ctrl"); reveal_strlit("Space");
    assert("Ctrl"@ =~= word_ctrl()); assert("Space"@ =~= word_space());
}
pub proof fn lemma_one_byte(s: Seq<char>)
    ensures vstd::utf8::encode_utf8(s).len() == 1 ==> s.len() == 1,
        s.len() == 1 && (s[0] as u32) < 128 ==> vstd::utf8::encode_utf8(s).len() == 1,
{
    broadcast use vstd::utf8::group_utf8_lib;
    if s.len() >= 2 {
        vstd::utf8::lemma_encode_utf8_len_strictly_monotonic(s, 0, 1);
        vstd::utf8::lemma_encode_utf8_len_strictly_monotonic(s, 1, s.len() as int);
        assert(s.take(s.len() as int) =~= s);
    } else if s.len() == 1 {
        if (s[0] as u32) < 128 { vstd::utf8::is_ascii_chars_encode_utf8(s); }
    } else { assert(s =~= Seq::<char>::empty()); }
}

//@item libshpool/src/daemon/keybindings.rs :: const CONTROL_CODES sub `& str` => `&'static str`

pub open spec fn ctrl_text(k: Seq<char>) -> Seq<char> { word_ctrl() + seq!['-'] + k }
pub proof fn lemma_ctrl_lits()
    ensures
        "Ctrl-Space"@ == ctrl_text(word_space()),
        "Ctrl-a"@ == ctrl_text(seq!['a']),
        "Ctrl-b"@ == ctrl_text(seq!['b']),
        "Ctrl-c"@ == ctrl_text(seq!['c']),
        "Ctrl-d"@ == ctrl_text(seq!['d']),
        "Ctrl-e"@ == ctrl_text(seq!['e']),
        "Ctrl-f"@ == ctrl_text(seq!['f']),
        "Ctrl-g"@ == ctrl_text(seq!['g']),
        "Ctrl-h"@ == ctrl_text(seq!['h']),
        "Ctrl-i"@ == ctrl_text(seq!['i']),
        "Ctrl-j"@ == ctrl_text(seq!['j']),
        "Ctrl-k"@ == ctrl_text(seq!['k']),
        "Ctrl-l"@ == ctrl_text(seq!['l']),
        "Ctrl-m"@ == ctrl_text(seq!['m']),
        "Ctrl-n"@ == ctrl_text(seq!['n']),
        "Ctrl-o"@ == ctrl_text(seq!['o']),
        "Ctrl-p"@ == ctrl_text(seq!['p']),
        "Ctrl-q"@ == ctrl_text(seq!['q']),
        "Ctrl-r"@ == ctrl_text(seq!['r']),
        "Ctrl-s"@ == ctrl_text(seq!['s']),
        "Ctrl-t"@ == ctrl_text(seq!['t']),
        "Ctrl-u"@ == ctrl_text(seq!['u']),
        "Ctrl-v"@ == ctrl_text(seq!['v']),
        "Ctrl-w"@ == ctrl_text(seq!['w']),
        "Ctrl-x"@ == ctrl_text(seq!['x']),
        "Ctrl-y"@ == ctrl_text(seq!['y']),
        "Ctrl-z"@ == ctrl_text(seq!['z']),
        "Ctrl-@"@ == ctrl_text(seq!['@']),
        "Ctrl-2"@ == ctrl_text(seq!['2']),
        "Ctrl-["@ == ctrl_text(seq!['[']),
        "Ctrl-3"@ == ctrl_text(seq!['3']),
        "Ctrl-\\"@ == ctrl_text(seq!['\\']),
        "Ctrl-4"@ == ctrl_text(seq!['4']),
        "Ctrl-]"@ == ctrl_text(seq![']']),
        "Ctrl-5"@ == ctrl_text(seq!['5']),
        "Ctrl-^"@ == ctrl_text(seq!['^']),
        "Ctrl-6"@ == ctrl_text(seq!['6']),
        "Ctrl-_"@ == ctrl_text(seq!['_']),
        "Ctrl-7"@ == ctrl_text(seq!['7']),
        "Ctrl-?"@ == ctrl_text(seq!['?']),
        "Ctrl-8"@ == ctrl_text(seq!['8']),
        "Ctrl-0"@ == ctrl_text(seq!['0']),
{
    reveal_strlit("Ctrl-Space"); assert("Ctrl-Space"@ =~= ctrl_text(word_space()));
    reveal_strlit("Ctrl-a"); assert("Ctrl-a"@ =~= ctrl_text(seq!['a']));
    reveal_strlit("Ctrl-b"); assert("Ctrl-b"@ =~= ctrl_text(seq!['b']));
    reveal_strlit("Ctrl-c"); assert("Ctrl-c"@ =~= ctrl_text(seq!['c']));
    reveal_strlit("Ctrl-d"); assert("Ctrl-d"@ =~= ctrl_text(seq!['d']));
    reveal_strlit("Ctrl-e"); assert("Ctrl-e"@ =~= ctrl_text(seq!['e']));
    reveal_strlit("Ctrl-f"); assert("Ctrl-f"@ =~= ctrl_text(seq!['f']));
    reveal_strlit("Ctrl-g"); assert("Ctrl-g"@ =~= ctrl_text(seq!['g']));
    reveal_strlit("Ctrl-h"); assert("Ctrl-h"@ =~= ctrl_text(seq!['h']));
    reveal_strlit("Ctrl-i"); assert("Ctrl-i"@ =~= ctrl_text(seq!['i']));
    reveal_strlit("Ctrl-j"); assert("Ctrl-j"@ =~= ctrl_text(seq!['j']));
    reveal_strlit("Ctrl-k"); assert("Ctrl-k"@ =~= ctrl_text(seq!['k']));
    reveal_strlit("Ctrl-l"); assert("Ctrl-l"@ =~= ctrl_text(seq!['l']));
    reveal_strlit("Ctrl-m"); assert("Ctrl-m"@ =~= ctrl_text(seq!['m']));
    reveal_strlit("Ctrl-n"); assert("Ctrl-n"@ =~= ctrl_text(seq!['n']));
    reveal_strlit("Ctrl-o"); assert("Ctrl-o"@ =~= ctrl_text(seq!['o']));
    reveal_strlit("Ctrl-p"); assert("Ctrl-p"@ =~= ctrl_text(seq!['p']));
    reveal_strlit("Ctrl-q"); assert("Ctrl-q"@ =~= ctrl_text(seq!['q']));
    reveal_strlit("Ctrl-r"); assert("Ctrl-r"@ =~= ctrl_text(seq!['r']));
    reveal_strlit("Ctrl-s"); assert("Ctrl-s"@ =~= ctrl_text(seq!['s']));
    reveal_strlit("Ctrl-t"); assert("Ctrl-t"@ =~= ctrl_text(seq!['t']));
    reveal_strlit("Ctrl-u"); assert("Ctrl-u"@ =~= ctrl_text(seq!['u']));
    reveal_strlit("Ctrl-v"); assert("Ctrl-v"@ =~= ctrl_text(seq!['v']));
    reveal_strlit("Ctrl-w"); assert("Ctrl-w"@ =~= ctrl_text(seq!['w']));
    reveal_strlit("Ctrl-x"); assert("Ctrl-x"@ =~= ctrl_text(seq!['x']));
    reveal_strlit("Ctrl-y"); assert("Ctrl-y"@ =~= ctrl_text(seq!['y']));
    reveal_strlit("Ctrl-z"); assert("Ctrl-z"@ =~= ctrl_text(seq!['z']));
    reveal_strlit("Ctrl-@"); assert("Ctrl-@"@ =~= ctrl_text(seq!['@']));
    reveal_strlit("Ctrl-2"); assert("Ctrl-2"@ =~= ctrl_text(seq!['2']));
    reveal_strlit("Ctrl-["); assert("Ctrl-["@ =~= ctrl_text(seq!['[']));
    reveal_strlit("Ctrl-3"); assert("Ctrl-3"@ =~= ctrl_text(seq!['3']));
    reveal_strlit("Ctrl-\\"); assert("Ctrl-\\"@ =~= ctrl_text(seq!['\\']));
    reveal_strlit("Ctrl-4"); assert("Ctrl-4"@ =~= ctrl_text(seq!['4']));
    reveal_strlit("Ctrl-]"); assert("Ctrl-]"@ =~= ctrl_text(seq![']']));
    reveal_strlit("Ctrl-5"); assert("Ctrl-5"@ =~= ctrl_text(seq!['5']));
    reveal_strlit("Ctrl-^"); assert("Ctrl-^"@ =~= ctrl_text(seq!['^']));
    reveal_strlit("Ctrl-6"); assert("Ctrl-6"@ =~= ctrl_text(seq!['6']));
    reveal_strlit("Ctrl-_"); assert("Ctrl-_"@ =~= ctrl_text(seq!['_']));
    reveal_strlit("Ctrl-7"); assert("Ctrl-7"@ =~= ctrl_text(seq!['7']));
    reveal_strlit("Ctrl-?"); assert("Ctrl-?"@ =~= ctrl_text(seq!['?']));
    reveal_strlit("Ctrl-8"); assert("Ctrl-8"@ =~= ctrl_text(seq!['8']));
    reveal_strlit("Ctrl-0"); assert("Ctrl-0"@ =~= ctrl_text(seq!['0']));
}
pub proof fn lemma_ctrl_inj(a: Seq<char>, b: Seq<char>)
    requires ctrl_text(a) == ctrl_text(b)
    ensures a == b
{ assert(ctrl_text(a).skip(5) =~= a); assert(ctrl_text(b).skip(5) =~= b); }
/// every entry of the table is right, and every key with a control code is in it
pub open spec fn entry_ok(e: (&str, u8)) -> bool { exists|k: Seq<char>| e.0@ == #[trigger] ctrl_text(k) && ctrl_code(k) == Some(e.1) }
pub proof fn lemma_table(k: Seq<char>)
    ensures
        forall|i: int| 0 <= i < CONTROL_CODES@.len() ==> entry_ok(#[trigger] CONTROL_CODES@[i]),
        ctrl_code(k) is Some ==> exists|i: int| 0 <= i < CONTROL_CODES@.len() && (#[trigger] CONTROL_CODES@[i]).0@ == ctrl_text(k),
{
    lemma_ctrl_lits();
    assert(CONTROL_CODES@.len() == 42);
    let e0 = CONTROL_CODES@[0]; assert(entry_ok(e0));
    let e1 = CONTROL_CODES@[1]; assert(entry_ok(e1));
    let e2 = CONTROL_CODES@[2]; assert(entry_ok(e2));
    let e3 = CONTROL_CODES@[3]; assert(entry_ok(e3));
    let e4 = CONTROL_CODES@[4]; assert(entry_ok(e4));
    let e5 = CONTROL_CODES@[5]; assert(entry_ok(e5));
    let e6 = CONTROL_CODES@[6]; assert(entry_ok(e6));
    let e7 = CONTROL_CODES@[7]; assert(entry_ok(e7));
    let e8 = CONTROL_CODES@[8]; assert(entry_ok(e8));
    let e9 = CONTROL_CODES@[9]; assert(entry_ok(e9));
    let e10 = CONTROL_CODES@[10]; assert(entry_ok(e10));
    let e11 = CONTROL_CODES@[11]; assert(entry_ok(e11));
    let e12 = CONTROL_CODES@[12]; assert(entry_ok(e12));
    let e13 = CONTROL_CODES@[13]; assert(entry_ok(e13));
    let e14 = CONTROL_CODES@[14]; assert(entry_ok(e14));
    let e15 = CONTROL_CODES@[15]; assert(entry_ok(e15));
    let e16 = CONTROL_CODES@[16]; assert(entry_ok(e16));
    let e17 = CONTROL_CODES@[17]; assert(entry_ok(e17));
    let e18 = CONTROL_CODES@[18]; assert(entry_ok(e18));
    let e19 = CONTROL_CODES@[19]; assert(entry_ok(e19));
    let e20 = CONTROL_CODES@[20]; assert(entry_ok(e20));
    let e21 = CONTROL_CODES@[21]; assert(entry_ok(e21));
    let e22 = CONTROL_CODES@[22]; assert(entry_ok(e22));
    let e23 = CONTROL_CODES@[23]; assert(entry_ok(e23));
    let e24 = CONTROL_CODES@[24]; assert(entry_ok(e24));
    let e25 = CONTROL_CODES@[25]; assert(entry_ok(e25));
    let e26 = CONTROL_CODES@[26]; assert(entry_ok(e26));
    let e27 = CONTROL_CODES@[27]; assert(entry_ok(e27));
    let e28 = CONTROL_CODES@[28]; assert(entry_ok(e28));
    let e29 = CONTROL_CODES@[29]; assert(entry_ok(e29));
    let e30 = CONTROL_CODES@[30]; assert(entry_ok(e30));
    let e31 = CONTROL_CODES@[31]; assert(entry_ok(e31));
    let e32 = CONTROL_CODES@[32]; assert(entry_ok(e32));
    let e33 = CONTROL_CODES@[33]; assert(entry_ok(e33));
    let e34 = CONTROL_CODES@[34]; assert(entry_ok(e34));
    let e35 = CONTROL_CODES@[35]; assert(entry_ok(e35));
    let e36 = CONTROL_CODES@[36]; assert(entry_ok(e36));
    let e37 = CONTROL_CODES@[37]; assert(entry_ok(e37));
    let e38 = CONTROL_CODES@[38]; assert(entry_ok(e38));
    let e39 = CONTROL_CODES@[39]; assert(entry_ok(e39));
    let e40 = CONTROL_CODES@[40]; assert(entry_ok(e40));
    let e41 = CONTROL_CODES@[41]; assert(entry_ok(e41));

    if ctrl_code(k) is Some && k.len() == 1 { assert(k =~= seq![k[0]]); }
}
impl Chord {
//@fn libshpool/src/daemon/keybindings.rs :: for Chord :: fmt
//@sub `fmt :: Formatter < '_ >` => `Fmt`
//@sub `fmt :: Result` => `anyhow::Result<()>`
//@sub `write ! ( f , "{}" , self . 0 . join ( "-" ) )` => `put(f, join_dash(&self.0))`
//@ret r
//@spec
    ensures final($1).text@ == old($1).text@ + dashed(keys_of(*self))
//@endfn
//@fn libshpool/src/daemon/keybindings.rs :: impl Chord :: is_ctrl
//@ret r
//@spec
    ensures r == ($1@ == word_ctrl())
//@at start
    proof { lemma_words(); }
//@endfn
//@fn libshpool/src/daemon/keybindings.rs :: impl Chord :: is_sym
//@sub `key . len ( )` => `byte_len ( key )`
//@ret r
//@spec
    ensures r == sym($1@)
//@at start
    proof {
        lemma_words(); lemma_one_byte($1@); str_ext();
        reveal_strlit("\\"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("@"); reveal_strlit("^"); reveal_strlit("_"); reveal_strlit("?");
        assert("\\"@ =~= seq!['\\']); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert("@"@ =~= seq!['@']);
        assert("^"@ =~= seq!['^']); assert("_"@ =~= seq!['_']); assert("?"@ =~= seq!['?']);
        assert($1@.len() == 1 ==> $1@ =~= seq![$1@[0]]);
    }
//@endfn
//@fn libshpool/src/daemon/keybindings.rs :: impl Chord :: is_key
//@ret r
//@spec
    ensures r == ($1@ == word_ctrl() || sym($1@))
//@endfn
//@fn libshpool/src/daemon/keybindings.rs :: impl Chord :: check_valid
//@ret r
//@spec
    ensures (r is Ok) == ({
        let k = keys_of(*self);
        ||| k.len() == 1 && sym(k[0])
        ||| k.len() == 2 && k[0] == word_ctrl() && sym(k[1])
    })
//@loop 0 iter=it
    invariant
        it.seq().len() == self.0@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.0@[i],
        forall|i: int| 0 <= i < it.index() ==> (#[trigger] self.0@[i])@ == word_ctrl() || sym(self.0@[i]@),
//@at loopstart 0
    let ghost n = it.index() as int;
    proof { assert(keys_of(*self)[n] == self.0@[n]@); assert(*it.seq()[n] == self.0@[n]); }
//@at start
    proof { assert(!sym(word_ctrl())); }
//@endfn
//@fn libshpool/src/daemon/keybindings.rs :: impl Chord :: key_code
//@sub `format ! ( "{self}" )` => `shown(self)`
//@ret r
//@bind CC `let ? = shown`
//@spec
    ensures (r is Ok) == (code_spec(keys_of(*self)) is Some), r is Ok ==> r->Ok_0 == code_spec(keys_of(*self))->0
//@at start
    proof { lemma_words(); string_eq(); str_ext(); }
    let ghost ks = keys_of(*self);
    proof { if self.0@.len() > 0 { assert(ks[0] == self.0@[0]@); } if self.0@.len() > 1 { assert(ks[1] == self.0@[1]@); } }
//@at loopbefore 0
    proof {
        assert(ks.drop_last() =~= seq![ks[0]]);
        reveal_with_fuel(dashed, 3);
        assert(dashed(ks) =~= ctrl_text(ks[1]));
        lemma_table(ks[1]);
    }
//@loop 0 iter=it
    invariant
        it.seq().len() == CONTROL_CODES@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == CONTROL_CODES@[i],
        forall|i: int| 0 <= i < it.index() ==> (#[trigger] CONTROL_CODES@[i]).0@ != ctrl_text(ks[1]),
        forall|i: int| 0 <= i < CONTROL_CODES@.len() ==> entry_ok(#[trigger] CONTROL_CODES@[i]),
        ks == keys_of(*self), ks.len() == 2, ks[0] == word_ctrl(), sym(ks[1]), $CC@ == ctrl_text(ks[1]),
        <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(), forall|a: String, b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@),
        <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec(), forall|a: String, b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@),
//@at loopstart 0
    proof {
        let n = it.index() as int;
        assert(*it.seq()[n] == CONTROL_CODES@[n]);
        let e = CONTROL_CODES@[n];
        assert(entry_ok(e));
        let k = choose|k: Seq<char>| e.0@ == #[trigger] ctrl_text(k) && ctrl_code(k) == Some(e.1);
        if e.0@ == ctrl_text(ks[1]) { lemma_ctrl_inj(k, ks[1]); }
    }
//@endfn
}

pub proof fn lemma_bad_dash(t: Seq<Tk>, i: int)
    requires 0 <= i < t.len(), t[i] is Dash, i == 0 || t[i - 1] is Dash
    ensures chorded(t) is None
    decreases t.len()
{
    let n = t.len() as int;
    reveal_with_fuel(chorded, 3);
    if i < n - 1 {
        if n >= 2 && t[n - 2] is Dash { if i < n - 2 { lemma_bad_dash(t.take(n - 2), i); } }
        else { lemma_bad_dash(t.drop_last(), i); }
    }
}

//@fn libshpool/src/daemon/keybindings.rs :: - :: parse
//@sub `< T : IntoIterator < Item = Token > >` => ``
//@sub `tokens : T` => `tokens : Vec<Token>`
//@ret r
//@bind CHORDS 0 `let mut ? = vec ! [ ]`
//@bind KEYS 1 `let mut ? = vec ! [ ]`
//@bind DASH `let mut ? = true`
//@spec
    ensures
        match chorded(tks($1@)) {
            Some(cs) => if cs.len() > 0 { r is Ok && chords_view(r->Ok_0.0@) == cs } else { r is Err },
            None => r is Err,
        }
//@loop 0 iter=it
    invariant
        it.seq() == $1@,
        ({
            let n = it.index() as int;
            let t = tks($1@);
            let c = chords_view($CHORDS@);
            let k = keys_of(Chord($KEYS));
            if $DASH {
                if n == 0 { $CHORDS@.len() == 0 && $KEYS@.len() == 0 }
                else { t[n - 1] is Dash && chorded(t.take(n - 1)) == Some(c.push(k)) && $KEYS@.len() > 0 }
            } else {
                n > 0 && t[n - 1] is Key && chorded(t.take(n)) == Some(c.push(k)) && $KEYS@.len() > 0
            }
        }),
//@at loopstart 0
    let ghost n = it.index() as int;
    let ghost t = tks($1@);
    let ghost k0 = keys_of(Chord($KEYS));
    let ghost c0 = chords_view($CHORDS@);
    proof {
        assert(t[n] == $1@[n].tk());
        assert(t.take(n + 1).drop_last() =~= t.take(n));
        if n > 0 { assert(t.take(n + 1).take(n - 1) =~= t.take(n - 1)); assert(t.take(n + 1)[n - 1] == t[n - 1]); }
        if t[n] is Dash && $DASH { lemma_bad_dash(t, n); }
    }
//@at loopend 0
    proof {
        let k1 = keys_of(Chord($KEYS));
        let c1 = chords_view($CHORDS@);
        if t[n] is Key {
            if n > 0 && t[n - 1] is Dash {
                assert(k1 =~= k0.push(t[n]->Key_0));
                assert(c1 =~= c0);
                assert(c0.push(k0).drop_last() =~= c0);
                assert(c1.push(k1) =~= c0.push(k0).drop_last().push(c0.push(k0).last().push(t[n]->Key_0)));
            } else if n > 0 {
                assert(k1 =~= seq![t[n]->Key_0]);
                assert(c1 =~= c0.push(k0));
            } else {
                assert(k1 =~= seq![t[n]->Key_0]);
                assert(c1.push(k1) =~= seq![seq![t[n]->Key_0]]);
                assert(chorded(t.take(0)) == Some(Seq::<Seq<Seq<char>>>::empty()));
            }
        } else {
            assert(c1 =~= c0); assert(k1 =~= k0);
        }
    }
//@at loopafter 0
    proof {
        let t = tks($1@);
        assert(t.take($1@.len() as int) =~= t);
        assert(t.take(t.len() as int) =~= t);
    }
    let ghost c9 = chords_view($CHORDS@);
    let ghost k9 = keys_of(Chord($KEYS));
//@at tail
    proof { assert(chords_view($CHORDS@) =~= c9.push(k9)); }
//@endfn

#[verifier::external_body]
pub fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { s.chars().collect() }
#[verifier::external_body]
pub fn string_of(s: &Vec<char>) -> (r: String) ensures r@ == s@ { s.iter().collect() }
/// String::from(x) for x: &str or char
pub trait Text: Sized { spec fn text(self) -> Seq<char>; fn mk(self) -> (r: String) ensures r@ == self.text(); }
impl Text for &str { open spec fn text(self) -> Seq<char> { self@ } #[verifier::external_body] fn mk(self) -> String { String::from(self) } }
impl Text for char { open spec fn text(self) -> Seq<char> { seq![self] } #[verifier::external_body] fn mk(self) -> String { String::from(self) } }
pub fn string_from<T: Text>(t: T) -> (r: String) ensures r@ == t.text() { t.mk() }

pub struct Lexer { pub words_trie: Trie<char, (), HashMap<char, usize>> }
impl Lexer {
    pub open spec fn ok(&self) -> bool {
        &&& self.words_trie.wf()
        &&& forall|s: Seq<char>| (#[trigger] self.words_trie.at(s)) is Some <==> is_word(s)
        &&& forall|s: Seq<char>| (#[trigger] self.words_trie.known(s)) <==> word_start(s)
    }
//@fn libshpool/src/daemon/keybindings.rs :: impl Lexer :: new
//@sub `word . chars ( )` => `chars_of ( word )`
//@ret r
//@bind WORDS `let ? = vec !`
//@bind T `let mut ? = Trie`
//@spec
    ensures r.ok()
//@at start
    proof { reveal_strlit("Ctrl"); reveal_strlit("Space"); }
//@at loopbefore 0
    let ghost ws = $WORDS@;
    proof {
        assert(ws[0]@ =~= word_ctrl()); assert(ws[1]@ =~= word_space());
    }
//@loop 0 iter=it
    invariant
        it.seq() == ws, ws.len() == 2, ws[0]@ == word_ctrl(), ws[1]@ == word_space(),
        $T.wf(),
        forall|s: Seq<char>| (#[trigger] $T.at(s)) is Some <==> (it.index() > 0 && s == word_ctrl()) || (it.index() > 1 && s == word_space()),
        forall|s: Seq<char>| (#[trigger] $T.known(s)) <==> s.len() == 0 || (it.index() > 0 && s.is_prefix_of(word_ctrl())) || (it.index() > 1 && s.is_prefix_of(word_space())),
//@endfn
//@fn libshpool/src/daemon/keybindings.rs :: impl Lexer :: tokenize
//@sub `< S : Iterator < Item = char > >` => ``
//@sub `src : S` => `src : Vec<char>`
//@sub `String :: from` => `string_from`
//@sub `word_chars . iter ( ) . collect ( )` => `string_of ( & word_chars )`
//@ret r
//@bind OUT 0 `let mut ? = vec ! [ ]`
//@bind W 1 `let mut ? = vec ! [ ]`
//@bind CUR `let mut ? = TrieCursor`
//@spec
    requires self.ok()
    ensures
        (r is Ok) == (lex($1@) is Some),
        r is Ok ==> tks(r->Ok_0@) == lex($1@)->0,
//@loop 0 iter=it
    invariant
        it.seq() == $1@,
        self.ok(),
        lexed($1@, it.index() as int) == Some((tks($OUT@), $W@)),
        self.words_trie.stands($CUR, $W@),
        !is_word($W@),
//@at loopbefore 1
    let ghost n = it.index() as int;
    let ghost out0 = tks($OUT@);
    let ghost w = $W@;
    proof { assert(w == (lexed($1@, n)->0).1.push($1@[n])); assert(w.take(0) =~= Seq::<char>::empty()); assert(out0 =~= out0 + Seq::<Tk>::empty()); }
//@loop 1 iter=jt
    invariant
        jt.seq() == w.map_values(|c: char| &c) || jt.seq().len() == w.len(),
        forall|i: int| 0 <= i < w.len() ==> *(#[trigger] jt.seq()[i]) == w[i],
        n == it.index(), 0 <= n < $1@.len(),
        lexed($1@, n) is Some, !vstd::std_specs::char::is_white_space($1@[n]), (lexed($1@, n)->0).0 == out0, w == (lexed($1@, n)->0).1.push($1@[n]), !is_word(w), !word_start(w),
        jt.seq().len() == w.len(),
        singles(w.take(jt.index() as int)) is Some,
        tks($OUT@) == out0 + singles(w.take(jt.index() as int))->0,
//@at loopstart 1
    let ghost j = jt.index() as int;
    let ghost out1 = $OUT@;
    let ghost wj = w.take(j + 1);
    proof {
        reveal_strlit("\\"); reveal_strlit("["); reveal_strlit("]"); reveal_strlit("@"); reveal_strlit("^"); reveal_strlit("_"); reveal_strlit("?");
        assert("\\"@ =~= seq!['\\']); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); assert("@"@ =~= seq!['@']);
        assert("^"@ =~= seq!['^']); assert("_"@ =~= seq!['_']); assert("?"@ =~= seq!['?']);
        assert(wj.drop_last() =~= w.take(j)); assert(wj.last() == w[j]);
        if single(w[j]) is None { lemma_singles_none(w, j + 1); lemma_lexed_none($1@, n + 1, $1@.len() as int); }
        assert(singles(wj) == match (singles(w.take(j)), single(w[j])) { (Some(a), Some(b)) => Some(a.push(b)), _ => None });
    }
//@at loopend 1
    proof {
        assert($OUT@ == out1.push($OUT@.last()));
        assert($OUT@.last().tk() == single(w[j])->0);
        assert(tks($OUT@) =~= tks(out1).push(single(w[j])->0));
        assert(tks($OUT@) =~= out0 + singles(wj)->0);
    }
//@at loopafter 1
    proof { assert(w.take(w.len() as int) =~= w); }
//@at loopstart 0
    let ghost out00 = $OUT@;
    let ghost w00 = $W@;
    proof { assert($1@.len() > it.index()); }
//@at loopend 0
    proof {
        let c = $1@[it.index() as int];
        if !vstd::std_specs::char::is_white_space(c) && is_word(w00.push(c)) { assert(tks($OUT@) =~= tks(out00).push(Tk::Key(w00.push(c)))); }
        assert($W@ =~= Seq::<char>::empty() || $W@ == w00 || $W@ == w00.push(c));
    }
//@endfn
}
pub proof fn lemma_singles_none(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), singles(s.take(n)) is None
    ensures singles(s) is None
    decreases s.len()
{
    if n < s.len() { assert(s.drop_last().take(n) =~= s.take(n)); lemma_singles_none(s.drop_last(), n); }
    else { assert(s.take(n) =~= s); }
}
pub proof fn lemma_lexed_none(s: Seq<char>, n: int, m: int)
    requires 0 <= n <= m, lexed(s, n) is None
    ensures lexed(s, m) is None
    decreases m
{ if n < m { lemma_lexed_none(s, n, m - 1); } }

// ---------------------------------------------------------------- Bindings::new
pub type Chords = Trie<u8, ChordAtom, Vec<Option<usize>>>;
pub type Seqs = Trie<ChordAtom, Action, Vec<Option<usize>>>;
pub open spec fn in_tab(tab: Map<u8, ChordAtom>, s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> tab.contains_key(#[trigger] s[i]) }
pub open spec fn to_atoms(tab: Map<u8, ChordAtom>, s: Seq<u8>) -> Seq<ChordAtom> { s.map_values(|b: u8| tab[b]) }
/// the first n chord numbers are given out
pub open spec fn below(q: Seq<ChordAtom>, n: int) -> bool { forall|j: int| 0 <= j < q.len() ==> (#[trigger] q[j]).0 < n }
#[verifier::opaque]
pub open spec fn built(c: Chords, q: Seqs, tab: Map<u8, ChordAtom>, n: int, t: Table) -> bool {
    &&& c.wf() && q.wf()
    &&& 0 <= n <= 255
    &&& forall|b: u8| (#[trigger] c.at(seq![b])) == (if tab.contains_key(b) { Some(tab[b]) } else { None })
    &&& forall|s: Seq<u8>| #[trigger] c.known(s) ==> s.len() == 0 || (s.len() == 1 && tab.contains_key(s[0]))
    &&& forall|b: u8| #[trigger] tab.contains_key(b) ==> tab[b].0 < n
    &&& forall|a: u8, b: u8| #[trigger] tab.contains_key(a) && #[trigger] tab.contains_key(b) && tab[a] == tab[b] ==> a == b
    &&& forall|i: int| 0 <= i < t.len() ==> in_tab(tab, (#[trigger] t[i]).0)
    &&& forall|s: Seq<ChordAtom>| #[trigger] q.known(s) ==> below(s, n)
    &&& forall|s: Seq<u8>| #[trigger] in_tab(tab, s) ==> q.at(to_atoms(tab, s)) == bound(t, s)
    &&& forall|s: Seq<u8>| #[trigger] in_tab(tab, s) ==> (q.known(to_atoms(tab, s)) <==> s.len() == 0 || begun(t, s))
}
pub proof fn lemma_bound_in(t: Table, tab: Map<u8, ChordAtom>, s: Seq<u8>)
    requires forall|i: int| 0 <= i < t.len() ==> in_tab(tab, (#[trigger] t[i]).0)
    ensures begun(t, s) ==> in_tab(tab, s), bound(t, s) is Some ==> in_tab(tab, s)
{
    lemma_bound_begun(t, s);
    if begun(t, s) {
        let i = choose|i: int| 0 <= i < t.len() && s.is_prefix_of((#[trigger] t[i]).0);
        assert forall|k: int| 0 <= k < s.len() implies tab.contains_key(#[trigger] s[k]) by { assert(s[k] == t[i].0[k]); }
    }
}
pub proof fn lemma_new_code(c: Chords, c2: Chords, q: Seqs, tab: Map<u8, ChordAtom>, n: int, t: Table, code: u8)
    requires
        built(c, q, tab, n, t), !tab.contains_key(code), n < 255, c2.wf(),
        forall|s: Seq<u8>| #[trigger] c2.at(s) == (if s == seq![code] { Some(ChordAtom(n as u8)) } else { c.at(s) }),
        forall|s: Seq<u8>| #[trigger] c2.known(s) <==> c.known(s) || s.is_prefix_of(seq![code]),
    ensures built(c2, q, tab.insert(code, ChordAtom(n as u8)), n + 1, t)
{
    reveal(built);
    let tab2 = tab.insert(code, ChordAtom(n as u8));
    assert forall|b: u8| (#[trigger] c2.at(seq![b])) == (if tab2.contains_key(b) { Some(tab2[b]) } else { None }) by {
        assert(seq![b][0] == b);
        assert(c.at(seq![b]) == (if tab.contains_key(b) { Some(tab[b]) } else { None }));
        if b != code { assert(seq![b] != seq![code]) by { assert(seq![code][0] == code); } }
    }
    assert forall|s: Seq<u8>| #[trigger] c2.known(s) implies s.len() == 0 || (s.len() == 1 && tab2.contains_key(s[0])) by {
        if !c.known(s) { assert(s.is_prefix_of(seq![code])); if s.len() == 1 { assert(s[0] == seq![code][0]); } }
    }
    assert forall|i: int| 0 <= i < t.len() implies in_tab(tab2, (#[trigger] t[i]).0) by {
        assert(in_tab(tab, t[i].0));
        assert forall|k: int| 0 <= k < t[i].0.len() implies tab2.contains_key(#[trigger] t[i].0[k]) by { assert(tab.contains_key(t[i].0[k])); }
    }
    assert forall|s: Seq<u8>| #[trigger] in_tab(tab2, s) implies q.at(to_atoms(tab2, s)) == bound(t, s) && (q.known(to_atoms(tab2, s)) <==> s.len() == 0 || begun(t, s)) by {
        lemma_bound_in(t, tab, s);
        if in_tab(tab, s) {
            assert(to_atoms(tab2, s) =~= to_atoms(tab, s)) by { assert forall|k: int| 0 <= k < s.len() implies tab.contains_key(#[trigger] s[k]) by {} }
        } else {
            let k = choose|k: int| 0 <= k < s.len() && !tab.contains_key(#[trigger] s[k]);
            assert(tab2.contains_key(s[k]));
            assert(to_atoms(tab2, s)[k].0 == n);
            assert(!below(to_atoms(tab2, s), n));
            assert(!q.known(to_atoms(tab2, s)));
        }
    }
    assert forall|s: Seq<ChordAtom>| #[trigger] q.known(s) implies below(s, n + 1) by { assert(below(s, n)); }
}
pub proof fn lemma_old_code(c: Chords, c2: Chords, q: Seqs, tab: Map<u8, ChordAtom>, n: int, t: Table, code: u8)
    requires
        built(c, q, tab, n, t), tab.contains_key(code), c2.wf(),
        forall|s: Seq<u8>| #[trigger] c2.at(s) == (if s == seq![code] { Some(tab[code]) } else { c.at(s) }),
        forall|s: Seq<u8>| #[trigger] c2.known(s) <==> c.known(s) || s.is_prefix_of(seq![code]),
    ensures built(c2, q, tab, n, t)
{
    reveal(built);
    assert forall|b: u8| (#[trigger] c2.at(seq![b])) == (if tab.contains_key(b) { Some(tab[b]) } else { None }) by {
        assert(c.at(seq![b]) == (if tab.contains_key(b) { Some(tab[b]) } else { None }));
        if seq![b] == seq![code] { assert(seq![b][0] == seq![code][0]); }
    }
    assert forall|s: Seq<u8>| #[trigger] c2.known(s) implies s.len() == 0 || (s.len() == 1 && tab.contains_key(s[0])) by {
        if !c.known(s) { assert(s.is_prefix_of(seq![code])); if s.len() == 1 { assert(s[0] == seq![code][0]); } }
    }
}
pub fn one(code: u8) -> (r: Vec<u8>) ensures r@ == seq![code] { let r = vec![code]; proof { assert(r@ =~= seq![code]); } r }
pub proof fn lemma_built_wf(c: Chords, q: Seqs, tab: Map<u8, ChordAtom>, n: int, t: Table)
    requires built(c, q, tab, n, t)
    ensures c.wf(), q.wf(), 0 <= n <= 255
{ reveal(built); }
pub proof fn lemma_bound_push(t: Table, s: Seq<u8>, s0: Seq<u8>, a: Action)
    ensures
        bound(t.push((s0, a)), s) == (if s == s0 { Some(a) } else { bound(t, s) }),
        begun(t.push((s0, a)), s) <==> begun(t, s) || s.is_prefix_of(s0)
{
    let t2 = t.push((s0, a));
    assert(t2.drop_last() =~= t);
    assert(t2[t.len() as int].0 == s0);
    if begun(t, s) { let i = choose|i: int| 0 <= i < t.len() && s.is_prefix_of((#[trigger] t[i]).0); assert(t2[i] == t[i]); }
    if begun(t2, s) { let i = choose|i: int| 0 <= i < t2.len() && s.is_prefix_of((#[trigger] t2[i]).0); if i < t.len() { assert(t[i] == t2[i]); } }
}
pub proof fn lemma_atoms_inj(tab: Map<u8, ChordAtom>, s: Seq<u8>, s0: Seq<u8>)
    requires
        in_tab(tab, s), in_tab(tab, s0),
        forall|a: u8, b: u8| #[trigger] tab.contains_key(a) && #[trigger] tab.contains_key(b) && tab[a] == tab[b] ==> a == b,
    ensures
        to_atoms(tab, s) == to_atoms(tab, s0) <==> s == s0,
        to_atoms(tab, s).is_prefix_of(to_atoms(tab, s0)) <==> s.is_prefix_of(s0)
{
    let x = to_atoms(tab, s);
    let a0 = to_atoms(tab, s0);
    if x.is_prefix_of(a0) {
        assert forall|k: int| 0 <= k < s.len() implies s[k] == s0[k] by { assert(x[k] == a0[k]); assert(tab.contains_key(s[k]) && tab.contains_key(s0[k])); }
        assert(s =~= s0.take(s.len() as int));
        if x == a0 { assert(s =~= s0); }
    }
    if s.is_prefix_of(s0) { assert(x =~= a0.take(s.len() as int)); assert(x.is_prefix_of(a0)); }
    if x == a0 { assert(x.is_prefix_of(a0)) by { assert(x =~= a0.take(x.len() as int)); } }
}
pub proof fn lemma_new_binding(c: Chords, q: Seqs, q2: Seqs, tab: Map<u8, ChordAtom>, n: int, t: Table, s0: Seq<u8>, a: Action)
    requires
        built(c, q, tab, n, t), in_tab(tab, s0), q2.wf(),
        forall|s: Seq<ChordAtom>| #[trigger] q2.at(s) == (if s == to_atoms(tab, s0) { Some(a) } else { q.at(s) }),
        forall|s: Seq<ChordAtom>| #[trigger] q2.known(s) <==> q.known(s) || s.is_prefix_of(to_atoms(tab, s0)),
    ensures built(c, q2, tab, n, t.push((s0, a)))
{
    reveal(built);
    let t2 = t.push((s0, a));
    let a0 = to_atoms(tab, s0);
    assert forall|s: Seq<ChordAtom>| #[trigger] q2.known(s) implies below(s, n) by {
        if !q.known(s) { assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]).0 < n by { assert(s[j] == a0[j]); assert(tab.contains_key(s0[j])); } }
    }
    assert forall|s: Seq<u8>| #[trigger] in_tab(tab, s) implies q2.at(to_atoms(tab, s)) == bound(t2, s) && (q2.known(to_atoms(tab, s)) <==> s.len() == 0 || begun(t2, s)) by {
        lemma_atoms_inj(tab, s, s0);
        lemma_bound_push(t, s, s0, a);
        let x = to_atoms(tab, s);
        assert(q.at(x) == bound(t, s));
        assert(q.known(x) <==> s.len() == 0 || begun(t, s));
        assert(q2.at(x) == (if x == a0 { Some(a) } else { q.at(x) }));
        assert(q2.known(x) <==> q.known(x) || x.is_prefix_of(a0));
    }
    assert forall|i: int| 0 <= i < t2.len() implies in_tab(tab, (#[trigger] t2[i]).0) by { if i < t.len() { assert(t2[i] == t[i]); } }
}
pub proof fn lemma_built(r: Bindings, tab: Map<u8, ChordAtom>, n: int, t: Table)
    requires built(r.chords, r.sequences, tab, n, t), r.chords_cursor is Start, r.sequences_cursor is Start
    ensures r.standing(t, Seq::empty())
{
    reveal(built); reveal(Bindings::standing); reveal(Bindings::represents);
    assert forall|b: u8| (#[trigger] r.atom(b)) == (if tab.contains_key(b) { Some(tab[b]) } else { None }) by { assert(r.chords.at(seq![b]) == r.atom(b)); }
    assert forall|b: u8| r.chords.known(seq![b]) implies (#[trigger] r.atom(b)) is Some by { assert(seq![b][0] == b); }
    assert forall|s: Seq<u8>| #[trigger] r.coded(s) implies in_tab(tab, s) && r.atoms(s) == to_atoms(tab, s) by {
        assert forall|i: int| 0 <= i < s.len() implies tab.contains_key(#[trigger] s[i]) by { assert(r.atom(s[i]) is Some); }
        assert forall|i: int| 0 <= i < s.len() implies r.atoms(s)[i] == to_atoms(tab, s)[i] by { assert(r.atom(s[i]) is Some); }
        assert(r.atoms(s) =~= to_atoms(tab, s));
    }
    assert forall|i: int| 0 <= i < t.len() implies r.coded((#[trigger] t[i]).0) by {
        assert(in_tab(tab, t[i].0));
        assert forall|k: int| 0 <= k < t[i].0.len() implies r.atom(#[trigger] t[i].0[k]) is Some by { assert(tab.contains_key(t[i].0[k])); }
    }
    assert(r.atoms(Seq::<u8>::empty()) =~= Seq::<ChordAtom>::empty());
    assert(r.represents(t));
}
/// the bindings' texts all mean something
pub open spec fn meant(b: Seq<(&str, Action)>, n: int) -> bool { forall|i: int| 0 <= i < n ==> meaning((#[trigger] b[i]).0@) is Some }
pub open spec fn table_of(b: Seq<(&str, Action)>, n: int) -> Table { Seq::new(n as nat, |i: int| (meaning(b[i].0@)->0, b[i].1)) }

/// codes of the first n chords
pub open spec fn seq_codes(cs: Seq<Seq<Seq<char>>>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| code_spec(cs[i])->0) }
/// there are only 128 key codes, so the chord numbers never run out
pub open spec fn sized(tab: Map<u8, ChordAtom>, n: int) -> bool {
    &&& tab.dom().len() == n
    &&& forall|b: u8| #[trigger] tab.contains_key(b) ==> b < 128
}
pub proof fn lemma_sized(tab: Map<u8, ChordAtom>, n: int)
    requires sized(tab, n)
    ensures n <= 128
{
    let full = vstd::set_lib::set_int_range(0, 128);
    vstd::set_lib::lemma_int_range(0, 128);
    let img = tab.dom().map(|b: u8| b as int);
    assert(img.subset_of(full)) by { assert forall|x: int| img.contains(x) implies full.contains(x) by { let b = choose|b: u8| tab.dom().contains(b) && b as int == x; assert(tab.contains_key(b)); } }
    vstd::set_lib::lemma_len_subset(img, full);
    vstd::set_lib::lemma_map_size(tab.dom(), img, |b: u8| b as int);
}
pub proof fn lemma_sized2(tab: Map<u8, ChordAtom>, n: int, code: u8)
    requires sized(tab, n)
    ensures code < 128 && !tab.contains_key(code) ==> forall|a: ChordAtom| sized(#[trigger] tab.insert(code, a), n + 1)
{ }
pub proof fn lemma_built_fresh(c: Chords, q: Seqs, tab: Map<u8, ChordAtom>)
    requires
        c.wf(), q.wf(), tab =~= Map::<u8, ChordAtom>::empty(),
        forall|s: Seq<u8>| #[trigger] c.known(s) <==> s.len() == 0, forall|s: Seq<u8>| #[trigger] c.at(s) is None,
        forall|s: Seq<ChordAtom>| #[trigger] q.known(s) <==> s.len() == 0, forall|s: Seq<ChordAtom>| #[trigger] q.at(s) is None,
    ensures built(c, q, tab, 0, Seq::empty())
{
    reveal(built);
}

impl Bindings {
//@fn libshpool/src/daemon/keybindings.rs :: impl Bindings :: new
//@sub `< 'a , B : IntoIterator < Item = ( & 'a str , Action ) > >` => `< 'a >`
//@sub `bindings : B` => `bindings : Vec<(&'a str, Action)>`
//@sub `tokenize ( binding_src . chars ( ) )` => `tokenize ( chars_of ( binding_src ) )`
//@sub `vec ! [ code ] . into_iter ( )` => `one(code)`
//@sub `atoms . into_iter ( )` => `atoms`
//@ret r
//@spec
    ensures
        r is Ok ==> meant($1@, $1@.len() as int) && r->Ok_0.standing(table_of($1@, $1@.len() as int), Seq::empty()),
        r is Err ==> !meant($1@, $1@.len() as int),
//@bind CHORDS 0 `let mut ? = Trie`
//@bind SEQS 1 `let mut ? = Trie`
//@bind CNT `let mut ? : usize`
//@bind TAB `let mut ? : HashMap < u8 , ChordAtom >`
//@bind LEX `let ? = Lexer`
//@bind ATOMS `let mut ? = vec`
//@bind SEQ `let ? = parse`
//@bind CODE `let ? = chord . key_code`
//@at start
    broadcast use vstd::std_specs::hash::group_hash_axioms;
//@at loopbefore 0
    let ghost mut t: Table = Seq::empty();
    proof { assert(table_of($1@, 0) =~= t); lemma_built_fresh($CHORDS, $SEQS, $TAB@); }
//@loop 0 iter=it
    invariant
        it.seq() == $1@, $LEX.ok(),
        t == table_of($1@, it.index() as int), meant($1@, it.index() as int),
        built($CHORDS, $SEQS, $TAB@, $CNT as int, t), sized($TAB@, $CNT as int),
//@at loopstart 0
    let ghost n = it.index() as int;
    let ghost m = meaning($1@[n].0@);
//@at loopbefore 1
    let ghost cs = chords_view($SEQ.0@);
    proof {
        let x = $ATOMS@;
        assert(x =~= to_atoms($TAB@, seq_codes(cs, 0)));
    }
//@loop 1 iter=jt
    invariant
        n == it.index(), 0 <= n < $1@.len(), m == meaning($1@[n].0@), binding_src == $1@[n].0, action == $1@[n].1,
        lex($1@[n].0@) is Some, chorded(lex($1@[n].0@)->0) == Some(cs), cs.len() > 0, cs == chords_view($SEQ.0@),
        jt.seq().len() == cs.len(),
        forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == $SEQ.0@[i],
        built($CHORDS, $SEQS, $TAB@, $CNT as int, t), sized($TAB@, $CNT as int),
        forall|i: int| 0 <= i < jt.index() ==> code_spec(#[trigger] cs[i]) is Some,
        in_tab($TAB@, seq_codes(cs, jt.index() as int)),
        $ATOMS@ == to_atoms($TAB@, seq_codes(cs, jt.index() as int)),
//@at loopstart 1
    let ghost j = jt.index() as int;
    let ghost tab0 = $TAB@; let ghost c0 = $CHORDS; let ghost n0 = $CNT as int; let ghost at0 = $ATOMS@;
    proof { assert(*jt.seq()[j] == $SEQ.0@[j]); assert(cs[j] == keys_of($SEQ.0@[j])); lemma_sized($TAB@, $CNT as int); }
//@at before 0 `chords . insert (`
    proof { lemma_built_wf($CHORDS, $SEQS, tab0, n0, t); lemma_sized2(tab0, n0, $CODE); }
//@at loopend 1
    proof {
        let code = $CODE;
        if tab0.contains_key(code) { lemma_old_code(c0, $CHORDS, $SEQS, tab0, n0, t, code); }
        else { lemma_new_code(c0, $CHORDS, $SEQS, tab0, n0, t, code); }
        assert(seq_codes(cs, j + 1) =~= seq_codes(cs, j).push(code));
        assert(in_tab($TAB@, seq_codes(cs, j + 1))) by {
            assert forall|i: int| 0 <= i < j + 1 implies $TAB@.contains_key(#[trigger] seq_codes(cs, j + 1)[i]) by { if i < j { assert(tab0.contains_key(seq_codes(cs, j)[i])); } }
        }
        assert($ATOMS@ =~= to_atoms($TAB@, seq_codes(cs, j + 1))) by {
            assert forall|i: int| 0 <= i < j implies tab0.contains_key(#[trigger] seq_codes(cs, j)[i]) by {}
        }
    }
//@at loopafter 1
    proof { lemma_built_wf($CHORDS, $SEQS, $TAB@, $CNT as int, t); }
    let ghost q0 = $SEQS;
    let ghost sc = seq_codes(cs, cs.len() as int);
//@at loopend 0
    proof {
        assert(sc =~= cs.map_values(|c: Seq<Seq<char>>| code_spec(c)->0));
        assert(m == Some(sc));
        lemma_new_binding($CHORDS, q0, $SEQS, $TAB@, $CNT as int, t, sc, $1@[n].1);
        t = t.push((sc, $1@[n].1));
        assert(t =~= table_of($1@, n + 1));
    }
//@at tail
    proof { lemma_built(__r->Ok_0, $TAB@, $CNT as int, t); }
//@endfn
}
} // verus!
fn main() {}
