//@lits
//@include prelude/std.rs
//@include prelude/str.rs

verus! {
broadcast use {char_facts::group_char_facts, byte_facts::lemma_at_byte_unique};

// ---------------------------------------------------------------- spec
/// seconds in the i-th colon-separated part, counted from the right
pub open spec fn unit(i: int) -> int { if i == 0 { 1 } else if i == 1 { 60 } else if i == 2 { 3600 } else { 86400 } }

pub open spec fn part(s: Seq<char>, i: int) -> Option<u64> {
    let ps = split_spec(s, ':');
    <u64 as FromStr>::parse_spec(ps[ps.len() - 1 - i])
}
/// total of the first n parts from the right
pub open spec fn colon_total(s: Seq<char>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { colon_total(s, n - 1) + part(s, n - 1)->0 as int * unit(n - 1) }
}
pub open spec fn has_char(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c }
/// [[[dd:]hh:]mm:]ss, every part a number
pub open spec fn colon_form(s: Seq<char>) -> bool {
    let n = split_spec(s, ':').len();
    n <= 4 && forall|i: int| 0 <= i < n ==> (#[trigger] part(s, i)) is Some
}
/// <number><one unit letter>
pub open spec fn suffix_form(s: Seq<char>) -> bool {
    s.len() >= 2 && all_digits(s.drop_last()) && suffix_unit(s.last()) is Some
}
pub open spec fn suffix_unit(c: char) -> Option<int> {
    match c { 's' => Some(1int), 'm' => Some(60int), 'h' => Some(3600int), 'd' => Some(86400int), _ => None }
}
pub open spec fn meaning(s: Seq<char>) -> Option<int> {
    if has_char(s, ':') {
        if colon_form(s) { Some(colon_total(s, split_spec(s, ':').len() as int)) } else { None }
    } else if suffix_form(s) { Some(dec(s.drop_last()) * suffix_unit(s.last())->0) }
    else { None }
}
/// the property: accepted iff it means a representable duration, and then exactly that one
pub open spec fn decides(s: Seq<char>, r: anyhow::Result<time::Duration>) -> bool {
    let m = meaning(s);
    if m is Some && m->0 <= u64::MAX { r is Ok && r->Ok_0.s == m->0 && r->Ok_0.n == 0 } else { r is Err }
}

pub proof fn lemma_split_nonempty(s: Seq<char>, c: char)
    ensures split_spec(s, c).len() >= 1
    decreases s.len()
{
    if s.len() > 0 { lemma_split_nonempty(s.skip(1), c); }
}
pub proof fn lemma_split_has(s: Seq<char>, c: char)
    ensures split_spec(s, c).len() >= 2 <==> has_char(s, c)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_split_has(s.skip(1), c);
        lemma_split_nonempty(s.skip(1), c);
        if s[0] != c {
            if has_char(s, c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(s.skip(1)[i - 1] == c); }
            if has_char(s.skip(1), c) { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == c; assert(s[i + 1] == c); }
        }
    }
}
pub proof fn lemma_dec_nonneg(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i])
    ensures dec(s) >= 0
    decreases s.len()
{
    if s.len() > 0 { lemma_dec_nonneg(s.drop_last()); }
}

/// the numeric prefix of a text ending in a letter decides the suffix form
pub proof fn lemma_suffix(s: Seq<char>, num: Seq<char>)
    requires
        s.len() > 0, is_alphabetic(s.last()), !has_char(s, ':'),
        exists|n: int| 0 <= n <= s.len() && num == #[trigger] s.take(n)
            && (forall|i: int| 0 <= i < n ==> is_numeric(#[trigger] s[i])) && (n < s.len() ==> !is_numeric(s[n])),
    ensures
        blen(num) + clen(s.last()) == blen(s) ==> num == s.drop_last(),
        blen(num) + clen(s.last()) != blen(s) ==> meaning(s) is None,
        num == s.drop_last() ==> unsigned_text(num) == num
            && (suffix_form(s) <==> all_digits(num) && suffix_unit(s.last()) is Some)
            && (all_digits(num) ==> dec(num) >= 0)
            && (all_digits(num) && suffix_unit(s.last()) is Some ==> dec(num) * suffix_unit(s.last())->0 >= dec(num)),
{
    let n = choose|n: int| 0 <= n <= s.len() && num == #[trigger] s.take(n)
            && (forall|i: int| 0 <= i < n ==> is_numeric(#[trigger] s[i])) && (n < s.len() ==> !is_numeric(s[n]));
    let l = s.len() - 1;
    assert(n <= l) by { if n == s.len() { assert(is_numeric(s[l])); } }
    lemma_boff_ext(s, num, n);
    lemma_boff_mono(s, n, l);
    assert(blen(num) == boff(s, n));
    assert(blen(s) == boff(s, l) + clen(s[l]));
    if n == l { assert(num =~= s.drop_last()); }
    else {
        assert(boff(s, n) < boff(s, l));
        assert(!is_digit(s[n]));
        assert(s.drop_last()[n] == s[n]);
        assert(!all_digits(s.drop_last()));
    }
    if num == s.drop_last() {
        if num.len() > 0 { assert(num[0] == s[0]); assert(is_numeric(s[0])); assert(num[0] != '+'); }
        if all_digits(num) {
            lemma_dec_nonneg(num);
            if let Some(u) = suffix_unit(s.last()) { assert(dec(num) * u >= dec(num)) by (nonlinear_arith) requires u >= 1, dec(num) >= 0; }
        }
    }
}

//@fn libshpool/src/duration.rs :: parse
//@ret r
//@cl 0 (q: bool) ensures q == is_alphabetic($c1)
//@spec
    ensures decides($1@, r)
//@at start
    proof {
        lemma_split_has($1@, ':');
        assert forall|i: int| 0 <= i <= $1@.len() && ':'.matches($1@, i) implies has_char($1@, ':') by {}
        if has_char($1@, ':') { let i = choose|i: int| 0 <= i < $1@.len() && $1@[i] == ':'; assert(':'.matches($1@, i)); }
    }
//@endfn

//@fn libshpool/src/duration.rs :: parse_colon_duration
//@ret r
//@spec
    requires has_char($1@, ':')
    ensures decides($1@, r)
//@at start
    proof {
        lemma_split_nonempty($1@, ':');
        reveal_with_fuel(colon_total, 6);
    }
//@endfn

//@fn libshpool/src/duration.rs :: add_units
//@ret r
//@spec
    ensures
        $1 + $2 * $3 <= u64::MAX ==> r is Ok && r->Ok_0 == $1 + $2 * $3,
        $1 + $2 * $3 > u64::MAX ==> r is Err,
//@endfn

//@fn libshpool/src/duration.rs :: parse_suffix_duration
//@ret r
//@cl 0 (q: bool) ensures q == is_numeric(*$c1)
//@bind NUM `let ? : String = src.chars()`
//@spec
    requires $1@.len() > 0, is_alphabetic($1@.last()), !has_char($1@, ':')
    ensures decides($1@, r)
//@at after 0 `. collect ( )`
    proof { lemma_suffix($1@, $NUM@); }
//@endfn

//@fn libshpool/src/duration.rs :: make_suffix_duration
//@ret r
//@spec
    ensures
        suffix_unit($2) is Some && $1 * suffix_unit($2)->0 <= u64::MAX ==> r is Ok && r->Ok_0.s == $1 * suffix_unit($2)->0 && r->Ok_0.n == 0,
        !(suffix_unit($2) is Some && $1 * suffix_unit($2)->0 <= u64::MAX) ==> r is Err,
//@endfn
}
fn main() {}
