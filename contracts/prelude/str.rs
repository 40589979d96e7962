// A stand-in for str / String and their char-based iterators.  Types named
// `str` and `String` shadow the primitive and the std type, so the extracted
// text is unchanged; the contracts below are the assumed behaviour of std.
// Text is a Seq<char>; byte offsets are computed from the chars' UTF-8 lengths.
macro_rules! dbg { ($($t:tt)*) => { () } }
macro_rules! format { ($($t:tt)*) => { crate::text::mk_string() } }

verus! {
pub mod text {
use vstd::prelude::*;
use super::*;

pub type prim_str = core::primitive::str;

/// UTF-8 length of a char, from the definition of the encoding
pub open spec fn clen(c: char) -> int {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// byte offset of the k-th char
pub open spec fn boff(s: Seq<char>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else { boff(s, k - 1) + clen(s[k - 1]) }
}
pub open spec fn blen(s: Seq<char>) -> int { boff(s, s.len() as int) }

/// k is the char index at byte offset b
pub open spec fn boundary(s: Seq<char>, b: int) -> bool { exists|k: int| at_byte(s, b, k) }
pub open spec fn at_byte(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && boff(s, k) == b }

pub proof fn lemma_boff_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j
    ensures boff(s, i) + (j - i) <= boff(s, j)
    decreases j
{
    if i < j { lemma_boff_mono(s, i, j - 1); }
}
pub mod byte_facts { use super::*;
pub broadcast proof fn lemma_boundary(s: Seq<char>, b: int, k: int)
    requires #[trigger] at_byte(s, b, k)
    ensures boundary(s, b)
{ }
pub broadcast proof fn lemma_at_byte_unique(s: Seq<char>, b1: int, b2: int, k1: int, k2: int)
    requires #[trigger] at_byte(s, b1, k1), #[trigger] at_byte(s, b2, k2)
    ensures b1 == b2 ==> k1 == k2
{
    if k1 < k2 { lemma_boff_mono(s, k1, k2); }
    if k2 < k1 { lemma_boff_mono(s, k2, k1); }
}
}
pub proof fn lemma_boff_ext(s: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i]
    ensures boff(s, k) == boff(t, k)
    decreases k
{
    if k > 0 { lemma_boff_ext(s, t, k - 1); }
}
pub proof fn lemma_boff_skip(s: Seq<char>, a: int, k: int)
    requires 0 <= a, 0 <= k, a + k <= s.len()
    ensures boff(s.skip(a), k) == boff(s, a + k) - boff(s, a)
    decreases k
{
    if k > 0 { lemma_boff_skip(s, a, k - 1); }
}
pub proof fn lemma_blen_ge(s: Seq<char>)
    ensures blen(s) >= s.len()
{ lemma_boff_mono(s, 0, s.len() as int); }

#[verifier::external_body]
pub struct str { _p: prim_str }

impl View for str { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }

#[verifier::external_body]
pub struct String { _p: std::string::String }

impl View for String { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }

/// every string literal of the extracted code goes through lit()
#[verifier::external_body]
pub fn lit(s: &'static prim_str) -> (r: &'static str) ensures r@ == s@ { unimplemented!() }

#[verifier::external_body]
pub fn mk_string() -> String { unimplemented!() }
/// a string literal as a pattern
#[verifier::external_body]
pub fn same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

#[verifier::external_body]
pub struct ParseError { _p: () }
impl From<ParseError> for anyhow::Error { #[verifier::external_body] fn from(e: ParseError) -> (r: Self) { unimplemented!() } }

/// what a search pattern matches: spec over (text, position)
pub trait Pattern: Sized {
    spec fn matches(&self, s: Seq<char>, i: int) -> bool;
    /// it was asked about position i and said no
    spec fn refuses(&self, s: Seq<char>, i: int) -> bool;
    spec fn mlen(&self) -> int;
}
impl Pattern for char {
    open spec fn matches(&self, s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && s[i] == *self }
    open spec fn refuses(&self, s: Seq<char>, i: int) -> bool { !self.matches(s, i) }
    open spec fn mlen(&self) -> int { 1 }
}
impl<F: Fn(char) -> bool> Pattern for F {
    open spec fn matches(&self, s: Seq<char>, i: int) -> bool { 0 <= i < s.len() && call_ensures(*self, (s[i],), true) }
    open spec fn refuses(&self, s: Seq<char>, i: int) -> bool { 0 <= i < s.len() ==> call_ensures(*self, (s[i],), false) }
    open spec fn mlen(&self) -> int { 1 }
}
impl<'p> Pattern for &'p str {
    open spec fn matches(&self, s: Seq<char>, i: int) -> bool { 0 <= i && i + self@.len() <= s.len() && s.subrange(i, i + self@.len()) == self@ }
    open spec fn refuses(&self, s: Seq<char>, i: int) -> bool { !self.matches(s, i) }
    open spec fn mlen(&self) -> int { self@.len() as int }
}
impl<'p> Pattern for &'p String {
    open spec fn matches(&self, s: Seq<char>, i: int) -> bool { 0 <= i && i + self@.len() <= s.len() && s.subrange(i, i + self@.len()) == self@ }
    open spec fn refuses(&self, s: Seq<char>, i: int) -> bool { !self.matches(s, i) }
    open spec fn mlen(&self) -> int { self@.len() as int }
}

// ---------------------------------------------------------------- char facts
pub uninterp spec fn is_alphabetic(c: char) -> bool;
pub uninterp spec fn is_numeric(c: char) -> bool;
pub open spec fn is_whitespace(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub open spec fn is_alphanumeric(c: char) -> bool { is_alphabetic(c) || is_numeric(c) }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn is_ascii_alpha(c: char) -> bool { ('a' <= c <= 'z') || ('A' <= c <= 'Z') }
pub open spec fn is_ascii_alnum(c: char) -> bool { is_ascii_alpha(c) || is_digit(c) }
pub mod char_facts { use super::*;
/// The ASCII part of the Unicode classes (std's documentation; cross-checked over
/// all 0x110000 code points by the harness self-test).
pub broadcast axiom fn axiom_ascii_classes(c: char)
    ensures
        (c as u32) < 0x80 ==> (#[trigger] is_alphabetic(c) == is_ascii_alpha(c));
pub broadcast axiom fn axiom_ascii_numeric(c: char)
    ensures
        (c as u32) < 0x80 ==> (#[trigger] is_numeric(c) == is_digit(c));
/// no char is both alphabetic and numeric
pub broadcast axiom fn axiom_classes_disjoint(c: char)
    ensures !(#[trigger] is_alphabetic(c) && #[trigger] is_numeric(c));
pub broadcast axiom fn axiom_space_disjoint(c: char)
    ensures #[trigger] is_whitespace(c) ==> !is_alphabetic(c) && !is_numeric(c);

pub broadcast group group_char_facts { axiom_ascii_classes, axiom_ascii_numeric, axiom_classes_disjoint, axiom_space_disjoint }
}
pub assume_specification[ char::is_alphabetic ](c: char) -> (r: bool) ensures r == is_alphabetic(c);
pub assume_specification[ char::is_numeric ](c: char) -> (r: bool) ensures r == is_numeric(c);
pub assume_specification[ char::is_alphanumeric ](c: char) -> (r: bool) ensures r == is_alphanumeric(c);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == is_digit(*c);
pub assume_specification[ char::is_ascii_alphabetic ](c: &char) -> (r: bool) ensures r == is_ascii_alpha(*c);
pub assume_specification[ char::is_ascii_alphanumeric ](c: &char) -> (r: bool) ensures r == is_ascii_alnum(*c);

// ---------------------------------------------------------------- number parsing
pub open spec fn all_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn dec(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { dec(s.drop_last()) * 10 + (s.last() as int - '0' as int) }
}
/// std's unsigned parse: optional '+', then digits, in range
pub open spec fn unsigned_text(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s } }
pub trait FromStr: Sized {
    spec fn parse_spec(s: Seq<char>) -> Option<Self>;
}
impl FromStr for u64 {
    open spec fn parse_spec(s: Seq<char>) -> Option<u64> {
        let d = unsigned_text(s);
        if all_digits(d) && dec(d) <= u64::MAX { Some(dec(d) as u64) } else { None }
    }
}
impl FromStr for i64 {
    open spec fn parse_spec(s: Seq<char>) -> Option<i64> {
        if s.len() > 0 && s[0] == '-' {
            let d = s.skip(1);
            if all_digits(d) && dec(d) <= -(i64::MIN as int) { Some((-dec(d)) as i64) } else { None }
        } else {
            let d = unsigned_text(s);
            if all_digits(d) && dec(d) <= i64::MAX { Some(dec(d) as i64) } else { None }
        }
    }
}

pub assume_specification<T> [ <[T]>::reverse ](v: &mut [T]) ensures final(v)@ == old(v)@.reverse();

// ---------------------------------------------------------------- splitting
/// pieces of s between occurrences of c (always at least one)
pub open spec fn split_spec(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] }
    else if s[0] == c { seq![Seq::<char>::empty()] + split_spec(s.skip(1), c) }
    else {
        let r = split_spec(s.skip(1), c);
        seq![seq![s[0]] + r[0]] + r.skip(1)
    }
}
/// index of the first c, or the length
pub open spec fn first_char(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 || s[0] == c { 0 } else { 1 + first_char(s.skip(1), c) }
}
pub mod find_facts { use super::*;
pub proof fn lemma_first(s: Seq<char>, c: char)
    ensures 0 <= first_char(s, c) <= s.len(),
        forall|i: int| 0 <= i < first_char(s, c) ==> s[i] != c,
        first_char(s, c) < s.len() ==> s[first_char(s, c)] == c,
    decreases s.len()
{
    if s.len() == 0 || s[0] == c { } else {
        lemma_first(s.skip(1), c);
        assert forall|i: int| 0 <= i < first_char(s, c) implies s[i] != c by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
    }
}
/// first_char in the terms of the search contracts
pub broadcast proof fn lemma_first_matches(s: Seq<char>, c: char)
    ensures 0 <= #[trigger] first_char(s, c) <= s.len(),
        first_char(s, c) < s.len() ==> c.matches(s, first_char(s, c)),
        forall|i: int| 0 <= i < first_char(s, c) ==> s[i] != c,
{ lemma_first(s, c); }
}
pub open spec fn trim_start_spec(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_whitespace(s[0]) { trim_start_spec(s.skip(1)) } else { s }
}
pub open spec fn trim_end_spec(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_whitespace(s.last()) { trim_end_spec(s.drop_last()) } else { s }
}
pub open spec fn trim_spec(s: Seq<char>) -> Seq<char> { trim_end_spec(trim_start_spec(s)) }

pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|x: &str| x@) }

/// an iterator over already-known items
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Items<T> { _p: Vec<T> }
impl<T> View for Items<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }

pub trait FromItems<T>: Sized {
    spec fn built(s: Seq<T>, r: Self) -> bool;
}
impl<T> FromItems<T> for Vec<T> {
    open spec fn built(s: Seq<T>, r: Vec<T>) -> bool { r@ == s }
}
impl<T, E> FromItems<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn built(s: Seq<Result<T, E>>, r: Result<Vec<T>, E>) -> bool {
        &&& (r is Ok) == (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok)
        &&& r is Ok ==> r->Ok_0@.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] r->Ok_0@[i]) == s[i]->Ok_0
    }
}
impl FromItems<char> for String {
    open spec fn built(s: Seq<char>, r: String) -> bool { r@ == s }
}

/// length of the longest prefix on which f says true
pub open spec fn prefix_while<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, n: int) -> bool {
    &&& 0 <= n <= s.len()
    &&& forall|i: int| 0 <= i < n ==> call_ensures(f, (&#[trigger] s[i],), true)
    &&& n < s.len() ==> call_ensures(f, (&s[n],), false)
}

impl<T> Items<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures r == (if self@.len() > 0 { Some(self@.last()) } else { None::<T> })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures r == (if n < old(self)@.len() { Some(old(self)@[n as int]) } else { None::<T> }),
            n < old(self)@.len() ==> final(self)@ == old(self)@.skip(n + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: Items<T>) ensures r@ == self@.reverse()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Items<T>)
        ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::<T>::empty() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: Items<T>)
        ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: Items<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures exists|n: int| #[trigger] prefix_while(self@, f, n) && r@ == self@.take(n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: Items<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures exists|n: int| #[trigger] prefix_while(self@, f, n) && r@ == self@.skip(n)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Items<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures
            r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), true),
            !r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (#[trigger] old(self)@[i],)),
        ensures
            !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (#[trigger] old(self)@[i],), false),
            r ==> exists|i: int| 0 <= i < old(self)@.len() && call_ensures(f, (#[trigger] old(self)@[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn collect<C: FromItems<T>>(self) -> (r: C) ensures C::built(self@, r)
    { unimplemented!() }
}

impl str {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == blen(self@), r <= isize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<P: Pattern>(&self, p: P) -> (r: Option<usize>)
        ensures
            r is None ==> forall|i: int| 0 <= i <= self@.len() ==> !p.matches(self@, i),
            r is Some ==> r->0 <= isize::MAX,
            r is Some ==> exists|k: int| #[trigger] at_byte(self@, r->0 as int, k) && p.matches(self@, k)
                && (forall|j: int| 0 <= j < k ==> !p.matches(self@, j)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn rfind<P: Pattern>(&self, p: P) -> (r: Option<usize>)
        ensures
            r is None ==> forall|i: int| 0 <= i <= self@.len() ==> !p.matches(self@, i),
            r is Some ==> r->0 <= isize::MAX,
            r is Some ==> exists|k: int| #[trigger] at_byte(self@, r->0 as int, k) && p.matches(self@, k)
                && (forall|j: int| k < j <= self@.len() ==> !p.matches(self@, j)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<P: Pattern>(&self, p: P) -> (r: bool)
        ensures
            r ==> exists|i: int| 0 <= i <= self@.len() && p.matches(self@, i),
            !r ==> forall|i: int| 0 <= i <= self@.len() ==> !p.matches(self@, i),
            !r ==> forall|i: int| #![trigger p.refuses(self@, i)] #![trigger self@[i]] 0 <= i < self@.len() ==> p.refuses(self@, i),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: Pattern>(&self, p: P) -> (r: bool) ensures r == p.matches(self@, 0)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with<P: Pattern>(&self, p: P) -> (r: bool) ensures r == p.matches(self@, self@.len() - p.mlen())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<P: Pattern>(&self, p: P) -> (r: Option<&str>)
        ensures
            (r is Some) == p.matches(self@, 0),
            r is Some ==> r->0@ == self@.skip(p.mlen()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_suffix<P: Pattern>(&self, p: P) -> (r: Option<&str>)
        ensures
            (r is Some) == p.matches(self@, self@.len() - p.mlen()),
            r is Some ==> r->0@ == self@.take(self@.len() - p.mlen()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trim(&self) -> (r: &str) ensures r@ == trim_spec(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_start(&self) -> (r: &str) ensures r@ == trim_start_spec(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_end(&self) -> (r: &str) ensures r@ == trim_end_spec(self@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: Items<char>) ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split(&self, c: char) -> (r: Items<&str>) ensures views(r@) == split_spec(self@, c), r@.len() == split_spec(self@, c).len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_spec(self@, c)[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn splitn(&self, n: usize, c: char) -> (r: Items<&str>)
        requires n == 2
        ensures
            first_char(self@, c) == self@.len() ==> r@.len() == 1 && r@[0]@ == self@,
            first_char(self@, c) < self@.len() ==> r@.len() == 2 && r@[0]@ == self@.take(first_char(self@, c))
                && r@[1]@ == self@.skip(first_char(self@, c) + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn split_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            (r is Some) == (first_char(self@, c) < self@.len()),
            r is Some ==> (r->0).0@ == self@.take(first_char(self@, c)) && (r->0).1@ == self@.skip(first_char(self@, c) + 1),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parse<T: FromStr>(&self) -> (r: Result<T, ParseError>)
        ensures (r is Ok) == (T::parse_spec(self@) is Some), r is Ok ==> r->Ok_0 == T::parse_spec(self@)->0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: String) ensures r@ == self@
    { unimplemented!() }
}

impl core::ops::Index<core::ops::RangeTo<usize>> for str {
    type Output = str;
    #[verifier::external_body]
    fn index(&self, r: core::ops::RangeTo<usize>) -> (o: &str)
        ensures exists|k: int| #[trigger] at_byte(self@, r.end as int, k) && o@ == self@.take(k)
    { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<core::ops::RangeTo<usize>> for str {
    open spec fn index_req(&self, r: &core::ops::RangeTo<usize>) -> bool { boundary(self@, r.end as int) }
}
impl core::ops::Index<core::ops::RangeFrom<usize>> for str {
    type Output = str;
    #[verifier::external_body]
    fn index(&self, r: core::ops::RangeFrom<usize>) -> (o: &str)
        ensures exists|k: int| #[trigger] at_byte(self@, r.start as int, k) && o@ == self@.skip(k)
    { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<core::ops::RangeFrom<usize>> for str {
    open spec fn index_req(&self, r: &core::ops::RangeFrom<usize>) -> bool { boundary(self@, r.start as int) }
}

impl String {
    #[verifier::external_body]
    pub fn new() -> (r: String) ensures r@ == Seq::<char>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: String) ensures r@ == Seq::<char>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: String) ensures r@ == s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<char>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@
    { unimplemented!() }
}
impl Clone for String {
    #[verifier::external_body]
    fn clone(&self) -> (r: String) ensures r@ == self@
    { unimplemented!() }
}
impl core::ops::Deref for String {
    type Target = str;
    #[verifier::external_body]
    fn deref(&self) -> (r: &str) ensures r@ == self@
    { unimplemented!() }
}

} // mod text
pub use text::*;
pub use text::{str, String};

pub mod time {
    use vstd::prelude::*;
    /// std::time::Duration, as whole seconds and nanoseconds
    #[derive(Clone, Copy)]
    pub struct Duration { pub s: u64, pub n: u32 }
    impl Duration {
        pub fn from_secs(s: u64) -> (r: Duration) ensures r.s == s, r.n == 0 { Duration { s, n: 0 } }
        pub fn new(s: u64, n: u32) -> (r: Duration) requires n < 1_000_000_000 ensures r.s == s, r.n == n { Duration { s, n } }
        #[verifier::external_body]
        pub fn from_millis(ms: u64) -> (r: Duration) ensures r.s == ms / 1000, r.n == (ms % 1000) * 1_000_000 { unimplemented!() }
    }
}

} // verus!
