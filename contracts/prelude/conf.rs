// Configuration, requests, paths and lists of variables.
verus! {
global size_of usize == 8; // 64-bit targets

pub open spec fn same_str() -> bool {
    &&& <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec()
    &&& forall|a: String, b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@)
}
impl PartialEq<str> for String { #[verifier::external_body] fn eq(&self, o: &str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl<str> for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &str) -> bool { self@ == o@ }
}
impl<'a> PartialEq<&'a str> for String { #[verifier::external_body] fn eq(&self, o: &&'a str) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a str> for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a str) -> bool { self@ == o@ }
}
/// a slice's iterator
#[verifier::external_body]
pub fn items<T>(v: &Vec<T>) -> (r: Items<&T>) ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> *r@[i] == v@[i] { unimplemented!() }
impl<T> Items<T> {
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self)@.len() ==> call_requires(f, (&#[trigger] old(self)@[i],)),
        ensures
            r is None ==> forall|i: int| 0 <= i < old(self)@.len() ==> call_ensures(f, (&#[trigger] old(self)@[i],), false),
            r is Some ==> exists|n: int| #[trigger] first_yes(old(self)@, f, n) && r->0 == old(self)@[n],
    { unimplemented!() }
}
/// the n-th is the first f says yes to
pub open spec fn first_yes<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, n: int) -> bool {
    &&& 0 <= n < s.len() && call_ensures(f, (&s[n],), true)
    &&& forall|i: int| 0 <= i < n ==> call_ensures(f, (&#[trigger] s[i],), false)
}

// ---- text the operating system understands
#[verifier::external_body]
pub struct OsString { _p: () }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn os(s: &str) -> (r: OsString) ensures r@ == s@ { unimplemented!() }
impl String {
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn os(self) -> (r: OsString) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { _p: () }
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub type Path = PathBuf;
/// Path::join
pub open spec fn joined(a: Seq<char>, b: Seq<char>) -> Seq<char> {
    if b.len() > 0 && b[0] == '/' { b } else if a.len() == 0 || a.last() == '/' { a + b } else { a + seq!['/'] + b }
}
pub trait Pathy { spec fn p(&self) -> Seq<char>; }
impl<'a> Pathy for &'a str { open spec fn p(&self) -> Seq<char> { self@ } }
impl<'a> Pathy for &'a String { open spec fn p(&self) -> Seq<char> { self@ } }
impl Pathy for PathBuf { open spec fn p(&self) -> Seq<char> { self@ } }
impl<'a> Pathy for &'a PathBuf { open spec fn p(&self) -> Seq<char> { self@ } }
/// it can be written in UTF-8
pub uninterp spec fn utf8(p: Seq<char>) -> bool;
/// one component of a path
pub open spec fn part(s: Seq<char>) -> bool { s.len() > 0 && s != "."@ && s != ".."@ && forall|i: int| 0 <= i < s.len() ==> s[i] != '/' }
impl PathBuf {
    #[verifier::external_body]
    pub fn from<T: Pathy>(t: T) -> (r: PathBuf) ensures r@ == t.p() { unimplemented!() }
    #[verifier::external_body]
    pub fn join<T: Pathy>(&self, t: T) -> (r: PathBuf) ensures r@ == joined(self@, t.p()) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&PathBuf>)
        ensures forall|d: Seq<char>, f: Seq<char>| self@ == #[trigger] joined(d, f) && part(f) && d.len() > 0 && d.last() != '/' ==> r is Some && r->0@ == d
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures (r is Some) == utf8(self@), r is Some ==> r->0@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn into_os_string(self) -> (r: OsString) ensures r@ == self@ { unimplemented!() }
}

// ---- the environment
/// what a list of settings amounts to: the last one counts
pub open spec fn settled(s: Seq<(Seq<char>, Seq<char>)>) -> Map<Seq<char>, Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { settled(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub open spec fn osv(v: Seq<(OsString, OsString)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|p: (OsString, OsString)| (p.0@, p.1@)) }
pub open spec fn pair_views(v: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { v.map_values(|p: (String, String)| (p.0@, p.1@)) }
pub proof fn lemma_settled_add(a: Seq<(Seq<char>, Seq<char>)>, b: Seq<(Seq<char>, Seq<char>)>)
    ensures settled(a + b) =~= settled(a).union_prefer_right(settled(b))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_settled_add(a, b.drop_last());
    }
}
pub mod env_facts { use super::*;
pub broadcast proof fn lemma_push(v: Seq<(OsString, OsString)>, x: (OsString, OsString))
    ensures #[trigger] settled(osv(v.push(x))) == settled(osv(v)).insert(x.0@, x.1@)
{
    assert(osv(v.push(x)) =~= osv(v).push((x.0@, x.1@)));
    assert(osv(v).push((x.0@, x.1@)).drop_last() =~= osv(v));
}
pub broadcast proof fn lemma_add(a: Seq<(OsString, OsString)>, b: Seq<(OsString, OsString)>)
    ensures #[trigger] settled(osv(a + b)) == settled(osv(a)).union_prefer_right(settled(osv(b)))
{
    assert(osv(a + b) =~= osv(a) + osv(b));
    lemma_settled_add(osv(a), osv(b));
}
pub broadcast proof fn lemma_none(v: Seq<(OsString, OsString)>)
    requires v.len() == 0
    ensures #[trigger] settled(osv(v)) == Map::<Seq<char>, Seq<char>>::empty()
{ }
}
/// a table listed in any order amounts to itself
pub open spec fn lists(s: Seq<(Seq<char>, Seq<char>)>, m: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: Seq<char>| m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub proof fn lemma_settled_has(s: Seq<(Seq<char>, Seq<char>)>, k: Seq<char>)
    ensures settled(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    decreases s.len()
{
    if s.len() > 0 {
        lemma_settled_has(s.drop_last(), k);
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            if i < s.len() - 1 { assert(s.drop_last()[i].0 == k); }
        }
        if exists|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).0 == k {
            let i = choose|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).0 == k;
            assert(s[i].0 == k);
        }
    }
}
pub proof fn lemma_settled_lists(s: Seq<(Seq<char>, Seq<char>)>, m: Map<Seq<char>, Seq<char>>)
    requires lists(s, m)
    ensures settled(s) =~= m
    decreases s.len()
{
    if s.len() == 0 {
        assert forall|k: Seq<char>| !m.contains_key(k) by { }
    } else {
        let l = s.last();
        let t = s.drop_last();
        let n = m.remove(l.0);
        assert(s[s.len() - 1] == l);
        assert forall|i: int| 0 <= i < t.len() implies n.contains_key((#[trigger] t[i]).0) && n[t[i].0] == t[i].1 by { assert(s[i] == t[i]); assert(s[i].0 != s[s.len() - 1].0); }
        assert forall|k: Seq<char>| n.contains_key(k) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k by {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
            assert(t[i].0 == k);
        }
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i] == t[i] && s[j] == t[j]); }
        lemma_settled_lists(t, n);
        assert(n.insert(l.0, l.1) =~= m);
    }
}
pub open spec fn entries(s: Seq<(&String, &String)>) -> Seq<(Seq<char>, Seq<char>)> { s.map_values(|p: (&String, &String)| (p.0@, p.1@)) }
impl HashMap<String, String> {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Items<(&String, &String)>) ensures lists(entries(r@), self.texts()) { unimplemented!() }
}
impl Clone for HashMap<String, String> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
pub trait Extend<T> { fn extend_all(&mut self, i: Items<T>); }
impl<T> Extend<T> for Vec<T> {
    #[verifier::external_body]
    fn extend_all(&mut self, i: Items<T>) ensures final(self)@ == old(self)@ + i@ { unimplemented!() }
}

pub mod keybindings { use vstd::prelude::*;
//@item libshpool/src/daemon/keybindings.rs :: enum Action
}
//@item libshpool/src/config.rs :: struct Config
//@item libshpool/src/config.rs :: struct Keybinding
//@item libshpool/src/config.rs :: enum SessionRestoreMode
//@item libshpool/src/config.rs :: enum SessionRestoreEngine
//@item libshpool/src/config.rs :: enum MotdDisplayMode
//@item libshpool/src/config.rs :: struct VarSetting
//@item shpool-protocol/src/lib.rs :: struct AttachHeader
//@item shpool-protocol/src/lib.rs :: struct TtySize
pub mod user { use vstd::prelude::*; use super::*;
//@item libshpool/src/user.rs :: struct Info
}
//@item libshpool/src/daemon/server.rs :: const DEFAULT_INITIAL_SHELL_PATH sub `&str` => `&'static prim_str`

/// the configuration in force, for the time of one request
pub struct ConfigManager { pub now: Config }
impl ConfigManager {
    pub fn get(&self) -> (r: &Config) ensures *r == self.now { &self.now }
}
pub open spec fn on(o: Option<bool>) -> bool { o == Some(true) }

/// the first of the client's settings of k
pub open spec fn local(s: Seq<(String, String)>, k: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { None } else if s[0].0@ == k { Some(s[0].1@) } else { local(s.skip(1), k) }
}
pub proof fn lemma_local(s: Seq<(String, String)>, k: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i]).0@ != k
    ensures n == s.len() ==> local(s, k) is None, n < s.len() && s[n].0@ == k ==> local(s, k) == Some(s[n].1@)
    decreases s.len()
{
    if s.len() > 0 && n > 0 {
        assert(s[0].0@ != k);
        assert forall|i: int| 0 <= i < n - 1 implies (#[trigger] s.skip(1)[i]).0@ != k by { assert(s.skip(1)[i] == s[i + 1]); }
        lemma_local(s.skip(1), k, n - 1);
    }
}
impl AttachHeader {
//@fn shpool-protocol/src/lib.rs :: AttachHeader :: local_env_get
//@ret r
//@sub `self.local_env.iter()` => `items(&self.local_env)`
//@cl 0 (b: bool) ensures b == ($c1.0@ == var@)
//@cl 1 (t: &str) ensures t@ == $c1.1@
//@spec
        ensures
            (r is Some) == (local(self.local_env@, var@) is Some),
            r is Some ==> r->0@ == local(self.local_env@, var@)->0,
//@at start
        proof {
            assert forall|n: int| 0 <= n <= self.local_env@.len() && (forall|i: int| 0 <= i < n ==> (#[trigger] self.local_env@[i]).0@ != var@)
                implies (n == self.local_env@.len() ==> local(self.local_env@, var@) is None)
                    && (n < self.local_env@.len() && (#[trigger] self.local_env@[n]).0@ == var@ ==> local(self.local_env@, var@) == Some(self.local_env@[n].1@))
            by { lemma_local(self.local_env@, var@, n); }
            if forall|i: int| 0 <= i < self.local_env@.len() ==> (#[trigger] self.local_env@[i]).0@ != var@ { lemma_local(self.local_env@, var@, self.local_env@.len() as int); }
        }
//@endfn
}
} // verus!
