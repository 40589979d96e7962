//@include prelude/std.rs
//@include prelude/rt.rs

verus! {
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
    pub enum ErrorKind { TimedOut, BrokenPipe, WouldBlock, WriteZero, Interrupted, Other }
    impl Error {
        #[verifier::external_body]
        pub fn new(k: ErrorKind, m: &str) -> Error { unimplemented!() }
        #[verifier::external_body]
        pub fn other(m: &str) -> Error { unimplemented!() }
    }
}
/// waiting for room in the pty; any answer is possible at any time
pub mod poll {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Errno { _p: () }
    #[verifier::external_body]
    pub struct PollFd { _p: () }
    impl PollFd {
        #[verifier::external_body]
        pub fn new(f: super::Fd, e: super::PollFlags) -> PollFd { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn poll(f: &mut [PollFd; 1], ms: u16) -> (r: core::result::Result<i32, Errno>) { unimplemented!() }
}
impl From<poll::Errno> for io::Error {
    #[verifier::external_body]
    fn from(e: poll::Errno) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub struct Fd { _p: () }
pub enum PollFlags { POLLIN, POLLOUT, POLLHUP, POLLERR }
fn at_most(a: usize, b: usize) -> (r: usize) ensures r <= a, r <= b, r == a || r == b { if a < b { a } else { b } }
impl From<io::Error> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: io::Error) -> (r: Self) { unimplemented!() }
}
pub mod consts {
    use vstd::prelude::*;
//@item libshpool/src/consts.rs :: const BUF_SIZE
}
#[derive(Copy, Clone, PartialEq, Eq)]
//@item libshpool/src/daemon/keybindings.rs :: enum Action
//@item libshpool/src/daemon/keybindings.rs :: enum BindingResult
pub mod keybindings { pub use super::{Action, BindingResult}; }
}
//@include prelude/keys.rs
verus! {

// ------------------------------------------------- the other side of each call
/// the compiled bindings; `transition` carries the contract proved in P03
#[verifier::external_body]
pub struct Bindings { _p: () }
impl Bindings {
    pub uninterp spec fn standing(&self, t: Table, typed: Seq<u8>) -> bool;
    #[verifier::external_body]
    pub fn transition(&mut self, byte: u8) -> (r: BindingResult)
        requires exists|t: Table, typed: Seq<u8>| old(self).standing(t, typed)
        ensures
            forall|t: Table, typed: Seq<u8>| #[trigger] old(self).standing(t, typed) ==>
                r == press(t, typed, byte).0 && final(self).standing(t, press(t, typed, byte).1)
    { unimplemented!() }
}
/// the client's socket: a read returns some of what the client sent next, in any portions
#[verifier::external_body]
pub struct UnixStream { _p: () }
impl UnixStream {
    /// everything read so far
    pub uninterp spec fn got(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> r->Ok_0 <= final(buf)@.len() && final(self).got() == old(self).got() + final(buf)@.take(r->Ok_0 as int),
            r is Err ==> final(self).got() == old(self).got(),
    { unimplemented!() }
}
/// the pty master; a clone writes to the same terminal
#[verifier::external_body]
pub struct Master { _p: () }
impl Master {
    /// everything written through this handle so far
    pub uninterp spec fn out(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Master) ensures r.out() == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_fd(&self) -> Fd { unimplemented!() }
    /// some of what was asked for is written, or nothing
    #[verifier::external_body]
    pub fn write(&mut self, b: &[u8]) -> (r: io::Result<usize>)
        ensures
            r is Ok ==> r->Ok_0 <= b@.len() && final(self).out() == old(self).out() + b@.take(r->Ok_0 as int),
            r is Err ==> final(self).out() == old(self).out(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>) ensures final(self).out() == old(self).out() { unimplemented!() }
}
//@item libshpool/src/daemon/shell.rs :: const PTY_WRITE_POLL_MS
//@item libshpool/src/daemon/shell.rs :: const PTY_WRITE_MAX
//@item libshpool/src/daemon/shell.rs :: struct StoppableWriter sub `shpool_pty::fork::Master` => `Master`
impl<'a> StoppableWriter<'a> {
    pub closed spec fn out(&self) -> Seq<u8> { self.master.out() }
//@fn libshpool/src/daemon/shell.rs :: impl io :: Write for StoppableWriter :: write
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `std::cmp::min(` => `at_most(`
//@spec
    ensures
        r is Ok ==> r->Ok_0 <= $1@.len() && final(self).out() == old(self).out() + $1@.take(r->Ok_0 as int),
        r is Err ==> final(self).out() == old(self).out(),
//@loop 0 kind=loop
    invariant self.out() == old(self).out()
//@at tail
    proof { if __r is Ok { assert forall|m: int| __r->Ok_0 <= m <= $1@.len() implies (#[trigger] $1@.take(m)).take(__r->Ok_0 as int) == $1@.take(__r->Ok_0 as int) by { assert($1@.take(m).take(__r->Ok_0 as int) =~= $1@.take(__r->Ok_0 as int)); } } }
//@endfn
//@fn libshpool/src/daemon/shell.rs :: impl io :: Write for StoppableWriter :: flush
//@ret r
//@spec
    ensures final(self).out() == old(self).out()
//@endfn
    /// io::Write::write_all: `write` until nothing is left
    #[verifier::external_body]
    pub fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures
            r is Ok ==> final(self).out() == old(self).out() + b@,
            old(self).out().is_prefix_of(final(self).out()),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SessionInner { _p: () }
impl SessionInner {
    /// only ever called once everything typed before the detach keybinding, and nothing else, is with the shell
    #[verifier::external_body]
    pub fn action_detach(&self, Ghost(t): Ghost<Table>, Ghost(typed): Ghost<Seq<u8>>, Ghost(sent): Ghost<Seq<u8>>) -> (r: anyhow::Result<()>)
        requires
            sent == forwarded(t, typed),
            typed.len() > 0,
            press(t, held(t, typed.drop_last()), typed.last()).0 == BindingResult::Match(Action::Detach),
    { unimplemented!() }
}
/// std::ptr::copy within one buffer (memmove): in range, and the rest is untouched
#[verifier::external_body]
fn copy_within(buf: &mut [u8], from: usize, to: usize, n: usize)
    requires from + n <= old(buf)@.len(), to + n <= old(buf)@.len()
    ensures final(buf)@ == old(buf)@.subrange(0, to as int) + old(buf)@.subrange(from as int, from + n) + old(buf)@.skip(to + n)
{ unimplemented!() }

// ---------------------------------------------------------------- spec
/// the key codes that may still turn out to be (part of) a keybinding
pub open spec fn held(t: Table, typed: Seq<u8>) -> Seq<u8>
    decreases typed.len()
{ if typed.len() == 0 { Seq::empty() } else { press(t, held(t, typed.drop_last()), typed.last()).1 } }

/// what the shell must have received: all that was typed, except keybindings and what is held
pub open spec fn forwarded(t: Table, typed: Seq<u8>) -> Seq<u8>
    decreases typed.len()
{
    if typed.len() == 0 { Seq::empty() } else {
        let p = typed.drop_last();
        forwarded(t, p) + match press(t, held(t, p), typed.last()).0 {
            BindingResult::NoMatch => held(t, p).push(typed.last()),
            _ => Seq::empty(),
        }
    }
}
/// nothing the shell received is ever taken back
pub proof fn lemma_forwarded_grows(t: Table, a: Seq<u8>, b: Seq<u8>)
    ensures forwarded(t, a).is_prefix_of(forwarded(t, a + b))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        lemma_forwarded_grows(t, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
/// without any keybindings in the way, everything arrives
pub proof fn lemma_no_bindings(t: Table, typed: Seq<u8>)
    requires t.len() == 0
    ensures forwarded(t, typed) == typed, held(t, typed) == Seq::<u8>::empty()
    decreases typed.len()
{
    if typed.len() > 0 {
        lemma_no_bindings(t, typed.drop_last());
        assert(forwarded(t, typed) =~= typed);
    } else { assert(typed =~= Seq::empty()); }
}

pub type Snips = Seq<(usize, usize)>;
pub open spec fn end_of(s: Snips) -> int { if s.len() == 0 { 0 } else { s.last().1 + 1 } }
/// sections (length, last offset), ordered and disjoint, all below n
pub open spec fn snips_ok(s: Snips, n: int) -> bool
    decreases s.len()
{
    s.len() > 0 ==> {
        &&& s.last().1 < n
        &&& end_of(s.drop_last()) <= s.last().1 + 1 - s.last().0
        &&& snips_ok(s.drop_last(), n)
    }
}
/// what is left of b up to the last section
pub open spec fn cut(b: Seq<u8>, s: Snips) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { cut(b, s.drop_last()) + b.subrange(end_of(s.drop_last()), s.last().1 + 1 - s.last().0) }
}
pub open spec fn kept(b: Seq<u8>, s: Snips) -> Seq<u8> { cut(b, s) + b.subrange(end_of(s), b.len() as int) }

pub open spec fn joined(b: Seq<u8>, k: Seq<(usize, usize)>) -> Seq<u8>
    decreases k.len()
{ if k.len() == 0 { Seq::empty() } else { joined(b, k.drop_last()) + b.subrange(k.last().0 as int, k.last().1 as int) } }
pub open spec fn keeps_ok(k: Seq<(usize, usize)>, n: int) -> bool
    decreases k.len()
{
    k.len() > 0 ==> k.last().0 <= k.last().1 && k.last().1 <= n && keeps_ok(k.drop_last(), k.last().0 as int)
}
pub proof fn lemma_keeps_weaken(k: Seq<(usize, usize)>, n: int, m: int)
    requires keeps_ok(k, n), n <= m
    ensures keeps_ok(k, m)
{}
pub proof fn lemma_keeps_prefix(k: Seq<(usize, usize)>, n: int, i: int)
    requires keeps_ok(k, n), 0 <= i < k.len()
    ensures k[i].0 <= k[i].1 <= n, keeps_ok(k.take(i), k[i].0 as int)
    decreases k.len()
{
    if i < k.len() - 1 {
        lemma_keeps_prefix(k.drop_last(), k.last().0 as int, i);
        assert(k.drop_last().take(i) =~= k.take(i));
    } else { assert(k.take(i) =~= k.drop_last()); }
}
pub proof fn lemma_snips_prefix(s: Snips, n: int, i: int)
    requires snips_ok(s, n), 0 <= i < s.len()
    ensures snips_ok(s.take(i), n), s[i].1 < n, end_of(s.take(i)) <= s[i].1 + 1 - s[i].0
    decreases s.len()
{
    if i < s.len() - 1 {
        lemma_snips_prefix(s.drop_last(), n, i);
        assert(s.drop_last().take(i) =~= s.take(i));
    } else { assert(s.take(i) =~= s.drop_last()); }
}
pub proof fn lemma_snips_bound(s: Snips, n: int)
    requires snips_ok(s, n), n >= 0
    ensures 0 <= end_of(s) <= n
{}
pub proof fn lemma_snips_weaken(s: Snips, n: int, m: int)
    requires snips_ok(s, n), n <= m
    ensures snips_ok(s, m)
    decreases s.len()
{ if s.len() > 0 { lemma_snips_weaken(s.drop_last(), n, m); } }
pub proof fn lemma_cut_push(b: Seq<u8>, s: Snips, x: (usize, usize))
    ensures
        cut(b, s.push(x)) == cut(b, s) + b.subrange(end_of(s), x.1 + 1 - x.0),
        end_of(s.push(x)) == x.1 + 1,
        forall|n: int| #[trigger] snips_ok(s.push(x), n) <==> x.1 < n && end_of(s) <= x.1 + 1 - x.0 && snips_ok(s, n),
{ assert(s.push(x).drop_last() =~= s); }
/// only the bytes before the last section's end matter
pub proof fn lemma_cut_local(b: Seq<u8>, c: Seq<u8>, s: Snips, n: int)
    requires snips_ok(s, n), 0 <= n <= b.len(), n <= c.len(), b.take(n) == c.take(n)
    ensures cut(b, s) == cut(c, s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_cut_local(b, c, s.drop_last(), n);
        let lo = end_of(s.drop_last()); let hi = s.last().1 + 1 - s.last().0;
        assert(b.take(n).subrange(lo, hi) == c.take(n).subrange(lo, hi));
        assert(b.take(n).subrange(lo, hi) =~= b.subrange(lo, hi));
        assert(c.take(n).subrange(lo, hi) =~= c.subrange(lo, hi));
    }
}

//@fn libshpool/src/daemon/shell.rs :: snip_buf
//@ret r
//@sub `end_open - len` => `end_open - *len`
//@sub `unsafe { std::ptr::copy(&buf[*start] as *const u8, &mut buf[last_end] as *mut u8, section_len); }` => `copy_within(buf, *start, last_end, section_len);`
//@bind cs `let mut ? = 0;`
//@bind le 1 `let mut ? = 0;`
//@spec
    requires $2 <= old($1)@.len(), snips_ok($3@, $2 as int)
    ensures
        r <= $2,
        final($1)@.len() == old($1)@.len(),
        final($1)@.take(r as int) == kept(old($1)@.take($2 as int), $3@),
//@at start
    let ghost n0 = $2 as int;
    let ghost b0 = $1@;
    let ghost b = $1@.take(n0);
    proof { assert($1@.take(0) =~= Seq::empty()); if $3@.len() == 0 { assert(kept(b, $3@) =~= b); } }
//@loop 0 iter=it0 kind=for
    invariant
        n0 <= b0.len(), n0 <= usize::MAX, b == b0.take(n0), $1@ == b0,
        snips_ok($3@, n0), it0.seq().len() == $3@.len(),
        forall|j: int| 0 <= j < it0.seq().len() ==> *(#[trigger] it0.seq()[j]) == $3@[j],
        $cs == end_of($3@.take(it0.index())), 0 <= $cs <= n0,
        keeps_ok($4@, $cs as int), joined(b, $4@) == cut(b, $3@.take(it0.index())),
//@at loopstart 0
    let ghost i0 = it0.index();
    let ghost k0 = $4@;
    proof {
        assert(*(it0.seq()[i0]) == $3@[i0]);
        lemma_snips_prefix($3@, n0, i0);
        assert($3@.take(i0 + 1) =~= $3@.take(i0).push($3@[i0]));
        lemma_cut_push(b, $3@.take(i0), $3@[i0]);
    }
//@at loopend 0
    proof {
        assert($3@[i0].1 + 1 == $cs);
        if $4@.len() > k0.len() {
            assert($4@.drop_last() =~= k0);
            lemma_keeps_weaken(k0, end_of($3@.take(i0)), $4@.last().0 as int);
        } else {
            assert(b.subrange(end_of($3@.take(i0)), $3@[i0].1 + 1 - $3@[i0].0) =~= Seq::empty());
            assert(cut(b, $3@.take(i0 + 1)) =~= cut(b, $3@.take(i0)));
            lemma_keeps_weaken(k0, end_of($3@.take(i0)), $cs as int);
        }
    }
//@at loopafter 0
    let ghost k1 = $4@;
    proof { assert($3@.take($3@.len() as int) =~= $3@); }
//@at loopbefore 1
    proof {
        assert($4@.drop_last() =~= k1);
        assert(joined(b, $4@) == kept(b, $3@));
        assert($1@.take(0) =~= joined(b, $4@.take(0)));
    }
//@loop 1 iter=it1 kind=for
    invariant
        n0 <= b0.len(), b == b0.take(n0), $1@.len() == b0.len(),
        keeps_ok($4@, n0), it1.seq().len() == $4@.len(),
        forall|j: int| 0 <= j < it1.seq().len() ==> *(#[trigger] it1.seq()[j]) == $4@[j],
        joined(b, $4@) == kept(b, $3@),
        $le <= (if it1.index() == 0 { 0int } else { $4@[it1.index() - 1].1 as int }),
        (if it1.index() == 0 { 0int } else { $4@[it1.index() - 1].1 as int }) <= n0,
        $1@.take($le as int) == joined(b, $4@.take(it1.index())),
        forall|j: int| (if it1.index() == 0 { 0int } else { $4@[it1.index() - 1].1 as int }) <= j < b0.len() ==> #[trigger] $1@[j] == b0[j],
//@at loopstart 1
    let ghost i1 = it1.index();
    let ghost le0 = $le as int;
    let ghost c0 = $1@;
    let ghost (s, e) = $4@[i1];
    proof {
        assert(*(it1.seq()[i1]) == $4@[i1]);
        lemma_keeps_prefix($4@, n0, i1);
        let p = $4@.take(i1);
        if i1 > 0 { assert(p.last() == $4@[i1 - 1]); }
        assert($4@.take(i1 + 1).drop_last() =~= p);
        assert(c0.subrange(s as int, e as int) =~= b.subrange(s as int, e as int));
        assert(s == le0 ==> c0.take(e as int) =~= c0.take(le0) + c0.subrange(s as int, e as int));
        assert(s == e ==> joined(b, p) + b.subrange(s as int, e as int) =~= joined(b, p));
    }
//@at loopend 1
    proof {
        assert($1@.take($le as int) =~= joined(b, $4@.take(i1 + 1)));
    }
//@at loopafter 1
    proof { assert($4@.take($4@.len() as int) =~= $4@); }
//@endfn

/// part-way through one read: after i of its bytes b (g0 was read before), with p pending, s snipped and o written
pub open spec fn state(t: Table, g0: Seq<u8>, b: Seq<u8>, i: int, p: Seq<u8>, s: Snips, o: Seq<u8>) -> bool {
    let f = forwarded(t, g0 + b.take(i));
    &&& 0 <= i <= b.len()
    &&& if p.len() <= i {
        let k = i - p.len();
        snips_ok(s, k) && b.subrange(k, i) == p && o + cut(b, s) + b.subrange(end_of(s), k) == f
    } else {
        s.len() == 0 && o == f && p.skip(p.len() - i) == b.take(i)
    }
}
pub open spec fn advanced(t: Table, b: Seq<u8>, i: int, p0: Seq<u8>, s0: Snips, o0: Seq<u8>, p1: Seq<u8>, s1: Snips, o1: Seq<u8>) -> bool {
    &&& p1 == press(t, p0, b[i]).1
    &&& match press(t, p0, b[i]).0 {
        BindingResult::NoMatch =>
            if p0.len() > i { o1 == o0 + p0 && (if i == 0 { s1 == s0 } else { s1 == s0.push((i as usize, (i - 1) as usize)) }) }
            else { o1 == o0 && s1 == s0 },
        BindingResult::Partial => o1 == o0 && s1 == s0,
        BindingResult::Match(_) => o1 == o0 && (if p0.len() <= i { s1 == s0.push(((p0.len() + 1) as usize, i as usize)) }
            else { s1 == s0.push(((i + 1) as usize, i as usize)) }),
    }
}
pub proof fn lemma_step(t: Table, g0: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures ({
        let a = g0 + b.take(i); let c = g0 + b.take(i + 1); let p = held(t, a);
        &&& c.drop_last() == a && c.last() == b[i] && c.len() > 0
        &&& held(t, c) == press(t, p, b[i]).1
        &&& forwarded(t, c) == forwarded(t, a) + match press(t, p, b[i]).0 { BindingResult::NoMatch => p.push(b[i]), _ => Seq::empty() }
    })
{
    let a = g0 + b.take(i); let c = g0 + b.take(i + 1);
    assert(c.drop_last() =~= a);
    assert(c.last() == b[i]);
}
pub proof fn lemma_state_start(t: Table, g0: Seq<u8>, b: Seq<u8>, p: Seq<u8>, s: Snips, o: Seq<u8>)
    requires s.len() == 0, o == forwarded(t, g0), p == held(t, g0)
    ensures state(t, g0, b, 0, p, s, o)
{
    assert(g0 + b.take(0) =~= g0);
    assert(b.subrange(0, 0) =~= Seq::empty());
    if p.len() == 0 { assert(p =~= Seq::empty()); }
    assert(p.skip(p.len() as int) =~= b.take(0));
    assert(o + cut(b, s) + b.subrange(0, 0) =~= o);
}
pub open spec fn sane(t: Table) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0.len() < usize::MAX }
pub proof fn lemma_held_len(t: Table, a: Seq<u8>)
    requires sane(t)
    ensures held(t, a).len() < usize::MAX
{
    if a.len() > 0 {
        let s = held(t, a.drop_last()).push(a.last());
        if bound(t, s) is None && begun(t, s) {
            let i = choose|i: int| 0 <= i < t.len() && s.is_prefix_of((#[trigger] t[i]).0);
            assert(t[i].0.len() < usize::MAX);
        }
    }
}
pub proof fn lemma_state_nomatch_split(t: Table, g0: Seq<u8>, b: Seq<u8>, i: int, p0: Seq<u8>, s0: Snips, o0: Seq<u8>, p1: Seq<u8>, s1: Snips, o1: Seq<u8>)
    requires
        0 <= i < b.len(), b.len() <= usize::MAX, p0.len() < usize::MAX,
        p0 == held(t, g0 + b.take(i)),
        state(t, g0, b, i, p0, s0, o0),
        advanced(t, b, i, p0, s0, o0, p1, s1, o1),
        press(t, p0, b[i]).0 is NoMatch, p0.len() > i,
    ensures state(t, g0, b, i + 1, p1, s1, o1)
{
    lemma_step(t, g0, b, i);
    let f1 = forwarded(t, g0 + b.take(i + 1));
    let n = i + 1;
    assert(p1 =~= Seq::empty());
    assert(s0 =~= Seq::empty());
    assert(b.subrange(0, 0) =~= Seq::empty());
    if i > 0 {
        let x = (i as usize, (i - 1) as usize);
        lemma_cut_push(b, s0, x);
        assert(s1 == s0.push(x));
        assert(cut(b, s1) =~= Seq::empty());
        assert(end_of(s1) == i);
        assert(snips_ok(s1, n));
    }
    assert(end_of(s1) == i);
    assert(b.subrange(i, n) =~= seq![b[i]]);
    assert(o1 + cut(b, s1) + b.subrange(end_of(s1), n) =~= f1);
    assert(b.subrange(n, n) =~= p1);
}
pub proof fn lemma_state_nomatch(t: Table, g0: Seq<u8>, b: Seq<u8>, i: int, p0: Seq<u8>, s0: Snips, o0: Seq<u8>, p1: Seq<u8>, s1: Snips, o1: Seq<u8>)
    requires
        0 <= i < b.len(), b.len() <= usize::MAX, p0.len() < usize::MAX,
        p0 == held(t, g0 + b.take(i)),
        state(t, g0, b, i, p0, s0, o0),
        advanced(t, b, i, p0, s0, o0, p1, s1, o1),
        press(t, p0, b[i]).0 is NoMatch, p0.len() <= i,
    ensures state(t, g0, b, i + 1, p1, s1, o1)
{
    lemma_step(t, g0, b, i);
    let f1 = forwarded(t, g0 + b.take(i + 1));
    let n = i + 1;
    let k = i - p0.len();
    assert(p1 =~= Seq::empty());
    lemma_snips_weaken(s0, k, n);
    lemma_snips_bound(s0, k);
    assert(b.subrange(end_of(s0), n) =~= b.subrange(end_of(s0), k) + b.subrange(k, i) + seq![b[i]]);
    assert(o1 + cut(b, s1) + b.subrange(end_of(s1), n) =~= f1);
    assert(b.subrange(n, n) =~= p1);
}
pub proof fn lemma_state_partial(t: Table, g0: Seq<u8>, b: Seq<u8>, i: int, p0: Seq<u8>, s0: Snips, o0: Seq<u8>, p1: Seq<u8>, s1: Snips, o1: Seq<u8>)
    requires
        0 <= i < b.len(), b.len() <= usize::MAX, p0.len() < usize::MAX,
        p0 == held(t, g0 + b.take(i)),
        state(t, g0, b, i, p0, s0, o0),
        advanced(t, b, i, p0, s0, o0, p1, s1, o1),
        press(t, p0, b[i]).0 is Partial,
    ensures state(t, g0, b, i + 1, p1, s1, o1)
{
    lemma_step(t, g0, b, i);
    let n = i + 1;
    assert(forwarded(t, g0 + b.take(n)) =~= forwarded(t, g0 + b.take(i)));
    assert(p1 == p0.push(b[i]));
    if p0.len() <= i {
        let k = i - p0.len();
        assert(b.subrange(k, n) =~= b.subrange(k, i).push(b[i]));
    } else {
        assert(p1.skip(p1.len() - n) =~= p0.skip(p0.len() - i).push(b[i]));
        assert(b.take(n) =~= b.take(i).push(b[i]));
    }
}
pub proof fn lemma_state_match(t: Table, g0: Seq<u8>, b: Seq<u8>, i: int, p0: Seq<u8>, s0: Snips, o0: Seq<u8>, p1: Seq<u8>, s1: Snips, o1: Seq<u8>)
    requires
        0 <= i < b.len(), b.len() <= usize::MAX, p0.len() < usize::MAX,
        p0 == held(t, g0 + b.take(i)),
        state(t, g0, b, i, p0, s0, o0),
        advanced(t, b, i, p0, s0, o0, p1, s1, o1),
        press(t, p0, b[i]).0 is Match,
    ensures state(t, g0, b, i + 1, p1, s1, o1)
{
    lemma_step(t, g0, b, i);
    let n = i + 1;
    assert(forwarded(t, g0 + b.take(n)) =~= forwarded(t, g0 + b.take(i)));
    assert(p1 =~= Seq::empty());
    assert(b.subrange(n, n) =~= p1);
    if p0.len() <= i {
        let k = i - p0.len();
        lemma_cut_push(b, s0, ((p0.len() + 1) as usize, i as usize));
        lemma_snips_weaken(s0, k, n);
        assert(o1 + cut(b, s1) + b.subrange(end_of(s1), n) =~= o0 + cut(b, s0) + b.subrange(end_of(s0), k));
    } else {
        assert(s0 =~= Seq::empty());
        lemma_cut_push(b, s0, ((i + 1) as usize, i as usize));
        assert(b.subrange(0, 0) =~= Seq::empty());
        assert(o1 + cut(b, s1) + b.subrange(end_of(s1), n) =~= o0);
    }
}
pub proof fn lemma_state(t: Table, g0: Seq<u8>, b: Seq<u8>, i: int, p0: Seq<u8>, s0: Snips, o0: Seq<u8>, p1: Seq<u8>, s1: Snips, o1: Seq<u8>)
    requires
        0 <= i < b.len(), b.len() <= usize::MAX, p0.len() < usize::MAX,
        p0 == held(t, g0 + b.take(i)),
        state(t, g0, b, i, p0, s0, o0),
        advanced(t, b, i, p0, s0, o0, p1, s1, o1),
    ensures state(t, g0, b, i + 1, p1, s1, o1)
{
    match press(t, p0, b[i]).0 {
        BindingResult::NoMatch =>
            if p0.len() > i { lemma_state_nomatch_split(t, g0, b, i, p0, s0, o0, p1, s1, o1) } else { lemma_state_nomatch(t, g0, b, i, p0, s0, o0, p1, s1, o1) },
        BindingResult::Partial => lemma_state_partial(t, g0, b, i, p0, s0, o0, p1, s1, o1),
        BindingResult::Match(_) => lemma_state_match(t, g0, b, i, p0, s0, o0, p1, s1, o1),
    }
}
pub proof fn lemma_final_part(t: Table, g0: Seq<u8>, b: Seq<u8>, n: int, s: Snips, o: Seq<u8>)
    requires state(t, g0, b, n, Seq::empty(), s, o)
    ensures o + kept(b.take(n), s) == forwarded(t, g0 + b.take(n)), snips_ok(s, n)
{
    assert(b.take(n).take(n) =~= b.take(n));
    lemma_cut_local(b, b.take(n), s, n);
    lemma_snips_bound(s, n);
    assert(b.take(n).subrange(end_of(s), n) =~= b.subrange(end_of(s), n));
    assert(o + kept(b.take(n), s) =~= o + cut(b, s) + b.subrange(end_of(s), n));
}
pub proof fn lemma_whole(t: Table, g0: Seq<u8>, b: Seq<u8>, p: Seq<u8>, s: Snips, s1: Snips, o: Seq<u8>)
    requires
        0 < b.len() <= usize::MAX,
        state(t, g0, b, b.len() as int, p, s, o),
        p.len() == 0 ==> s1 == s,
        p.len() > 0 ==> s1 == s.push(((if p.len() > b.len() { b.len() as int } else { p.len() as int }) as usize, (b.len() - 1) as usize)),
    ensures o + kept(b, s1) == forwarded(t, g0 + b), snips_ok(s1, b.len() as int)
{
    let n = b.len() as int;
    assert(b.take(n) =~= b);
    if p.len() == 0 {
        assert(p =~= Seq::empty());
        lemma_final_part(t, g0, b, n, s, o);
    } else {
        lemma_cut_push(b, s, s1.last());
        assert(b.subrange(n, n) =~= Seq::empty());
        if p.len() <= n { lemma_snips_weaken(s, n - p.len(), n); assert(o + kept(b, s1) =~= o + cut(b, s) + b.subrange(end_of(s), n - p.len())); }
        else { assert(b.subrange(0, 0) =~= Seq::empty()); assert(o + kept(b, s1) =~= o); }
    }
}

// the client->shell thread
//@closure libshpool/src/daemon/shell.rs :: spawn_client_to_shell :: spawn_scoped(scope, move || -> anyhow::Result<()>
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sig
fn client_to_shell(this: &SessionInner, stop: &AtomicBool, pty_master: &Master, shell_to_client_client_stream: &mut UnixStream,
    bindings: anyhow::Result<Bindings>, Ghost(t): Ghost<Table>) -> (r: anyhow::Result<()>)
//@sub `let _s = span!(Level::INFO, "client->shell", s = self.name, cid = conn_id).entered();` => ``
//@sub `test_hooks::emit("daemon-read-c2s-chunk");` => ``
//@sub `&mut buf[..]` => `buf.as_mut_slice()`
//@sub `&snip_sections[..]` => `snip_sections.as_slice()`
//@sub `self.action_detach()` => `this.action_detach(Ghost(t), Ghost(typed_now), Ghost(master_writer.out()))`
//@spec
    requires
        old(shell_to_client_client_stream).got().len() == 0,
        bindings is Ok ==> bindings->Ok_0.standing(t, Seq::empty()), sane(t),
//@loop 0 kind=loop
    invariant
        buf@.len() == consts::BUF_SIZE, sane(t),
        bindings.standing(t, held(t, shell_to_client_client_stream.got())),
        partial_keybinding@ == held(t, shell_to_client_client_stream.got()),
        master_writer.out() == forwarded(t, shell_to_client_client_stream.got()),
//@at loopbefore 0
    proof { assert(shell_to_client_client_stream.got() =~= Seq::empty()); assert(partial_keybinding@ =~= Seq::empty()); }
//@at loopstart 0
    let ghost g0 = shell_to_client_client_stream.got();
    let ghost out0 = master_writer.out();
//@at loopbefore 1
    let ghost got = shell_to_client_client_stream.got();
    let ghost b = buf@.take(len as int);
    let ghost full = buf@;
    proof { assert(g0 + b.take(0) =~= g0); lemma_state_start(t, g0, b, partial_keybinding@, snip_sections@, master_writer.out()); }
//@loop 1 iter=it kind=for
    invariant
        __en0 == it.index(), it.seq().len() == len, len == b.len(), 0 < len <= buf@.len(), buf@.len() == consts::BUF_SIZE,
        sane(t), buf@ == full, b == full.take(len as int),
        forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == b[j],
        bindings.standing(t, held(t, g0 + b.take(it.index()))),
        partial_keybinding@ == held(t, g0 + b.take(it.index())),
        state(t, g0, b, it.index(), partial_keybinding@, snip_sections@, master_writer.out()),
//@at loopstart 1
    let ghost i0 = it.index();
    let ghost p0 = partial_keybinding@;
    let ghost s0 = snip_sections@;
    let ghost o0 = master_writer.out();
    let ghost typed_now = g0 + b.take(i0 + 1);
    proof {
        assert(*(it.seq()[i0]) == b[i0]);
        lemma_step(t, g0, b, i0);
        lemma_held_len(t, g0 + b.take(i0));
    }
//@at loopend 1
    proof {
        if s0.len() < snip_sections@.len() { lemma_cut_push(b, s0, snip_sections@.last()); }
        assert(partial_keybinding@ =~= held(t, typed_now));
        assert(advanced(t, b, i0, p0, s0, o0, partial_keybinding@, snip_sections@, master_writer.out()));
        lemma_state(t, g0, b, i0, p0, s0, o0, partial_keybinding@, snip_sections@, master_writer.out());
    }
//@at before 0 `use keybindings::Action::*;`
    proof {
        lemma_cut_push(b, s0, snip_sections@.last());
        lemma_state(t, g0, b, i0, p0, s0, o0, partial_keybinding@, snip_sections@, master_writer.out());
        lemma_final_part(t, g0, b, i0 + 1, snip_sections@, master_writer.out());
        assert(buf@.take(i0 + 1) =~= b.take(i0 + 1));
    }
//@at loopafter 1
    let ghost s9 = snip_sections@;
    proof {
        assert(b.take(len as int) =~= b); assert(got == g0 + b);
        assert(state(t, g0, b, len as int, partial_keybinding@, s9, master_writer.out()));
    }
//@at before 1 `len = snip_buf(`
    proof {
        lemma_whole(t, g0, b, partial_keybinding@, s9, snip_sections@, master_writer.out());
    }
//@endfn

fn main() {}
} // verus!
