// The message of the day: what is dumped on a new session's terminal, when the pager is due, and what it is asked to show.
//@include prelude/std.rs
verus! {
global size_of usize == 8;
use std::sync::Arc;
pub mod consts {
    use vstd::prelude::*;
//@item libshpool/src/consts.rs :: const BUF_SIZE
}
pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
}
impl From<io::Error> for anyhow::Error { #[verifier::external_body] fn from(e: io::Error) -> (r: Self) ensures !anyhow::marked(r) { unimplemented!() } }

pub assume_specification<T, E, U, F: FnOnce(T) -> U + core::marker::Destruct> [Result::<T, E>::map_or](a: Result<T, E>, d: U, f: F) -> (r: U)
    where E: core::marker::Destruct, T: core::marker::Destruct, U: core::marker::Destruct,
    requires a is Ok ==> call_requires(f, (a->Ok_0,))
    ensures match a { Ok(v) => call_ensures(f, (v,), r), Err(_) => r == d };
// ---- texts
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
/// pieces of s between newlines
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] }
    else if s[0] == '\n' { seq![Seq::<char>::empty()] + lines_of(s.skip(1)) }
    else { let r = lines_of(s.skip(1)); seq![seq![s[0]] + r[0]] + r.skip(1) }
}
pub trait StrX {
    spec fn text(&self) -> Seq<char>;
    fn split_at_char(&self, c: char) -> (r: Vec<&str>)
        ensures c == '\n' ==> r@.len() == lines_of(self.text()).len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(self.text())[i];
    fn utf8(&self) -> (r: &[u8]) ensures r@ == utf8(self.text());
}
impl StrX for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn split_at_char(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn utf8(&self) -> (r: &[u8]) { unimplemented!() }
}
pub trait PutAll { fn put_all(&mut self, b: &[u8]); }
impl PutAll for Vec<u8> {
    #[verifier::external_body]
    fn put_all(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
}
/// the first n lines, each ended by a newline and what takes the cursor to the left
pub open spec fn lined(ls: Seq<Seq<char>>, n: int, cr: Seq<u8>) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else { lined(ls, n - 1, cr) + utf8(ls[n - 1]) + seq![10u8] + cr }
}
pub open spec fn shown(s: Seq<char>, cr: Seq<u8>) -> Seq<u8> { lined(lines_of(s), lines_of(s).len() as int, cr) }

// ---- the terminal
pub mod termini {
    use vstd::prelude::*;
    pub enum StringCapability { CarriageReturn, Bell, Tab, ClearScreen }
    #[verifier::external_body]
    pub struct TermInfo { _p: () }
    impl TermInfo {
        pub uninterp spec fn cr(&self) -> Option<Seq<u8>>;
        #[verifier::external_body]
        pub fn raw_string_cap(&self, c: StringCapability) -> (r: Option<&[u8]>)
            ensures c is CarriageReturn ==> (r is Some) == (self.cr() is Some) && (r is Some ==> r->0@ == self.cr()->0)
        { unimplemented!() }
    }
}
/// frames to the client
#[verifier::external_body]
pub struct Sink { _p: () }
impl Sink {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn others(&self) -> nat;
}
#[derive(Copy, Clone)]
//@item shpool-protocol/src/lib.rs :: enum ChunkKind
//@item shpool-protocol/src/lib.rs :: struct Chunk
impl<'data> Chunk<'data> {
    /// proved for P01; no frame may be longer than the client's buffer
    #[verifier::external_body]
    pub fn write_to(&self, w: &mut Sink) -> (r: io::Result<()>)
        requires self.buf@.len() <= consts::BUF_SIZE
        ensures
            r is Ok && self.kind is Data ==> final(w).data() == old(w).data() + self.buf@ && final(w).others() == old(w).others(),
            r is Ok && !(self.kind is Data) ==> final(w).others() == old(w).others() + 1,
            r is Err ==> old(w).data().is_prefix_of(final(w).data()),
    { unimplemented!() }
}
/// slice::chunks
pub struct ChunksOf<'a> { pub rest: &'a [u8], pub n: usize }
pub fn same<'a>(c: ChunksOf<'a>) -> (r: ChunksOf<'a>) ensures r == c { c }
pub trait ChunksX { spec fn bytes(&self) -> Seq<u8>; fn chunks_of(&self, n: usize) -> (r: ChunksOf<'_>) requires n > 0 ensures r.rest@ == self.bytes(), r.n == n; }
impl ChunksX for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } fn chunks_of(&self, n: usize) -> (r: ChunksOf<'_>) { ChunksOf { rest: self, n } } }
impl<'a> ChunksOf<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a [u8]>)
        ensures
            final(self).n == old(self).n,
            r is None <==> old(self).rest@.len() == 0,
            r is None ==> final(self).rest@ == old(self).rest@,
            r is Some ==> ({ let k = if old(self).rest@.len() < old(self).n { old(self).rest@.len() as int } else { old(self).n as int };
                r->Some_0@ == old(self).rest@.take(k) && final(self).rest@ == old(self).rest@.skip(k) }),
    { unimplemented!() }
}

// ---- the clock
pub mod time {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub struct Duration { pub ns: nat128 }
    pub type nat128 = u128;
    #[verifier::external_body]
    pub struct Backwards { _p: () }
    #[derive(Clone, Copy)]
    pub struct SystemTime { pub ns: i128 }
    /// the clock read this at some moment of the call
    pub uninterp spec fn clock(t: SystemTime) -> bool;
    pub open spec fn since(t: SystemTime, u: SystemTime) -> int { u.ns - t.ns }
    impl SystemTime {
        #[verifier::external_body]
        pub fn now() -> (r: SystemTime) ensures clock(r) { unimplemented!() }
        #[verifier::external_body]
        pub fn elapsed(&self) -> (r: Result<Duration, Backwards>)
            ensures
                r is Ok ==> exists|u: SystemTime| #[trigger] clock(u) && since(*self, u) == r->Ok_0.ns,
                r is Err ==> exists|u: SystemTime| #[trigger] clock(u) && since(*self, u) < 0,
        { unimplemented!() }
    }
    impl From<Backwards> for super::anyhow::Error { #[verifier::external_body] fn from(e: Backwards) -> (r: Self) { unimplemented!() } }
    impl PartialEq for Duration { fn eq(&self, o: &Duration) -> (r: bool) { self.ns == o.ns } }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Duration) -> bool { self.ns == o.ns } }
    impl PartialOrd for Duration {
        #[verifier::external_body]
        fn partial_cmp(&self, o: &Duration) -> (r: Option<core::cmp::Ordering>) { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for Duration {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<core::cmp::Ordering> {
            if self.ns < o.ns { Some(core::cmp::Ordering::Less) } else if self.ns > o.ns { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) }
        }
    }
}
/// what this thread sees of the shared state, and the pagers it had shown
pub struct Show { pub bin: Seq<char>, pub msg: Seq<char>, pub size: TtySize, pub client: int }
pub struct Wv { pub last: Option<time::SystemTime>, pub shows: Seq<Show>, pub hung: bool }
#[verifier::external_body]
pub struct World { _p: () }
impl World { pub uninterp spec fn v(&self) -> Wv; }
/// the lock around the time the pager was shown last; nobody else touches it while it is held
#[verifier::external_body]
pub struct Slot { _p: () }
impl Slot {
    pub uninterp spec fn init(&self) -> Option<time::SystemTime>;
    #[verifier::external_body]
    pub fn new(v: Option<time::SystemTime>) -> (r: Slot) ensures r.init() == v { unimplemented!() }
    #[verifier::external_body]
    pub fn held<'a>(&self, w: &'a mut World) -> (r: &'a mut Option<time::SystemTime>)
        ensures *r == old(w).v().last, final(w).v() == (Wv { last: *final(r), ..old(w).v() })
    { unimplemented!() }
}

// ---- configuration, the system's message, the pager
//@item shpool-protocol/src/lib.rs :: struct TtySize
impl Clone for TtySize { fn clone(&self) -> (r: TtySize) ensures r == *self { TtySize { rows: self.rows, cols: self.cols, xpixel: self.xpixel, ypixel: self.ypixel } } }
pub mod config {
    use vstd::prelude::*;
//@item libshpool/src/config.rs :: enum MotdDisplayMode
    pub struct Cfg { pub motd_args: Option<Vec<String>>, pub mode: MotdDisplayMode }
    impl Cfg {
        #[verifier::external_body]
        pub fn motd_mode(&self) -> (r: MotdDisplayMode) ensures r == self.mode { unimplemented!() }
    }
    /// this was the configuration at some moment of the call
    pub uninterp spec fn current(c: Cfg) -> bool;
    #[verifier::external_body]
    pub struct Manager { _p: () }
    impl Manager { #[verifier::external_body] pub fn get(&self) -> (r: Cfg) ensures current(r) { unimplemented!() } }
}
pub mod duration {
    use vstd::prelude::*;
    pub uninterp spec fn parsed(s: Seq<char>) -> Option<super::time::Duration>;
    /// proved for P06
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: super::anyhow::Result<super::time::Duration>) ensures (r is Ok) == (parsed(s@) is Some), r is Ok ==> r->Ok_0 == parsed(s@)->0 { unimplemented!() }
}
pub open spec fn has_noupdate(a: Seq<String>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == "noupdate"@ }
/// what pam_motd is asked with these arguments, or the system's own if there are none
pub uninterp spec fn message(args: Option<Seq<Seq<char>>>) -> Seq<char>;
pub open spec fn texts(a: Seq<String>) -> Seq<Seq<char>> { Seq::new(a.len(), |i: int| a[i]@) }
pub mod arg_facts { use super::*;
pub broadcast proof fn lemma_push(a: Seq<String>, s: String) ensures #[trigger] texts(a.push(s)) == texts(a).push(s@) { assert(texts(a.push(s)) =~= texts(a).push(s@)); }
}
pub open spec fn configured(c: config::Cfg) -> Seq<char> {
    match c.motd_args {
        None => message(None),
        Some(a) => message(Some(if has_noupdate(a@) { texts(a@) } else { texts(a@).push("noupdate"@) })),
    }
}
pub trait ArgsX { spec fn all(&self) -> Seq<String>; fn has(&self, s: &str) -> (r: bool) ensures s@ == "noupdate"@ ==> r == has_noupdate(self.all()); fn copied(&self) -> (r: Vec<String>) ensures texts(r@) == texts(self.all()), has_noupdate(r@) == has_noupdate(self.all()); }
impl ArgsX for Vec<String> {
    open spec fn all(&self) -> Seq<String> { self@ }
    #[verifier::external_body] fn has(&self, s: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn copied(&self) -> (r: Vec<String>) { unimplemented!() }
}
#[verifier::external_body]
pub fn text_of(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub mod motd {
    use vstd::prelude::*;
    pub enum ArgResolutionStrategy { Exact(Vec<String>), Auto }
    #[verifier::external_body]
    pub struct Resolver { _p: () }
    #[verifier::external_body]
    pub struct Error { _p: () }
    impl Resolver {
        #[verifier::external_body] pub fn new() -> (r: Result<Resolver, Error>) { unimplemented!() }
        #[verifier::external_body]
        pub fn value(&self, a: ArgResolutionStrategy) -> (r: Result<String, Error>)
            ensures r is Ok ==> r->Ok_0@ == super::message(match a { ArgResolutionStrategy::Exact(v) => Some(super::texts(v@)), ArgResolutionStrategy::Auto => None::<Seq<Seq<char>>> }),
                r is Err ==> !super::anyhow::marked(r->Err_0)
        { unimplemented!() }
    }
}
#[verifier::external_body]
pub struct UnixStream { _p: () }
impl UnixStream { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body]
pub struct CtlSlot { _p: () }
#[verifier::external_body]
pub struct Env { _p: () }
pub struct Pager { pub pager_bin: String }
impl Pager {
    pub fn new(b: String) -> (r: Pager) ensures r.pager_bin@ == b@ { Pager { pager_bin: b } }
    /// proved separately (P22pager)
    #[verifier::external_body]
    pub fn display(&self, w: &mut World, s: &mut UnixStream, c: Arc<CtlSlot>, size: TtySize, msg: &str, env: &Env) -> (r: anyhow::Result<TtySize>)
        ensures
            final(s).id() == old(s).id(), final(w).v().last == old(w).v().last,
            final(w).v().shows == old(w).v().shows.push(Show { bin: self.pager_bin@, msg: msg@, size, client: old(s).id() }),
            final(w).v().hung == (old(w).v().hung || (r is Err && anyhow::marked(r->Err_0))),
    { unimplemented!() }
}

//@item libshpool/src/daemon/show_motd.rs :: struct DailyMessenger
//@item libshpool/src/daemon/show_motd.rs :: struct Debouncer sub `Arc<Mutex<Option<time::SystemTime>>>` => `Slot`
/// it is due: never shown, or not within the duration, or nobody can tell because the clock was set back
pub open spec fn due(last: Option<time::SystemTime>, dur: time::Duration, u: time::SystemTime) -> bool {
    last is None || time::since(last->0, u) >= dur.ns || time::since(last->0, u) < 0
}

impl Debouncer {
//@fn libshpool/src/daemon/show_motd.rs :: Debouncer :: new
//@ret r
//@sub `Arc::new(Mutex::new(None))` => `Slot::new(None)`
//@spec
    ensures r.dur == $1, r.last_fired.init() is None
//@endfn
//@fn libshpool/src/daemon/show_motd.rs :: Debouncer :: should_fire
//@ret r
//@sub `(&self)` => `(&self, w: &mut World)`
//@sub `self.last_fired.lock()` => `self.last_fired.held(w)`
//@cl 0 (q: bool) ensures q == ($c1.ns >= self.dur.ns)
//@spec
    ensures
        final(w).v().shows == old(w).v().shows, final(w).v().hung == old(w).v().hung,
        r ==> (old(w).v().last is None || exists|u: time::SystemTime| #[trigger] time::clock(u) && due(old(w).v().last, self.dur, u))
            && final(w).v().last is Some && time::clock(final(w).v().last->0),
        !r ==> old(w).v().last is Some && (exists|u: time::SystemTime| #[trigger] time::clock(u) && !due(old(w).v().last, self.dur, u))
            && final(w).v().last == old(w).v().last,
//@endfn
}
impl DailyMessenger {
//@fn libshpool/src/daemon/show_motd.rs :: DailyMessenger :: new
//@ret r
//@sub `.motd.clone().unwrap_or_default()` => `.motd_mode()`
//@spec
    ensures
        r is Ok ==> exists|c: config::Cfg| #[trigger] config::current(c) && match (c.mode, r->Ok_0.debouncer) {
            (config::MotdDisplayMode::Pager { show_every: Some(d), .. }, Some(b)) => Some(b.dur) == duration::parsed(d@) && b.last_fired.init() is None,
            (config::MotdDisplayMode::Pager { show_every: Some(d), .. }, None) => false,
            (_, b) => b is None,
        }
//@endfn
//@fn libshpool/src/daemon/show_motd.rs :: DailyMessenger :: motd_value
//@ret r
//@sub `.iter().any(|a| a == "noupdate")` => `.has("noupdate")`
//@sub `args.clone()` => `args.copied()`
//@sub `String::from(` => `text_of(`
//@spec
    ensures
        r is Ok ==> exists|c: config::Cfg| #[trigger] config::current(c) && r->Ok_0@ == configured(c),
        r is Err ==> !anyhow::marked(r->Err_0),
//@at start
    broadcast use arg_facts::lemma_push;
//@endfn
//@fn libshpool/src/daemon/show_motd.rs :: DailyMessenger :: raw_motd_value
//@ret r
//@spec
    ensures
        r is Ok ==> $1.cr() is Some && exists|c: config::Cfg| #[trigger] config::current(c) && r->Ok_0@ == shown(configured(c), $1.cr()->0),
//@endfn
//@fn libshpool/src/daemon/show_motd.rs :: DailyMessenger :: convert_to_raw
//@ret r
//@sub `.split('\n')` => `.split_at_char('\n')`
//@sub `.extend(` => `.put_all(`
//@sub `.as_bytes()` => `.utf8()`
//@bind OUT `let mut ? : Vec < u8 >`
//@bind CR `let ? = term_db`
//@spec
    ensures
        (r is Ok) == ($1.cr() is Some),
        r is Ok ==> r->Ok_0@ == shown($2@, $1.cr()->0),
//@loop 0 iter=it kind=for
    invariant
        it.seq().len() == lines_of($2@).len(), forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i])@ == lines_of($2@)[i],
        $1.cr() is Some, $CR@ == $1.cr()->0, $OUT@ == lined(lines_of($2@), it.index(), $CR@),
//@at loopend 0
    assert($OUT@ =~= lined(lines_of($2@), it.index() + 1, $CR@));
//@endfn
//@fn libshpool/src/daemon/show_motd.rs :: DailyMessenger :: dump
//@ret r
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub `<W: io::Write>` => ``
//@sub `mut stream: W` => `stream: &mut Sink`
//@sub `&mut stream` => `stream`
//@sub `.as_slice().chunks(` => `.as_slice().chunks_of(`
//@bind RAW `let ? = self . raw_motd_value`
//@spec
    ensures
        r is Ok ==> final(stream).others() == old(stream).others() && $2.cr() is Some && exists|c: config::Cfg| #[trigger] config::current(c)
            && final(stream).data() == old(stream).data() + shown(configured(c), $2.cr()->0),
//@at loopbefore 0
    let ghost d0 = stream.data();
    assert($RAW@.take(0) =~= Seq::empty());
    assert($RAW@.skip(0) =~= $RAW@);
//@loop 0 next=same
    invariant
        __it0.n == consts::BUF_SIZE, stream.others() == old(stream).others(), d0 == old(stream).data(),
        __it0.rest@.len() <= $RAW@.len(), __it0.rest@ == $RAW@.skip($RAW@.len() - __it0.rest@.len()),
        stream.data() == d0 + $RAW@.take($RAW@.len() - __it0.rest@.len()),
    ensures __it0.rest@.len() == 0,
//@at loopstart 0
    let ghost k1 = $RAW@.len() - __it0.rest@.len();
    let ghost k0 = k1 - block@.len();
    proof {
        assert($RAW@.skip(k0).take(block@.len() as int) =~= $RAW@.subrange(k0, k1));
        assert($RAW@.skip(k0).skip(block@.len() as int) =~= $RAW@.skip(k1));
        assert(d0 + $RAW@.take(k1) =~= d0 + $RAW@.take(k0) + $RAW@.subrange(k0, k1));
    }
//@at loopafter 0
    assert($RAW@.take($RAW@.len() as int) =~= $RAW@);
//@endfn
//@fn libshpool/src/daemon/show_motd.rs :: DailyMessenger :: display_in_pager
//@ret r
//@sub `&self,` => `&self, w: &mut World,`
//@sub `Arc<Mutex<Option<PagerCtl>>>` => `Arc<CtlSlot>`
//@sub `&[(OsString, OsString)]` => `&Env`
//@sub `.should_fire()` => `.should_fire(w)`
//@sub `.motd.clone().unwrap_or_default()` => `.motd_mode()`
//@sub `.to_string()` => ``
//@sub `pager.display(` => `pager.display(w, `
//@spec
    requires !old(w).v().hung
    ensures
        // shown when it is due: the configured message in the configured program, at the client's size
        r is Ok && r->Ok_0 is Some ==> final(w).v().shows.len() == old(w).v().shows.len() + 1
            && final(w).v().shows.drop_last() == old(w).v().shows && ({ let s = final(w).v().shows.last();
            &&& s.client == old($2).id() && s.size == $4
            &&& exists|c: config::Cfg| #[trigger] config::current(c) && match c.mode { config::MotdDisplayMode::Pager { bin, .. } => s.bin == bin@, _ => false }
            &&& exists|c: config::Cfg| #[trigger] config::current(c) && s.msg == configured(c)
        }) && (self.debouncer is Some ==> final(w).v().last is Some && time::clock(final(w).v().last->0)),
        r is Ok && r->Ok_0 is None ==> final(w).v().shows == old(w).v().shows && self.debouncer is Some
            && (exists|u: time::SystemTime| #[trigger] time::clock(u) && !due(old(w).v().last, self.debouncer->0.dur, u)) && final(w).v().last == old(w).v().last,
        final(w).v().shows.len() > old(w).v().shows.len() && self.debouncer is Some ==> old(w).v().last is None
            || exists|u: time::SystemTime| #[trigger] time::clock(u) && due(old(w).v().last, self.debouncer->0.dur, u),
        // only a client that hung up is given up
        r is Err ==> anyhow::marked(r->Err_0) == final(w).v().hung,
        final($2).id() == old($2).id(),
//@endfn
}
}
fn main() {}
