//@include prelude/std.rs
//@include prelude/s2c.rs

verus! {
// ------------------------------------------------- the prompt marker
pub open spec fn ends(h: Seq<u8>, s: Seq<u8>) -> bool { s.len() <= h.len() && h.skip(h.len() - s.len()) == s }
/// where the first occurrence of the marker ends
pub open spec fn first_end(h: Seq<u8>, s: Seq<u8>) -> Option<int>
    decreases h.len()
{
    if h.len() == 0 { None } else {
        match first_end(h.drop_last(), s) { Some(k) => Some(k), None => if ends(h, s) { Some(h.len() as int) } else { None } }
    }
}
/// the part of the output a client gets to see: all of it, or what follows the marker
pub open spec fn visible(h: Seq<u8>, marker: Option<Seq<u8>>) -> Seq<u8> {
    match marker {
        None => h,
        Some(s) => match first_end(h, s) { Some(k) => h.skip(k), None => Seq::empty() },
    }
}
pub proof fn lemma_first_end_bound(h: Seq<u8>, s: Seq<u8>)
    ensures first_end(h, s) is Some ==> 0 <= first_end(h, s)->0 <= h.len()
    decreases h.len()
{ if h.len() > 0 { lemma_first_end_bound(h.drop_last(), s); } }
pub proof fn lemma_first_end_grows(a: Seq<u8>, b: Seq<u8>, s: Seq<u8>)
    requires first_end(a, s) is Some
    ensures first_end(a + b, s) == first_end(a, s)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        lemma_first_end_grows(a, b.drop_last(), s);
        assert((a + b).drop_last() =~= a + b.drop_last());
    }
}
pub proof fn lemma_visible_grows(a: Seq<u8>, b: Seq<u8>, m: Option<Seq<u8>>)
    requires m is None || first_end(a, m->0) is Some
    ensures visible(a + b, m) == visible(a, m) + b
{
    if m is Some {
        lemma_first_end_grows(a, b, m->0);
        lemma_first_end_bound(a, m->0);
        let k = first_end(a, m->0)->0;
        assert((a + b).skip(k) =~= a.skip(k) + b);
    }
}

//@item libshpool/src/daemon/shell_inject.rs :: struct SentinelScanner
impl SentinelScanner {
    /// these bytes went by without the marker
    pub closed spec fn seen(&self, h: Seq<u8>) -> bool {
        let n = self.sentinel@.len() as int;
        &&& self.num_matches == 0
        &&& 0 < n < usize::MAX
        &&& first_end(h, self.sentinel@) is None
        &&& self.recent@ == (if h.len() <= n { h } else { h.skip(h.len() - n) })
    }
    /// the marker was found, and at most this many bytes followed
    pub closed spec fn found(&self, k: int) -> bool { 1 <= self.num_matches <= 1 + k && 0 < self.sentinel@.len() < usize::MAX && self.recent@.len() <= self.sentinel@.len() }
    pub closed spec fn marker(&self) -> Seq<u8> { self.sentinel@ }

//@fn libshpool/src/daemon/shell_inject.rs :: SentinelScanner :: new
//@ret r
//@sub `sentinel.as_bytes().to_vec()` => `bytes_of(sentinel)`
//@spec
    requires 0 < $1.view_bytes().len() < usize::MAX
    ensures r.marker() == $1.view_bytes(), r.seen(Seq::empty())
//@endfn
//@fn libshpool/src/daemon/shell_inject.rs :: SentinelScanner :: transition
//@ret r
//@sub `self.recent != self.sentinel` => `!same_bytes(&self.recent, &self.sentinel)`
//@spec
    requires (exists|h: Seq<u8>| old(self).seen(h)) || (exists|k: int| #[trigger] old(self).found(k) && k < 0x1_0000_0000)
    ensures
        final(self).marker() == old(self).marker(),
        forall|h: Seq<u8>| #[trigger] old(self).seen(h) ==> (r == (first_end(h.push($1), old(self).marker()) is Some))
            && (!r ==> final(self).seen(h.push($1))) && (r ==> first_end(h.push($1), old(self).marker()) == Some(h.len() + 1int) && final(self).found(0)),
        forall|k: int| #[trigger] old(self).found(k) && 0 <= k < 0x1_0000_0000 ==> !r && final(self).found(k + 1),
//@at start
    let ghost m = self.sentinel@;
    let ghost r0 = self.recent@;
    let ghost me = *self;
//@at before 0 `if !same_bytes`
    proof {
        let n = m.len() as int;
        assert forall|h: Seq<u8>| me.seen(h) implies self.recent@ == (if h.len() + 1 <= n { h.push($1) } else { h.push($1).skip(h.len() + 1 - n) })
            && ((self.recent@ == m) <==> ends(h.push($1), m)) && h.push($1).drop_last() == h by {
            let g = h.push($1);
            assert(g.drop_last() =~= h);
            assert(g.skip(0) =~= g);
            assert(self.recent@ =~= (if g.len() <= n { g } else { g.skip(g.len() - n) }));
            if g.len() < n { assert(self.recent@.len() < n); }
        }
    }
//@endfn
}
pub trait ViewBytes { spec fn view_bytes(&self) -> Seq<u8>; }
impl ViewBytes for str { uninterp spec fn view_bytes(&self) -> Seq<u8>; }
#[verifier::external_body]
fn bytes_of(s: &str) -> (r: Vec<u8>) ensures r@ == s.view_bytes() { unimplemented!() }
#[verifier::external_body]
fn same_bytes(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

// ------------------------------------------------- telling a client the exit status
//@fn libshpool/src/daemon/shell.rs :: write_exit_chunk
//@andthen
//@sub `fn write_exit_chunk<W: io::Write>(mut sink: W,` => `fn write_exit_chunk(told: &mut Told, sink: &mut io::BufWriter<UnixStream>,`
//@sub `&mut sink` => `sink`
//@sub `status.to_le_bytes()` => `to_le_bytes(status)`
//@spec
    ensures
        final(told).log() == old(told).log(), final(told).closed() == old(told).closed(),
        final(told).exits() == (if breaks(old(sink).id()) { old(told).exits() } else { old(told).exits().push((old(sink).id(), $3)) }),
        final(sink).id() == old(sink).id(), !breaks(old(sink).id()) ==> final(sink).data() == old(sink).data(),
//@at end
    told.note_exit(sink, $3);
//@endfn

/// what the client has received when it is let go because the shell ended: everything
pub open spec fn whole(c: ClientConnectionMsg, all: Seq<u8>) -> bool {
    c is New ==> breaks(c->New_0.sink.id()) || c->New_0.sink.data() == all
}
//@fn libshpool/src/daemon/shell.rs :: finish_exit
//@ret r
//@sub `fn finish_exit(` => `fn finish_exit(told: &mut Told, Ghost(all): Ghost<Seq<u8>>, Ghost(drained): Ghost<bool>,`
//@sub `Self::write_exit_chunk(` => `write_exit_chunk(told, `
//@spec
    requires $5 is Some ==> drained, $5 is Some ==> whole($4, all),
    ensures
        final(told).log() == old(told).log(), final(told).closed() == old(told).closed(),
        final(told).exits() == (match ($4, $5) {
            (ClientConnectionMsg::New(c), Some(s)) if !breaks(c.sink.id()) => old(told).exits().push((c.sink.id(), s)),
            _ => old(told).exits(),
        }),
//@endfn

// what the thread is started with
pub mod shell_inject { pub use super::SentinelScanner; }
#[verifier::external_body]
pub struct SessionName { _p: () }
impl SessionName { #[verifier::external_body] pub fn clone(&self) -> (r: SessionName) { unimplemented!() } }
pub struct JoinHandle { pub _p: () }
#[verifier::external_body]
pub struct PtyFork { _p: () }
impl PtyFork {
    #[verifier::external_body]
    pub fn is_parent(&self) -> (r: anyhow::Result<Master>) { unimplemented!() }
}
impl Config { #[verifier::external_body] pub fn clone(&self) -> (r: Config) { unimplemented!() } }
impl Master { #[verifier::external_body] pub fn clone(&self) -> (r: Master) { unimplemented!() } }
pub struct SessionInner { pub name: SessionName, pub term_db: Arc<TermDb>, pub supports_sentinels: bool, pub daily_messenger: Arc<DailyMessenger>,
    pub needs_initial_motd_dump: bool, pub pty_master: PtyFork, pub config: Config }
#[verifier::external_body]
pub fn prompt_sentinel() -> (r: &'static str) ensures 0 < r.view_bytes().len() < usize::MAX, r.view_bytes() == sentinel_bytes() { unimplemented!() }
pub uninterp spec fn sentinel_bytes() -> Seq<u8>;
impl SessionInner {
//@fn libshpool/src/daemon/shell.rs :: SessionInner :: spawn_shell_to_client
//@ret r
//@elide `let closure = move || {` => `Ok(())`
//@sub `consts::PROMPT_SENTINEL` => `prompt_sentinel()`
//@sub `-> anyhow::Result<thread::JoinHandle<anyhow::Result<()>>>` => `-> anyhow::Result<JoinHandle>`
//@sub `Ok(thread::Builder::new().name(format!("shell->client({})", self.name)).spawn(move || log_if_error("error in shell->client", closure()))?)` => `Ok(JoinHandle { _p: () })`
//@sub `let closure = move ||` => `let closure = move || -> anyhow::Result<()>`
//@at before 0 `let closure = move ||`
    assert(has_seen_prompt_sentinel == !self.supports_sentinels);
    assert(prompt_sentinel_scanner.seen(Seq::empty()) && prompt_sentinel_scanner.marker() == sentinel_bytes());
    assert(needs_initial_motd_dump == self.needs_initial_motd_dump);
//@endfn
}
//@closure libshpool/src/daemon/shell.rs :: spawn_shell_to_client :: `let closure = move ||`
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(300)]
//@select told
//@andthen
//@sig
fn shell_to_client(told: &mut Told, mut prompt_sentinel_scanner: SentinelScanner, mut has_seen_prompt_sentinel: bool, mut needs_initial_motd_dump: bool,
    mut pty_master: Master, watchable_master: Master, config: Config, daily_messenger: DailyMessenger, term_db: TermDb, args: ShellToClientArgs) -> (r: anyhow::Result<()>)
//@sub `let _s = span!(Level::INFO, "shell->client", s = name, cid = args.conn_id).entered();` => ``
//@sub `test_hooks::emit("daemon-wrote-s2c-chunk");` => ``
//@sub `args.client_connection.recv()` => `args.client_connection.recv(told)`
//@sub `Self::write_exit_chunk(` => `write_exit_chunk(told, `
//@sub `Self::finish_exit(` => `finish_exit(told, Ghost(base + visible(pty_master.got(), marker).skip(joined)), Ghost(pty_master.drained()), `
//@sub `.set_fd(pty_master.raw_fd())` => `.set_fd(&mut pty_master)`
//@sub `poll::poll(&mut poll_fds,` => `poll::poll(&mut poll_fds, &mut pty_master,`
//@sub `PollFlags::POLLIN | PollFlags::POLLHUP | PollFlags::POLLERR` => `PollFlags::POLLIN.pf_or(PollFlags::POLLHUP).pf_or(PollFlags::POLLERR)`
//@sub `PollFlags::POLLHUP | PollFlags::POLLERR` => `PollFlags::POLLHUP.pf_or(PollFlags::POLLERR)`
//@sub `restore_buf.as_slice().chunks(` => `chunks_of(restore_buf.as_slice(), `
//@spec
    requires
        old(told).log().len() == 0, old(told).exits().len() == 0, !old(told).closed(), pty_master.got().len() == 0,
        !has_seen_prompt_sentinel ==> prompt_sentinel_scanner.seen(Seq::empty()),
    ensures
        r is Ok && !final(told).closed() ==> ({
            let (log, exits) = (final(told).log(), final(told).exits());
            match attached(log) {
                Some(id) if !breaks(id) => match ended(log) {
                    Some(s) => exits == parted(log).push((id, s)),
                    None => exits == parted(log).push((id, args.child_exit_notifier.status())),
                },
                _ => exits == parted(log),
            }
        }),
//@at start
    let ghost marker: Option<Seq<u8>> = if has_seen_prompt_sentinel { None } else { Some(prompt_sentinel_scanner.marker()) };
    // what an attached client got to see other than output: the restored screen and the message of the day
    let ghost mut base: Seq<u8> = Seq::empty();
    // how much had been output when it attached
    let ghost mut joined: int = 0;
    let ghost mut fk: int = 0;
//@loop 0 kind=loop
    invariant
        buf@.len() == consts::BUF_SIZE, poll_fds@[0].asked().pollin,
        has_seen_prompt_sentinel ==> marker is None || first_end(pty_master.got(), marker->0) is Some,
        !has_seen_prompt_sentinel ==> marker == Some(prompt_sentinel_scanner.marker()) && prompt_sentinel_scanner.seen(pty_master.got()),
        output_spool.fed() == visible(pty_master.got(), marker),
        0 <= joined <= visible(pty_master.got(), marker).len(),
        needs_initial_motd_dump && client_conn is New ==> joined == visible(pty_master.got(), marker).len(),
        whole(client_conn, base + visible(pty_master.got(), marker).skip(joined)),
        client_conn is New ==> attached(told.log()) == Some(client_conn->New_0.sink.id()) && (breaks(client_conn->New_0.sink.id()) || client_conn->New_0.sink.clean()),
        !(client_conn is New) ==> attached(told.log()) is None || breaks(attached(told.log())->0),
        told.exits() == parted(told.log()), pending_exit == ended(told.log()),
//@cl 0 (h: bool) ensures h == ((r.pollhup || r.pollerr) && !r.pollin)
//@at loopbefore 0
    proof {
        assert(told.log().drop_last() =~= Seq::empty());
        assert(parted(Seq::<Ev>::empty()) =~= Seq::empty() && ended(Seq::<Ev>::empty()) is None && attached(Seq::<Ev>::empty()) is None);
        assert(parted(told.log()) =~= Seq::empty());
        assert(told.log().drop_last() =~= Seq::empty());
        assert(pty_master.got() =~= Seq::empty());
        assert(visible(pty_master.got(), marker) =~= Seq::empty());
        assert(base + visible(pty_master.got(), marker).skip(joined) =~= Seq::empty());
        if client_conn is New { assert(client_conn->New_0.sink.data() =~= Seq::empty()); }
    }
//@at loopstart 0
    let ghost log0 = told.log();
    proof { assert forall|e: Ev| (#[trigger] log0.push(e)).drop_last() == log0 by { assert(log0.push(e).drop_last() =~= log0); } }
//@at before 0 `let mut executed_resize = false;`
    let ghost rejoined = told.log().len() > log0.len() && told.log().last() is Joined;
    proof { if rejoined { joined = visible(pty_master.got(), marker).len() as int; base = Seq::empty(); } }
    assert(rejoined ==> visible(pty_master.got(), marker).skip(joined) =~= Seq::empty());
    assert(client_conn is New && !breaks(client_conn->New_0.sink.id()) ==> client_conn->New_0.sink.clean());
    assert(client_conn is New ==> attached(told.log()) == Some(client_conn->New_0.sink.id()));
    assert(rejoined && client_conn is New ==> client_conn->New_0.sink.data() =~= Seq::empty());
    assert(rejoined ==> do_reattach && latest(told.log()) == Some(output_spool.size()));
    assert(whole(client_conn, base + visible(pty_master.got(), marker).skip(joined)));
    assert(rejoined ==> base + visible(pty_master.got(), marker).skip(joined) =~= Seq::empty());
//@at before 0 `let poll_ms`
    proof {
        if rejoined { base = restored(visible(pty_master.got(), marker), latest(told.log())->0); }
        assert(rejoined ==> base + visible(pty_master.got(), marker).skip(joined) =~= base);
    }
    assert(whole(client_conn, base + visible(pty_master.got(), marker).skip(joined)));
//@loop 1 next=same
    invariant
        conn.sink.id() == attached(told.log())->0, __it1.n == consts::BUF_SIZE,
        __it1.rest@.len() <= restore_buf@.len(), __it1.rest@ == restore_buf@.skip(restore_buf@.len() - __it1.rest@.len()),
        breaks(conn.sink.id()) || conn.sink.data() == restore_buf@.take(restore_buf@.len() - __it1.rest@.len()),
    ensures __it1.rest@.len() == 0,
//@at loopstart 1
    let ghost d0 = conn.sink.data();
    let ghost k1 = restore_buf@.len() - __it1.rest@.len();
    let ghost k0 = k1 - block@.len();
    proof {
        assert(restore_buf@.skip(k0).take(block@.len() as int) =~= restore_buf@.subrange(k0, k1));
        assert(restore_buf@.skip(k0).skip(block@.len() as int) =~= restore_buf@.skip(k1));
        assert(restore_buf@.take(k1) =~= restore_buf@.take(k0) + restore_buf@.subrange(k0, k1));
    }
//@at loopafter 1
    proof { assert(restore_buf@.take(restore_buf@.len() as int) =~= restore_buf@); }
//@at before 0 `let len = match pty_master.read`
    let ghost g0 = pty_master.got();
    let ghost vis0 = visible(g0, marker);
//@at before 0 `if !has_seen_prompt_sentinel`
    let ghost b = buf@;
    let ghost old_seen = has_seen_prompt_sentinel;
    proof {
        assert(pty_master.got() == g0 + b);
        assert(g0 + b.take(0) =~= g0);
        fk = 0;
    }
//@loop 2 iter=it kind=for
    invariant
        __en0 == it.index(), it.seq().len() == b.len(), buf@.len() <= b.len() <= consts::BUF_SIZE, marker is Some,
        forall|j: int| 0 <= j < it.seq().len() ==> *(#[trigger] it.seq()[j]) == b[j],
        !has_seen_prompt_sentinel ==> buf@ == b && marker == Some(prompt_sentinel_scanner.marker()) && prompt_sentinel_scanner.seen(g0 + b.take(it.index())),
        has_seen_prompt_sentinel ==> prompt_sentinel_scanner.found(fk) && 0 <= fk <= it.index()
            && first_end(g0 + b, marker->0) is Some && buf@ == visible(g0 + b, marker),
//@at loopstart 2
    let ghost i2 = it.index();
    let ghost was = has_seen_prompt_sentinel;
    proof {
        assert(*(it.seq()[i2]) == b[i2]);
        assert(g0 + b.take(i2 + 1) =~= (g0 + b.take(i2)).push(b[i2]));
    }
//@at loopend 2
    proof {
        if has_seen_prompt_sentinel { if was { fk = fk + 1; } else {
            fk = 0;
            lemma_first_end_grows(g0 + b.take(i2 + 1), b.skip(i2 + 1), marker->0);
            assert(g0 + b.take(i2 + 1) + b.skip(i2 + 1) =~= g0 + b);
            assert((g0 + b).skip(g0.len() + i2 + 1) =~= b.skip(i2 + 1));
        } }
    }
//@at before 0 `if has_seen_prompt_sentinel { output_spool`
    proof {
        assert(b.take(b.len() as int) =~= b);
        if old_seen { lemma_visible_grows(g0, b, marker); }
        assert(has_seen_prompt_sentinel ==> visible(g0 + b, marker) =~= vis0 + buf@);
    }
//@at before 0 `let mut reset_client_conn = false;`
    proof {
        assert(output_spool.fed() == visible(pty_master.got(), marker));
        assert(visible(pty_master.got(), marker).skip(joined) =~= vis0.skip(joined) + (if has_seen_prompt_sentinel { buf@ } else { Seq::empty() }));
    }
    let ghost base0 = base;
    assert(needs_initial_motd_dump && client_conn is New ==> vis0.skip(joined) =~= Seq::empty());
//@at before 0 `let write_result`
    proof {
        if !breaks(conn.sink.id()) { 
            if base0 + vis0.skip(joined) != conn.sink.data() { base = conn.sink.data(); }
            assert(base + (vis0.skip(joined) + buf@) =~= base + vis0.skip(joined) + buf@);
            assert(vis0.skip(joined).len() == 0 ==> base + vis0.skip(joined) =~= base);
        }
    }
//@endfn
fn main() {}
} // verus!
