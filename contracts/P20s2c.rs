//@include prelude/std.rs
//@include prelude/s2c.rs

verus! {
// what P05 is about is left open here
#[verifier::external_body]
pub struct SentinelScanner { _p: () }
impl SentinelScanner {
    #[verifier::external_body]
    pub fn transition(&mut self, b: u8) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
fn write_exit_chunk(told: &mut Told, sink: &mut io::BufWriter<UnixStream>, status: i32)
    ensures final(told).log() == old(told).log(), final(sink).id() == old(sink).id(), final(sink).switches() == old(sink).switches(), final(sink).shown() == old(sink).shown()
{ unimplemented!() }
#[verifier::external_body]
fn finish_exit(told: &mut Told, c: ClientConnectionMsg, s: Option<i32>) -> (r: anyhow::Result<()>)
    ensures final(told).log() == old(told).log()
{ unimplemented!() }
/// slicing off what was scanned
#[verifier::external_body]
fn rest_from(b: &[u8], i: usize) -> (r: &[u8]) ensures r@.len() <= b@.len() { unimplemented!() }

pub mod slices { use super::*;
pub broadcast proof fn lemma_whole(s: Seq<u8>) ensures #[trigger] s.subrange(0, s.len() as int) == s { assert(s.subrange(0, s.len() as int) =~= s); }
}
/// an attached client has been told all it is to be told
pub open spec fn served(c: ClientConnectionMsg, log: Seq<Ev>) -> bool {
    match attached(log) { None => true, Some(id) => breaks(id) || (c is New && c->New_0.sink.id() == id && c->New_0.sink.shown() =~= due(log) && c->New_0.sink.switches() =~= due(log)) }
}

//@closure libshpool/src/daemon/shell.rs :: spawn_shell_to_client :: `let closure = move ||`
//@attr #[verifier::exec_allows_no_decreases_clause] #[verifier::rlimit(60)]
//@select told
//@andthen
//@sub `buf = &buf[i + 1..];` => `buf = rest_from(buf, i);`
//@sig
fn shell_to_client(told: &mut Told, mut prompt_sentinel_scanner: SentinelScanner, mut has_seen_prompt_sentinel: bool, mut needs_initial_motd_dump: bool,
    mut pty_master: Master, watchable_master: Master, config: Config, daily_messenger: DailyMessenger, term_db: TermDb, args: ShellToClientArgs) -> (r: anyhow::Result<()>)
//@sub `let _s = span!(Level::INFO, "shell->client", s = name, cid = args.conn_id).entered();` => ``
//@sub `test_hooks::emit("daemon-wrote-s2c-chunk");` => ``
//@sub `args.client_connection.recv()` => `args.client_connection.recv(told)`
//@sub `Self::write_exit_chunk(` => `write_exit_chunk(told, `
//@sub `Self::finish_exit(` => `finish_exit(told, `
//@sub `.set_fd(pty_master.raw_fd())` => `.set_fd(&mut pty_master)`
//@sub `poll::poll(&mut poll_fds,` => `poll::poll(&mut poll_fds, &mut pty_master,`
//@sub `PollFlags::POLLIN | PollFlags::POLLHUP | PollFlags::POLLERR` => `PollFlags::POLLIN.pf_or(PollFlags::POLLHUP).pf_or(PollFlags::POLLERR)`
//@sub `PollFlags::POLLHUP | PollFlags::POLLERR` => `PollFlags::POLLHUP.pf_or(PollFlags::POLLERR)`
//@sub `restore_buf.as_slice().chunks(` => `chunks_of(restore_buf.as_slice(), `
//@spec
    requires old(told).log().len() == 0
//@loop 0 kind=loop
    invariant
        buf@.len() == consts::BUF_SIZE,
        served(client_conn, told.log()), client_conn is New ==> attached(told.log()) == Some(client_conn->New_0.sink.id()),
//@at loopbefore 0
    assert(attached(Seq::<Ev>::empty()) is None && due(Seq::<Ev>::empty()) =~= Seq::empty());
    assert(told.log().drop_last() =~= Seq::empty());
//@at loopstart 0
    broadcast use slices::lemma_whole;
    let ghost log0 = told.log();
    proof { assert forall|e: Ev| (#[trigger] log0.push(e)).drop_last() == log0 by { assert(log0.push(e).drop_last() =~= log0); } }
//@loop 1 next=same
    invariant __it1.n == consts::BUF_SIZE, conn.sink.id() == attached(told.log())->0, breaks(conn.sink.id()) || conn.sink.switches() =~= due(told.log()), breaks(conn.sink.id()) || conn.sink.shown() =~= due(told.log()),
//@loop 2 iter=it kind=for
    invariant __en0 == it.index(), it.seq().len() <= consts::BUF_SIZE, buf@.len() <= consts::BUF_SIZE,
//@endfn

fn main() {}
} // verus!
