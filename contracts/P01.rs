//@include prelude/std.rs
//@include prelude/io.rs

verus! {

#[derive(Copy, Clone)]
//@item shpool-protocol/src/lib.rs :: enum ChunkKind
//@item shpool-protocol/src/lib.rs :: struct Chunk

// ---------------------------------------------------------------- spec
/// The wire tag of each frame kind, from the protocol's format description.
pub open spec fn tag(k: ChunkKind) -> u8 {
    match k {
        ChunkKind::Data => 0,
        ChunkKind::Heartbeat => 1,
        ChunkKind::ExitStatus => 2,
        ChunkKind::MaybeSwitch => 3,
    }
}

/// The bytes of one frame.
pub open spec fn frame(k: ChunkKind, payload: Seq<u8>) -> Seq<u8> {
    match k {
        ChunkKind::ExitStatus => seq![2u8] + payload,
        _ => seq![tag(k)] + le32(payload.len() as u32) + payload,
    }
}

pub open spec fn legal(k: ChunkKind, payload: Seq<u8>) -> bool {
    &&& payload.len() <= u32::MAX
    &&& k is ExitStatus ==> payload.len() == 4
}

pub broadcast proof fn lemma_le32_len(n: u32)
    ensures (#[trigger] le32(n)).len() == 4
{
    reveal(le32);
}

pub broadcast proof fn lemma_le32_injective(a: u32, b: u32)
    requires #[trigger] le32(a) == #[trigger] le32(b)
    ensures a == b
{
    reveal(le32);
    let x = le32(a); let y = le32(b);
    assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]);
    assert(a == b) by (bit_vector)
        requires (a & 0xff) as u8 == (b & 0xff) as u8,
            ((a >> 8) & 0xff) as u8 == ((b >> 8) & 0xff) as u8,
            ((a >> 16) & 0xff) as u8 == ((b >> 16) & 0xff) as u8,
            ((a >> 24) & 0xff) as u8 == ((b >> 24) & 0xff) as u8;
}

/// What the head of a stream that starts with a frame looks like.
pub broadcast proof fn lemma_frame_head(k: ChunkKind, p: Seq<u8>, t: Seq<u8>)
    requires legal(k, p)
    ensures
        (#[trigger] (frame(k, p) + t)).len() >= 1,
        (frame(k, p) + t)[0] == tag(k),
        k is ExitStatus ==> (frame(k, p) + t).skip(1) == p + t,
        !(k is ExitStatus) ==> (frame(k, p) + t).skip(1).take(4) == le32(p.len() as u32)
            && (frame(k, p) + t).skip(1).skip(4) == p + t,
        (p + t).len() == p.len() + t.len(),
{
    broadcast use lemma_le32_len;
    let s = frame(k, p) + t;
    if k is ExitStatus {
        assert(s.skip(1) =~= p + t);
    } else {
        assert(s.skip(1).take(4) =~= le32(p.len() as u32));
        assert(s.skip(1).skip(4) =~= p + t);
    }
}

/// The frame grammar is prefix-free: a byte stream starts with at most one
/// frame, so reading a frame leaves exactly the bytes after it.
pub proof fn lemma_frame_unique(k1: ChunkKind, p1: Seq<u8>, t1: Seq<u8>, k2: ChunkKind, p2: Seq<u8>, t2: Seq<u8>)
    requires
        legal(k1, p1), legal(k2, p2),
        frame(k1, p1) + t1 == frame(k2, p2) + t2,
    ensures
        k1 == k2, p1 == p2, t1 == t2,
{
    broadcast use lemma_frame_head;
    assert(tag(k1) == tag(k2));
    if !(k1 is ExitStatus) {
        lemma_le32_injective(p1.len() as u32, p2.len() as u32);
    }
    assert(p1 + t1 == p2 + t2);
    assert(p1 =~= (p1 + t1).take(p1.len() as int));
    assert(p2 =~= (p2 + t2).take(p2.len() as int));
    assert(t1 =~= (p1 + t1).skip(p1.len() as int));
    assert(t2 =~= (p2 + t2).skip(p2.len() as int));
}

/// P01 itself: over the two contracts, what one side writes is what the other
/// side reads, and the stream is left at the next frame.
pub proof fn theorem_round_trip(
    k: ChunkKind, p: Seq<u8>,            // frame written
    before: Seq<u8>, next: Seq<u8>,      // bytes around it
    k2: ChunkKind, p2: Seq<u8>, rest2: Seq<u8>,  // what the reader reports
)
    requires
        legal(k, p), legal(k2, p2),
        // contract of the reader on the stream the writer produced
        frame(k, p) + next == frame(k2, p2) + rest2,
    ensures
        k2 == k, p2 == p, rest2 == next,
{
    lemma_frame_unique(k, p, next, k2, p2, rest2);
}

impl ChunkKind {
//@fn shpool-protocol/src/lib.rs :: impl TryFrom < u8 > for ChunkKind :: try_from
//@ret res
//@spec
    ensures
        res is Ok <==> $1 <= 3,
        res is Ok ==> tag(res->Ok_0) == $1,
//@endfn
}

impl<'data> Chunk<'data> {
//@fn libshpool/src/protocol.rs :: impl.*ChunkExt.*for Chunk :: write_to
//@ret res
//@sub `std::io::Write` => `Write`
//@spec
    requires
        legal(self.kind, self.buf@),
    ensures
        res is Ok ==> final($1).out() == old($1).out() + frame(self.kind, self.buf@),
        old($1).out().is_prefix_of(final($1).out()),
//@endfn

//@fn libshpool/src/protocol.rs :: impl.*ChunkExt.*for Chunk :: read_into
//@ret res
//@sub `std::io::Read` => `Read`
//@spec
    ensures
        // whatever arrives, an accepted frame is exactly the frame at the head of the stream
        res is Ok ==> legal(res->Ok_0.kind, res->Ok_0.buf@)
            && res->Ok_0.buf@.len() <= old($2)@.len()
            && old($1).rest() == frame(res->Ok_0.kind, res->Ok_0.buf@) + final($1).rest(),
        // a well-formed frame that fits the receive buffer is always accepted
        forall|k: ChunkKind, p: Seq<u8>, t: Seq<u8>|
            old($1).healthy() && legal(k, p) && p.len() <= old($2)@.len()
            && old($1).rest() == #[trigger] (frame(k, p) + t) ==>
                res is Ok,
//@at start
    broadcast use lemma_frame_head, lemma_le32_injective, lemma_le32_len;
//@endfn
}
}
fn main() {}
