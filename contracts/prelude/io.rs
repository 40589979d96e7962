verus! {

pub mod io {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Error { _p: () }
    pub type Result<T> = core::result::Result<T, Error>;
}

impl From<io::Error> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: io::Error) -> (r: Self) { unimplemented!() }
}

pub trait ByteOrder {
    spec fn enc32(n: u32) -> Seq<u8>;
}
pub struct LittleEndian {}
pub struct BigEndian {}
#[verifier::opaque]
pub open spec fn le32(n: u32) -> Seq<u8> {
    seq![(n & 0xff) as u8, ((n >> 8) & 0xff) as u8, ((n >> 16) & 0xff) as u8, ((n >> 24) & 0xff) as u8]
}
#[verifier::opaque]
pub open spec fn be32(n: u32) -> Seq<u8> {
    seq![((n >> 24) & 0xff) as u8, ((n >> 16) & 0xff) as u8, ((n >> 8) & 0xff) as u8, (n & 0xff) as u8]
}
impl ByteOrder for LittleEndian { open spec fn enc32(n: u32) -> Seq<u8> { le32(n) } }
impl ByteOrder for BigEndian { open spec fn enc32(n: u32) -> Seq<u8> { be32(n) } }
pub type NetworkEndian = BigEndian;

/// std::io::Write + byteorder::WriteBytesExt, over the ghost sequence of bytes
/// the sink has accepted so far.
pub trait Write {
    spec fn out(&self) -> Seq<u8>;

    fn write_u8(&mut self, n: u8) -> (r: io::Result<()>)
        ensures
            r is Ok ==> final(self).out() == old(self).out().push(n),
            old(self).out().is_prefix_of(final(self).out());

    fn write_u32<B: ByteOrder>(&mut self, n: u32) -> (r: io::Result<()>)
        ensures
            r is Ok ==> final(self).out() == old(self).out() + B::enc32(n),
            old(self).out().is_prefix_of(final(self).out());

    fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures
            r is Ok ==> final(self).out() == old(self).out() + b@,
            old(self).out().is_prefix_of(final(self).out());

    fn write(&mut self, b: &[u8]) -> (r: io::Result<usize>)
        ensures
            r is Ok ==> r->Ok_0 <= b@.len() && final(self).out() == old(self).out() + b@.take(r->Ok_0 as int),
            r is Err ==> final(self).out() == old(self).out();

    fn flush(&mut self) -> (r: io::Result<()>)
        ensures final(self).out() == old(self).out();
}

/// std::io::Read + byteorder::ReadBytesExt, over the ghost sequence of bytes
/// still to come from the source (as delivered by the peer).
pub trait Read {
    spec fn rest(&self) -> Seq<u8>;
    /// the transport itself will not fail before the bytes in rest() are delivered
    spec fn healthy(&self) -> bool;

    fn read_u8(&mut self) -> (r: io::Result<u8>)
        ensures
            final(self).healthy() == old(self).healthy(),
            r is Ok ==> old(self).rest().len() >= 1 && r->Ok_0 == old(self).rest()[0]
                && final(self).rest() == old(self).rest().skip(1),
            old(self).healthy() && old(self).rest().len() >= 1 ==> r is Ok;

    fn read_u32<B: ByteOrder>(&mut self) -> (r: io::Result<u32>)
        ensures
            final(self).healthy() == old(self).healthy(),
            r is Ok ==> old(self).rest().len() >= 4
                && B::enc32(r->Ok_0) == old(self).rest().take(4)
                && final(self).rest() == old(self).rest().skip(4),
            old(self).healthy() && old(self).rest().len() >= 4 ==> r is Ok;

    fn read_exact(&mut self, b: &mut [u8]) -> (r: io::Result<()>)
        ensures
            final(self).healthy() == old(self).healthy(),
            final(b)@.len() == old(b)@.len(),
            r is Ok ==> old(self).rest().len() >= old(b)@.len()
                && final(b)@ == old(self).rest().take(old(b)@.len() as int)
                && final(self).rest() == old(self).rest().skip(old(b)@.len() as int),
            old(self).healthy() && old(self).rest().len() >= old(b)@.len() ==> r is Ok;
}

} // verus!
