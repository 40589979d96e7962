use super::*;
use std::io::Write as _;

/// a sink that accepts at most `limit` bytes, `step` at a time
pub struct Sink { pub data: Vec<u8>, pub limit: usize, pub step: usize }
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let room = self.limit - self.data.len();
        if room == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::BrokenPipe, "full"));
        }
        let n = b.len().min(self.step).min(room);
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// a source that delivers at most `step` bytes per read
pub struct Src<'a> { pub data: &'a [u8], pub step: usize }
impl std::io::Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step).min(self.data.len());
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}

pub fn write_chunk(kind: u8, buf: &[u8], limit: usize, step: usize) -> (bool, Vec<u8>) {
    let mut s = Sink { data: vec![], limit, step };
    let c = Chunk { kind: ChunkKind::try_from(kind).unwrap(), buf };
    let ok = c.write_to(&mut s).is_ok();
    (ok, s.data)
}
pub fn read_chunk(data: &[u8], bufsize: usize, step: usize) -> Option<(u8, Vec<u8>, usize)> {
    let mut s = Src { data, step };
    let mut buf = vec![0xAAu8; bufsize];
    match Chunk::read_into(&mut s, &mut buf) {
        Ok(c) => Some((c.kind as u8, c.buf.to_vec(), s.data.len())),
        Err(_) => None,
    }
}
pub fn version_order(a: &str, b: &str) -> Option<i32> {
    Client::version_ord(a, b).ok().map(|o| o as i32)
}
/// what a client makes of a peer that greets with `hello` (raw bytes) and hangs up
pub fn client_of(dir: &std::path::Path, hello: &[u8]) -> &'static str {
    let sock = dir.join("s");
    let _ = std::fs::remove_file(&sock);
    let l = std::os::unix::net::UnixListener::bind(&sock).unwrap();
    let hello = hello.to_vec();
    let t = std::thread::spawn(move || { let (mut s, _) = l.accept().unwrap(); let _ = s.write_all(&hello); });
    let r = match Client::new(&sock) {
        Ok(ClientResult::JustClient(_)) => "client",
        Ok(ClientResult::VersionMismatch { .. }) => "warning",
        Err(_) => "error",
    };
    t.join().unwrap();
    r
}
pub fn hello_bytes(version: &str) -> Vec<u8> {
    let mut v = vec![];
    encode_to(&VersionHeader { version: version.to_string() }, &mut v).unwrap();
    v
}
