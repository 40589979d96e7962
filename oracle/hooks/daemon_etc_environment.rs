use super::*;
/// the pairs a file with these contents sets, reading at most `step` bytes at a time
pub fn parse_text(text: &[u8], step: usize) -> Option<Vec<(String, String)>> {
    struct S<'a>(&'a [u8], usize);
    impl std::io::Read for S<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.1).min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    parse_compat(S(text, step)).ok()
}
