use super::*;
pub fn parse_it(s: &str) -> Option<(u64, u32)> {
    parse(s).ok().map(|d| (d.as_secs(), d.subsec_nanos()))
}
