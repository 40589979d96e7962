use libshpool::verif::daemon_etc_environment as e;
pub const RULE: &str = "files of lines built from keys, '=', quotes, '#', 'export', blanks and non-ASCII text: every single line up to 6 pieces over a 9-piece alphabet, random files of up to 12 lines with and without a final newline and with CRLF, read in pieces of 1 to 64 bytes; distinct = distinct (text, piece size)";
pub const BOUND: &str = "files of at most 12 lines";

fn line(l: &str) -> Option<(String, String)> {
    let l = l.trim_matches(char::is_whitespace);
    if l.is_empty() || l.starts_with('#') { return None; }
    let l = if l.len() >= 7 && l.as_bytes().starts_with(b"export ") { &l[7..] } else { l };
    let l = match l.find('#') { Some(i) => &l[..i], None => l };
    let i = l.find('=')?;
    let (k, v) = (&l[..i], &l[i + 1..]);
    if k.is_empty() || !k.bytes().all(|b| b == b'_' || b.is_ascii_alphanumeric()) { return None; }
    let mut v: Vec<char> = v.chars().collect();
    let lead = matches!(v.first(), Some('\'') | Some('"'));
    if v.first() == Some(&'\'') { v.remove(0); }
    if v.first() == Some(&'"') { v.remove(0); }
    if lead {
        if v.last() == Some(&'\'') { v.pop(); }
        if v.last() == Some(&'"') { v.pop(); }
    }
    Some((k.to_string(), v.into_iter().collect()))
}
pub fn case(v: &Value) -> CaseResult {
    let s = v["text"].as_str().unwrap();
    let want: Vec<(String, String)> = s.split('\n').filter_map(line).collect();
    let got = e::parse_text(s.as_bytes(), v["step"].as_u64().unwrap() as usize);
    if Some(&want) != got.as_ref() { return Err((format!("{want:?}"), format!("{got:?}"))); }
    Ok(())
}
pub fn search(cx: &mut Ctx) {
    let al = ["A", "_b1", "=", "'", "\"", "#", " ", "export ", "é"];
    for n in 0..=6usize {
        for k in 0..(al.len() as u64).pow(n as u32) {
            let mut k = k;
            let mut s = String::new();
            for _ in 0..n { s.push_str(al[(k % al.len() as u64) as usize]); k /= al.len() as u64; }
            if n == 6 && k % 7 != 0 { continue; }
            cx.case(json!({"text": s, "step": 64}));
        }
        if cx.expired() { return; }
    }
    let parts = ["PATH", "A", "JAVA_HOME", "_", "=", "=", "=", "'", "\"", "#", " ", "\t", "export ", "export", "value", "/usr/bin:/bin", "日本", "$HOME", "\\", "-", "\u{a0}", "\r"];
    let n = if cx.thorough { 300_000 } else { 10_000 };
    for _ in 0..n {
        if cx.expired() { return; }
        let mut s = String::new();
        let lines = cx.rng.range(1, 12);
        for i in 0..lines {
            if cx.rng.chance(1, 2) { s.push_str(*cx.rng.pick(&["KEY", "A_1", "export X", " L"])); s.push('='); }
            for _ in 0..cx.rng.below(6) { s.push_str(*cx.rng.pick(&parts)); }
            if i + 1 < lines || cx.rng.chance(1, 2) { s.push_str(*cx.rng.pick(&["\n", "\n", "\r\n", "\n\n"])); }
        }
        let step = cx.rng.range(1, 64);
        cx.case(json!({"text": s, "step": step}));
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let cs: Vec<char> = v["text"].as_str().unwrap().chars().collect();
    let mut out: Vec<Value> = (0..cs.len()).map(|i| { let mut c = cs.clone(); c.remove(i); json!({"text": c.into_iter().collect::<String>(), "step": v["step"]}) }).collect();
    if v["step"] != 64 { out.push(json!({"text": v["text"], "step": 64})); }
    out
}
