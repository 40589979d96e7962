use libshpool::verif::protocol as p;
pub const RULE: &str = "pairs of version texts (all pairs over a list of boundary and malformed versions, random triples), and greetings (well formed, truncated, garbage) sent to a connecting client; distinct = distinct input";
pub const BOUND: &str = "version parts up to 2^64, greetings up to 64 bytes";
fn num(s: &str) -> Option<i64> {
    let (neg, d) = match s.strip_prefix('-') { Some(d) => (true, d), None => (false, s.strip_prefix('+').unwrap_or(s)) };
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: i128 = 0;
    for b in d.bytes() { v = v * 10 + (b - b'0') as i128; if v > 1i128 << 70 { return None; } }
    if neg { v = -v; }
    i64::try_from(v).ok()
}
fn ver(s: &str) -> Option<(i64, i64)> {
    let v: Vec<_> = s.split('.').map(num).collect();
    if v.len() != 3 { return None; }
    v[2]?;
    Some((v[0]?, v[1]?))
}
fn order(a: &str, b: &str) -> Option<i32> {
    let (a, b) = (ver(a)?, ver(b)?);
    let (x, y) = if a.0 == 0 && b.0 == 0 { (a.1, b.1) } else { (a.0, b.0) };
    Some(x.cmp(&y) as i32)
}
pub fn case(v: &Value) -> CaseResult {
    if v["op"] == "order" {
        let (a, b) = (v["a"].as_str().unwrap(), v["b"].as_str().unwrap());
        let (w, g) = (order(a, b), p::version_order(a, b));
        if w != g { return Err((format!("{:?}", w), format!("{:?}", g))); }
        return Ok(());
    }
    let own = shpool_protocol::VERSION;
    let (hello, want) = if v["version"].is_string() {
        let t = v["version"].as_str().unwrap();
        (p::hello_bytes(t), match order(own, t) { Some(0) => "client", Some(_) => "warning", None => "error" })
    } else { (jhex(&v["hello"]), "warning") };
    let dir = std::env::temp_dir().join(format!("shpool-verif-p02-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let got = p::client_of(&dir, &hello);
    let _ = std::fs::remove_dir_all(&dir);
    if got != want { return Err((want.into(), got.into())); }
    Ok(())
}
pub fn search(cx: &mut Ctx) {
    let vs = ["0.0.0", "0.1.0", "0.1.9", "0.2.0", "0.10.0", "0.9.5", "1.0.0", "1.2.3", "1.9.0", "2.0.0", "10.0.0", "9.9.9", "0.4.1", "0.4.2", "-1.0.0", "0.-1.0", "", "1", "1.2", "1.2.3.4", "a.b.c", "1.2.x", "0.3.1-rc1", "1..2", " 1.2.3", "+1.2.3", "99999999999999999999.0.0", "9223372036854775807.1.1", "9223372036854775808.0.0", "0.9223372036854775807.0"];
    for a in vs { for b in vs { cx.case(json!({"op":"order","a":a,"b":b})); } }
    for a in vs { cx.case(json!({"op":"hello","version":a})); }
    cx.case(json!({"op":"hello","version":shpool_protocol::VERSION}));
    let mut parts: Vec<i64> = shpool_protocol::VERSION.split('.').map(|x| x.parse().unwrap()).collect();
    for i in 0..3 { for d in [-1i64, 1, 9] { parts[i] += d; cx.case(json!({"op":"hello","version":format!("{}.{}.{}", parts[0], parts[1], parts[2])})); parts[i] -= d; } }
    for h in ["", "00", "c0", "ff", "81", "81a7", "81a776657273696f6e", "81a776657273696f6e05", "80", "93010203"] { cx.case(json!({"op":"hello","hello":h})); }
    let n = if cx.thorough { 400_000 } else { 8_000 };
    for _ in 0..n {
        if cx.expired() { return; }
        let mut g = || { let m = [3u64, 12, 1 << 40][cx.rng.below(3) as usize]; format!("{}.{}.{}", if cx.rng.chance(1, 2) { 0 } else { cx.rng.below(m) }, cx.rng.below(m), cx.rng.below(m)) };
        let (a, b) = (g(), g());
        cx.case(json!({"op":"order","a":a,"b":b}));
    }
}
pub fn shrink(_v: &Value) -> Vec<Value> { vec![] }
