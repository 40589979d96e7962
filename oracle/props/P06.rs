use libshpool::verif::duration as d;
pub const RULE: &str = "texts over digits, unit letters, ':', '+', spaces, non-ASCII digits and letters: every text up to length 4 over a 12-letter alphabet, every arity 0..6 of colon forms at the boundary values, random longer ones; distinct = distinct text";
pub const BOUND: &str = "texts of at most 60 characters";

fn number(s: &str) -> Option<u128> {
    let t = s.strip_prefix('+').unwrap_or(s);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u128 = 0;
    for b in t.bytes() {
        v = v * 10 + (b - b'0') as u128;
        if v > u64::MAX as u128 { return None; }
    }
    Some(v)
}
fn meaning(s: &str) -> Option<u64> {
    let total: u128 = if s.contains(':') {
        let ps: Vec<&str> = s.split(':').collect();
        if ps.len() > 4 { return None; }
        let mut t = 0u128;
        for (i, p) in ps.iter().rev().enumerate() { t += number(p)? * [1u128, 60, 3600, 86400][i]; }
        t
    } else {
        let c = s.chars().last()?;
        let u = match c { 's' => 1u128, 'm' => 60, 'h' => 3600, 'd' => 86400, _ => return None };
        let n = &s[..s.len() - 1];
        if n.starts_with('+') { return None; }
        number(n)? * u
    };
    if total > u64::MAX as u128 { None } else { Some(total as u64) }
}
pub fn case(v: &Value) -> CaseResult {
    let s = v["text"].as_str().unwrap();
    let want = meaning(s).map(|x| (x, 0u32));
    let got = d::parse_it(s);
    if want != got { return Err((format!("{:?} (seconds, nanos)", want), format!("{:?}", got))); }
    Ok(())
}
pub fn search(cx: &mut Ctx) {
    let al = ["1", "9", "0", "s", "m", "h", "d", ":", "x", "+", " ", "½"];
    for n in 0..=4usize {
        for k in 0..(al.len() as u64).pow(n as u32) {
            let mut k = k;
            let mut s = String::new();
            for _ in 0..n { s.push_str(al[(k % al.len() as u64) as usize]); k /= al.len() as u64; }
            cx.case(json!({"text": s}));
        }
    }
    let nums = ["0", "1", "7", "59", "60", "61", "99", "18446744073709551615", "18446744073709551616", "307445734561825860", "307445734561825861", "5124095576030431", "5124095576030432", "213503982334601", "213503982334602", "4294967296", "007", ""];
    for a in nums { for u in ["s", "m", "h", "d", "M", "S", "w", "y", "ms", "é", "٣"] { cx.case(json!({"text": format!("{a}{u}")})); } }
    for a in nums { for b in nums { cx.case(json!({"text": format!("{a}:{b}")})); for c in nums { cx.case(json!({"text": format!("{a}:{b}:{c}")})); } } }
    for a in nums { for b in ["0", "59", "99"] { for c in ["1", "24", "18446744073709551615"] {
        cx.case(json!({"text": format!("{a}:{b}:{c}:7")}));
        cx.case(json!({"text": format!("3:{c}:{b}:{a}")}));
        cx.case(json!({"text": format!("0:{c}:{b}:{a}:1")}));
        cx.case(json!({"text": format!("{a}h{b}m")}));
        cx.case(json!({"text": format!("{a}x{b}d")}));
    } } }
    let n = if cx.thorough { 2_000_000 } else { 30_000 };
    for _ in 0..n {
        if cx.expired() { return; }
        let len = cx.rng.range(1, 24);
        let mut s = String::new();
        for _ in 0..len { let k = cx.rng.below(16); s.push_str(match k { 0..=9 => &"0123456789"[k as usize..k as usize + 1], 10 => "s", 11 => "m", 12 => "h", 13 => "d", _ => ":" }); }
        cx.case(json!({"text": s}));
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let cs: Vec<char> = v["text"].as_str().unwrap().chars().collect();
    (0..cs.len()).map(|i| { let mut c = cs.clone(); c.remove(i); json!({"text": c.into_iter().collect::<String>()}) }).collect()
}
