use libshpool::verif::daemon_keybindings as k;
pub const RULE: &str = "every key and every Ctrl chord alone, malformed texts, then random tables of 1-6 bindings of 1-4 chords (shared prefixes and repeated codes favoured) against random key streams built from the tables' codes; distinct = distinct input";
pub const BOUND: &str = "<= 6 bindings, <= 4 chords each, <= 40 keys; all single and Ctrl chords exhaustively";

fn special(c: char) -> bool { "\\[]@^_?".contains(c) }
fn ctrl_code(k: &str) -> Option<u8> {
    if k == "Space" { return Some(0); }
    let mut it = k.chars();
    let c = it.next()?;
    Some(match c {
        'a'..='z' => c as u8 - 96,
        '@' | '2' => 0,
        '[' | '3' => 27,
        '\\' | '4' => 28,
        ']' | '5' => 29,
        '^' | '6' => 30,
        '_' | '7' => 31,
        '?' | '8' | '0' => 127,
        _ => return None,
    })
}
/// the key codes a text stands for
fn meaning(s: &str) -> Option<Vec<u8>> {
    // tokens; None = dash
    let mut toks: Vec<Option<String>> = vec![];
    let mut w = String::new();
    for c in s.chars() {
        if c.is_whitespace() { continue; }
        w.push(c);
        if w == "Ctrl" || w == "Space" { toks.push(Some(std::mem::take(&mut w))); continue; }
        if "Ctrl".starts_with(&w) || "Space".starts_with(&w) { continue; }
        for c in std::mem::take(&mut w).chars() {
            if c == '-' { toks.push(None); }
            else if c.is_ascii_lowercase() || c.is_ascii_digit() || special(c) { toks.push(Some(c.to_string())); }
            else { return None; }
        }
    }
    if !w.is_empty() { return None; }
    // chords: keys joined by dashes
    let mut chords: Vec<Vec<String>> = vec![];
    let mut joined = false;
    let mut any = false;
    for t in toks {
        match t {
            Some(k) => { if joined { chords.last_mut().unwrap().push(k); joined = false } else { chords.push(vec![k]) } any = true; }
            None => { if joined || !any { return None; } joined = true; }
        }
    }
    if joined || chords.is_empty() { return None; }
    let mut out = vec![];
    for c in chords {
        out.push(match c.as_slice() {
            [k] if k == "Ctrl" => return None,
            [k] if k == "Space" => 32,
            [k] => k.as_bytes()[0],
            [m, k] if m == "Ctrl" && k != "Ctrl" => ctrl_code(k)?,
            _ => return None,
        });
    }
    Some(out)
}

pub fn case(v: &Value) -> CaseResult {
    let b: Vec<(String, u8)> = v["bindings"].as_array().unwrap().iter().map(|x| (x[0].as_str().unwrap().to_string(), x[1].as_u64().unwrap() as u8)).collect();
    let table: Option<Vec<(Vec<u8>, u8)>> = b.iter().map(|(s, a)| meaning(s).map(|m| (m, *a))).collect();
    let mut e = k::engine(&b);
    if table.is_some() != e.is_some() {
        return Err((if table.is_some() { "accepted" } else { "refused" }.into(), if e.is_some() { "accepted" } else { "refused" }.into()));
    }
    let (table, e) = match (table, e.as_mut()) { (Some(t), Some(e)) => (t, e), _ => return Ok(()) };
    let mut typed: Vec<u8> = vec![];
    let mut want = String::new();
    let mut got = String::new();
    for c in jhex(&v["keys"]) {
        typed.push(c);
        let w = if let Some((_, a)) = table.iter().rev().find(|(s, _)| *s == typed) { typed.clear(); if *a == 0 { '0' } else { '1' } }
            else if table.iter().any(|(s, _)| s.starts_with(&typed)) { 'p' }
            else { typed.clear(); 'n' };
        want.push(w);
        got.push(e.press(c));
    }
    if want != got { return Err((want, got)); }
    Ok(())
}

pub fn search(cx: &mut Ctx) {
    let mut all: Vec<String> = (0..128u8).map(|c| (c as char).to_string()).collect();
    all.push("Space".into());
    all.push("Ctrl".into());
    let every: String = hex(&(0..=255u8).collect::<Vec<_>>());
    for a in &all {
        for t in [a.clone(), format!("Ctrl-{a}"), format!("{a}-a"), format!("a-{a}"), format!("Ctrl {a}"), format!("Ctrl-Ctrl-{a}"), format!("Ctrl-{a} Ctrl-a {a}"), format!("-{a}"), format!("{a}-")] {
            cx.case(json!({"bindings":[[t,0]],"keys":every}));
        }
    }
    for t in ["", " ", "-", "--", "C", "Ct", "Ctr", "S", "Spac", "Ctrl-", "Ctrl-a-", "Ctrl-S", "SpaceSpace", "a--b", "Ctrl-aCtrl-b", "Ctrl - a", "ab", "CCtrl-a", "A", "é", "Ctrl-é", "Space-a", "a Ctrl", "\u{3000}a", "Ctrl-a\tb"] {
        cx.case(json!({"bindings":[[t,0]],"keys":every}));
        cx.case(json!({"bindings":[["a",1],[t,0]],"keys":every}));
    }
    let keys: Vec<String> = (b'a'..=b'z').chain(b'0'..=b'9').map(|c| (c as char).to_string()).chain("\\[]@^_?".chars().map(|c| c.to_string())).chain(["Space".to_string()]).collect();
    // many distinct codes at once
    let big: Vec<Value> = keys.iter().map(|k| json!([k, 0])).chain(keys.iter().filter(|k| ctrl_code(k).is_some()).map(|k| json!([format!("Ctrl-{k} a"), 1]))).collect();
    cx.case(json!({"bindings":big,"keys":every}));
    // more than 256 nodes in the tries
    let deep: Vec<Value> = keys.iter().flat_map(|a| keys.iter().map(move |b| json!([format!("{a} {b}"), 0]))).collect();
    let mut r = vec![];
    for a in &keys { for b in &keys { r.extend([meaning(a).unwrap()[0], meaning(b).unwrap()[0]]); } }
    cx.case(json!({"bindings":deep,"keys":hex(&r)}));
    while !cx.expired() {
        // few symbols, so that bindings overlap
        let n = cx.rng.range(1, 4) as usize;
        let pool: Vec<String> = (0..n).map(|_| { let k = cx.rng.pick(&keys).clone(); if cx.rng.chance(1, 2) && ctrl_code(&k).is_some() { format!("Ctrl-{k}") } else { k } }).collect();
        let mut b = vec![];
        let mut codes: Vec<u8> = pool.iter().filter_map(|k| meaning(k)).map(|m| m[0]).collect();
        for _ in 0..cx.rng.range(1, 6) {
            let m = cx.rng.range(1, 4);
            let mut t = vec![];
            for _ in 0..m { t.push(cx.rng.pick(&pool).clone()); }
            if cx.rng.chance(1, 60) { t.push((*cx.rng.pick(&["-", "Ctrl", "é", "Spa"])).to_string()); }
            b.push(json!([t.join(*cx.rng.pick(&[" ", "", "  "])), cx.rng.below(2)]));
        }
        codes.push(b'!');
        let m = cx.rng.range(1, 40);
        let ks: Vec<u8> = (0..m).map(|_| if cx.rng.chance(1, 30) { cx.rng.next() as u8 } else { *cx.rng.pick(&codes) }).collect();
        cx.case(json!({"bindings":b,"keys":hex(&ks)}));
        if !cx.thorough && cx.evaluations > 30000 { break; }
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    for w in shrink_list(v["bindings"].as_array().unwrap()) { let mut x = v.clone(); x["bindings"] = Value::Array(w); out.push(x); }
    let ks = jhex(&v["keys"]);
    if ks.len() > 1 { for w in [&ks[..ks.len() / 2], &ks[ks.len() / 2..], &ks[1..], &ks[..ks.len() - 1]] { let mut x = v.clone(); x["keys"] = json!(hex(w)); out.push(x); } }
    out
}
