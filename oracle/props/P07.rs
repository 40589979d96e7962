use libshpool::verif::template as t;
pub const RULE: &str = "template texts over letters, digits, '_', '-', braces, '$', '.', spaces and non-ASCII letters and digits: every text up to length 5 over an 8-letter alphabet, random longer ones built from raw and {name} pieces with occasional damage, each instantiated under random variable maps (missing, empty, brace-bearing and non-ASCII values); distinct = distinct (text, vars)";
pub const BOUND: &str = "texts of at most 200 characters, at most 5 variables";

fn meaning(src: &str, vars: &[(String, String)]) -> Option<String> {
    let cs: Vec<char> = src.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < cs.len() {
        if cs[i] != '{' { out.push(cs[i]); i += 1; continue; }
        let mut name = String::new();
        i += 1;
        loop {
            if i >= cs.len() { return None; }
            if cs[i] == '}' { break; }
            name.push(cs[i]);
            i += 1;
        }
        i += 1;
        let mut nc = name.chars();
        let first = nc.next()?;
        if first.is_numeric() || !name.chars().all(|c| c == '_' || c.is_alphanumeric()) { return None; }
        for (k, v) in vars.iter().rev() { if *k == name { out.push_str(v); break; } }
    }
    Some(out)
}
pub fn case(v: &Value) -> CaseResult {
    let s = v["text"].as_str().unwrap();
    let vars: Vec<(String, String)> = v["vars"].as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string())).collect();
    let want = meaning(s, &vars);
    let got = t::instantiate(s, &vars);
    if let Some((_, src)) = &got { if src != s { return Err((format!("source text {s:?}"), format!("{src:?}"))); } }
    let got = got.map(|x| x.0);
    if want != got { return Err((format!("{want:?}"), format!("{got:?}"))); }
    Ok(())
}
fn vars(cx: &mut Ctx) -> Value {
    let names = ["a", "b", "_", "ab", "v1", "é", "_9", "workspace", "a1_b"];
    let vals = ["", "x", "val", "{a}", "}", "{", "日本", "-", "a b", "/tmp/x"];
    let n = cx.rng.below(6);
    let mut o = vec![];
    for _ in 0..n { let k = *cx.rng.pick(&names); let v = *cx.rng.pick(&vals); o.push(json!([k, v])); }
    json!(o)
}
pub fn search(cx: &mut Ctx) {
    let al = ["{", "}", "a", "b", "1", "_", "-", "é"];
    let fixed = json!([["a", "X{b}"], ["b", ""], ["ab", "}é"], ["_", "under"], ["é", "acc"]]);
    for n in 0..=5usize {
        for k in 0..(al.len() as u64).pow(n as u32) {
            let mut k = k;
            let mut s = String::new();
            for _ in 0..n { s.push_str(al[(k % al.len() as u64) as usize]); k /= al.len() as u64; }
            cx.case(json!({"text": s, "vars": fixed}));
        }
    }
    let names = ["a", "b", "_", "ab", "v1", "é", "_9", "workspace", "a1_b", "٣x", "1a", "", "a-b", "a b", "a.b", "½", "x٣", "日本"];
    let raws = ["", "-", "raw", "}", "}}", "é", "日本", " ", "$", "a", "/tmp/", "\n", "\u{10ffff}"];
    let n = if cx.thorough { 1_000_000 } else { 20_000 };
    for _ in 0..n {
        if cx.expired() { return; }
        let k = cx.rng.range(1, 6);
        let mut s = String::new();
        for _ in 0..k {
            if cx.rng.chance(1, 2) { s.push_str(*cx.rng.pick(&raws)); }
            else {
                let n = if cx.rng.chance(4, 5) { names[cx.rng.below(9) as usize] } else { *cx.rng.pick(&names) };
                s.push('{'); s.push_str(n);
                if !cx.rng.chance(1, 20) { s.push('}'); }
            }
        }
        let v = vars(cx);
        cx.case(json!({"text": s, "vars": v}));
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let cs: Vec<char> = v["text"].as_str().unwrap().chars().collect();
    let mut out: Vec<Value> = (0..cs.len()).map(|i| { let mut c = cs.clone(); c.remove(i); json!({"text": c.into_iter().collect::<String>(), "vars": v["vars"]}) }).collect();
    let a = v["vars"].as_array().unwrap();
    for i in 0..a.len() { let mut b = a.clone(); b.remove(i); out.push(json!({"text": v["text"], "vars": b})); }
    out
}
