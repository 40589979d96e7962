use libshpool::verif::config as c;
use std::path::PathBuf;
pub const RULE: &str = "1 to 4 configuration files, each missing, holding a random subset of the 20 options with one of two or three values, or invalid; the merge is compared with the load of the single file that states every option's last value; also the files a daemon uses with and without -c; distinct = distinct file contents";
pub const BOUND: &str = "at most 4 files";

// (option, values as TOML)
const OPTS: &[(&str, &[&str])] = &[
    ("norc", &["true", "false"]), ("noecho", &["true", "false"]), ("nosymlink_ssh_auth_sock", &["true", "false"]),
    ("noread_etc_environment", &["true", "false"]), ("nodaemonize", &["true", "false"]), ("nodaemonize_timeout", &["true", "false"]),
    ("shell", &["'/bin/sh'", "'/bin/zsh'", "''"]), ("default_dir", &["'.'", "'/tmp'", "''"]), ("initial_path", &["'/a'", "'/b'"]),
    ("forward_env", &["[]", "['A']", "['B', 'C']"]), ("session_restore_mode", &["'simple'", "'screen'", "{ lines = 5 }"]),
    ("session_restore_engine", &["'vt100'", "'vterm'"]), ("output_spool_lines", &["1", "500"]), ("vt100_output_spool_width", &["10", "80"]),
    ("prompt_prefix", &["''", "'x'"]), ("motd", &["'never'", "'dump'", "{ pager = { bin = 'less' } }"]), ("motd_args", &["[]", "['q']"]),
    ("env", &["{}", "{ A = '1' }", "{ B = '2' }"]), ("keybinding", &["[]", "[{ binding = 'Ctrl-a', action = 'detach' }]", "[{ binding = 'b', action = 'noop' }]"]),
    ("var_default", &["[]", "[{ var = 'v', value = '1' }]"]),
];
fn tmp() -> PathBuf {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let d = std::env::temp_dir().join(format!("orc{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    d
}
fn text(o: &Value) -> Option<String> {
    match o {
        Value::Null => None,
        Value::String(s) => Some(s.clone()),
        o => Some(o.as_array().unwrap().iter().map(|kv| format!("{} = {}\n", kv[0].as_str().unwrap(), kv[1].as_str().unwrap())).collect()),
    }
}
pub fn case(v: &Value) -> CaseResult {
    let d = tmp();
    let r = run(v, &d);
    let _ = std::fs::remove_dir_all(&d);
    r
}
fn run(v: &Value, d: &PathBuf) -> CaseResult {
    if let Some(how) = v.get("how").and_then(|h| h.as_str()) {
        let cfg = d.join("cfg/shpool");
        std::fs::create_dir_all(&cfg).unwrap();
        std::fs::write(cfg.join("config.toml"), text(&v["user"]).unwrap()).unwrap();
        let e = d.join("explicit.toml");
        std::fs::write(&e, text(&v["explicit"]).unwrap()).unwrap();
        let (got, from) = match how {
            "explicit" => {
                std::env::set_var("XDG_CONFIG_HOME", d.join("cfg"));
                (c::effective(Some(e.to_str().unwrap())), e.clone())
            }
            h => {
                std::env::remove_var("XDG_CONFIG_HOME");
                std::env::remove_var("XDG_CONFIG_DIR");
                std::env::set_var(if h == "home" { "XDG_CONFIG_HOME" } else { "XDG_CONFIG_DIR" }, d.join("cfg"));
                (c::effective(None), cfg.join("config.toml"))
            }
        };
        std::env::remove_var("XDG_CONFIG_HOME");
        std::env::remove_var("XDG_CONFIG_DIR");
        let mut from = vec![from];
        if how != "explicit" { from.insert(0, PathBuf::from("/etc/shpool/config.toml")); }
        let want = c::load_files(&from);
        if got != want { return Err((format!("{want:?}"), format!("{got:?}"))); }
        return Ok(());
    }
    let mut ps = vec![];
    let mut last: Vec<(String, String)> = vec![];
    let mut bad = false;
    for (i, f) in v["files"].as_array().unwrap().iter().enumerate() {
        let p = d.join(format!("{i}.toml"));
        if let Some(t) = text(f) { std::fs::write(&p, t).unwrap(); }
        if let Value::String(_) = f { bad = true; }
        if let Some(a) = f.as_array() {
            for kv in a {
                let (k, val) = (kv[0].as_str().unwrap().to_string(), kv[1].as_str().unwrap().to_string());
                last.retain(|x| x.0 != k);
                last.push((k, val));
            }
        }
        ps.push(p);
    }
    let got = c::load_files(&ps);
    if bad {
        if got.is_some() { return Err(("the load is refused".into(), format!("{got:?}"))); }
        return Ok(());
    }
    let one = d.join("one.toml");
    std::fs::write(&one, last.iter().map(|(k, v)| format!("{k} = {v}\n")).collect::<String>()).unwrap();
    let want = c::load_files(&[one]);
    if want.is_none() || got != want { return Err((format!("{want:?}"), format!("{got:?}"))); }
    // each option reads as written
    let shown = got.unwrap();
    for (k, val) in &last {
        let plain = match (k.as_str(), val.as_str()) {
            (_, "true") | (_, "false") => Some(format!("{k}: Some({val})")),
            (_, x) if x.bytes().all(|b| b.is_ascii_digit()) => Some(format!("{k}: Some({val})")),
            ("shell" | "default_dir" | "initial_path" | "prompt_prefix", x) => Some(format!("{k}: Some(\"{}\")", x.trim_matches('\''))),
            _ => None,
        };
        if let Some(p) = plain { if !shown.contains(&p) { return Err((p, shown)); } }
    }
    for (k, _) in OPTS {
        if !last.iter().any(|x| x.0 == *k) && !shown.contains(&format!("{k}: None")) { return Err((format!("{k}: None"), shown)); }
    }
    Ok(())
}
fn some_opts(cx: &mut Ctx) -> Value {
    let p = *cx.rng.pick(&[1u64, 3, 7, 10]);
    let mut o = vec![];
    for (k, vs) in OPTS { if cx.rng.chance(p, 10) { let v = *cx.rng.pick(vs); o.push(json!([k, v])); } }
    json!(o)
}
pub fn search(cx: &mut Ctx) {
    // every option alone, in both orders, against unset and against another value
    for (k, vs) in OPTS {
        for a in *vs {
            cx.case(json!({"files": [[[k, a]], []]}));
            cx.case(json!({"files": [[], [[k, a]]]}));
            cx.case(json!({"files": [[[k, a]], null]}));
            for b in *vs { cx.case(json!({"files": [[[k, a]], [[k, b]]]})); }
        }
    }
    for bad in ["norc = 3", "norc = ", "[", "session_restore_mode = 'what'", "keybinding = [{ binding = 'a' }]", "motd = 'loud'", "output_spool_lines = -1"] {
        cx.case(json!({"files": [[["norc", "true"]], bad]}));
        cx.case(json!({"files": [bad, [["norc", "true"]]]}));
    }
    for how in ["explicit", "home", "dir"] {
        for _ in 0..3 { let (u, e) = (some_opts(cx), some_opts(cx)); cx.case(json!({"how": how, "user": u, "explicit": e})); }
    }
    let n = if cx.thorough { 60_000 } else { 2_000 };
    for _ in 0..n {
        if cx.expired() { return; }
        let k = cx.rng.range(1, 4);
        let fs: Vec<Value> = (0..k).map(|_| if cx.rng.chance(1, 8) { Value::Null } else { some_opts(cx) }).collect();
        cx.case(json!({"files": fs}));
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    if let Some(fs) = v.get("files").and_then(|f| f.as_array()) {
        for i in 0..fs.len() {
            let mut g = fs.clone(); g.remove(i); if !g.is_empty() { out.push(json!({"files": g})); }
            if let Some(a) = fs[i].as_array() { for j in 0..a.len() { let mut b = a.clone(); b.remove(j); let mut g = fs.clone(); g[i] = json!(b); out.push(json!({"files": g})); } }
        }
    }
    out
}
