use crate::e2e::*;
use std::collections::BTreeMap;
pub const RULE: &str = "a program that reports what it was started with (arguments, name, environment, directory, open files, terminal) in a new session of a real daemon, for generated configurations and requests, asked for over the wire or with the real attach command on a terminal; and real bash with a prompt prefix and start command; distinct = distinct input";
pub const BOUND: &str = "up to 6 variables per source, command lines of up to 4 words";

type Env = BTreeMap<String, String>;
fn s(v: &Value) -> Option<String> { v.as_str().map(|x| x.to_string()) }
fn pairs(v: &Value) -> Vec<(String, String)> { v.as_array().map(|a| a.iter().map(|p| (s(&p[0]).unwrap(), s(&p[1]).unwrap())).collect()).unwrap_or_default() }
/// (user, home, shell) of whoever we are
fn me() -> (String, String, String) {
    let c = |p: *mut libc::c_char| unsafe { std::ffi::CStr::from_ptr(p) }.to_string_lossy().into_owned();
    unsafe { let p = libc::getpwuid(libc::getuid()); (c((*p).pw_name), c((*p).pw_dir), c((*p).pw_shell)) }
}
/// /etc/environment, where it is simple enough to need no rules
fn etc() -> Option<Vec<(String, String)>> {
    let t = match std::fs::read_to_string("/etc/environment") { Ok(t) => t, Err(_) => return Some(vec![]) };
    let mut out = vec![];
    for l in t.lines() {
        if l.is_empty() { continue; }
        let (k, v) = l.split_once('=')?;
        let v = if v.len() >= 2 && v.starts_with('"') && v.ends_with('"') { &v[1..v.len() - 1] } else { v };
        let plain = |t: &str| !t.is_empty() && t.chars().all(|c| c.is_ascii_alphanumeric() || "_-./:".contains(c));
        if !plain(k) || !plain(v) { return None; }
        out.push((k.to_string(), v.to_string()));
    }
    Some(out)
}
fn want_env(v: &Value, d: &Daemon, name: &str, local: &[(String, String)], got: &Env) -> Option<Env> {
    let c = &v["conf"];
    let (user, home, shell) = me();
    let run = format!("{}/run", d.dir.display());
    // where the daemon keeps its things is its own business
    let told = got.get("SHPOOL_SESSION_DIR").cloned().unwrap_or_default();
    let dir = if told.starts_with(&format!("{}/shpool", run)) && told.ends_with(&format!("/sessions/{}", name)) { told } else { format!("{}/shpool/sessions/{}", run, name) };
    let mut e = Env::new();
    e.insert("HOME".into(), home);
    e.insert("PATH".into(), s(&c["initial_path"]).unwrap_or("/usr/bin:/bin:/usr/sbin:/sbin".into()));
    e.insert("SHPOOL_SESSION_NAME".into(), name.into());
    e.insert("SHPOOL_SESSION_DIR".into(), dir.clone());
    e.insert("SHELL".into(), shell);
    e.insert("USER".into(), user);
    e.insert("SSH_AUTH_SOCK".into(), format!("{}/ssh-auth-sock.socket", dir));
    e.insert("XDG_RUNTIME_DIR".into(), run);
    let cenv: Env = pairs(&c["env"]).into_iter().collect();
    let mut term = local.iter().find(|p| p.0 == "TERM").map(|p| p.1.clone());
    if let Some(t) = cenv.get("TERM") { term = if t.is_empty() { None } else { Some(t.clone()) }; }
    for (k, x) in &cenv { if k != "TERM" { e.insert(k.clone(), x.clone()); } }
    match term { Some(t) => { e.insert("TERM".into(), t); } None => { e.remove("TERM"); } }
    for (k, x) in local { if k != "TERM" && k != "SSH_AUTH_SOCK" { e.insert(k.clone(), x.clone()); } }
    if c["noread_etc_environment"] != true { for (k, x) in etc()? { e.insert(k, x); } }
    Some(e)
}
fn toml(v: &Value, shell: &str) -> String {
    let c = &v["conf"];
    let mut t = format!("shell = {}\nsession_restore_mode = \"simple\"\n", json!(shell));
    for k in ["norc", "noecho", "noread_etc_environment", "initial_path", "prompt_prefix", "default_dir", "forward_env"] {
        if !c[k].is_null() { t += &format!("{} = {}\n", k, c[k]); }
    }
    if c["env"].is_array() { t += "[env]\n"; for (k, x) in pairs(&c["env"]) { t += &format!("{} = {}\n", k, json!(x)); } }
    t
}
fn told_of(d: &[u8]) -> Option<Value> {
    let t = String::from_utf8_lossy(d).into_owned();
    let i = t.find("[7b")?;
    let j = t[i..].find(']')? + i;
    serde_json::from_slice(&unhex(&t[i + 1..j])).ok()
}
fn quote(w: &str) -> String {
    if !w.is_empty() && w.chars().all(|c| c.is_ascii_alphanumeric() || "_-./".contains(c)) { w.into() } else { format!("'{}'", w.replace('\'', "'\\''")) }
}
pub fn case(v: &Value) -> CaseResult {
    let c = &v["conf"];
    if v["kind"] == "bash" { return bash(v); }
    let h = &v["head"];
    let name = s(&h["name"]).unwrap();
    let exe = std::env::current_exe().unwrap();
    let links = scratch();
    let shell = links.join(s(&c["shell_name"]).unwrap());
    std::os::unix::fs::symlink(&exe, &shell).unwrap();
    let shell = shell.display().to_string();
    let start = s(&h["dir"]).map(|t| t.replace("@", &links.display().to_string()));
    let mut w = v.clone();
    if let Some(t) = s(&c["default_dir"]) { w["conf"]["default_dir"] = json!(t.replace("@", &links.display().to_string())); }
    let own_env: Vec<(String, String)> = pairs(&v["own"]);
    let d = Daemon::start(&toml(&w, &shell), &own_env.iter().map(|p| (p.0.as_str(), p.1.as_str())).collect::<Vec<_>>());
    let r = run(&w, &d, &name, &shell, start, &links);
    let _ = std::fs::remove_dir_all(&links);
    r
}
fn run(v: &Value, d: &Daemon, name: &str, shell: &str, start: Option<String>, links: &std::path::Path) -> CaseResult {
    let (c, h) = (&v["conf"], &v["head"]);
    let exe = std::fs::canonicalize(std::env::current_exe().unwrap()).unwrap().display().to_string();
    let cmd: Option<Vec<String>> = h["cmd"].as_array().map(|a| [if h["by_shell"] == true { shell.to_string() } else { exe.clone() }, "probe-shell".to_string()].into_iter().chain(a.iter().map(|w| s(w).unwrap())).collect());
    let line = cmd.as_ref().map(|ws| ws.iter().map(|w| quote(w)).collect::<Vec<_>>().join(" "));
    let start_cmd = s(&h["start_cmd"]);
    let mut local = pairs(&h["local_env"]);
    let nu = shell.ends_with("nu");
    let prefix = s(&c["prompt_prefix"]);
    let setup = cmd.is_none() && (start_cmd.as_deref().map(|x| !x.is_empty()).unwrap_or(false) || prefix.as_deref() != Some("")) && !nu;
    let data = if v["kind"] == "wire" {
        let a = d.attach_with(AttachHeader { name: name.into(), name_template: name.into(), cmd: line, dir: start.clone(), start_cmd: start_cmd.clone(), local_env: local.clone(),
            local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 }, ..Default::default() });
        if !a.created() { return Err(("the session is created".into(), format!("{:?}", a.status))); }
        if !setup { a.wait_data(b"probe-ready"); }
        // the setup is not shown; ask again until told
        let t = std::time::Instant::now();
        while t.elapsed() < Duration::from_secs(15) && told_of(&a.seen().data).is_none() {
            a.send(b"probe-now\r");
            a.wait(Duration::from_millis(if setup { 1500 } else { 5000 }), |x| x.eof || told_of(&x.data).is_some());
        }
        let x = a.seen();
        x.data
    } else {
        // the client's own environment, of which it passes on what is asked for
        let fwd: Vec<String> = c["forward_env"].as_array().map(|a| a.iter().map(|x| s(x).unwrap()).collect()).unwrap_or_default();
        let mut args: Vec<String> = vec!["attach".into()];
        if let Some(l) = &line { args.push("--cmd".into()); args.push(l.clone()); }
        if let Some(x) = &start { args.push("--dir".into()); args.push(x.clone()); }
        if let Some(x) = &start_cmd { if cmd.is_none() { args.push("--start-cmd".into()); args.push(x.clone()); } }
        args.push(name.into());
        let mut k = d.cli(&args.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        for (a, b) in &local { k.env(a, b); }
        let has: Env = local.iter().cloned().collect();
        let base: Env = [("TERM", "xterm".to_string()), ("LANG", "C.UTF-8".into()), ("HOME", d.dir.display().to_string()), ("XDG_RUNTIME_DIR", d.dir.join("run").display().to_string()),
            ("PATH", "/usr/bin:/bin:/usr/sbin:/sbin".into()), ("USER", "root".into()), ("SHELL", "/bin/bash".into())].into_iter().map(|(a, b)| (a.to_string(), b)).collect();
        local = vec![];
        for key in ["TERM", "DISPLAY", "LANG", "SSH_AUTH_SOCK"].iter().map(|x| x.to_string()).chain(fwd) {
            if let Some(x) = has.get(&key).or(base.get(&key)) { local.push((key, x.clone())); }
        }
        let mut p = Pty::spawn(k, 24, 200);
        let t = std::time::Instant::now();
        if !setup { p.wait_out(b"probe-ready"); } else { std::thread::sleep(Duration::from_millis(300)); }
        while t.elapsed() < Duration::from_secs(15) && told_of(&p.out()).is_none() {
            p.send(b"probe-now\r");
            wait_for(Duration::from_millis(if setup { 1500 } else { 5000 }), || told_of(&p.out()).is_some());
        }
        p.out()
    };
    let got = match told_of(&data) { Some(g) => g, None => return Err(("the program that was asked for runs and answers on its terminal".into(), String::from_utf8_lossy(&data[..data.len().min(600)]).into_owned())) };
    let base = std::path::Path::new(shell).file_name().unwrap().to_string_lossy().into_owned();
    let want_args: Vec<String> = match &cmd {
        Some(ws) => ws.clone(),
        None => {
            let mut a = vec![format!("-{}", base)];
            if c["norc"] == true {
                if shell.ends_with("bash") { a.extend(["--norc".into(), "--noprofile".into()]); } else if shell.ends_with("zsh") { a.push("--no-rcs".into()); } else if shell.ends_with("fish") { a.push("--no-config".into()); }
            }
            a
        }
    };
    let eq = |what: &str, w: Value, g: &Value| if &w == g { Ok(()) } else { Err((format!("{} {}", what, w), format!("{}", g))) };
    eq("arguments", json!(want_args), &got["args"])?;
    eq("program", json!(exe), &got["exe"])?;
    let cwd = d.dir.display().to_string();
    let want_dir = if v["kind"] == "wire" { start.unwrap_or(me().1) } else {
        match start.as_deref() { Some(".") => cwd, Some(x) => x.into(), None => match s(&c["default_dir"]).as_deref() { None | Some("$HOME") => me().1, Some(".") => cwd, Some(x) => x.into() } }
    };
    let _ = links;
    eq("directory", json!(want_dir), &got["dir"])?;
    let g: Env = pairs(&got["env"]).into_iter().collect();
    if let Some(e) = want_env(v, d, name, &local, &g) {
        if e != g {
            let diff = |a: &Env, b: &Env| a.iter().filter(|(k, x)| b.get(*k) != Some(*x)).map(|(k, x)| format!("{}={}", k, x)).collect::<Vec<_>>();
            return Err((format!("environment with {:?}", diff(&e, &g)), format!("{:?}", diff(&g, &e))));
        }
    }
    let fds: Vec<String> = got["fds"].as_array().unwrap().iter().map(|x| s(x).unwrap()).collect();
    let bad: Vec<&String> = fds.iter().filter(|f| { let (n, t) = f.split_once(' ').unwrap(); !(n.parse::<i32>().unwrap() <= 2 && t.starts_with("/dev/pts/")) && !t.starts_with("/proc/") }).collect();
    if !bad.is_empty() || fds.iter().filter(|f| f.contains("/dev/pts/")).count() != 3 { return Err(("nothing open but its terminal, as stdin, stdout and stderr".into(), format!("{:?}", fds))); }
    eq("a terminal of its own:", json!([true, true]), &json!([got["tty"], got["own"]]))?;
    eq("echo", json!(c["noecho"] != true), &got["echo"])?;
    // what was typed ahead of us: the setup, with the start command in it exactly once
    let told: Vec<String> = got["told"].as_array().unwrap().iter().map(|x| s(x).unwrap())
        // (what sets a known shell's prompt is not told apart here)
        .filter(|x| !x.trim().is_empty() && (!setup || x == "(sentinel)" || start_cmd.as_ref() == Some(x))).collect();
    let want: Vec<String> = if setup {
        let mut w = vec!["(sentinel)".to_string()];
        if let Some(x) = &start_cmd { if !x.is_empty() { w.push(x.clone()); } }
        w.push("(sentinel)".into());
        w
    } else { vec![] };
    eq("told first", json!(want), &json!(told))
}
fn bash(v: &Value) -> CaseResult {
    let mut t = String::from("shell = \"/bin/bash\"\nnorc = true\nsession_restore_mode = \"simple\"\nnoread_etc_environment = true\n");
    let p = s(&v["prefix"]);
    if let Some(p) = &p { t += &format!("prompt_prefix = {}\n", json!(p)); }
    let d = Daemon::start(&t, &[]);
    let name = s(&v["name"]).unwrap();
    let n = v["n"].as_u64().unwrap();
    let a = d.attach_with(AttachHeader { name: name.clone(), name_template: name.clone(), start_cmd: if v["start"] == true { Some(format!("echo $(({}+1)) >> {}/ran", n, d.dir.display())) } else { None },
        local_env: vec![("TERM".into(), "xterm".into())], local_tty_size: TtySize { rows: 24, cols: 200, xpixel: 0, ypixel: 0 }, ..Default::default() });
    if !a.created() { return Err(("the session is created".into(), format!("{:?}", a.status))); }
    std::thread::sleep(Duration::from_millis(300));
    a.send(format!("echo Q$(({}+7))R\r", n).as_bytes());
    let q = format!("Q{}R", n + 7);
    if !a.wait_data(q.as_bytes()) { return Err((format!("the shell answers {}", q), String::from_utf8_lossy(&a.seen().data).into_owned())); }
    let want = p.unwrap_or("shpool:$SHPOOL_SESSION_NAME ".into()).replace("$SHPOOL_SESSION_NAME", &name);
    let full = format!("{}-bash-", want);
    let shown = a.wait(Duration::from_secs(6), |x| contains(&x.data, full.as_bytes()));
    let t = String::from_utf8_lossy(&a.seen().data).into_owned();
    if !shown { return Err((format!("the prompt begins with {:?}", want), t)); }
    let ran = std::fs::read_to_string(d.dir.join("ran")).unwrap_or_default();
    let want = if v["start"] == true { format!("{}\n", n + 1) } else { String::new() };
    if ran != want { return Err((format!("the start command, once: {:?}", want), format!("{:?}", ran))); }
    Ok(())
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    for (p, k) in [("conf", "env"), ("head", "local_env"), ("conf", "forward_env"), ("head", "cmd")] {
        if let Some(a) = v[p][k].as_array() { for t in shrink_list(a) { let mut w = v.clone(); w[p][k] = json!(t); out.push(w); } }
    }
    for (p, k) in [("conf", "norc"), ("conf", "noecho"), ("conf", "initial_path"), ("head", "dir"), ("head", "start_cmd"), ("conf", "env"), ("head", "cmd")] {
        if !v[p][k].is_null() { let mut w = v.clone(); w[p][k] = Value::Null; out.push(w); }
    }
    out
}
pub fn search(cx: &mut Ctx) {
    let mut n = 0u64;
    while !cx.expired() {
        n += 1;
        let r = &mut cx.rng;
        if n % 9 == 4 {
            let v = json!({"kind": "bash", "name": format!("b{}", r.below(1000)), "prefix": *r.pick(&[Value::Null, json!("[$SHPOOL_SESSION_NAME] "), json!("x "), json!("$SHPOOL_SESSION_NAME:$SHPOOL_SESSION_NAME ")]), "start": r.chance(1, 2), "n": r.below(100000)});
            cx.case(v);
            continue;
        }
        let keys = ["TERM", "PATH", "HOME", "FOO", "BAR", "LANG", "DISPLAY", "SSH_AUTH_SOCK", "USER", "SHELL", "XDG_RUNTIME_DIR", "TERMINFO", "XTERM", "SSH_AUTH_SOCK_2", "EMPTY", "SHPOOL_SESSION_NAME"];
        let vals = ["", "x", "a b", "q'uo\"te", "/p:/q", "vt100", "=", "$HOME", "\u{e9}"];
        let env = |r: &mut Rng| { let k = r.below(6); let mut m = BTreeMap::new(); for _ in 0..k { m.insert(r.pick(&keys).to_string(), r.pick(&vals).to_string()); } m.into_iter().map(|(a, b)| json!([a, b])).collect::<Vec<Value>>() };
        let opt = |r: &mut Rng, x: Value| if r.chance(1, 2) { x } else { Value::Null };
        let shell_name = *r.pick(&["bash", "xbash", "zsh", "fish", "nu", "mysh", "bash5", "snu"]);
        let cmd = { let k = r.below(4); let w: Vec<&str> = (0..k).map(|_| *r.pick(&["a", "b c", "", "-n", "it's", "$X", "\"q\"", "--norc", "\\"])).collect(); json!(w) };
        let wire = r.chance(2, 3);
        // the attach command expands {..} and keeps no empty start command
        let start = json!(*r.pick(&["echo hi", "true; false", "", "a 'b"]));
        let (e, le) = (env(r), env(r));
        let fwd = { let k = r.below(4); let w: Vec<&str> = (0..k).map(|_| *r.pick(&keys)).collect(); json!(w) };
        let own: Vec<Value> = if r.chance(1, 2) { vec![json!(["SECRET", "daemon's"]), json!(["FOO", "daemon's"])] } else { vec![] };
        let prefix = if r.chance(2, 3) { json!("") } else { Value::Null };
        let cmd = opt(r, cmd);
        let start = if r.chance(1, 3) { start } else { Value::Null };
        let start = if !wire && !cmd.is_null() { Value::Null } else { start };
        // what the client runs with itself decides where it looks for the daemon
        let le: Vec<Value> = if wire { le } else { le.into_iter().filter(|p| !["HOME", "PATH", "XDG_RUNTIME_DIR"].contains(&p[0].as_str().unwrap())).collect() };
        let own: Vec<Value> = if wire { own } else { vec![] };
        let v = json!({"kind": if wire { "wire" } else { "cli" }, "own": own,
            "conf": {"shell_name": shell_name, "norc": opt(r, json!(r.0 % 3 > 0)), "noecho": opt(r, json!(r.0 % 3 > 0)), "noread_etc_environment": if r.chance(3, 4) { json!(true) } else { Value::Null },
                "initial_path": opt(r, json!("/opt/x:/usr/bin:/bin")), "prompt_prefix": prefix, "env": if r.chance(1, 2) { json!(e) } else { Value::Null },
                "default_dir": *r.pick(&[Value::Null, Value::Null, json!("."), json!("$HOME"), json!("@")]), "forward_env": opt(r, fwd)},
            "head": {"name": format!("s{}", r.below(50)), "cmd": cmd, "by_shell": r.chance(1, 3), "start_cmd": start, "dir": *r.pick(&[Value::Null, Value::Null, json!("@"), json!("/usr/lib")]), "local_env": le}});
        cx.case(v);
    }
}
