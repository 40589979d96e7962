use std::sync::Mutex;
use crate::e2e::*;
use std::collections::{BTreeMap, BTreeSet};
pub const RULE: &str = "sequences of attaches with generated names and client environments to a real daemon, over the wire or with the attach command; after each its answer, the list and every file below the daemon's runtime directory are compared with what there should be; distinct = distinct input";
pub const BOUND: &str = "up to 5 attaches, names of up to 300 bytes, up to 5 variables";

static LIVE: Mutex<Option<(Daemon, bool, usize)>> = Mutex::new(None);
fn s(v: &Value) -> String { v.as_str().unwrap().to_string() }
fn usable(n: &str) -> bool { !n.is_empty() && n != "." && n != ".." && n.len() <= 255 && !n.chars().any(|c| c == '/' || c == '\0' || c.is_whitespace()) }
/// every path below a directory, with what it is
fn tree(p: &std::path::Path) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let mut todo = vec![p.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let q = e.path();
            let k = q.strip_prefix(p).unwrap().display().to_string();
            let t = e.file_type().unwrap();
            if t.is_dir() { out.insert(k, "dir".into()); todo.push(q); }
            else if t.is_symlink() { out.insert(k, format!("-> {}", std::fs::read_link(&q).unwrap().display())); }
            else { out.insert(k, String::from_utf8_lossy(&std::fs::read(&q).unwrap_or_default()).into_owned()); }
        }
    }
    out
}
pub fn case(v: &Value) -> CaseResult {
    let nolink = v["nolink"] == true;
    let mut g = LIVE.lock().unwrap_or_else(|e| e.into_inner());
    if g.as_ref().map(|l| l.1 != nolink || l.2 > 30).unwrap_or(true) {
        *g = None;
        *g = Some((Daemon::start(&format!("shell = \"/bin/sh\"\nprompt_prefix = \"\"\nsession_restore_mode = \"simple\"\nnosymlink_ssh_auth_sock = {}\n", nolink), &[]), nolink, 0));
    }
    let l = g.as_mut().unwrap();
    l.2 += 1;
    let r = steps(&l.0, v, nolink);
    let names: Vec<String> = l.0.names();
    l.0.kill(&names.iter().map(|n| n.as_str()).collect::<Vec<_>>());
    if r.is_err() { *g = None; }
    r
}
fn steps(d: &Daemon, v: &Value, nolink: bool) -> CaseResult {
    let run = d.dir.join("run");
    for o in v["ops"].as_array().unwrap() {
        let name = s(&o["name"]);
        let env: Vec<(String, String)> = o["env"].as_array().unwrap().iter().map(|p| (s(&p[0]), s(&p[1]))).collect();
        let (outside0, in0, names0) = (tree_out(d), tree(&run), d.names());
        if o["cli"] == true {
            // only with names that are no good: nothing happens
            let Some((_, _, _)) = d.run(&["attach", "--", &name]) else { return Err(("the attach command ends".into(), format!("it hangs for {:?}", name))) };
            if d.names() != names0 || tree(&run) != in0 { return Err((format!("nothing for the name {:?}", name), format!("sessions {:?}", d.names()))); }
            continue;
        }
        let a = d.attach_with(AttachHeader { name: name.clone(), name_template: "t".into(), cmd: Some("/bin/sleep 1000".into()), local_env: env.clone(), local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 }, ..Default::default() });
        if !usable(&name) {
            if !matches!(a.status, Some(AttachStatus::UnexpectedError(_))) { return Err((format!("an error for the name {:?}", name), format!("{:?}", a.status))); }
            if d.names() != names0 { return Err((format!("no session for the name {:?}", name), format!("{:?}", d.names()))); }
            if tree(&run) != in0 || tree_out(d) != outside0 { return Err((format!("no file for the name {:?}", name), format!("{:?}", diff(&in0, &tree(&run))))); }
            continue;
        }
        let again = names0.contains(&name);
        if (again && !a.reattached()) || (!again && !a.created()) { return Err((format!("{} session {:?}", if again { "the old" } else { "a new" }, name), format!("{:?}", a.status))); }
        // the client's things
        let base = match in0.keys().chain(tree(&run).keys()).find(|k| k.ends_with("/sessions") || *k == "sessions") { Some(k) => k.clone(), None => return Err(("a directory for the sessions".into(), format!("{:?}", tree(&run)))) };
        let dir = format!("{}/{}", base, name);
        let mut want = in0.clone();
        let mut p = std::path::Path::new(&dir).to_path_buf();
        while !p.as_os_str().is_empty() { want.insert(p.display().to_string(), "dir".into()); p = p.parent().unwrap().to_path_buf(); }
        want.insert(format!("{}/forward.env", dir), env.iter().map(|(k, x)| format!("{}={}", k, x)).collect::<Vec<_>>().join("\n"));
        let sock = env.iter().find(|p| p.0 == "SSH_AUTH_SOCK").map(|p| p.1.clone());
        if let (Some(t), false) = (&sock, nolink) { if !t.is_empty() { want.insert(format!("{}/ssh-auth-sock.socket", dir), format!("-> {}", t)); } }
        let got = tree(&run);
        if got != want { return Err((format!("after attaching to {:?}: {:?}", name, diff(&got, &want)), format!("{:?}", diff(&want, &got)))); }
        if tree_out(d) != outside0 { return Err(("no file elsewhere".into(), format!("{:?}", diff(&outside0, &tree_out(d))))); }
        if sock.as_deref().map(|t| !t.is_empty()).unwrap_or(false) && !nolink {
            use std::os::unix::fs::PermissionsExt;
            let m = std::fs::metadata(run.join(&base)).unwrap().permissions().mode() & 0o7777;
            if m != 0o700 { return Err(("a directory only for its owner".into(), format!("mode {:o}", m))); }
        }
        let mut names1: BTreeSet<String> = names0.into_iter().collect();
        names1.insert(name.clone());
        if d.names() != names1.iter().cloned().collect::<Vec<_>>() { return Err((format!("sessions {:?}", names1), format!("{:?}", d.names()))); }
        if v["loosen"] == true { let _ = std::fs::set_permissions(run.join(&base), std::os::unix::fs::PermissionsExt::from_mode(0o755)); }
        a.hang_up();
        let n = name.clone();
        if !wait_for(LONG, || d.list().iter().any(|x| x.name == n && matches!(x.status, SessionStatus::Disconnected))) { return Err(("the session is let go of".into(), format!("{:?}", d.list()))); }
    }
    Ok(())
}
fn diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Vec<String> {
    let mut v: Vec<String> = b.iter().filter(|(k, x)| a.get(*k) != Some(*x)).map(|(k, x)| format!("{}: {}", k, x)).collect();
    v.extend(a.keys().filter(|k| !b.contains_key(*k)).map(|k| format!("{}: gone", k)));
    v
}
/// the scratch directory without what is below run, and without what the log says
fn tree_out(d: &Daemon) -> BTreeMap<String, String> { tree(&d.dir).into_iter().filter(|(k, _)| !k.starts_with("run") && k != "log").collect() }
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    let ops = v["ops"].as_array().unwrap();
    for t in shrink_list(ops) { let mut w = v.clone(); w["ops"] = json!(t); out.push(w); }
    for (i, o) in ops.iter().enumerate() { for t in shrink_list(o["env"].as_array().unwrap()) { let mut w = v.clone(); w["ops"][i]["env"] = json!(t); out.push(w); } }
    out
}
pub fn search(cx: &mut Ctx) {
    while !cx.expired() {
        let r = &mut cx.rng;
        let long = r.range(240, 300) as usize;
        let long = format!("{}{}", "n".repeat(long - 2), r.pick(&["nn", "\u{e9}", "/x", " x"]));
        let pool: Vec<String> = ["a", "b", "..", ".", "", "a/b", "../x", "a b", "...", ".a", "-", "a\tb", "\u{2003}", "x\u{85}", "x\0y", "\0", "/", "a\u{200b}b", "\u{e9}\u{e9}", "$x", "*", "a\n", "sessions", "forward.env", "a..b", "{x}"]
            .iter().map(|x| x.to_string()).chain([long]).collect();
        let k = r.range(1, 5);
        let ops: Vec<Value> = (0..k).map(|_| {
            let name = if r.chance(2, 5) { r.pick(&["a", "b"]).to_string() } else { r.pick(&pool).clone() };
            let n = r.below(5);
            let mut env: Vec<Value> = (0..n).map(|_| json!([*r.pick(&["TERM", "FOO", "LANG", "SSH_AUTH_SOCK", "X"]), *r.pick(&["", "/tmp/agent", "/tmp/other agent", "relative", "a=b", "q'\"", "\u{e9}"])])).collect();
            if r.chance(1, 2) { env.push(json!(["SSH_AUTH_SOCK", format!("/tmp/agent.{}", r.below(100))])); }
            let cli = r.chance(1, 6) && !usable(&name) && !name.contains('\0') && name.len() < 200 && !name.contains('{');
            json!({"name": name, "env": env, "cli": cli})
        }).collect();
        let v = json!({"nolink": r.chance(1, 6), "loosen": r.chance(1, 3), "ops": ops});
        cx.case(v);
    }
}
