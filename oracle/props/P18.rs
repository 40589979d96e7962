use std::sync::Mutex;
use std::io::{Read, Write};
use std::os::unix::net::UnixStream;
use crate::e2e::*;
pub const RULE: &str = "connections of processes of this user and of another user to a real daemon that has a session, a variable and an attached client: every kind of request, requests cut short, garbage, silence and hanging up, in generated order and number, some kept open; what each connection is told, and what the daemon's sessions and variables are afterwards, is compared with who may do what; distinct = distinct input";
pub const BOUND: &str = "up to 14 connections per history, up to 40 of them open at once";

fn s(v: &Value) -> &str { v.as_str().unwrap() }
const STRANGER: u32 = 65533;
/// (whoever changes identity can no longer be looked at by the daemon unless it says so; that holds for the process as a whole)
fn pose() -> bool {
    let r = unsafe { libc::syscall(libc::SYS_setresuid, STRANGER, STRANGER, STRANGER) };
    unsafe { libc::prctl(libc::PR_SET_DUMPABLE, 1, 0, 0, 0); }
    r == 0
}
/// a connection made by a process of this user or, from a thread with another identity, of another one
fn dial(d: &Daemon, stranger: bool) -> Option<UnixStream> {
    let sock = d.sock.clone();
    std::thread::spawn(move || {
        if stranger && !pose() { return None; }
        let c = UnixStream::connect(&sock).ok()?;
        c.set_read_timeout(Some(Duration::from_secs(6))).ok()?;
        Some(c)
    }).join().unwrap()
}
/// whether this process may take on another identity at all
fn can_pose() -> bool { std::thread::spawn(pose).join().unwrap() }
static LIVE: Mutex<Option<(Daemon, usize)>> = Mutex::new(None);
struct Now { names: Vec<String>, var: String }
fn vars(d: &Daemon) -> Option<String> { d.rpc::<MaybeSwitch>(ConnectHeader::GetVars).and_then(|m| m.vars.into_iter().find(|v| v.0 == "w").map(|v| v.1)) }
fn request(d: &Daemon, kind: &str, pre: &str, n: usize) -> Option<Vec<u8>> {
    let tty = TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 };
    let att = |name: String| enc(&ConnectHeader::Attach(AttachHeader { name: name.clone(), name_template: name, cmd: Some("/bin/sleep 1000".into()), local_tty_size: tty.clone(), ..Default::default() }));
    Some(match kind {
        "attach" => att(format!("{}v", pre)),
        "create" => att(format!("{}n{}", pre, n)),
        "list" => enc(&ConnectHeader::List),
        "vars" => enc(&ConnectHeader::GetVars),
        "kill" => enc(&ConnectHeader::Kill(KillRequest { sessions: vec![format!("{}v", pre), format!("{}n0", pre)] })),
        "detach" => enc(&ConnectHeader::Detach(DetachRequest { sessions: vec![format!("{}v", pre)] })),
        "set" => enc(&ConnectHeader::ModifyVar(ModifyVarRequest { var: "w".into(), val: Some(format!("x{}", n)) })),
        "message" => enc(&ConnectHeader::SessionMessage(SessionMessageRequest { session_name: format!("{}v", pre), payload: SessionMessageRequestPayload::Detach })),
        "garbage" => vec![0xc1, 0x00, 0xff, 0x93, 1, 2],
        "number" => vec![7],
        "cut" => { let b = att(format!("{}v", pre)); b[..b.len() / 2].to_vec() }
        "silent" => vec![],
        "hangup" => return None,
        _ => { let _ = d; unreachable!() }
    })
}
/// everything that still comes from the daemon, and whether it closed the connection
fn rest(c: &UnixStream, limit: Duration) -> (Vec<u8>, bool) {
    let (mut out, end) = (vec![], std::time::Instant::now() + limit);
    let mut c = c;
    loop {
        let left = end.saturating_duration_since(std::time::Instant::now());
        if left.is_zero() { return (out, false); }
        let _ = c.set_read_timeout(Some(left));
        let mut b = [0u8; 4096];
        match c.read(&mut b) {
            Ok(0) => return (out, true),
            Ok(k) => out.extend_from_slice(&b[..k]),
            Err(e) if e.kind() == std::io::ErrorKind::ConnectionReset => return (out, true),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(_) => return (out, false),
        }
    }
}
fn history(d: &Daemon, n: usize, v: &Value, greet: &str) -> CaseResult {
    let pre = format!("h{}", n);
    if d.set_var("w", Some("w0")).is_none() { return Err(("the variable is set".into(), "it is not".into())); }
    let victim = d.attach(&format!("{}v", pre), Some("/bin/sh -c 'while read l; do echo \"<$l>\"; done'"));
    if !victim.created() { return Err(("the session is created".into(), format!("{:?}", victim.status))); }
    let mut now = Now { names: vec![format!("{}v", pre)], var: "w0".into() };
    let mut open = vec![];
    let mut serial = 0;
    for o in v["ops"].as_array().unwrap() {
        let (stranger, kind) = (o["who"] == "stranger", s(&o["req"]));
        for _ in 0..o["times"].as_u64().unwrap_or(1) {
            serial += 1;
            let Some(c) = dial(d, stranger) else { return Err(("a connection is accepted".into(), "it is not".into())); };
            let Some(req) = request(d, kind, &pre, serial) else { drop(c); continue; };
            let hello: Option<VersionHeader> = dec(&c);
            if hello.as_ref().map(|h| h.version.as_str()) != Some(greet) { return Err((format!("every connection is greeted with version {:?}", greet), format!("{:?}", hello.map(|h| h.version)))); }
            let _ = (&c).write_all(&req);
            if o["keep"] == true { open.push(c); continue; }
            if stranger {
                let (said, closed) = rest(&c, Duration::from_secs(6));
                if !closed { return Err((format!("a connection of another user that sends {} is closed", kind), format!("it stays open; {} bytes came", said.len()))); }
                let told = ["attach", "create"].contains(&kind);
                let reply: Option<AttachReplyHeader> = dec(&said[..]);
                match (told, said.is_empty(), reply.map(|r| r.status)) {
                    (true, _, Some(AttachStatus::Forbidden(_))) | (false, true, _) => {}
                    (_, _, r) => return Err((format!("another user's {} is {}", kind, if told { "answered with Forbidden" } else { "not answered" }), format!("it is answered with {:?} ({} bytes)", r, said.len()))),
                }
            } else {
                match kind {
                    "create" => {
                        let r: Option<AttachReplyHeader> = dec(&c);
                        if !matches!(r.as_ref().map(|r| &r.status), Some(AttachStatus::Created { .. })) { return Err(("a session is created".into(), format!("{:?}", r.map(|r| r.status)))); }
                        now.names.push(format!("{}n{}", pre, serial));
                    }
                    "attach" => {
                        let r: Option<AttachReplyHeader> = dec(&c);
                        if !matches!(r.as_ref().map(|r| &r.status), Some(AttachStatus::Busy)) { return Err(("the session is busy".into(), format!("{:?}", r.map(|r| r.status)))); }
                    }
                    "set" => {
                        if dec::<ModifyVarReply, _>(&c).is_none() { return Err(("the change is acknowledged".into(), "it is not".into())); }
                        now.var = format!("x{}", serial);
                    }
                    "list" => if dec::<ListReply, _>(&c).is_none() { return Err(("a list".into(), "none".into())); },
                    "vars" => if dec::<MaybeSwitch, _>(&c).is_none() { return Err(("the variables".into(), "none".into())); },
                    // not requests: the connection ends
                    _ => {
                        let (said, closed) = rest(&c, Duration::from_secs(6));
                        if !closed || !said.is_empty() { return Err((format!("a connection that sends {} is closed", kind), format!("closed: {}; {} bytes came", closed, said.len()))); }
                    }
                }
            }
        }
        // nobody else notices
        let t = std::time::Instant::now();
        let mut names: Vec<String> = d.names().into_iter().filter(|x| x.starts_with(&pre)).collect();
        names.sort();
        now.names.sort();
        if names != now.names { return Err((format!("the sessions are {:?} after {}", now.names, o), format!("{:?}", names))); }
        let w = vars(d);
        if w.as_ref() != Some(&now.var) { return Err((format!("the variable is {:?} after {}", now.var, o), format!("{:?}", w))); }
        if t.elapsed() > Duration::from_secs(4) { return Err(("others are served at once".into(), format!("it took {:?} after {}", t.elapsed(), o))); }
        serial += 1;
        if !victim.send(format!("p{}\n", serial).as_bytes()) || !victim.wait_data(format!("<p{}>", serial).as_bytes()) {
            return Err((format!("the attached client is still served after {}", o), format!("it sees {:?}", String::from_utf8_lossy(&victim.seen().data))));
        }
    }
    Ok(())
}
/// a client that is another program
fn other_program(d: &Daemon) -> CaseResult {
    let me = std::env::current_exe().unwrap();
    let copy = d.dir.join("other-shpool");
    if !copy.exists() && std::fs::hard_link(&me, &copy).is_err() { std::fs::copy(&me, &copy).unwrap(); }
    let mut c = d.cli(&["list", "--json"]);
    let args: Vec<_> = c.get_args().map(|a| a.to_owned()).collect();
    let envs: Vec<_> = c.get_envs().map(|(k, v)| (k.to_owned(), v.map(|v| v.to_owned()))).collect();
    c = std::process::Command::new(&copy);
    c.env_clear().args(args).current_dir(&d.dir).stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
    for (k, v) in envs { if let Some(v) = v { c.env(k, v); } }
    match finish(c.spawn().unwrap(), Duration::from_secs(20)) {
        Some((0, o, _)) if o.contains("sessions") => Ok(()),
        r => Err(("another program of this user is served".into(), format!("{:?}", r))),
    }
}
fn go(d: &Daemon, n: usize, v: &Value, greet: &str) -> CaseResult {
    use std::os::unix::fs::PermissionsExt;
    // the file system does not stand in for the check
    std::fs::set_permissions(&d.sock, std::fs::Permissions::from_mode(0o777)).unwrap();
    if v["kind"] == "other-program" { return other_program(d); }
    history(d, n, v, greet)
}
pub fn case(v: &Value) -> CaseResult {
    if !can_pose() && v["ops"].as_array().map(|l| l.iter().any(|o| o["who"] == "stranger")).unwrap_or(false) { return Ok(()); }
    if let Some(g) = v["version"].as_str() {
        let d = Daemon::start("norc = true\nsession_restore_mode = \"simple\"\n", &[("SHPOOL_TEST__OVERRIDE_VERSION", g)]);
        return go(&d, 0, v, g);
    }
    let mut g = LIVE.lock().unwrap_or_else(|e| e.into_inner());
    if g.as_ref().map(|l| l.1 > 40).unwrap_or(true) { *g = None; *g = Some((Daemon::start("norc = true\nsession_restore_mode = \"simple\"\n", &[]), 0)); }
    let l = g.as_mut().unwrap();
    l.1 += 1;
    let r = go(&l.0, l.1, v, VERSION);
    let names = l.0.names();
    l.0.kill(&names.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    if r.is_err() { *g = None; }
    r
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    if let Some(l) = v["ops"].as_array() { for t in shrink_list(l) { let mut w = v.clone(); w["ops"] = json!(t); out.push(w); } }
    out
}
const REQS: &[&str] = &["attach", "create", "list", "vars", "kill", "detach", "set", "message", "garbage", "number", "cut", "silent", "hangup"];
pub fn search(cx: &mut Ctx) {
    cx.case(json!({"kind": "other-program"}));
    cx.case(json!({"kind": "history", "ops": REQS.iter().map(|r| json!({"who": "stranger", "req": r})).collect::<Vec<_>>()}));
    let own = ["garbage", "create", "silent", "attach", "cut", "set", "hangup", "list", "number", "vars"];
    cx.case(json!({"kind": "history", "ops": own.iter().map(|r| json!({"who": "own", "req": r})).collect::<Vec<_>>()}));
    cx.case(json!({"kind": "history", "ops": [{"who": "own", "req": "silent", "keep": true, "times": 20}, {"who": "stranger", "req": "cut", "keep": true, "times": 20}, {"who": "own", "req": "create"}]}));
    cx.case(json!({"kind": "history", "version": "0.0.1", "ops": [{"who": "own", "req": "list"}, {"who": "stranger", "req": "attach"}]}));
    while !cx.expired() {
        let r = &mut cx.rng;
        let n = r.range(1, 10);
        let ops: Vec<Value> = (0..n).map(|_| {
            let stranger = r.chance(1, 2);
            let req = if stranger { *r.pick(REQS) } else { *r.pick(&["attach", "create", "list", "vars", "set", "garbage", "number", "cut", "silent", "hangup"]) };
            let keep = ["silent", "cut"].contains(&req) && r.chance(1, 3);
            let times = if keep || r.chance(1, 6) { r.range(1, 5) } else { 1 };
            json!({"who": if stranger { "stranger" } else { "own" }, "req": req, "keep": keep, "times": times})
        }).collect();
        cx.case(json!({"kind": "history", "ops": ops}));
    }
}
