use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};
use crate::e2e::*;
use crate::sessions::gone;
pub const RULE: &str = "messages dumped on the terminal of a real daemon's sessions, and pagers (a scripted program) shown to clients that attach to new and old sessions: what is in the file and on the terminal, what the pager is given as input, size and environment, the sizes told meanwhile, how it ends (by itself, killed, by a hang-up, never starting), when it is due again, and that the session goes on afterwards; distinct = distinct input";
pub const BOUND: &str = "messages up to 120 KiB, pagers that write up to 400 KiB, up to 5 attaches per history over 2 sessions";

fn s(v: &Value) -> &str { v.as_str().unwrap_or("") }
fn err<T>(e: impl Into<String>, a: impl Into<String>) -> Result<T, (String, String)> { Err((e.into(), a.into())) }
fn clip(b: &[u8]) -> String { let t = String::from_utf8_lossy(b).into_owned(); if t.chars().count() > 160 { format!("{:?}... ({} bytes)", t.chars().take(160).collect::<String>(), b.len()) } else { format!("{:?}", t) } }
/// "@n" stands for a message of n lines
fn message(v: &Value) -> String {
    let t = s(v);
    match t.strip_prefix('@').and_then(|n| n.parse::<usize>().ok()) { Some(n) => (0..n).map(|i| format!("line {} of a long message \u{e9}\u{4e2d}\n", i)).collect(), None => t.to_string() }
}
/// the text alone, without what makes it colourful
fn plain(m: &str) -> String {
    let mut o = String::new();
    let mut it = m.chars();
    while let Some(c) = it.next() { if c == '\u{1b}' { for d in it.by_ref() { if d.is_ascii_alphabetic() { break; } } } else { o.push(c); } }
    o
}
const SHELL: &str = "/bin/sh -c 'stty -echo; while read l; do case $l in size) echo \"[$(stty size)]\";; *) echo \"[$l]\";; esac; done'";
struct World { dir: PathBuf, tmp: PathBuf, d: Daemon }
impl Drop for World { fn drop(&mut self) {
    for p in self.starts() { if self.is_pager(p) { unsafe { libc::kill(p, libc::SIGKILL); } } }
    let _ = std::fs::remove_dir_all(&self.dir); } }
impl World {
    fn is_pager(&self, p: i32) -> bool { std::fs::read(format!("/proc/{}/cmdline", p)).map(|c| contains(&c, self.dir.join("pg").as_os_str().as_encoded_bytes())).unwrap_or(false) }
    fn new(v: &Value) -> World {
        let dir = scratch();
        let tmp = dir.join("tmp");
        std::fs::create_dir_all(&tmp).unwrap();
        let ds = dir.display().to_string();
        let pg = dir.join("pg");
        std::fs::write(&pg, format!("#!/bin/sh\nPATH=/usr/bin:/bin\ntrap '' TERM HUP\n[ -e {0}/stubborn ] || trap - TERM HUP\nstty -echo\ncp \"$1\" {0}/got\necho \"$1\" > {0}/path\nenv > {0}/env\nls -l /proc/$$/fd > {0}/fds\necho $$ >> {0}/starts\necho \"<up $(stty size)>\"\n\
            while read -r l; do case \"$l\" in\n size) echo \"<size $(stty size)>\";;\n say*) echo \"<${{l#say }}>\";;\n seq*) seq ${{l#seq }};;\n last*) seq ${{l#last }}; exit 0;;\n raw*) stty raw; echo '<raw>'; x=$(head -c ${{l#raw }} | od -An -v -tx1 | tr -d ' \\n'); stty -raw -echo; echo \"<$x>\";;\n flow*) i=0; while [ ! -e {0}/go ]; do i=$((i+1)); echo $i {1}; sleep 0.01; done; echo $i > {0}/lines; exit 0;;\n exit*) exit ${{l#exit }};;\n crash) kill -9 $$;;\n esac; done\n", ds, pad())).unwrap();
        std::fs::set_permissions(&pg, std::os::unix::fs::PermissionsExt::from_mode(0o755)).unwrap();
        let w_msg = dir.join("motd");
        let mode = match s(&v["kind"]) {
            "dump" => "motd = \"dump\"\n".to_string(),
            "never" => if v["default"].as_bool().unwrap_or(false) { String::new() } else { "motd = \"never\"\n".to_string() },
            _ => format!("[motd.pager]\nbin = \"{}\"\n{}", if v["nobin"].as_bool().unwrap_or(false) { format!("{}/none", ds) } else { format!("{}/pg", ds) }, v["every"].as_str().map(|e| format!("show_every = \"{}\"\n", e)).unwrap_or_default()),
        };
        let cfg = format!("norc = true\nsession_restore_mode = \"simple\"\nmotd_args = [\"motd={0}/motd\", \"motd_dir={0}/none\"]\n{1}", ds, mode);
        std::fs::write(&w_msg, message(&v["msg"])).unwrap();
        if v["bad"].as_bool().unwrap_or(false) { std::fs::write(&w_msg, b"abc \xff\xfe def").unwrap(); }
        let d = Daemon::start(&cfg, &[("TMPDIR", &tmp.display().to_string())]);
        World { dir, tmp, d }
    }
    fn starts(&self) -> Vec<i32> { std::fs::read_to_string(self.dir.join("starts")).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect() }
    fn attach(&self, name: &str, rows: u16, cols: u16, cmd: Option<&str>) -> Result<Att, (String, String)> {
        let end = Instant::now() + LONG;
        loop {
            let a = self.d.attach_with(AttachHeader { name: name.into(), name_template: name.into(), cmd: cmd.map(|c| c.into()), local_tty_size: TtySize { rows, cols, xpixel: 0, ypixel: 0 },
                local_env: vec![("TERM".into(), "xterm-256color".into())], ..Default::default() });
            if a.created() || a.reattached() { return Ok(a); }
            if !a.busy() || Instant::now() > end { return err(format!("session '{}' can be attached to", name), format!("{:?}", a.status.as_ref().map(|x| format!("{:?}", x)))); }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    fn free(&self, name: &str) -> CaseResult {
        let st = || self.d.list().into_iter().find(|x| x.name == name).map(|x| matches!(x.status, SessionStatus::Attached));
        if !wait_for(LONG, || st() == Some(false)) { return err(format!("session '{}' is free again once its client has gone", name), format!("attached: {:?}", st())); }
        Ok(())
    }
    /// the session's shell answers (what is typed while a pager is on its way out may still go to it)
    fn answers(&self, a: &Att) -> CaseResult {
        let end = Instant::now() + LONG;
        let mut k = 0;
        while Instant::now() < end {
            k += 1;
            a.send(format!("hi{}\n", k).as_bytes());
            if a.wait(Duration::from_millis(200), |x| contains(&x.data, b"[hi")) { return Ok(()); }
            if a.seen().eof { break; }
        }
        err("the session's shell answers", format!("the client got {}", clip(&a.seen().data)))
    }
    fn sized(&self, a: &Att, rows: u16, cols: u16) -> CaseResult {
        let end = Instant::now() + LONG;
        let want = format!("[{} {}]", rows, cols);
        while Instant::now() < end {
            a.send(b"size\n");
            if a.wait(Duration::from_millis(150), |x| contains(&x.data, want.as_bytes())) { return Ok(()); }
        }
        err(format!("the session's terminal has the size the client had last, {} {}", rows, cols), format!("the client got {}", clip(&a.seen().data)))
    }
    fn resize(&self, name: &str, rows: u16, cols: u16) -> CaseResult {
        let r: Option<SessionMessageReply> = self.d.rpc(ConnectHeader::SessionMessage(SessionMessageRequest { session_name: name.into(),
            payload: SessionMessageRequestPayload::Resize(ResizeRequest { tty_size: TtySize { rows, cols, xpixel: 0, ypixel: 0 } }) }));
        if !matches!(r, Some(SessionMessageReply::Resize(ResizeReply::Ok))) { return err("a change of size is taken note of while the pager shows the message", format!("{:?}", r)); }
        Ok(())
    }
}
fn pad() -> String { "x".repeat(500) }
/// a client that doesn't read while its pager writes, exits, and is noticed to have exited
fn unread(w: &World, name: &str, n: usize) -> CaseResult {
    use std::io::Write;
    use std::os::fd::AsRawFd;
    let (sock, st) = w.d.attach_unread(AttachHeader { name: name.into(), name_template: name.into(), cmd: Some(SHELL.into()), local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 },
        local_env: vec![("TERM".into(), "xterm-256color".into())], ..Default::default() });
    if !matches!(st, Some(AttachStatus::Created { .. } | AttachStatus::Attached { .. })) { return err(format!("session '{}' can be attached to", name), format!("{:?}", st)); }
    if !wait_for(LONG, || w.starts().len() > n) { return err("the pager is shown", "it is not started"); }
    let pid = *w.starts().last().unwrap();
    let _ = (&sock).write_all(b"flow\n");
    let unread = || { let mut k = 0i32; unsafe { libc::ioctl(sock.as_raw_fd(), libc::FIONREAD, &mut k); } k };
    let (mut had, mut since, t0) = (unread(), Instant::now(), Instant::now());
    while t0.elapsed() < LONG && (had < 20000 || since.elapsed() < Duration::from_millis(70)) { std::thread::sleep(Duration::from_millis(5)); let h = unread(); if h != had { had = h; since = Instant::now(); } }
    std::fs::write(w.dir.join("go"), b"").unwrap();
    let _ = wait_for(Duration::from_secs(2), || gone(pid));
    std::thread::sleep(Duration::from_millis(150));
    let a = Att::new(sock, st);
    let ended = wait_for(LONG, || gone(pid));
    let lines: u64 = std::fs::read_to_string(w.dir.join("lines")).ok().and_then(|t| t.trim().parse().ok()).unwrap_or(0);
    let _ = std::fs::remove_file(w.dir.join("go"));
    if !ended { return err("the pager ends", "it still runs"); }
    let want: Vec<u8> = (1..=lines).flat_map(|i| format!("{} {}\r\n", i, pad()).into_bytes()).collect();
    expect(&a, &want, "everything the pager writes before it exits is shown")?;
    w.answers(&a)?;
    a.hang_up();
    w.free(name)
}
fn raw(m: &str) -> Vec<u8> { m.split('\n').flat_map(|l| [l.as_bytes(), b"\n\r"].concat()).collect() }
fn seq(n: u64) -> Vec<u8> { (1..=n).flat_map(|i| format!("{}\r\n", i).into_bytes()).collect() }
fn expect(a: &Att, needle: &[u8], what: &str) -> CaseResult {
    if a.wait_data(needle) { return Ok(()); }
    let d = a.seen().data;
    let (mut at, n) = (0, needle.len());
    for i in (0..=n).rev().step_by((n / 64).max(1)) { if contains(&d, &needle[..i]) { at = i; break; } }
    err(format!("{}: {}", what, clip(needle)), format!("only about the first {} of {} bytes of it are among the {} the client got: ... {}", at, n, d.len(), clip(&d[d.len().saturating_sub(80)..])))
}
fn dump(v: &Value) -> CaseResult {
    let w = World::new(v);
    let bad = v["bad"].as_bool().unwrap_or(false);
    let never = s(&v["kind"]) == "never";
    let shell = v["shell"].as_bool().unwrap_or(false);
    let m = message(&v["msg"]);
    // a session with a shell, or one that runs a command that says something at once
    let cmd = "/bin/sh -c 'echo begin; stty -echo; while read l; do echo \"[$l]\"; done'";
    let a = w.attach("s", 24, 80, if shell { None } else { Some(cmd) })?;
    if shell { a.send(b"echo be\"\"gin\n"); }
    expect(&a, b"begin\r\n", "what the session's program writes is shown")?;
    let d = a.seen().data;
    let at = d.windows(7).position(|x| x == b"begin\r\n").unwrap();
    let want = if bad || never { vec![] } else { raw(&m) };
    if never { if !m.trim().is_empty() && contains(&d, m.lines().find(|l| !l.is_empty()).unwrap_or("").as_bytes()) { return err("the message of the day is never shown", format!("the client got {}", clip(&d))); } }
    else if shell { if !d.starts_with(&want) { let k = d.iter().zip(&want).take_while(|(a, b)| a == b).count(); return err(format!("a new session's terminal starts with {}", clip(&want)), format!("from byte {} on it has {}", k, clip(&d[k..]))); } }
    else if d[..at] != want[..] { let k = d.iter().zip(&want).take_while(|(a, b)| a == b).count(); return err(format!("before anything its program writes, a new session's terminal shows exactly {}", clip(&want)), format!("from byte {} on it has {}", k, clip(&d[k..]))); }
    // once
    if shell { a.send(b"stty -echo; while read l; do echo \"[$l]\"; done\n"); }
    w.answers(&a)?;
    let d = a.seen().data;
    let marks = |d: &[u8]| if want.len() < 8 { 0 } else { d.windows(want.len()).filter(|x| **x == want[..]).count() };
    if marks(&d) > 1 { return err("the message is shown once", format!("{} times", marks(&d))); }
    a.hang_up();
    w.free("s")?;
    let a = w.attach("s", 24, 80, None)?;
    if !a.reattached() { return err("the session is still there", "it is not"); }
    w.answers(&a)?;
    if marks(&a.seen().data) > 0 { return err("the message is shown when a session is made, not when it is attached to again", format!("the client got {}", clip(&a.seen().data))); }
    Ok(())
}
fn pager(v: &Value) -> CaseResult {
    let w = World::new(v);
    let mut m = message(&v["msg"]);
    let bad = v["bad"].as_bool().unwrap_or(false) || v["nobin"].as_bool().unwrap_or(false);
    let every = v["secs"].as_u64();
    // when it was last shown: no earlier and no later than this
    let mut last: Option<(Instant, Instant)> = None;
    for x in v["visits"].as_array().into_iter().flatten() {
        let name = format!("s{}", x["i"].as_u64().unwrap_or(0) % 2);
        if x["msg"].is_string() { m = message(&x["msg"]); std::fs::write(w.dir.join("motd"), &m).unwrap(); }
        let stubborn = x["stubborn"].as_bool().unwrap_or(false);
        if stubborn { std::fs::write(w.dir.join("stubborn"), b"").unwrap(); } else { let _ = std::fs::remove_file(w.dir.join("stubborn")); }
        std::thread::sleep(Duration::from_millis(x["wait"].as_u64().unwrap_or(0)));
        let n = w.starts().len();
        let (mut rows, mut cols) = (x["rows"].as_u64().unwrap_or(24) as u16, x["cols"].as_u64().unwrap_or(80) as u16);
        let t0 = Instant::now();
        if s(&x["end"]) == "unread" && !bad && every.is_none() { unread(&w, &name, n)?; continue; }
        let a = w.attach(&name, rows, cols, Some(SHELL))?;
        // due unless it was shown less than so long ago
        let (must, may) = match (every, last) {
            (Some(e), Some((lo, hi))) => { let e = Duration::from_secs(e); (t0.duration_since(hi) >= e + Duration::from_millis(300), Instant::now().duration_since(lo) + Duration::from_millis(300) >= e) }
            _ => (true, true),
        };
        let up = format!("<up {} {}>\r\n", rows, cols);
        let shown = if bad { false } else if must { true } else if !may { false } else { a.wait(Duration::from_millis(1000), |s| contains(&s.data, up.as_bytes())) };
        if !shown {
            w.answers(&a)?;
            if w.starts().len() > n { return err(format!("the pager is not due again so soon ({:?})", last.map(|l| l.1.elapsed())), "it was shown"); }
            w.sized(&a, rows, cols)?;
            a.hang_up();
            w.free(&name)?;
            continue;
        }
        expect(&a, up.as_bytes(), "the pager is shown, on a terminal of the client's size")?;
        last = Some((t0, Instant::now()));
        let st = w.starts();
        if st.len() != n + 1 { return err("the pager is started once", format!("{} times", st.len() - n)); }
        let pid = *st.last().unwrap();
        let got = std::fs::read(w.dir.join("got")).unwrap_or_default();
        if got != plain(&m).into_bytes() { let k = got.iter().zip(plain(&m).as_bytes()).take_while(|(a, b)| a == b).count(); return err(format!("the pager is given the message, {}", clip(plain(&m).as_bytes())), format!("from byte {} on its file has {}", k, clip(&got[k..]))); }
        let env = std::fs::read_to_string(w.dir.join("env")).unwrap_or_default();
        for want in ["TERM=xterm-256color".to_string(), format!("SHPOOL_SESSION_NAME={}", name)] { if !env.lines().any(|l| l == want) { return err(format!("the pager has the environment of the session's shell: {}", want), format!("{:?}", env)); } }
        for no in ["TMPDIR=", "ORACLE_AS_SHPOOL="] { if env.lines().any(|l| l.starts_with(no)) { return err(format!("the pager has the environment of the session's shell and nothing else, no {}", no), format!("{:?}", env)); } }
        let fds = std::fs::read_to_string(w.dir.join("fds")).unwrap_or_default();
        if fds.contains("socket:") || fds.contains(" 77 ->") || fds.contains("/ptmx") { return err("the pager gets hold of nothing of the daemon's", fds); }
        for (k, o) in x["ops"].as_array().into_iter().flatten().enumerate() {
            match s(&o["op"]) {
                "say" => { a.send(format!("say {} {}\n", k, s(&o["t"])).as_bytes()); expect(&a, format!("<{} {}>\r\n", k, s(&o["t"])).as_bytes(), "the pager gets what is typed, and what it writes is shown")?; }
                "raw" => { let b = crate::jhex(&o["b"]); a.clear(); a.send(format!("raw {}\n", b.len()).as_bytes()); expect(&a, b"<raw>", "the pager gets what is typed")?; a.send(&b); expect(&a, format!("<{}>", crate::hex(&b)).as_bytes(), "the pager gets every byte that is typed")?; }
                "seq" => { a.clear(); let n = o["n"].as_u64().unwrap_or(10); a.send(format!("seq {}\nsay done{}\n", n, k).as_bytes()); let mut e = seq(n); e.extend(format!("<done{}>\r\n", k).bytes()); expect(&a, &e, "everything the pager writes is shown")?; }
                "resize" => {
                    rows = o["rows"].as_u64().unwrap_or(30) as u16; cols = o["cols"].as_u64().unwrap_or(90) as u16;
                    w.resize(&name, rows, cols)?;
                    a.send(b"size\n");
                    expect(&a, format!("<size {} {}>\r\n", rows, cols).as_bytes(), "the pager's terminal has the size the client told")?;
                }
                "idle" => { std::thread::sleep(Duration::from_millis(700)); if a.seen().eof { return err("the pager stays", "the client is hung up on"); } }
                _ => {}
            }
            if gone(pid) { return err("the pager runs until it is done or its user leaves", "it is gone"); }
        }
        a.clear();
        let end = s(&x["end"]);
        if end == "hup" {
            a.hang_up();
            if !wait_for(LONG, || gone(pid)) { return err("the pager of a client that has gone ends", "it still runs"); }
            w.free(&name)?;
        } else {
            a.send(format!("{}\n", end).as_bytes());
            if !wait_for(LONG, || gone(pid)) { return err("the pager ends", "it still runs"); }
            if let Some(n) = end.strip_prefix("last ").and_then(|n| n.parse().ok()) { expect(&a, &seq(n), "everything the pager writes before it exits is shown")?; }
            w.answers(&a)?;
            w.sized(&a, rows, cols)?;
            if w.starts().len() != n + 1 { return err("the pager is shown once", "it is started again"); }
            a.hang_up();
            w.free(&name)?;
        }
        if !wait_for(LONG, || std::fs::read_dir(&w.tmp).map(|d| d.count()).unwrap_or(0) == 0) { return err("nothing of the pager's is left", format!("{:?}", std::fs::read_dir(&w.tmp).unwrap().flatten().map(|e| e.path()).collect::<Vec<_>>())); }
    }
    Ok(())
}
pub fn case(v: &Value) -> CaseResult { if s(&v["kind"]) == "pager" { pager(v) } else { dump(v) } }
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    if let Some(a) = v["visits"].as_array() {
        for i in (0..a.len()).rev() { if a.len() > 1 { let mut w = v.clone(); w["visits"].as_array_mut().unwrap().remove(i); out.push(w); } }
        for i in 0..a.len() { for j in 0..a[i]["ops"].as_array().map(|o| o.len()).unwrap_or(0) { let mut w = v.clone(); w["visits"][i]["ops"].as_array_mut().unwrap().remove(j); out.push(w); } }
    }
    if s(&v["msg"]) != "m\n" { let mut w = v.clone(); w["msg"] = json!("m\n"); out.push(w); }
    out
}
fn msg(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => json!(format!("@{}", r.range(50, 3000))),
        1 => json!(*r.pick(&["", "\n", "x", "no newline at the end", "\n\nblank lines\n\n\n", "crlf\r\nlines\r\n"])),
        _ => { let n = r.range(1, 12); json!((0..n).map(|_| format!("{} {}\n", r.pick(&["Welcome", "\u{1b}[1;31mred\u{1b}[0m", "\u{4e2d}\u{6587}", "", "-----", "a  b"]), r.below(1000))).collect::<String>()) }
    }
}
fn pmsg(r: &mut Rng) -> Value { loop { let m = msg(r); if !s(&m).contains('\r') { return m; } } }
fn visit(r: &mut Rng) -> Value {
    let ops: Vec<Value> = (0..r.below(5)).map(|_| match r.below(9) {
        0..=2 => json!({"op": "say", "t": *r.pick(&["a", "hello there", "\u{e9}\u{4e2d}", "q", "x*y"])}),
        3 => { let n = *r.pick(&[1, 3, 64, 700]); json!({"op": "raw", "b": crate::hex(&r.bytes(n))}) }
        4 | 5 => json!({"op": "seq", "n": *r.pick(&[1, 20, 3000, 20000, 60000])}),
        6 | 7 => json!({"op": "resize", "rows": r.range(1, 300), "cols": r.range(1, 400)}),
        _ => json!({"op": "idle"}),
    }).collect();
    let end = match r.below(8) { 0 | 1 => "hup".to_string(), 2 => "crash".to_string(), 3 => format!("last {}", r.pick(&[1, 100, 5000, 30000])), 4 => "unread".to_string(), _ => format!("exit {}", r.pick(&[0, 1, 130])) };
    let mut v = json!({"i": r.below(2), "rows": r.range(2, 200), "cols": r.range(2, 300), "ops": ops, "end": end, "stubborn": end == "hup" && r.chance(1, 2)});
    if r.chance(1, 4) { v["msg"] = pmsg(r); }
    v
}
pub fn search(cx: &mut Ctx) {
    cx.case(json!({"kind": "dump", "msg": "@3000", "shell": false}));
    cx.case(json!({"kind": "dump", "msg": "one\ntwo\n", "shell": true}));
    cx.case(json!({"kind": "dump", "msg": "", "bad": true}));
    cx.case(json!({"kind": "never", "msg": "not shown\n"}));
    cx.case(json!({"kind": "pager", "msg": "hello\nworld\n", "visits": [{"i": 0, "ops": [{"op": "say", "t": "x"}, {"op": "resize", "rows": 40, "cols": 101}, {"op": "seq", "n": 60000}, {"op": "raw", "b": "00017f80ff0a0d0311"}], "end": "last 5000"},
        {"i": 0, "msg": "@2000", "rows": 10, "cols": 33, "ops": [{"op": "resize", "rows": 41, "cols": 102}], "end": "hup", "stubborn": true}, {"i": 0, "ops": [], "end": "crash"}, {"i": 0, "end": "unread"}]}));
    cx.case(json!({"kind": "pager", "msg": "m\n", "every": "2s", "secs": 2, "visits": [{"i": 0, "end": "exit 0"}, {"i": 1, "end": "exit 0"}, {"i": 0, "wait": 2500, "end": "hup"}, {"i": 1, "end": "exit 1"}]}));
    cx.case(json!({"kind": "pager", "msg": "m\n", "every": "2s", "secs": 2, "visits": [{"i": 0, "end": "exit 0"}, {"i": 0, "wait": 1200}, {"i": 0, "wait": 1200, "end": "exit 0"}]}));
    cx.case(json!({"kind": "pager", "msg": "m\n", "every": "400000d", "secs": 34560000000u64, "visits": [{"i": 0, "end": "exit 0"}, {"i": 0, "end": "exit 0"}]}));
    cx.case(json!({"kind": "pager", "msg": "m\n", "nobin": true, "visits": [{"i": 0}, {"i": 0}]}));
    cx.case(json!({"kind": "pager", "msg": "m\n", "bad": true, "visits": [{"i": 0}]}));
    while !cx.expired() {
        let r = &mut cx.rng;
        let v = match r.below(10) {
            0..=2 => json!({"kind": "dump", "msg": msg(r), "shell": r.chance(1, 2)}),
            3 if r.chance(1, 3) => json!({"kind": "never", "msg": "@20", "shell": r.chance(1, 2), "default": r.chance(1, 2)}),
            4 => { let secs = r.range(1, 3); let n = r.range(2, 4); let visits: Vec<Value> = (0..n).map(|_| { let mut x = visit(r); x["ops"] = json!([]); if s(&x["end"]) == "unread" { x["end"] = json!("exit 0"); } x["wait"] = json!(*r.pick(&[0, 0, 500, 1500, 3500])); x }).collect();
                json!({"kind": "pager", "msg": pmsg(r), "every": format!("{}s", secs), "secs": secs, "visits": visits}) }
            _ => { let n = r.range(1, 3); json!({"kind": "pager", "msg": pmsg(r), "visits": (0..n).map(|_| visit(r)).collect::<Vec<_>>()}) }
        };
        cx.case(v);
    }
}
