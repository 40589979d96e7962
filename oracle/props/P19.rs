use std::sync::Mutex;
use crate::e2e::*;
pub const RULE: &str = "a session whose program reports its terminal size and window-change signals, on a real daemon, through sequences of resize messages, hang-ups, detaches and attaches with generated sizes; distinct = distinct input";
pub const BOUND: &str = "up to 8 steps, sizes over the whole 16-bit range";

static LIVE: Mutex<Option<(Daemon, usize)>> = Mutex::new(None);
type Size = (u16, u16, u16, u16);
fn size(v: &Value) -> Size { let g = |i: usize| v[i].as_u64().unwrap() as u16; (g(1), g(2), g(3), g(4)) }
fn tty(s: Size) -> TtySize { TtySize { rows: s.0, cols: s.1, xpixel: s.2, ypixel: s.3 } }
fn hdr(name: &str, s: Size) -> AttachHeader {
    AttachHeader { name: name.into(), name_template: name.into(), local_tty_size: tty(s), local_env: vec![("TERM".into(), "xterm".into())],
        cmd: Some(format!("{} probe-winsize", std::env::current_exe().unwrap().display())), ..Default::default() }
}
/// ask until the answer satisfies f, or for 6 s
fn ask(a: &Att, f: impl Fn(Size, u64) -> bool) -> Result<(Size, u64), String> {
    let t = std::time::Instant::now();
    let mut last = String::from("nothing");
    while t.elapsed() < Duration::from_secs(6) {
        let n = a.seen().data.len();
        a.send(b"q\n");
        a.wait(Duration::from_secs(2), |s| s.eof || s.data[n..].contains(&b'>'));
        let d = a.seen().data;
        let txt = String::from_utf8_lossy(&d[n..]).into_owned();
        if let (Some(i), Some(j)) = (txt.rfind('<'), txt.rfind('>')) {
            if i < j {
                let w: Vec<u64> = txt[i + 1..j].split(' ').filter_map(|x| x.parse().ok()).collect();
                if w.len() == 5 {
                    let s = (w[0] as u16, w[1] as u16, w[2] as u16, w[3] as u16);
                    if f(s, w[4]) { return Ok((s, w[4])); }
                    last = format!("{:?} after {} window-change signals", s, w[4]);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(15));
    }
    Err(last)
}
/// the real client on a terminal of its own that changes size
fn cli(v: &Value) -> CaseResult {
    let mut g = LIVE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() { *g = Some((Daemon::start("norc = true\nsession_restore_mode = \"simple\"\n", &[]), 0)); }
    let l = g.as_mut().unwrap();
    l.1 += 1;
    let name = format!("y{}", l.1);
    let cmd = format!("{} probe-winsize", std::env::current_exe().unwrap().display());
    let ops = v["ops"].as_array().unwrap();
    let s0 = size(&ops[0]);
    // what it is called depends on a variable, so that the client may be made to go on to another session
    let tmpl = format!("{}{{w}}", name);
    l.0.set_var("w", None);
    let mut all = vec![name.clone()];
    let mut p = Pty::spawn(l.0.cli(&["attach", "--cmd", &cmd, &tmpl]), s0.0, s0.1);
    let r = (|| {
        if !p.wait_out(b"probe") { return Err(("the client attaches".into(), String::from_utf8_lossy(&p.out()).into_owned())); }
        for (i, o) in ops.iter().enumerate() {
            let s = size(o);
            if i > 0 && o[0] == "switch" {
                let w = format!("s{}", i);
                l.0.set_var("w", Some(&w));
                let to = format!("{}{}", name, w);
                all.push(to.clone());
                if !wait_for(LONG, || l.0.list().iter().any(|x| x.name == to && matches!(x.status, SessionStatus::Attached))) { return Err(("the client goes on to the session that is meant now".into(), format!("{:?}", l.0.names()))); }
                if o[5] != "quick" { std::thread::sleep(Duration::from_millis(300)); }
            }
            if i > 0 { p.resize(s.0, s.1); }
            let want = format!("<{} {} ", s.0, s.1);
            let n = p.out().len();
            if !wait_for(Duration::from_secs(8), || { p.send(b"q\n"); std::thread::sleep(Duration::from_millis(60)); contains(&p.out()[n..], want.as_bytes()) }) {
                let o = p.out();
                return Err((format!("the session's terminal gets the size {}x{} of the client's", s.0, s.1), String::from_utf8_lossy(&o[o.len().saturating_sub(60)..]).into_owned()));
            }
        }
        Ok(())
    })();
    if r.is_ok() { l.0.kill(&all.iter().map(|s| s.as_str()).collect::<Vec<_>>()); } else { *g = None; }
    r
}
pub fn case(v: &Value) -> CaseResult {
    if v["kind"] == "cli" { return cli(v); }
    let mut g = LIVE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() { *g = Some((Daemon::start("norc = true\nsession_restore_mode = \"simple\"\n", &[]), 0)); }
    let l = g.as_mut().unwrap();
    l.1 += 1;
    let name = format!("z{}", l.1);
    let r = steps(&l.0, &name, v);
    if r.is_ok() { l.0.kill(&[&name]); } else { *g = None; }
    r
}
fn steps(d: &Daemon, name: &str, v: &Value) -> CaseResult {
    let ops = v["ops"].as_array().unwrap();
    let mut want = size(&ops[0]);
    let mut at = Some(d.attach_with(hdr(name, want)));
    if !at.as_ref().unwrap().created() { return Err(("the session is created".into(), format!("{:?}", at.unwrap().status))); }
    let (_, mut sig) = ask(at.as_ref().unwrap(), |s, _| s == want).map_err(|got| (format!("the terminal has the client's size {:?}", want), got))?;
    for o in &ops[1..] {
        let mut back = false;
        match o[0].as_str().unwrap() {
            "resize" => {
                let s = size(o);
                if at.is_none() { continue; }
                let r: Option<SessionMessageReply> = d.rpc(ConnectHeader::SessionMessage(SessionMessageRequest { session_name: name.into(),
                    payload: SessionMessageRequestPayload::Resize(ResizeRequest { tty_size: tty(s) }) }));
                if !matches!(r, Some(SessionMessageReply::Resize(ResizeReply::Ok))) { return Err(("the resize is acknowledged".into(), format!("{:?}", r))); }
                want = s;
            }
            "hangup" => if let Some(a) = at.take() { a.hang_up(); wait_for(LONG, || d.list().iter().any(|s| s.name == name && matches!(s.status, SessionStatus::Disconnected))); },
            "detach" => if let Some(a) = at.take() { d.detach(&[name]); a.wait_eof(); },
            "attach" => if at.is_none() {
                let s = size(o);
                let mut a = d.attach_with(hdr(name, s));
                wait_for(LONG, || { if a.busy() { std::thread::sleep(Duration::from_millis(30)); a = d.attach_with(hdr(name, s)); } !a.busy() });
                if !a.reattached() { return Err(("the session is attached to again".into(), format!("{:?}", a.status))); }
                back = true;
                want = s;
                at = Some(a);
            },
            _ => {}
        }
        if let Some(a) = &at {
            if o[5] == "quick" { continue; }
            // coming back, the program is made to redraw even if nothing changed (unless there is no bigger size)
            let need = if back && (want.0 < u16::MAX || want.1 < u16::MAX) { sig + 1 } else { 0 };
            let r = ask(a, |s, n| s == want && n >= need).map_err(|got| (format!("the terminal gets the client's size {:?}{}", want, if need > 0 { format!(", and more than {} window-change signals", sig) } else { "".into() }), got))?;
            sig = r.1;
        }
    }
    if let Some(a) = &at { ask(a, |s, _| s == want).map_err(|got| (format!("the terminal ends up with the client's size {:?}", want), got))?; }
    // and keeps it
    if let Some(a) = &at {
        std::thread::sleep(Duration::from_millis(90));
        let r = ask(a, |_, _| true).map_err(|got| ("an answer".into(), got))?;
        if r.0 != want { return Err((format!("the terminal keeps the client's size {:?}", want), format!("{:?}", r.0))); }
    }
    Ok(())
}
pub fn search(cx: &mut Ctx) {
    let z = |k: &str, s: Size| json!([k, s.0, s.1, s.2, s.3]);
    let a = (24, 80, 0, 0);
    for ops in [vec![z("attach", a)], vec![z("attach", (1, 1, 0, 0))], vec![z("attach", (50, 132, 1200, 900)), z("resize", (51, 133, 1201, 901))],
        vec![z("attach", a), json!(["hangup"]), z("attach", a)], vec![z("attach", a), json!(["detach"]), z("attach", (30, 100, 7, 9))],
        vec![z("attach", a), json!(["resize", 30, 90, 1, 2, "quick"]), json!(["resize", 31, 91, 3, 4, "quick"]), json!(["detach"]), json!(["attach", 40, 99, 0, 0, "quick"]), z("resize", (41, 98, 0, 0))],
        vec![z("attach", a), json!(["detach"]), json!(["attach", 25, 81, 0, 0])]] {
        cx.case(json!({"ops": ops}));
    }
    cx.case(json!({"kind": "cli", "ops": [z("size", (24, 80, 0, 0)), z("size", (25, 80, 0, 0)), z("size", (25, 131, 0, 0)), z("size", (10, 20, 0, 0))]}));
    cx.case(json!({"kind": "cli", "ops": [z("size", a), z("switch", (26, 81, 0, 0)), z("size", (27, 82, 0, 0))]}));
    cx.case(json!({"kind": "cli", "ops": [z("size", a), json!(["switch", 24, 80, 0, 0]), z("size", (30, 90, 0, 0)), json!(["switch", 31, 91, 0, 0, "quick"]), z("size", (32, 92, 0, 0))]}));
    let n = if cx.thorough { 20_000 } else { 400 };
    for _ in 0..n {
        if cx.expired() { return; }
        let dim = |r: &mut Rng| -> u16 { match r.below(6) { 0 => *r.pick(&[1u16, 2, 24, 80, 255, 256]), 1 => 1 + r.below(300) as u16, _ => 1 + r.below(120) as u16 } };
        let mut s = |r: &mut Rng| -> Size { (dim(r), dim(r), if r.chance(1, 2) { 0 } else { r.next() as u16 }, if r.chance(1, 2) { 0 } else { r.next() as u16 }) };
        let mut ops = vec![z("attach", s(&mut cx.rng))];
        for _ in 0..1 + cx.rng.below(6) {
            let q = cx.rng.chance(1, 3);
            let mut push = |ops: &mut Vec<Value>, k: &str, t: Size| ops.push(if q { json!([k, t.0, t.1, t.2, t.3, "quick"]) } else { json!([k, t.0, t.1, t.2, t.3]) });
            if cx.rng.chance(1, 2) { let t = s(&mut cx.rng); push(&mut ops, "resize", t); }
            else { ops.push(json!([*cx.rng.pick(&["hangup", "detach"])])); let t = s(&mut cx.rng); push(&mut ops, "attach", t); }
        }
        cx.case(json!({"ops": ops}));
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    if v["kind"] == "cli" { return vec![]; }
    let ops = v["ops"].as_array().unwrap();
    shrink_list(&ops[1..]).into_iter().map(|q| json!({"ops": std::iter::once(ops[0].clone()).chain(q.into_iter()).collect::<Vec<_>>()})).collect()
}
