use std::sync::Mutex;
use crate::e2e::*;
pub const RULE: &str = "programs on a real daemon that write generated bytes in bursts of varied size and spacing to a raw terminal and exit, with a client that stays attached, hangs up and comes back, or is detached between bursts, or is the attach command itself; and shells whose setup marker follows output; distinct = distinct input";
pub const BOUND: &str = "up to 12 steps and 300000 bytes a session";

struct Live { d: Daemon, n: usize }
static LIVE: Mutex<Option<Live>> = Mutex::new(None);
pub fn gen(n: u64, seed: u64) -> Vec<u8> {
    let mut r = Rng(seed);
    match seed % 4 {
        0 => (0..n).map(|i| if i % 61 == 60 { b'\n' } else { b' ' + (r.next() % 95) as u8 }).collect(),
        1 => r.bytes(n as usize),
        2 => (0..n).map(|i| *b"SHPOOL_PROMPT_SETUP_SENTINE\x1b[31m\r\n".get((i % 35) as usize).unwrap_or(&b'.')).collect(),
        _ => (0..n).map(|_| *r.pick(b"\x1b[;0123456789mHJKABCDhlr?\r\n\x07abc\xff\xc3\xa9")).collect(),
    }
}
fn show(b: &[u8]) -> String { if b.len() > 120 { format!("{} bytes {}..{}", b.len(), hex(&b[..50]), hex(&b[b.len() - 60..])) } else { hex(b) } }
fn diff(want: &[u8], got: &[u8]) -> String {
    let i = want.iter().zip(got).take_while(|(a, b)| a == b).count();
    format!("{} bytes, the first {} as printed, then {}", got.len(), i, show(&got[i..]))
}

pub fn case(v: &Value) -> CaseResult {
    if v["kind"] == "marker" { return marker(v); }
    let mut g = LIVE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() { *g = Some(Live { d: Daemon::start("norc = true\nsession_restore_mode = \"simple\"\n", &[]), n: 0 }); }
    let l = g.as_mut().unwrap();
    let r = if v["kind"] == "real" { real(l, v) } else { steps(l, v) };
    if r.is_err() { *g = None; }
    r
}
/// ops: [n, seed] print; "detach"; "hangup"; "attach"; "nap"
fn steps(l: &mut Live, v: &Value) -> CaseResult {
    l.n += 1;
    let (name, dir) = (format!("o{}", l.n), l.d.dir.join(format!("w{}", l.n)));
    std::fs::create_dir_all(&dir).unwrap();
    let ops = v["ops"].as_array().unwrap();
    let mut sh = String::from("stty raw -echo\nn=0\nprintf GO\n");
    let mut last = 0;
    for (i, o) in ops.iter().enumerate() {
        if let Some(o) = o.as_array() {
            std::fs::write(dir.join(format!("s{}", i)), gen(o[0].as_u64().unwrap(), o[1].as_u64().unwrap())).unwrap();
            last = i + 1;
        }
    }
    let mut gated = false;
    for (i, o) in ops.iter().enumerate() {
        if o.is_array() {
            if gated { sh += &format!("while [ ! -e {d}/g{i} ]; do sleep 0.01; done\n", d = dir.display()); gated = false; }
            sh += &format!("cat {}/s{}\n", dir.display(), i);
        } else if o == "nap" { sh += "sleep 0.07\n"; } else {
            if !gated { sh += &format!(": > {}/d{}\n", dir.display(), i); }
            gated = true;
        }
    }
    let _ = last;
    if gated { sh += &format!("while [ ! -e {}/gend ]; do sleep 0.01; done\n", dir.display()); }
    sh += &match v["exit"].as_i64().unwrap() { s if s < 0 => format!("kill -{} $$\nsleep 5\n", -s), s => format!("exit {}\n", s) };
    std::fs::write(dir.join("run"), &sh).unwrap();
    let cmd = format!("/bin/sh {}/run", dir.display());
    let mut at = Some(l.d.attach(&name, Some(&cmd)));
    let fail = |what: String, got: String| Err((what, got));
    if !at.as_ref().unwrap().created() { return fail("the session is created".into(), format!("{:?}", at.unwrap().status)); }
    let (mut want, mut i): (Vec<u8>, usize) = (b"GO".to_vec(), 0);
    let mut ended = false;
    while i <= ops.len() {
        // the shell prints up to the next step that needs it to wait
        let mut away = vec![];
        while i < ops.len() && (ops[i].is_array() || ops[i] == "nap") {
            if let Some(o) = ops[i].as_array() { let b = gen(o[0].as_u64().unwrap(), o[1].as_u64().unwrap()); if at.is_some() { want.extend(b) } else { away.extend(b) } }
            i += 1;
        }
        let finish = i >= ops.len();
        if !finish { wait_for(LONG, || dir.join(format!("d{}", i)).exists()); }
        if let Some(a) = &at {
            if finish { a.wait_eof(); ended = true; } else { a.wait(LONG, |s| s.data.len() >= want.len() || s.eof); }
            let s = a.seen();
            if s.data != want { return fail(format!("the client receives {}", show(&want)), format!("it received {}", diff(&want, &s.data))); }
            if s.broken { return fail("well-formed frames".into(), "a truncated or unknown frame".into()); }
            if finish {
                let code = match v["exit"].as_i64().unwrap() { c if c < 0 => 1, c => c as i32 };
                if s.exit != vec![code] || s.frames.last().map(|f| f.0) != Some(2) { return fail(format!("then exit status {}", code), format!("exit status frames {:?}, eof {}", s.exit, s.eof)); }
            }
        } else if !finish { std::thread::sleep(Duration::from_millis(250)); }
        let _ = away;
        if finish { break; }
        // the client's moves, until the next print
        let mut moved = false;
        while i < ops.len() && !(ops[i].is_array() || ops[i] == "nap") {
            match ops[i].as_str().unwrap() {
                "detach" if at.is_some() => { l.d.detach(&[&name]); at.as_ref().unwrap().wait_eof(); at = None; }
                "hangup" if at.is_some() => { at.as_ref().unwrap().hang_up(); at = None; wait_for(LONG, || l.d.list().iter().any(|s| s.name == name && matches!(s.status, SessionStatus::Disconnected))); }
                "attach" if at.is_none() => {
                    std::thread::sleep(Duration::from_millis(150));
                    let mut a = l.d.attach(&name, Some(&cmd));
                    wait_for(LONG, || { if a.busy() { a = l.d.attach(&name, Some(&cmd)); } !a.busy() });
                    if !a.reattached() { return fail("the session is attached to again".into(), format!("{:?}", a.status)); }
                    at = Some(a);
                    want.clear();
                }
                _ => {}
            }
            moved = true;
            i += 1;
        }
        let gate = (i..ops.len()).find(|j| ops[*j].is_array()).map(|j| format!("g{}", j)).unwrap_or("gend".into());
        let _ = moved;
        if at.is_some() { std::thread::sleep(Duration::from_millis(60)); }
        std::fs::write(dir.join(gate), "").unwrap();
    }
    if !ended { l.d.kill(&[&name]); }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
/// what the attach command prints
fn real(l: &mut Live, v: &Value) -> CaseResult {
    l.n += 1;
    let (name, dir) = (format!("o{}", l.n), l.d.dir.join(format!("w{}", l.n)));
    std::fs::create_dir_all(&dir).unwrap();
    let mut sh = String::from("stty raw -echo\nprintf GO\n");
    let mut want = b"GO".to_vec();
    for (i, o) in v["ops"].as_array().unwrap().iter().enumerate() {
        let Some(o) = o.as_array() else { sh += "sleep 0.03\n"; continue };
        let b = gen(o[0].as_u64().unwrap(), o[1].as_u64().unwrap());
        std::fs::write(dir.join(format!("s{}", i)), &b).unwrap();
        sh += &format!("cat {}/s{}\n", dir.display(), i);
        want.extend(b);
    }
    sh += "exit 0\n";
    std::fs::write(dir.join("run"), &sh).unwrap();
    let mut p = Pty::spawn_with(l.d.cli(&["attach", "--cmd", &format!("/bin/sh {}/run", dir.display()), &name]), 24, 80, true);
    let ended = p.wait_exit(LONG);
    wait_for(Duration::from_secs(2), || p.out().len() >= want.len());
    let got = p.out();
    let _ = std::fs::remove_dir_all(&dir);
    if ended.is_none() { l.d.kill(&[&name]); return Err(("the attach command ends with the shell".into(), "it goes on".into())); }
    // it may say goodbye in a line of its own
    if !got.starts_with(&want) || got[want.len()..].iter().filter(|b| **b == b'\n').count() > 1 { return Err((format!("the attach command prints {}", show(&want)), format!("it printed {}", diff(&want, &got)))); }
    Ok(())
}
/// a shell without line editing whose prompt directly precedes the setup marker
fn marker(v: &Value) -> CaseResult {
    let ps1 = v["ps1"].as_str().unwrap();
    let d = Daemon::start("shell = \"/bin/dash\"\nnorc = true\nnoecho = true\nsession_restore_mode = \"simple\"\n", &[]);
    let a = d.attach_with(AttachHeader { name: "m".into(), name_template: "m".into(), start_cmd: Some(format!("PS1='{}'\n{}", ps1, v["start"].as_str().unwrap())),
        local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 }, local_env: vec![("TERM".into(), "dumb".into())], ..Default::default() });
    a.send(b"echo re\"\"ady\n");
    a.wait(Duration::from_secs(10), |s| contains(&s.data, b"ready") || s.eof);
    let s = a.seen().data;
    if !contains(&s, b"ready") { return Err(("what the shell prints after its setup is shown".into(), format!("received {:?}", String::from_utf8_lossy(&s)))); }
    if contains(&s, b"SENTINEL") { return Err(("no setup output is shown".into(), format!("received {:?}", String::from_utf8_lossy(&s)))); }
    Ok(())
}
pub fn search(cx: &mut Ctx) {
    let p = |n: u64, s: u64| json!([n, s]);
    for ops in [vec![p(5, 4)], vec![p(200, 5)], vec![p(4000, 4)], vec![p(70000, 5)], vec![p(20000, 8)], vec![p(20000, 6)], vec![p(100, 4), json!("nap"), p(30000, 9)],
        vec![p(300000, 4)], vec![p(10, 4), json!("detach"), p(500, 5), json!("attach"), p(700, 8)],
        vec![p(10, 4), json!("hangup"), p(40000, 5), json!("attach"), p(20000, 9), json!("detach"), json!("attach"), p(3, 4)]] {
        cx.case(json!({"kind": "steps", "ops": ops, "exit": 7}));
    }
    for ops in [vec![p(5, 4)], vec![p(20000, 5), p(40000, 8)], vec![p(16384, 6), json!("nap"), p(1, 4), p(100000, 9)]] { cx.case(json!({"kind": "real", "ops": ops})); }
    cx.case(json!({"kind": "marker", "ps1": "$ ", "start": ""}));
    cx.case(json!({"kind": "marker", "ps1": "$ S", "start": "true"}));
    cx.case(json!({"kind": "marker", "ps1": "SHPOOL_PROMPT_", "start": "true"}));
    cx.case(json!({"kind": "marker", "ps1": "> ", "start": "echo one; echo SHPOOL_PROMPT_SETUP"}));
    let n = if cx.thorough { 20_000 } else { 400 };
    for _ in 0..n {
        if cx.expired() { return; }
        let mut ops = vec![];
        let quiet = cx.rng.chance(1, 2);
        for _ in 0..1 + cx.rng.below(6) {
            let m = *cx.rng.pick(&[0, 1, 3, 80, 1000, 4095, 4096, 4097, 16384, 16385, 30000, 65536, 100000]);
            ops.push(p(m, cx.rng.next() % 1000));
            if cx.rng.chance(1, 3) { ops.push(json!("nap")); }
            if !quiet && cx.rng.chance(1, 3) { ops.push(json!(*cx.rng.pick(&["detach", "hangup"]))); if cx.rng.chance(1, 2) { ops.push(p(cx.rng.below(3000), cx.rng.next() % 1000)); } ops.push(json!("attach")); }
        }
        if quiet && cx.rng.chance(1, 5) { cx.case(json!({"kind": "real", "ops": ops})); continue; }
        let exit = *cx.rng.pick(&[0, 1, 7, 42, 127, 128, 255, -9, -15]);
        cx.case(json!({"kind": "steps", "ops": ops, "exit": exit}));
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    if v["kind"] == "real" { return shrink_list(v["ops"].as_array().unwrap()).into_iter().map(|q| json!({"kind": "real", "ops": q})).collect(); }
    if v["kind"] != "steps" { return vec![]; }
    shrink_list(v["ops"].as_array().unwrap()).into_iter().map(|q| json!({"kind": "steps", "ops": q, "exit": v["exit"]})).collect()
}
