use std::collections::HashMap;
use std::sync::Mutex;
use crate::e2e::*;
pub const RULE: &str = "binding tables (the default one, shared prefixes, multi-chord, single-chord) on a real daemon; streams of typed bytes biased to keys of the bindings, sent in random portions to an attached session, and long inputs for a program that does not read for a while, from clients that stay or leave whose shell records every byte it receives, over the wire or typed into a real attach command; distinct = distinct input";
pub const BOUND: &str = "six tables, streams up to 60 portions / 40000 bytes, portions split at every kind of position";

// (keys, action) with the key codes written out
fn tables() -> Vec<Vec<(&'static str, &'static [u8], &'static str)>> {
    vec![
        vec![("Ctrl-Space Ctrl-q", &[0, 17], "detach")],
        vec![("Ctrl-a", &[1], "noop"), ("Ctrl-Space Ctrl-q", &[0, 17], "detach")],
        vec![("Ctrl-a x", &[1, 120], "noop"), ("Ctrl-a y y", &[1, 121, 121], "noop"), ("Ctrl-b Ctrl-b Ctrl-b d", &[2, 2, 2, 100], "detach")],
        vec![("a b c d", b"abcd", "noop"), ("b c", b"bc", "noop"), ("z z", b"zz", "detach")],
        vec![("q", b"q", "noop"), ("w w w w w", b"wwwww", "noop"), ("w d", b"wd", "detach")],
        vec![],
    ]
}
struct Live { d: Daemon, a: Att, file: std::path::PathBuf, n: usize, done: usize }
static LIVE: Mutex<Option<HashMap<usize, Live>>> = Mutex::new(None);

fn session(l: &mut Live) {
    l.n += 1;
    l.file = l.d.dir.join(format!("typed{}", l.n));
    l.done = 0;
    l.a = l.d.attach(&format!("t{}", l.n), Some(&format!("/bin/sh -c 'stty raw -echo; printf GO; exec cat > {}'", l.file.display())));
    assert!(l.a.wait_data(b"GO"), "shell did not start");
}
fn live(t: usize) -> Live {
    let mut c = String::from("norc = true\n");
    for (keys, _, act) in &tables()[t] { c += &format!("[[keybinding]]\nbinding = \"{}\"\naction = \"{}\"\n", keys, act); }
    if tables()[t].is_empty() { c += "keybinding = []\n"; }
    let d = Daemon::start(&c, &[]);
    let a = d.attach("warmup", Some("/bin/sh -c 'exit 0'"));
    let mut l = Live { d, a, file: Default::default(), n: 0, done: 0 };
    session(&mut l);
    l
}
fn read(p: &std::path::Path) -> Vec<u8> { std::fs::read(p).unwrap_or_default() }

pub fn case(v: &Value) -> CaseResult {
    if v["kind"] == "stuck" { return crate::sessions::run("P04", v); }
    let t = v["table"].as_u64().unwrap() as usize;
    let tb = &tables()[t];
    let segs: Vec<Vec<u8>> = v["portions"].as_array().unwrap().iter().map(jhex).collect();
    // what must arrive, byte by byte
    let (mut held, mut want, mut detached): (Vec<u8>, Vec<u8>, bool) = (vec![], vec![], false);
    let flush = b"~~~~~~~~".to_vec();
    for b in segs.iter().chain(std::iter::once(&flush)).flatten() {
        let mut h = held.clone();
        h.push(*b);
        if let Some((_, _, act)) = tb.iter().rev().find(|(_, k, _)| *k == &h[..]) {
            held.clear();
            if *act == "detach" { detached = true; break; }
        } else if tb.iter().any(|(_, k, _)| k.starts_with(&h)) { held = h; } else { want.extend(&h); held.clear(); }
    }
    let mut g = LIVE.lock().unwrap_or_else(|e| e.into_inner());
    let map = g.get_or_insert_with(HashMap::new);
    let mut l = match map.remove(&t) { Some(l) => l, None => live(t) };
    if v["real"] == true {
        let r = real(&mut l, &segs, v["pause"].as_u64().unwrap_or(0), &want, detached);
        if r.is_ok() { map.insert(t, l); }
        return r;
    }
    for s in &segs {
        l.a.send(s);
        if v["pause"].as_u64().unwrap_or(0) > 0 { std::thread::sleep(Duration::from_millis(v["pause"].as_u64().unwrap())); }
    }
    l.a.send(&flush);
    let from = l.done;
    let limit = Duration::from_millis(2500);
    let arrived = wait_for(limit, || std::fs::metadata(&l.file).map(|m| m.len() as usize).unwrap_or(0) >= from + want.len());
    let closed = if detached { l.a.wait(limit, |s| s.eof) } else { true };
    let all = read(&l.file);
    let got = all[from.min(all.len())..].to_vec();
    let show = |b: &[u8]| if b.len() > 200 { format!("{} bytes ..{}", b.len(), hex(&b[b.len() - 60..])) } else { hex(b) };
    if !arrived || got != want || !closed {
        map.remove(&t); // start over with a fresh daemon
        return Err((format!("the shell receives {}{}", show(&want), if detached { ", then the client is detached" } else { "" }),
                    format!("the shell received {}{}", show(&got), if closed { "" } else { ", and the client stayed attached" })));
    }
    l.done = all.len();
    if detached || l.a.seen().eof || l.done > 4_000_000 { l.d.kill(&[&format!("t{}", l.n)]); session(&mut l); }
    map.insert(t, l);
    Ok(())
}
/// the same with the attach command on a terminal of its own
fn real(l: &mut Live, segs: &[Vec<u8>], pause: u64, want: &[u8], detached: bool) -> CaseResult {
    l.n += 1;
    let (file, name) = (l.d.dir.join(format!("typed{}", l.n)), format!("r{}", l.n));
    let mut p = Pty::spawn(l.d.cli(&["attach", "--cmd", &format!("/bin/sh -c 'stty raw -echo; printf GO; exec cat > {}'", file.display()), &name]), 24, 80);
    if !p.wait_out(b"GO") { return Err(("the attach command attaches".into(), String::from_utf8_lossy(&p.out()).into_owned())); }
    for s in segs {
        p.send(s);
        if pause > 0 { std::thread::sleep(Duration::from_millis(pause)); }
    }
    p.send(b"~~~~~~~~");
    let limit = Duration::from_millis(4000);
    let arrived = wait_for(limit, || std::fs::metadata(&file).map(|m| m.len() as usize).unwrap_or(0) >= want.len());
    let left = if detached { p.wait_exit(limit) } else { None };
    std::thread::sleep(Duration::from_millis(10));
    let got = read(&file);
    let show = |b: &[u8]| if b.len() > 200 { format!("{} bytes ..{}", b.len(), hex(&b[b.len() - 60..])) } else { hex(b) };
    if !arrived || got != want { return Err((format!("the shell receives {} typed into the attach command", show(want)), format!("the shell received {}", show(&got)))); }
    if detached && left.is_none() { return Err(("the client is detached".into(), "it stayed attached".into())); }
    l.d.kill(&[&name]);
    Ok(())
}
pub fn search(cx: &mut Ctx) {
    let fixed: &[(usize, &[&[u8]])] = &[
        (0, &[b"x\0", b"y"]), (0, &[b"\0", b"\0", b"\x12"]), (0, &[b"hello\0\x11"]), (0, &[b"a\0", b"\x11"]),
        (1, &[b"x\x01y"]), (1, &[b"xy\x01z"]), (1, &[b"\x01\x01"]), (1, &[b"abc\0\x11def"]),
        (2, &[b"x\x01x"]), (2, &[b"a\x01xb"]), (2, &[b"\x01", b"y", b"z"]), (2, &[b"\x01", b"y", b"y"]), (2, &[b"\x02\x02", b"\x02x"]), (2, &[b"q\x02\x02\x02dz"]),
        (3, &[b"abcabcd"]), (3, &[b"ab", b"cd"]), (3, &[b"a", b"b", b"c", b"x"]), (3, &[b"ab", b"bc", b"1"]), (3, &[b"1bc"]), (3, &[b"12bc3bc"]), (3, &[b"hi zz there"]),
        (4, &[b"xqy"]), (4, &[b"ww", b"ww", b"w1"]), (4, &[b"www", b"d"]), (4, &[b"1wd"]), (5, &[b"\0\x11abc", b"\x01"]),
    ];
    for (t, p) in fixed {
        cx.case(json!({"table": t, "portions": p.iter().map(|b| hex(b)).collect::<Vec<_>>(), "pause": if p.len() > 1 { 8 } else { 0 }}));
    }
    cx.case(json!({"table": 0, "portions": [hex(b"hello"), hex(b"\x03\x04\x1a\r\n\x7f\xff\0x"), hex(b"there")], "pause": 5, "real": true}));
    cx.case(json!({"table": 0, "portions": [hex(&(0..=255u8).cycle().take(3000).collect::<Vec<u8>>()), hex(b"a\0"), hex(b"\x11")], "pause": 20, "real": true}));
    for (how, n) in [("stay", 150_000), ("stay", 1_000_000), ("hangup", 100_000), ("detach", 150_000)] { cx.case(json!({"kind": "stuck", "leave": how, "bytes": n})); }
    let n = if cx.thorough { 20_000 } else { 260 };
    for i in 0..n {
        if cx.expired() { return; }
        let t = (i % 6) as usize;
        let keys: Vec<u8> = tables()[t].iter().flat_map(|(_, k, _)| k.to_vec()).chain(*b"\0\x11zab~").collect();
        let big = cx.rng.chance(1, 25);
        let k = 1 + cx.rng.below(if big { 6 } else { 10 });
        let portions: Vec<String> = (0..k).map(|_| {
            let m = if big { cx.rng.range(1000, 20000) } else { *cx.rng.pick(&[1, 1, 1, 2, 2, 3, 4, 5, 8, 20]) };
            let b: Vec<u8> = (0..m).map(|_| if cx.rng.chance(if big { 1 } else { 5 }, 6) { *cx.rng.pick(&keys) } else { cx.rng.next() as u8 }).collect();
            hex(&b)
        }).collect();
        let pause = if big || cx.rng.chance(1, 3) { 0 } else { 4 };
        if i % 9 == 8 { cx.case(json!({"table": t, "portions": portions, "pause": pause, "real": true})); continue; }
        cx.case(json!({"table": t, "portions": portions, "pause": pause}));
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    if v["kind"] == "stuck" { return vec![]; }
    if v["real"] == true { return shrink_list(v["portions"].as_array().unwrap()).into_iter().map(|q| json!({"table": v["table"], "portions": q, "pause": 8, "real": true})).collect(); }
    let p = v["portions"].as_array().unwrap();
    let mut out: Vec<Value> = shrink_list(p).into_iter().map(|q| json!({"table": v["table"], "portions": q, "pause": 8})).collect();
    for i in 0..p.len() {
        let b = jhex(&p[i]);
        if b.len() > 1 { for half in [&b[..b.len() / 2], &b[b.len() / 2..]] { let mut q = p.clone(); q[i] = json!(hex(half)); out.push(json!({"table": v["table"], "portions": q, "pause": 8})); } }
    }
    out
}
