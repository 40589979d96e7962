use std::collections::BTreeMap;
use std::sync::Mutex;
use crate::e2e::*;
pub const RULE: &str = "variables set, unset and read over the wire and with the command line on a real daemon, one after another or at the same time, while real clients with generated name templates are attached or attaching; what is read, and where each client ends up, and what a daemon starts with, is compared with what the changes amount to; distinct = distinct input";
pub const BOUND: &str = "up to 3 clients, 12 changes, values of up to 40 characters";

type Vars = BTreeMap<String, String>;
static LIVE: Mutex<Option<(Daemon, usize)>> = Mutex::new(None);
fn s(v: &Value) -> &str { v.as_str().unwrap() }
/// what the template stands for
fn apply(t: &str, m: &Vars) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find('{') {
        out.push_str(&rest[..i]);
        let j = i + rest[i..].find('}').unwrap();
        out.push_str(m.get(&rest[i + 1..j]).map(|x| x.as_str()).unwrap_or(""));
        rest = &rest[j + 1..];
    }
    out + rest
}
fn vars(d: &Daemon) -> Option<Vars> {
    let r: Option<MaybeSwitch> = d.rpc(ConnectHeader::GetVars);
    r.map(|m| m.vars.into_iter().collect())
}
fn change(d: &Daemon, o: &Value, m: &mut Vars) -> CaseResult {
    let (k, cli) = (s(&o["var"]), o["cli"] == true);
    let ok = match (o["val"].as_str(), cli) {
        (Some(x), true) => matches!(d.run(&["var", "set", "--", k, x]), Some((0, _, _))),
        (None, true) => matches!(d.run(&["var", "unset", "--", k]), Some((0, _, _))),
        (x, false) => d.set_var(k, x).is_some(),
    };
    if !ok { return Err((format!("the change {} is acknowledged", o), "it is not".into())); }
    match o["val"].as_str() { Some(x) => { m.insert(k.into(), x.into()); } None => { m.remove(k); } }
    Ok(())
}
fn reset(d: &Daemon) { for k in vars(d).unwrap_or_default().keys() { d.set_var(k, None); } }
fn attached(d: &Daemon, name: &str) -> bool { d.list().iter().any(|x| x.name == name && matches!(x.status, SessionStatus::Attached)) }
/// the shell every session runs: it answers each line with the session's name
const CMD: &str = "/bin/sh -c 'while read l; do echo \"<$l@$SHPOOL_SESSION_NAME>\"; done'";
struct Cl { tmpl: String, p: Pty }
fn settles(d: &Daemon, cl: &mut [Cl], m: &Vars, tag: &mut usize) -> CaseResult {
    for c in cl.iter_mut() {
        let want = apply(&c.tmpl, m);
        *tag += 1;
        let needle = format!("<t{}@{}>", tag, want);
        let t = std::time::Instant::now();
        loop {
            if attached(d, &want) {
                c.p.send(format!("t{}\n", tag).as_bytes());
                if wait_for(Duration::from_millis(400), || contains(&c.p.out(), needle.as_bytes())) { break; }
            }
            if let Ok(Some(st)) = c.p.proc.try_wait() { return Err((format!("the client of {:?} goes to {:?} when the variables are {:?}", c.tmpl, want, m), format!("it ends with {:?}: {}", st, tail(&c.p.out())))); }
            if t.elapsed() > Duration::from_secs(8) {
                return Err((format!("the client of {:?} is in {:?} when the variables are {:?}", c.tmpl, want, m), format!("sessions {:?}; it shows {}", d.list().iter().map(|x| format!("{} {:?}", x.name, x.status)).collect::<Vec<_>>(), tail(&c.p.out()))));
            }
            std::thread::sleep(Duration::from_millis(30));
        }
    }
    Ok(())
}
fn tail(b: &[u8]) -> String { String::from_utf8_lossy(&b[b.len().saturating_sub(120)..]).into_owned() }
fn store(d: &Daemon, v: &Value) -> CaseResult {
    let mut m = Vars::new();
    for o in v["ops"].as_array().unwrap() {
        change(d, o, &mut m)?;
        let got = vars(d);
        if got.as_ref() != Some(&m) { return Err((format!("the variables {:?}", m), format!("{:?}", got))); }
        if o["look"] == true {
            let k = s(&o["var"]);
            let want = m.get(k).map(|x| format!("{}\n", x)).unwrap_or_default();
            let got = d.run(&["var", "get", "--", k]);
            if got.as_ref().map(|g| (g.0, &g.1)) != Some((0, &want)) { return Err((format!("`var get {}` prints {:?}", k, want), format!("{:?}", got))); }
            let got = d.run(&["var", "list"]).map(|g| { let mut l: Vec<String> = g.1.lines().map(|x| x.to_string()).collect(); l.sort(); l });
            let mut want: Vec<String> = m.iter().flat_map(|(k, x)| format!("{}\t{}", k, x).lines().map(|x| x.to_string()).collect::<Vec<_>>()).collect();
            want.sort();
            if got.as_ref() != Some(&want) { return Err((format!("`var list` prints {:?}", want), format!("{:?}", got))); }
            let got = d.run(&["var", "list", "--json"]).and_then(|g| serde_json::from_str::<Vars>(&g.1).ok());
            if got.as_ref() != Some(&m) { return Err((format!("`var list --json` prints {:?}", m), format!("{:?}", got))); }
        }
    }
    Ok(())
}
/// clients that speak the protocol themselves, for what is a matter of moments with real ones
fn raw(d: &Daemon, n: usize, v: &Value) -> CaseResult {
    let mut m = Vars::new();
    for o in v["before"].as_array().unwrap() { change(d, o, &mut m)?; }
    let tmpl = format!("{}-r{}", s(&v["tmpl"]), n);
    let name = apply(&tmpl, &vars(d).unwrap_or_default());
    // what happens while the client makes up its mind
    for o in v["meanwhile"].as_array().unwrap() { change(d, o, &mut m)?; }
    let a = d.attach_with(AttachHeader { name: name.clone(), name_template: tmpl.clone(), cmd: Some("/bin/sleep 1000".into()), local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 }, ..Default::default() });
    if !a.created() { return Err(("the session is created".into(), format!("{:?}", a.status))); }
    let last = |x: &Seen| x.switches.last().and_then(|b| dec::<MaybeSwitch, _>(&b[..])).map(|m| m.vars.into_iter().collect::<Vars>());
    if apply(&tmpl, &m) != name && !a.wait(Duration::from_secs(6), |x| last(x).as_ref() == Some(&m)) {
        return Err((format!("the client attached to {:?} is told that the variables are {:?}", name, m), format!("{:?}", last(&a.seen()))));
    }
    // several at once
    let at_once = v["at_once"].as_array().unwrap();
    if !at_once.is_empty() {
        std::thread::scope(|t| { for o in at_once { t.spawn(move || change(d, o, &mut Vars::new())); } });
        let now = vars(d).unwrap_or_default();
        if !a.wait(Duration::from_secs(6), |x| last(x).as_ref() == Some(&now)) { return Err((format!("the client is told last that the variables are {:?}", now), format!("{:?}", last(&a.seen())))); }
        std::thread::sleep(Duration::from_millis(250));
        if last(&a.seen()).as_ref() != Some(&now) { return Err((format!("the client is told last that the variables are {:?}", now), format!("{:?}", last(&a.seen())))); }
    }
    Ok(())
}
fn follow(d: &Daemon, n: usize, v: &Value) -> CaseResult {
    let mut m = Vars::new();
    for o in v["before"].as_array().unwrap() { change(d, o, &mut m)?; }
    let mut cl: Vec<Cl> = vec![];
    let tmpls: Vec<String> = v["tmpls"].as_array().unwrap().iter().enumerate().map(|(i, t)| if let Some(t) = s(t).strip_prefix('^') { format!("g{}c{}={}", n, i, t) } else { format!("{}-f{}c{}", s(t), n, i) }).collect();
    let mut tag = 0;
    for t in &tmpls { cl.push(Cl { tmpl: t.clone(), p: Pty::spawn(d.cli(&["attach", "--cmd", CMD, t]), 24, 80) }); }
    // changes while the clients are still attaching
    for o in v["meanwhile"].as_array().unwrap() { change(d, o, &mut m)?; }
    settles(d, &mut cl, &m, &mut tag)?;
    for burst in v["bursts"].as_array().unwrap() {
        for o in burst.as_array().unwrap() { change(d, o, &mut m)?; }
        settles(d, &mut cl, &m, &mut tag)?;
    }
    for c in &cl {
        let at = if c.tmpl.starts_with('g') { 0 } else { c.tmpl.rfind("-f").unwrap() };
        let end = &c.tmpl[at..];
        let start = c.tmpl.find('=').filter(|_| at == 0).map(|i| &c.tmpl[..i + 1]);
        let there = || d.list().iter().filter(|x| start.map(|s| x.name.starts_with(s)).unwrap_or(x.name.ends_with(end)) && matches!(x.status, SessionStatus::Attached)).count();
        if !wait_for(Duration::from_secs(6), || there() == 1) { return Err(("every client in one session".into(), format!("{:?}", d.list().iter().map(|x| format!("{} {:?}", x.name, x.status)).collect::<Vec<_>>()))); }
    }
    Ok(())
}
/// what a daemon starts with
fn fresh(v: &Value) -> CaseResult {
    let mut c = String::from("norc = true\nsession_restore_mode = \"simple\"\n");
    let mut m = Vars::new();
    for o in v["defaults"].as_array().unwrap() {
        c += &format!("[[var_default]]\nvar = {}\nvalue = {}\n", o["var"], o["val"]);
        m.insert(s(&o["var"]).into(), s(&o["val"]).into());
    }
    let d = Daemon::start(&c, &[]);
    let now = vars(&d);
    if now.as_ref() != Some(&m) { return Err((format!("the variables are {:?}", m), format!("{:?}", now))); }
    for o in v["ops"].as_array().unwrap() { change(&d, o, &mut m)?; }
    let now = vars(&d);
    if now.as_ref() != Some(&m) { return Err((format!("the variables are {:?} after the changes", m), format!("{:?}", now))); }
    Ok(())
}
pub fn case(v: &Value) -> CaseResult {
    if v["kind"] == "fresh" { return fresh(v); }
    let mut g = LIVE.lock().unwrap_or_else(|e| e.into_inner());
    if g.as_ref().map(|l| l.1 > 40).unwrap_or(true) { *g = None; *g = Some((Daemon::start("norc = true\nsession_restore_mode = \"simple\"\n", &[]), 0)); }
    let l = g.as_mut().unwrap();
    l.1 += 1;
    reset(&l.0);
    let r = match s(&v["kind"]) { "store" => store(&l.0, v), "raw" => raw(&l.0, l.1, v), _ => follow(&l.0, l.1, v) };
    let names = l.0.names();
    l.0.kill(&names.iter().map(|x| x.as_str()).collect::<Vec<_>>());
    if r.is_err() { *g = None; }
    r
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    for k in ["defaults", "ops", "before", "meanwhile", "at_once", "bursts", "tmpls"] {
        if let Some(l) = v[k].as_array() { for t in shrink_list(l) { if k != "tmpls" || !t.is_empty() { let mut w = v.clone(); w[k] = json!(t); out.push(w); } } }
    }
    out
}
fn set(r: &mut Rng, plain: bool, cli: bool) -> Value {
    let vals: &[&str] = if plain { &["p", "q", "", "pp", "\u{e9}x", "a_b", "p-f1c0", "{w}", "}", "0", "x{"] } else { &["p", "q", "", " ", "a b", "/", "..", "\u{4e2d}", "--", "{w}", "k=v", "'", "x\ty", "a longer value with several words in it..."] };
    let vars: &[&str] = if plain { &["w", "e", "w2", "W"] } else { &["w", "e", "w2", "W", "\u{e9}", "a b", "", "{", "-x"] };
    json!({"var": *r.pick(vars), "val": if r.chance(1, 5) { Value::Null } else { json!(*r.pick(vals)) }, "cli": cli && r.chance(1, 4)})
}
pub fn search(cx: &mut Ctx) {
    let c = |k: &str, x: &str| json!({"var": k, "val": x});
    cx.case(json!({"kind": "follow", "before": [], "meanwhile": [], "tmpls": ["{w}", "fix", "{e}{w}x"], "bursts": [[c("w", "p")], [c("e", "q")], [c("w", "q"), c("w", "p"), c("w", "q")], [{"var": "w", "val": null, "cli": true}]]}));
    cx.case(json!({"kind": "follow", "before": [c("w", "p")], "meanwhile": [c("w", "q")], "tmpls": ["{w}"], "bursts": [[c("w", "p"), c("w", "q")], [c("w", "p"), c("e", "q"), c("w", "q"), c("w", "p")]]}));
    cx.case(json!({"kind": "follow", "before": [c("w", "pp")], "meanwhile": [], "tmpls": ["^{w}", "^{e}{w}"], "bursts": [[c("w", "p")], [c("w", "pq")], [{"var": "w", "val": null}], [c("e", "ab")], [c("e", "b")]]}));
    cx.case(json!({"kind": "raw", "before": [c("w", "p")], "tmpl": "{w}", "meanwhile": [c("w", "q")], "at_once": [c("w", "1"), c("w", "2"), c("w", "3"), c("w", "4"), c("w", "5"), c("w", "6")]}));
    cx.case(json!({"kind": "raw", "before": [c("w", "p")], "tmpl": "{w}", "meanwhile": [{"var": "w", "val": null}], "at_once": []}));
    cx.case(json!({"kind": "fresh", "defaults": [c("w", "p"), c("e", ""), c("w", "q"), c("\u{e9} x", "a b")], "ops": [c("e", "1"), {"var": "w", "val": null}]}));
    while !cx.expired() {
        let r = &mut cx.rng;
        let many = |r: &mut Rng, lo: u64, hi: u64, plain: bool, cli: bool| -> Vec<Value> { (0..r.range(lo, hi)).map(|_| set(r, plain, cli)).collect() };
        let v = match r.below(25) {
            24 => json!({"kind": "fresh", "defaults": (0..r.below(5)).map(|_| json!({"var": *r.pick(&["w", "e", "W", "a b"]), "val": *r.pick(&["p", "q", "", "{w}"])})).collect::<Vec<_>>(), "ops": many(r, 0, 3, false, true)}),
            0..=3 => { let mut ops = many(r, 1, 9, false, true); for o in ops.iter_mut() { if r.chance(1, 3) { o["look"] = json!(true); } } json!({"kind": "store", "ops": ops}) }
            4..=11 => json!({"kind": "raw", "before": many(r, 0, 3, true, false), "tmpl": *r.pick(&["{w}", "{w}{e}", "a{W}b", "fix", "{w2}{w}"]), "meanwhile": many(r, 0, 3, true, false), "at_once": many(r, 0, 8, true, false)}),
            _ => {
                let k = r.range(1, 3);
                let tmpls: Vec<Value> = (0..k).map(|_| json!(*r.pick(&["{w}", "{w}{e}", "a{W}b", "fix", "{w2}{w}", "{e}.{e}", "\u{e9}{w}", "^{w}", "^{w}{e}", "^{e}x"]))).collect();
                let nb = r.range(1, 4);
                let bursts: Vec<Value> = (0..nb).map(|_| json!(many(r, 1, 4, true, true))).collect();
                json!({"kind": "follow", "before": many(r, 0, 2, true, false), "meanwhile": many(r, 0, 2, true, false), "tmpls": tmpls, "bursts": bursts})
            }
        };
        cx.case(v);
    }
}
