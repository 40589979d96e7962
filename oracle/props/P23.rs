use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::UnixStream;
use std::process::{Child, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use crate::e2e::*;
pub const RULE: &str = "histories of session operations on a real daemon with a subscriber, against the model of the session table, and histories of subscribers (reading, never reading, writing, half closed, hanging up, the shpool events command, one that lists at every event) while sessions come and go, with the sink's accepts slowed down or not; what each is sent, what a list then shows, and what the daemon keeps open; distinct = distinct input";
pub const BOUND: &str = "histories of up to 14 steps over 3 names; up to 40 subscribers at once, bursts of up to 420 events";

struct Sub { sock: Option<UnixStream>, cli: Option<Child>, got: Arc<Mutex<(Vec<String>, bool)>>, lo: usize, from: usize, stuck: bool, what: String }
fn err<T>(e: impl Into<String>, a: impl Into<String>) -> Result<T, (String, String)> { Err((e.into(), a.into())) }
fn collect(r: impl std::io::Read + Send + 'static, got: Arc<Mutex<(Vec<String>, bool)>>) {
    std::thread::spawn(move || {
        let mut r = BufReader::new(r);
        loop {
            let mut l = vec![];
            match r.read_until(b'\n', &mut l) {
                Ok(n) if n > 0 && l.last() == Some(&b'\n') => got.lock().unwrap().0.push(String::from_utf8_lossy(&l[..n - 1]).into_owned()),
                _ => { got.lock().unwrap().1 = true; return; }
            }
        }
    });
}
struct World { d: Daemon, subs: Vec<Sub>, want: Vec<&'static str>, att: Vec<(String, Option<Att>)>, loose: Option<usize>, fds: usize }
impl Drop for World { fn drop(&mut self) { for s in &mut self.subs { if let Some(c) = s.cli.as_mut() { let _ = c.kill(); let _ = c.wait(); } } } }
impl World {
    fn open(&self) -> usize { std::fs::read_dir(format!("/proc/{}/fd", self.d.proc.id())).map(|d| d.count()).unwrap_or(0) }
    fn sub(&mut self, mode: &str) -> CaseResult {
        let lo = self.subs.first().map(|s| s.got.lock().unwrap().0.len()).unwrap_or(0);
        let got = Arc::new(Mutex::new((vec![], false)));
        let mut x = Sub { sock: None, cli: None, got: Arc::clone(&got), lo, from: 0, stuck: mode == "stuck", what: format!("{} subscriber {}", mode, self.subs.len()) };
        if mode == "cli" {
            self.settle()?;
            // (what else is still being closed must not hide it)
            let (mut before, mut same) = (self.open(), 0);
            while same < 5 { std::thread::sleep(Duration::from_millis(40)); let o = self.open(); if o == before { same += 1 } else { before = o; same = 0 } }
            let mut c = self.d.cli(&["events"]);
            let mut c = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
            collect(c.stdout.take().unwrap(), got);
            x.cli = Some(c);
            if !wait_for(LONG, || self.open() > before || x.got.lock().unwrap().1) || x.got.lock().unwrap().1 { return err("shpool events subscribes", "it does not"); }
        } else {
            let Ok(sock) = UnixStream::connect(self.d.dir.join("events.socket")) else { return err("events can be subscribed to", "they can't") };
            match mode {
                "write" => { let _ = (&sock).write_all(b"{\"type\":\"session.created\"}\nhello\n"); }
                "half" => { let _ = sock.shutdown(std::net::Shutdown::Write); }
                _ => {}
            }
            if mode != "stuck" { collect(sock.try_clone().unwrap(), got); }
            x.sock = Some(sock);
        }
        x.from = self.want.len();
        self.subs.push(x);
        Ok(())
    }
    /// the first subscriber, who reads all the time, has been told everything so far
    fn settle(&mut self) -> CaseResult {
        let n = self.want.len();
        let g = &self.subs[0].got;
        wait_for(LONG, || { let g = g.lock().unwrap(); g.0.len() >= n || g.1 });
        let g = g.lock().unwrap();
        let want: Vec<String> = self.want.iter().map(|e| format!("{{\"type\":\"session.{}\"}}", e)).collect();
        if g.0 != want { let at = g.0.iter().zip(&want).take_while(|(a, b)| a == b).count(); return err(format!("a subscriber is sent {} events, as they happen; number {} is {:?}", want.len(), at, want.get(at)), format!("{} events, then {:?}{}", at, g.0.get(at), if g.1 { ", and is hung up on" } else { "" })); }
        Ok(())
    }
    fn look(&self, name: &str) -> Option<bool> { self.d.list().into_iter().find(|s| s.name == name).map(|s| matches!(s.status, SessionStatus::Attached)) }
    /// one change of the table; told: wait for the event and see whether a list shows what it tells
    fn change(&mut self, op: &str, i: usize, told: bool) -> CaseResult {
        let name = self.att[i].0.clone();
        // (a hang-up takes its time to be noticed)
        if self.loose.map(|j| j != i || op != "attach").unwrap_or(false) { self.settle()?; }
        self.loose = if op == "leave" || op == "detach" { Some(i) } else { None };
        let there = self.att[i].1.is_some() || self.look(&name).is_some();
        let mut new: Vec<(&'static str, Option<bool>)> = vec![];
        match op {
            "attach" if self.att[i].1.is_none() => {
                let mut a = self.d.attach(&name, Some("sh -c 'while read l; do exit 0; done'"));
                let end = std::time::Instant::now() + LONG;
                while a.busy() && std::time::Instant::now() < end { a = self.d.attach(&name, Some("sh -c 'while read l; do exit 0; done'")); }
                if !(a.created() || a.reattached()) { return Ok(()); } // P10's
                if a.created() { new.push(("created", None)); }
                new.push(("attached", Some(true)));
                self.att[i].1 = Some(a);
            }
            "leave" => if let Some(a) = self.att[i].1.take() { new.push(("detached", Some(false))); a.hang_up(); },
            "detach" => if self.att[i].1.is_some() {
                self.d.detach(&[&name]);
                self.att[i].1 = None;
                new.push(("detached", Some(false)));
            },
            "kill" if there => { self.d.kill(&[&name]); self.att[i].1 = None; new.push(("removed", None)); }
            "exit" => if let Some(a) = self.att[i].1.take() { a.send(b"x\n"); a.wait_eof(); self.want.push("removed"); self.settle()?; self.want.pop(); new.push(("removed", None)); },
            _ => {}
        }
        for (e, st) in new {
            self.want.push(e);
            if !told { continue; }
            let n = self.want.len();
            let g = &self.subs[0].got;
            wait_for(LONG, || { let g = g.lock().unwrap(); g.0.len() >= n || g.1 });
            let l = self.look(&name);
            let ok = match (e, st) { ("created", _) => l.is_some(), ("removed", _) => l.is_none(), (_, st) => l == st };
            if !ok { self.settle()?; return err(format!("a list made after session.{} shows what happened", e), format!("'{}' is {:?} (attached) in it", name, l)); }
        }
        Ok(())
    }
    fn step(&mut self, o: &Value) -> CaseResult {
        let i = o["i"].as_u64().unwrap_or(0) as usize % 3;
        let n = o["n"].as_u64().unwrap_or(1);
        match o["op"].as_str().unwrap_or("") {
            "sub" => for _ in 0..n { self.sub(o["mode"].as_str().unwrap_or("read"))?; },
            // subscribers that go while nothing happens
            "churn" => for _ in 0..n { let _ = UnixStream::connect(self.d.dir.join("events.socket")); },
            "gone" => { let k = self.subs.len(); if k > 1 { let mut s = self.subs.remove(1 + o["i"].as_u64().unwrap_or(0) as usize % (k - 1)); if let Some(c) = s.cli.as_mut() { let _ = c.kill(); let _ = c.wait(); }
                if let Some(x) = s.sock.as_ref() { let _ = x.shutdown(std::net::Shutdown::Both); } } }
            // one event is being handed on when somebody comes and the next one happens
            "late" => {
                self.change("kill", i, false)?;
                let j = (i + 1) % 3;
                self.change("kill", j, false)?;
                self.settle()?;
                self.change("attach", i, false)?;
                std::thread::sleep(Duration::from_millis(n));
                self.sub("late")?;
                self.change("attach", j, false)?;
            }
            // (a hang-up takes longer to be noticed than a shell that is gone at once)
            "burst" => for _ in 0..n {
                self.change("kill", i, false)?;
                let a = self.d.attach(&self.att[i].0, Some("true"));
                if !a.created() { return Ok(()); }
                self.want.extend(["created", "attached", "removed"]);
                a.wait_eof();
                self.settle()?;
            },
            op => self.change(op, i, o["told"] == true)?,
        }
        if o["settle"] == true { self.settle()?; }
        Ok(())
    }
    fn done(&mut self) -> CaseResult {
        for i in 0..3 { self.change("kill", i, false)?; }
        self.settle()?;
        for s in &mut self.subs {
            if s.stuck { if let Some(x) = s.sock.as_ref() { collect(x.try_clone().unwrap(), Arc::clone(&s.got)); } }
        }
        let want: Vec<String> = self.want.iter().map(|e| format!("{{\"type\":\"session.{}\"}}", e)).collect();
        for s in &self.subs {
            let due = want.len() - s.from;
            let tries: Vec<&[String]> = (s.lo.min(s.from)..=s.from).map(|j| &want[j..]).collect();
            wait_for(LONG, || { let g = s.got.lock().unwrap(); g.1 || tries.iter().any(|w| g.0 == *w) });
            let g = s.got.lock().unwrap();
            if tries.iter().any(|w| g.0 == *w) && !g.1 { continue; }
            // one that fell far behind is let go: up to there it was sent everything
            if s.stuck && g.1 && due > 64 && tries.iter().any(|w| w.starts_with(&g.0)) && g.0.len() > 64 { continue; }
            let w = &want[s.from..];
            let at = g.0.iter().zip(w).take_while(|(a, b)| a == b).count();
            return err(format!("the {} is sent the {} events since it came, in order", s.what, due), format!("{} lines; the first {} agree, then {:?} instead of {:?}{}", g.0.len(), at, g.0.get(at), w.get(at), if g.1 { "; it is hung up on" } else { "" }));
        }
        // whoever left is forgotten, also while nothing happens
        let clis = self.subs.iter().filter(|s| s.cli.is_some()).count();
        for s in self.subs.iter().skip(1) { if let Some(x) = s.sock.as_ref() { let _ = x.shutdown(std::net::Shutdown::Both); } }
        let most = self.fds + clis;
        if !wait_for(LONG, || self.open() <= most) { return err(format!("the daemon has {} descriptors open once all subscribers but {} have gone and no session is left", most, clis + 1), format!("{}", self.open())); }
        // the command ends when the daemon does
        unsafe { libc::kill(self.d.proc.id() as i32, libc::SIGTERM); }
        for s in &mut self.subs {
            if let Some(c) = s.cli.take() {
                let r = finish(c, LONG);
                if r.as_ref().map(|r| r.0) != Some(0) { return err("shpool events ends well when the daemon does", format!("{:?}", r.map(|r| r.0))); }
                if s.got.lock().unwrap().0.len() < want.len() - s.from { return err("shpool events prints all events", "some are missing"); }
            } else if !wait_for(LONG, || s.got.lock().unwrap().1) { return err("subscribers are hung up on when the daemon ends", "they are not"); }
        }
        Ok(())
    }
}
pub fn case(v: &Value) -> CaseResult {
    if v["kind"] != "subs" { return crate::sessions::run("P23", v); }
    let slow = v["slow"].as_u64().unwrap_or(0).to_string();
    let d = Daemon::start("norc = true\nsession_restore_mode = \"simple\"\nmotd = \"never\"\n", &[("ORACLE_SLOW_ACCEPT", slow.as_str())]);
    let mut w = World { d, subs: vec![], want: vec![], att: (0..3).map(|i| (format!("n{}", i), None)).collect(), loose: None, fds: 0 };
    if !wait_for(LONG, || UnixStream::connect(w.d.dir.join("events.socket")).is_ok()) { return err("the daemon has an events socket", "it has none"); }
    w.d.list();
    w.sub("first")?;
    // what an idle daemon has open
    std::thread::sleep(Duration::from_millis(30 + v["slow"].as_u64().unwrap_or(0) * 3));
    w.change("attach", 0, false)?;
    w.settle()?;
    w.change("kill", 0, false)?;
    w.settle()?;
    let mut k = w.open();
    wait_for(Duration::from_millis(400), || { let o = w.open(); let r = o == k; k = k.min(o); std::thread::sleep(Duration::from_millis(60)); r && w.open() == k });
    w.fds = k.max(w.open());
    for o in v["ops"].as_array().unwrap() { w.step(o)?; }
    w.done()
}
fn gen(r: &mut Rng) -> Value {
    let slow = if r.chance(1, 3) { r.range(20, 60) } else { 0 };
    let mut ops = vec![];
    for _ in 0..r.range(3, 14) {
        let i = r.below(3);
        ops.push(match r.below(if slow > 0 { 13 } else { 11 }) {
            0 | 1 => json!({"op": "sub", "n": r.range(1, 3), "mode": *r.pick(&["read", "read", "stuck", "write", "half", "cli"]), "settle": r.chance(1, 2)}),
            2 => json!({"op": "churn", "n": r.range(1, 12)}),
            3 => json!({"op": "gone", "i": r.below(9)}),
            4 => json!({"op": "burst", "i": i, "n": r.range(1, 12)}),
            x if x < 11 => json!({"op": *r.pick(&["attach", "attach", "leave", "detach", "kill", "exit"]), "i": i, "told": r.chance(1, 2), "settle": r.chance(1, 3)}),
            _ => json!({"op": "late", "i": i, "n": r.range(1, slow)}),
        });
    }
    json!({"kind": "subs", "slow": slow, "ops": ops})
}
pub fn search(cx: &mut Ctx) {
    let fixed = [
        json!({"kind": "subs", "slow": 0, "ops": [{"op": "attach", "i": 0, "told": true}, {"op": "leave", "i": 0, "told": true}, {"op": "attach", "i": 0, "told": true}, {"op": "sub", "mode": "cli"}, {"op": "detach", "i": 0, "told": true}, {"op": "attach", "i": 1, "told": true}, {"op": "exit", "i": 1, "told": true}, {"op": "kill", "i": 0, "told": true}]}),
        json!({"kind": "subs", "slow": 40, "ops": [{"op": "late", "i": 0, "n": 15}, {"op": "late", "i": 0, "n": 5}, {"op": "late", "i": 1, "n": 25}]}),
        json!({"kind": "subs", "slow": 0, "ops": [{"op": "churn", "n": 40}, {"op": "sub", "mode": "read", "n": 8}, {"op": "gone", "i": 0}, {"op": "gone", "i": 3}, {"op": "attach", "i": 2}, {"op": "sub", "mode": "half"}, {"op": "sub", "mode": "write"}, {"op": "sub", "mode": "stuck"}, {"op": "burst", "i": 2, "n": 25}]}),
        json!({"kind": "subs", "slow": 0, "ops": [{"op": "sub", "mode": "stuck", "n": 2}, {"op": "burst", "i": 0, "n": 30}, {"op": "sub", "mode": "cli"}, {"op": "burst", "i": 0, "n": 110}, {"op": "sub", "mode": "read"}, {"op": "burst", "i": 1, "n": 5}]}),
        json!({"ops": [["attach", "a", 2, 0, 0], ["kill", ["a"], ""], ["attach", "b", 2, 0, 0], ["hangup", "b"], ["die", "b"], ["attach", "b", null, 0, 0], ["ghosts"]]}),
    ];
    for f in &fixed { if cx.expired() { return; } cx.case(f.clone()); }
    let mix = crate::sessions::Mix { ttl: true, ..Default::default() };
    let n = if cx.thorough { 100_000 } else { 600 };
    for i in 0..n {
        if cx.expired() { return; }
        if i % 2 == 0 { let v = gen(&mut cx.rng); cx.case(v); continue; }
        if i % 16 == 3 {
            let (k, st, s) = (cx.rng.range(2, 5), cx.rng.range(4, 14), cx.rng.below(1 << 30));
            cx.case(json!({"kind": "storm", "k": k, "steps": st, "excl": false, "seed": s}));
            continue;
        }
        let len = cx.rng.range(3, 12);
        let mut v = crate::sessions::gen(&mut cx.rng, &mix, len);
        if i % 8 != 1 { for o in v["ops"].as_array_mut().unwrap() { if o[0] == "attach" || o[0] == "race" { o[2] = Value::Null; } } }
        cx.case(v);
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    if v["kind"] != "subs" { return crate::sessions::shrink(v); }
    crate::shrink_list(v["ops"].as_array().unwrap()).into_iter().map(|q| { let mut w = v.clone(); w["ops"] = json!(q); w }).collect()
}
