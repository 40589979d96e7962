//! The attach command itself: real clients on terminals of their own, against
//! a model of the sessions they create, take over, leave and end.
use crate::e2e::*;
use crate::sessions::{bad, gone, shell_cmd, R};
use crate::Rng;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

struct S { pid: i32, alive: bool, by: Option<u64>, ttl: Option<(Instant, Instant)> }
struct W<'a> { d: &'a Daemon, pre: String, m: BTreeMap<String, S>, c: BTreeMap<u64, (Pty, String)>, nonce: usize }
fn id_in(data: &[u8], tag: &str) -> Option<i32> {
    let t = String::from_utf8_lossy(data).into_owned();
    let end = t.rfind(&format!(":{};", tag))?;
    let s = t[..end].rfind("id=")?;
    t[s + 3..end].parse().ok()
}
const P10: &[&str] = &["P10"];
const P12: &[&str] = &["P12"];
const P13: &[&str] = &["P13"];
impl<'a> W<'a> {
    fn full(&self, n: &str) -> String { format!("{}{}", self.pre, n) }
    fn status(&self, n: &str) -> Option<SessionStatus> { let f = self.full(n); self.d.list().into_iter().find(|s| s.name == f).map(|s| s.status) }
    /// the shell this client talks to
    fn ping(&mut self, c: u64) -> Option<i32> {
        self.nonce += 1;
        let tag = format!("q{}", self.nonce);
        let p = &mut self.c.get_mut(&c)?.0;
        p.send(format!("{}\n", tag).as_bytes());
        let mut ended = None;
        wait_for(LONG, || { ended = p.proc.try_wait().ok().flatten(); ended.is_some() || id_in(&p.out(), &tag).is_some() });
        id_in(&p.out(), &tag)
    }
    /// the client ends, with this status, and its terminal is as it was
    fn ends(&mut self, who: &[&'static str], c: u64, code: Option<i32>, why: &str) -> R<()> {
        let Some((mut p, t)) = self.c.remove(&c) else { return Ok(()) };
        let Some(got) = p.wait_exit(LONG) else { return bad(who, format!("the attach command ends {}", why), "it goes on") };
        if let Some(code) = code { if got != code { return bad(P13, format!("the attach command ends with status {} {}", code, why), format!("{}", got)); } }
        if p.termios() != t { return bad(P13, format!("the terminal is given back {}", why), format!("it is {} instead of {}", p.termios(), t)); }
        Ok(())
    }
    fn start(&mut self, c: u64, n: &str, o: &Value) -> R<()> {
        if self.c.contains_key(&c) { return Ok(()); }
        let (force, bg, ttl) = (o["f"] == true, o["b"] == true, o["ttl"].as_u64());
        let name = self.full(n);
        let by = self.m.get(n).and_then(|s| s.by);
        if by.is_some() && bg { return Ok(()); }
        let cmd = shell_cmd(false);
        let tt = ttl.map(|t| format!("{}s", t)).unwrap_or_default();
        let mut a: Vec<&str> = vec!["attach"];
        if force { a.push("-f"); }
        if bg { a.push("-b"); }
        if ttl.is_some() { a.push("--ttl"); a.push(&tt); }
        a.extend(["--cmd", &cmd, "--", &name]);
        let i0 = Instant::now();
        let p = Pty::spawn(self.d.cli(&a), 24, 80);
        let t = p.termios();
        self.c.insert(c, (p, t));
        let old = self.m.get(n).map(|s| (s.alive, s.pid));
        if by.is_some() && !force {
            self.ends(P10, c, None, "when the session is in use")?;
            let b = by.unwrap();
            let (got, want) = (self.ping(b), self.m[n].pid);
            if got != Some(want) { return bad(P10, format!("the client of '{}' keeps its shell {}", n, want), format!("{:?}", got)); }
            return Ok(());
        }
        if bg {
            self.ends(P10, c, None, "when it is to attach in the background")?;
            if !wait_for(LONG, || matches!(self.status(n), Some(SessionStatus::Disconnected))) { return bad(P10, format!("'{}' is there, free to attach to", n), format!("{:?}", self.status(n))); }
            if let Some((true, _)) = old { return Ok(()); }
            let kids = crate::sessions::children(self.d.proc.id() as i32);
            let known: Vec<i32> = self.m.values().map(|s| s.pid).collect();
            let Some(pid) = kids.into_iter().find(|k| !known.contains(k)) else { return bad(P10, format!("a shell runs in '{}'", n), "none") };
            self.m.insert(n.into(), S { pid, alive: true, by: None, ttl: ttl.map(|t| (i0 + Duration::from_secs(t), Instant::now() + Duration::from_secs(t))) });
            return Ok(());
        }
        let got = self.ping(c);
        let i1 = Instant::now();
        match old {
            Some((true, pid)) => {
                if got != Some(pid) { return bad(P10, format!("'{}' still has its shell {}", n, pid), format!("{:?}", got)); }
                if let Some(b) = by { self.ends(P10, b, Some(0), "when somebody else took the session over")?; }
                self.m.get_mut(n).unwrap().by = Some(c);
            }
            _ => {
                let Some(pid) = got else { return bad(P10, format!("'{}' gets a shell", n), format!("none answers: {:?}", self.c.get(&c).map(|c| String::from_utf8_lossy(&c.0.out()).into_owned()))) };
                if self.m.values().any(|s| s.alive && s.pid == pid) { return bad(P10, format!("'{}' gets a shell of its own", n), "another session's"); }
                self.m.insert(n.into(), S { pid, alive: true, by: Some(c), ttl: ttl.map(|t| (i0 + Duration::from_secs(t), i1 + Duration::from_secs(t))) });
            }
        }
        Ok(())
    }
    fn exit(&mut self, n: &str, code: i32) -> R<()> {
        let Some(by) = self.m.get(n).and_then(|s| s.by) else { return Ok(()) };
        let s = self.m.remove(n).unwrap();
        if code < 256 { self.c.get_mut(&by).unwrap().0.send(format!("x{}\n", code).as_bytes()); } else { unsafe { libc::kill(s.pid, code - 256); } }
        self.ends(P13, by, Some(if code < 256 { code } else { 1 }), &format!("when its shell ended with {}", code))?;
        if !wait_for(LONG, || self.status(n).is_none()) { return bad(P13, format!("'{}' ends with its shell", n), "it is still listed"); }
        Ok(())
    }
    fn leave(&mut self, n: &str, how: &str) -> R<()> {
        let Some(by) = self.m.get(n).and_then(|s| s.by) else { return Ok(()) };
        match how {
            "kill" => { self.c.remove(&by); }
            "keys" => {
                self.c.get_mut(&by).unwrap().0.send(b"\x00\x11");
                self.ends(P10, by, Some(0), "when the detach keys are pressed")?;
            }
            _ => {
                let f = self.full(n);
                self.d.detach(&[&f]);
                self.ends(P10, by, Some(0), "when it is detached")?;
            }
        }
        self.m.get_mut(n).unwrap().by = None;
        if !wait_for(LONG, || matches!(self.status(n), Some(SessionStatus::Disconnected))) { return bad(P10, format!("'{}' is free when its client is gone", n), format!("{:?}", self.status(n))); }
        Ok(())
    }
    fn die(&mut self, n: &str) -> R<()> {
        let Some(s) = self.m.get_mut(n) else { return Ok(()) };
        if s.by.is_some() || !s.alive { return Ok(()); }
        unsafe { libc::kill(s.pid, libc::SIGKILL); }
        s.alive = false;
        let pid = s.pid;
        wait_for(LONG, || gone(pid));
        Ok(())
    }
    fn expire(&mut self, margin: Duration) -> R<()> {
        loop {
            let Some((n, lo, hi)) = self.m.iter().filter_map(|(n, s)| s.ttl.map(|t| (n.clone(), t.0, t.1))).min_by_key(|x| x.1) else { return Ok(()) };
            if Instant::now() + margin < lo { return Ok(()); }
            loop {
                let l = self.status(&n);
                if Instant::now() >= lo { break; }
                if l.is_none() { return bad(P12, format!("'{}' lives for as long as it was asked for", n), format!("gone {} ms before", (lo - Instant::now()).as_millis())); }
                std::thread::sleep(Duration::from_millis(20));
            }
            if let Some(w) = hi.checked_duration_since(Instant::now()) { std::thread::sleep(w); }
            if !wait_for(LONG, || self.status(&n).is_none()) { return bad(P12, format!("'{}' ends when its time is over", n), "it is still listed"); }
            let s = self.m.remove(&n).unwrap();
            if s.alive && !wait_for(LONG, || gone(s.pid)) { return bad(P12, "its shell ends too", "it runs on"); }
            if let Some(b) = s.by { self.ends(P12, b, None, "when the time of its session is over")?; }
        }
    }
    /// a time to live that makes no sense
    fn nonsense(&mut self, ttl: &str) -> R<()> {
        let n = self.full("z");
        match self.d.run(&["attach", "--ttl", ttl, "--", &n]) {
            Some((c, _, _)) if c != 0 => {}
            x => return bad(P12, format!("a time to live of '{}' is refused", ttl), format!("{:?}", x)),
        }
        if self.status("z").is_some() { return bad(P12, format!("no session comes of a time to live of '{}'", ttl), "there is one"); }
        Ok(())
    }
}
pub fn case(d: &Daemon, pre: String, v: &Value) -> R<()> {
    let mut w = W { d, pre, m: BTreeMap::new(), c: BTreeMap::new(), nonce: 0 };
    let r = (|| {
        for op in v["ops"].as_array().unwrap() {
            let s = |i: usize| op[i].as_str().unwrap_or("").to_string();
            w.expire(Duration::from_millis(1500))?;
            match s(0).as_str() {
                "start" => w.start(op[1].as_u64().unwrap_or(0), &s(2), &op[3])?,
                "exit" => w.exit(&s(1), op[2].as_i64().unwrap_or(0) as i32)?,
                "leave" => w.leave(&s(1), &s(2))?,
                "die" => w.die(&s(1))?,
                "nonsense" => w.nonsense(&s(1))?,
                "expire" => w.expire(Duration::from_secs(600))?,
                _ => {}
            }
        }
        Ok(())
    })();
    let left: Vec<String> = w.m.keys().map(|n| w.full(n)).collect();
    if !left.is_empty() { let l: Vec<&str> = left.iter().map(|s| s.as_str()).collect(); d.kill(&l); }
    r
}
pub fn gen(r: &mut Rng, ttl: bool) -> Value {
    let len = r.range(2, 7);
    let mut ops = vec![];
    for i in 0..len {
        let n = *r.pick(&["a", "b"]);
        let op = match if i == 0 { 0 } else { r.below(9) } {
            0..=3 => {
                let mut o = json!({});
                if r.chance(1, 3) { o["f"] = json!(true); }
                if r.chance(1, 5) { o["b"] = json!(true); }
                if ttl && r.chance(1, 2) { o["ttl"] = json!(r.range(2, 3)); }
                json!(["start", i, n, o])
            }
            4 | 5 => json!(["exit", n, *r.pick(&[0, 1, 3, 127, 255, 256 + 9, 256 + 15])]),
            6 | 7 => json!(["leave", n, *r.pick(&["kill", "keys", "msg"])]),
            _ => if ttl && r.chance(1, 2) { json!(["nonsense", *r.pick(&["12x", "", "1:2:3:4:5", "5", "99999999999999999999s", "-3s"])]) } else { json!(["die", n]) },
        };
        ops.push(op);
    }
    json!({"kind": "cli", "ops": ops})
}
