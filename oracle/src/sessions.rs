//! Histories of session operations on a live daemon, checked step by step
//! against a model of the session table. Several properties share it; each
//! fails only on what it owns, and a history that goes wrong in somebody
//! else's territory decides nothing.
use crate::e2e::*;
use crate::{CaseResult, Ctx, Rng};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::net::UnixStream;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

pub struct Bad { pub who: Vec<&'static str>, pub want: String, pub got: String }
pub type R<T> = Result<T, Bad>;
pub fn bad<T>(who: &[&'static str], want: impl Into<String>, got: impl Into<String>) -> R<T> { Err(Bad { who: who.to_vec(), want: want.into(), got: got.into() }) }
pub fn now_ms() -> i64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as i64 }

pub struct Live { pub d: Daemon, pub n: usize, pub ev: Arc<Mutex<Vec<String>>>, pub base: usize }
pub static LIVE: Mutex<Option<Live>> = Mutex::new(None);
pub static OTHER: AtomicUsize = AtomicUsize::new(0);

pub fn subscribe(d: &Daemon) -> Arc<Mutex<Vec<String>>> {
    let ev = Arc::new(Mutex::new(vec![]));
    // the daemon is up a little before its events socket is
    let mut s = None;
    wait_for(LONG, || { s = UnixStream::connect(d.dir.join("events.socket")).ok(); s.is_some() });
    let Some(s) = s else { ev.lock().unwrap().push("no events socket".into()); return ev };
    let o = Arc::clone(&ev);
    std::thread::spawn(move || {
        for l in BufReader::new(s).lines() {
            let Ok(l) = l else { break };
            let t = serde_json::from_str::<Value>(&l).ok().and_then(|v| if v.as_object()?.len() == 1 { Some(v["type"].as_str()?.to_string()) } else { None }).unwrap_or(format!("malformed line {:?}", l));
            o.lock().unwrap().push(t);
        }
        o.lock().unwrap().push("end of stream".into());
    });
    ev
}
/// pids of the daemon's children, zombies included
pub fn children(of: i32) -> Vec<i32> {
    let mut v = vec![];
    for e in std::fs::read_dir("/proc").unwrap().flatten() {
        let Some(pid) = e.file_name().to_str().and_then(|s| s.parse::<i32>().ok()) else { continue };
        let Ok(s) = std::fs::read_to_string(format!("/proc/{}/stat", pid)) else { continue };
        let Some(i) = s.rfind(')') else { continue };
        if s[i + 2..].split(' ').nth(1).and_then(|p| p.parse::<i32>().ok()) == Some(of) { v.push(pid); }
    }
    v.sort();
    v
}
pub fn gone(pid: i32) -> bool { unsafe { libc::kill(pid, 0) != 0 } }

#[derive(Default)]
pub struct M {
    pub pid: i32,
    pub att: Option<Att>,
    pub alive: bool,
    pub tmpl: String,
    pub started: (i64, i64),
    pub conn: (i64, i64),
    pub disc: Option<(i64, i64)>,
    pub ttl: Option<(Instant, Instant)>,
}
pub struct W<'a> {
    pub d: &'a Daemon,
    pub pre: String,
    pub m: BTreeMap<String, M>,
    pub ev: Arc<Mutex<Vec<String>>>,
    pub base: usize,
    pub want_ev: Vec<&'static str>,
    pub nonce: usize,
    pub ghosts: Vec<Instant>,
}
pub fn shell_cmd(hup: bool) -> String {
    format!("sh -c '{}echo \"id=$$:up;\"; while :; do if read l; then case $l in x*) exit $(echo $l | cut -c2-);; *) echo \"id=$$:$l;\";; esac; else {}; fi; done'",
        if hup { "trap \"\" HUP; " } else { "" }, if hup { "sleep 0.1" } else { "exit 0" })
}
fn id_in(data: &[u8], tag: &str) -> Option<i32> {
    let t = String::from_utf8_lossy(data).into_owned();
    let end = t.rfind(&format!(":{};", tag))?;
    let s = t[..end].rfind("id=")?;
    t[s + 3..end].parse().ok()
}
impl<'a> W<'a> {
    pub fn full(&self, n: &str) -> String { format!("{}{}", self.pre, n) }
    pub fn ping(&mut self, a: &Att) -> Result<i32, String> {
        self.nonce += 1;
        let tag = format!("q{}", self.nonce);
        a.send(format!("{}\n", tag).as_bytes());
        a.wait(LONG, |s| s.eof || id_in(&s.data, &tag).is_some());
        let s = a.seen();
        id_in(&s.data, &tag).ok_or_else(|| format!("no answer ({}), {} bytes seen", if s.eof { "hung up on" } else { "silence" }, s.data.len()))
    }
    /// the client attached to n still talks to the same shell
    pub fn still(&mut self, who: &[&'static str], n: &str) -> R<()> {
        let Some(m) = self.m.get_mut(n) else { return Ok(()) };
        let pid = m.pid;
        let Some(a) = m.att.take() else { return Ok(()) };
        let r = self.ping(&a);
        self.m.get_mut(n).unwrap().att = Some(a);
        match r { Ok(p) if p == pid => Ok(()), x => bad(who, format!("'{}' stays attached to its shell {}", n, pid), format!("{:?}", x)) }
    }
    pub fn header(&self, n: &str, tmpl: &str, ttl: Option<u64>, hup: bool) -> AttachHeader {
        AttachHeader { name: self.full(n), name_template: tmpl.into(), cmd: Some(shell_cmd(hup)), ttl_secs: ttl,
            local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 }, local_env: vec![("TERM".into(), "xterm".into())], ..Default::default() }
    }
    /// what one non-refused attach did to the model
    fn took(&mut self, n: &str, a: Att, tmpl: &str, ttl: Option<u64>, t: (i64, i64), i: (Instant, Instant)) -> R<()> {
        let who: &[&'static str] = &["P10"];
        let old = self.m.get(n).map(|m| (m.alive, m.pid));
        let pid = match self.ping(&a) { Ok(p) => p, Err(e) => return bad(who, format!("attaching to '{}' talks to a shell", n), e) };
        match old {
            Some((true, p)) => {
                if !a.reattached() { return bad(who, format!("attaching to the detached '{}' reattaches", n), format!("{:?}", a.status)); }
                if pid != p { return bad(who, format!("'{}' still has its shell {}", n, p), format!("shell {}", pid)); }
                self.want_ev.push("session.attached");
                let m = self.m.get_mut(n).unwrap();
                m.conn = t;
                m.tmpl = tmpl.into();
                m.att = Some(a);
            }
            _ => {
                if !a.created() { return bad(who, format!("attaching to '{}', which has no running shell, creates it", n), format!("{:?}", a.status)); }
                if self.m.values().any(|m| m.alive && m.pid == pid) { return bad(who, format!("'{}' gets a shell of its own", n), format!("shared shell {}", pid)); }
                if old.is_some() { self.want_ev.push("session.removed"); }
                self.want_ev.push("session.created");
                self.want_ev.push("session.attached");
                let old = self.m.remove(n);
                if let Some((_, hi)) = old.and_then(|m| m.ttl) { self.ghosts.push(hi); }
                self.m.insert(n.into(), M { pid, att: Some(a), alive: true, tmpl: tmpl.into(), started: t, conn: t, disc: None,
                    ttl: ttl.map(|s| (i.0 + Duration::from_secs(s), i.1 + Duration::from_secs(s))) });
            }
        }
        Ok(())
    }
    pub fn attach(&mut self, n: &str, tmpl: &str, ttl: Option<u64>, hup: bool, k: usize) -> R<()> {
        let who: &[&'static str] = &["P10"];
        let (t0, i0) = (now_ms(), Instant::now());
        let mut got: Vec<Att> = if k <= 1 { vec![self.d.attach_with(self.header(n, tmpl, ttl, hup))] } else {
            let d = self.d;
            let hs: Vec<AttachHeader> = (0..k).map(|_| self.header(n, tmpl, ttl, hup)).collect();
            let b = std::sync::Barrier::new(k);
            let b = &b;
            std::thread::scope(|sc| {
                let js: Vec<_> = hs.into_iter().map(|h| sc.spawn(move || { b.wait(); d.attach_with(h) })).collect();
                js.into_iter().map(|j| j.join().unwrap()).collect()
            })
        };
        let (t1, i1) = (now_ms(), Instant::now());
        let in_use = self.m.get(n).map(|m| m.att.is_some()).unwrap_or(false);
        let sts: Vec<String> = got.iter().map(|a| format!("{:?}", a.status)).collect();
        let won: Vec<usize> = (0..got.len()).filter(|i| got[*i].created() || got[*i].reattached()).collect();
        if got.iter().enumerate().any(|(i, a)| !won.contains(&i) && !a.busy()) {
            return bad(who, "whoever does not get the session is told that it is busy", sts.join(", "));
        }
        if in_use {
            if !won.is_empty() { return bad(who, format!("'{}' is in use, so it is busy", n), sts.join(", ")); }
            self.still(who, n)?;
        } else {
            if won.len() != 1 { return bad(who, format!("exactly one of {} attaching clients gets '{}'", k.max(1), n), sts.join(", ")); }
            let a = got.remove(won[0]);
            self.took(n, a, tmpl, ttl, (t0, t1), (i0, i1))?;
        }
        for a in &got {
            if !a.wait_eof() { return bad(who, "a refused client is hung up on", "it is kept waiting"); }
            if !a.seen().frames.is_empty() { return bad(who, "a refused client sees nothing of the session", format!("{:?}", a.seen().frames)); }
        }
        self.shells(who)
    }
    /// the daemon's children are the shells of the live sessions
    pub fn shells(&self, who: &[&'static str]) -> R<()> {
        let mut want: Vec<i32> = self.m.values().filter(|m| m.alive).map(|m| m.pid).collect();
        want.sort();
        let me = self.d.proc.id() as i32;
        let mut got = vec![];
        if wait_for(LONG, || { got = children(me); got == want }) { return Ok(()); }
        bad(who, format!("the daemon's children are the sessions' shells {:?}", want), format!("{:?}", got))
    }
    fn status(&self, n: &str) -> Option<bool> {
        let f = self.full(n);
        self.d.list().iter().find(|s| s.name == f).map(|s| matches!(s.status, SessionStatus::Attached))
    }
    fn settle_detached(&mut self, who: &[&'static str], n: &str, t0: i64) -> R<()> {
        if !wait_for(LONG, || self.status(n) != Some(true)) { return bad(who, format!("'{}' has no client any more", n), "still attached"); }
        let t1 = now_ms();
        if self.status(n) != Some(false) { return bad(who, format!("'{}' outlives its client", n), "it is gone from the table"); }
        let m = self.m.get_mut(n).unwrap();
        m.disc = Some((t0, t1));
        m.tmpl.clear();
        if gone(m.pid) { return bad(who, format!("the shell of '{}' outlives its client", n), "it ended"); }
        self.want_ev.push("session.detached");
        Ok(())
    }
    pub fn hangup(&mut self, n: &str) -> R<()> {
        let Some(a) = self.m.get_mut(n).and_then(|m| m.att.take()) else { return Ok(()) };
        let t0 = now_ms();
        a.hang_up();
        self.settle_detached(&["P10", "P16"], n, t0)
    }
    fn cli(&self, what: &str, names: &[String], env: bool) -> R<(i32, String)> {
        let mut c = if env { let mut c = self.d.cli(&[what]); c.env("SHPOOL_SESSION_NAME", &names[0]); c }
            else { let mut a: Vec<&str> = vec![what]; a.extend(names.iter().map(|s| s.as_str())); self.d.cli(&a) };
        c.stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped());
        match finish(c.spawn().unwrap(), Duration::from_secs(20)) { Some((code, _, err)) => Ok((code, err)), None => bad(&["P14", "P15"], format!("shpool {} ends", what), "it hangs") }
    }
    pub fn detach(&mut self, names: &[String], how: &str) -> R<()> {
        let who: &[&'static str] = &["P15"];
        let full: Vec<String> = names.iter().map(|n| self.full(n)).collect();
        let (mut nf, mut na, mut did) = (vec![], vec![], vec![]);
        for n in names {
            match self.m.get(n) {
                None => nf.push(self.full(n)),
                Some(m) if m.att.is_none() || did.contains(n) => na.push(self.full(n)),
                Some(_) => did.push(n.clone()),
            }
        }
        let t0 = now_ms();
        match how {
            "msg" => {
                let r: Option<SessionMessageReply> = self.d.rpc(ConnectHeader::SessionMessage(SessionMessageRequest { session_name: full[0].clone(), payload: SessionMessageRequestPayload::Detach }));
                let want = if nf.is_empty() { SessionMessageReply::Detach(SessionMessageDetachReply::Ok) } else { SessionMessageReply::NotFound };
                if r.as_ref() != Some(&want) { return bad(who, format!("{:?}", want), format!("{:?}", r)); }
            }
            "cli" | "env" => {
                let (code, err) = self.cli("detach", &full, how == "env")?;
                let want = if !nf.is_empty() { format!("not found: {}", nf.join(" ")) } else if !na.is_empty() { format!("not attached: {}", na.join(" ")) } else { String::new() };
                if (code != 0) != !want.is_empty() || !err.lines().any(|l| l == want || want.is_empty()) && !want.is_empty() {
                    return bad(who, format!("exit code {} and message {:?}", if want.is_empty() { 0 } else { 1 }, want), format!("{} {:?}", code, err));
                }
            }
            _ => {
                let f: Vec<&str> = full.iter().map(|s| s.as_str()).collect();
                let r = self.d.detach(&f);
                let ok = r.as_ref().map(|r| r.not_found_sessions == nf && r.not_attached_sessions == na).unwrap_or(false);
                if !ok { return bad(who, format!("not found {:?}, not attached {:?}", nf, na), format!("{:?}", r)); }
            }
        }
        for n in &did {
            let a = self.m.get_mut(n).unwrap().att.take().unwrap();
            if !a.wait_eof() { return bad(who, format!("the client of '{}' is let go", n), "it stays connected"); }
            self.settle_detached(who, n, t0)?;
        }
        let rest: Vec<String> = self.m.keys().filter(|k| !did.contains(k)).cloned().collect();
        for n in rest { self.still(who, &n)?; }
        self.shells(who)
    }
    fn removed(&mut self, n: &str) -> Option<M> {
        let m = self.m.remove(n)?;
        self.want_ev.push("session.removed");
        if let Some((_, hi)) = m.ttl { self.ghosts.push(hi); }
        Some(m)
    }
    pub fn kill(&mut self, names: &[String], how: &str) -> R<()> {
        let who: &[&'static str] = &["P14"];
        let full: Vec<String> = names.iter().map(|n| self.full(n)).collect();
        let nf: Vec<String> = names.iter().filter(|n| !self.m.contains_key(*n)).map(|n| self.full(n)).collect();
        match how {
            "cli" | "env" => {
                let (code, err) = self.cli("kill", &full, how == "env")?;
                let want = format!("not found: {}", nf.join(" "));
                if (code != 0) != !nf.is_empty() || (!nf.is_empty() && !err.lines().any(|l| l == want)) {
                    return bad(who, format!("exit code {} and {:?}", !nf.is_empty() as i32, if nf.is_empty() { "" } else { &want }), format!("{} {:?}", code, err));
                }
            }
            _ => {
                let f: Vec<&str> = full.iter().map(|s| s.as_str()).collect();
                let r = self.d.kill(&f);
                if r.as_ref().map(|r| r.not_found_sessions.clone()) != Some(nf.clone()) { return bad(who, format!("not found {:?}", nf), format!("{:?}", r)); }
            }
        }
        let left = self.d.names();
        if let Some(x) = full.iter().find(|f| left.contains(f)) { return bad(who, format!("'{}' is gone from the table when the kill is answered", x), format!("{:?}", left)); }
        let mut olds = vec![];
        for n in names { if let Some(m) = self.removed(n) { olds.push((n.clone(), m)); } }
        for (n, m) in &olds {
            if m.alive && !wait_for(LONG, || gone(m.pid)) { return bad(who, format!("the shell {} of '{}' ends", m.pid, n), "it lives on"); }
            if let Some(a) = &m.att { if !a.wait_eof() { return bad(who, format!("the client of '{}' is let go", n), "it stays connected"); } }
        }
        let rest: Vec<String> = self.m.keys().cloned().collect();
        for n in rest { self.still(who, &n)?; }
        self.shells(who)
    }
    pub fn exit(&mut self, n: &str, code: i32) -> R<()> {
        let who: &[&'static str] = &["P13"];
        if !self.m.get(n).map(|m| m.att.is_some()).unwrap_or(false) { return Ok(()); }
        let m = self.removed(n).unwrap();
        let a = m.att.as_ref().unwrap();
        if code < 256 { a.send(format!("x{}\n", code).as_bytes()); } else { unsafe { libc::kill(m.pid, code - 256); } }
        let want = if code < 256 { code } else { 1 };
        if !a.wait_eof() { return bad(who, format!("the client of '{}' is let go when its shell exits", n), "it stays connected"); }
        let got = a.seen().exit;
        if got != [want] { return bad(&["P13", "P05"], format!("the client is told the exit status {}", want), format!("{:?}", got)); }
        if !wait_for(LONG, || gone(m.pid)) { return bad(who, "the shell that exited is reaped", "it is still there"); }
        if !wait_for(LONG, || self.status(n).is_none()) { return bad(who, format!("'{}' ends with its shell", n), "still listed"); }
        self.shells(who)
    }
    /// the shell of a session nobody is attached to is killed
    pub fn die(&mut self, n: &str) -> R<()> {
        let Some(m) = self.m.get_mut(n) else { return Ok(()) };
        if m.att.is_some() || !m.alive { return Ok(()); }
        unsafe { libc::kill(m.pid, libc::SIGKILL); }
        m.alive = false;
        let pid = m.pid;
        if !wait_for(LONG, || gone(pid)) { return bad(&["P13"], "the shell that died is reaped", "it is still there"); }
        Ok(())
    }
    /// the shell is stopped for a while
    pub fn stop(&mut self, n: &str) -> R<()> {
        let who: &[&'static str] = &["P13"];
        let Some(m) = self.m.get(n) else { return Ok(()) };
        if !m.alive { return Ok(()); }
        let pid = m.pid;
        unsafe { libc::kill(pid, libc::SIGSTOP); }
        std::thread::sleep(Duration::from_millis(300));
        let now = self.status(n);
        let over = m.att.as_ref().map(|a| a.seen().eof || !a.seen().exit.is_empty()).unwrap_or(false);
        unsafe { libc::kill(pid, libc::SIGCONT); }
        if now != Some(m.att.is_some()) || over { return bad(who, format!("a shell that is only stopped has not ended: '{}' stays as it is", n), format!("attached: {:?}, its client was told that it ended: {}", now, over)); }
        Ok(())
    }
    fn soonest(&self) -> Option<(String, (Instant, Instant))> {
        self.m.iter().filter_map(|(n, m)| m.ttl.map(|t| (n.clone(), t))).min_by_key(|x| x.1 .0)
    }
    /// waits for sessions whose time is (nearly) up
    pub fn expire(&mut self, margin: Duration) -> R<()> {
        let who: &[&'static str] = &["P12"];
        while let Some((n, (lo, hi))) = self.soonest() {
            if Instant::now() + margin < lo { return Ok(()); }
            loop {
                let l = self.status(&n);
                if Instant::now() >= lo { break; }
                if l.is_none() { return bad(who, format!("'{}' lives for as long as it was given", n), format!("gone {} ms before", (lo - Instant::now()).as_millis())); }
                std::thread::sleep(Duration::from_millis(10).min(lo - Instant::now().min(lo)));
            }
            if let Some(w) = hi.checked_duration_since(Instant::now()) { std::thread::sleep(w); }
            if !wait_for(LONG, || self.status(&n).is_none()) { return bad(who, format!("'{}' is removed when its time is up", n), format!("still listed {} ms later", (Instant::now() - hi).as_millis())); }
            if Instant::now() > hi + Duration::from_secs(4) { return bad(who, format!("'{}' is removed as soon as its time is up", n), "seconds late"); }
            let m = self.m.remove(&n).unwrap();
            self.want_ev.push("session.removed");
            if m.alive && !wait_for(LONG, || gone(m.pid)) { return bad(who, format!("the shell of '{}' ends when its time is up", n), "it lives on"); }
            if let Some(a) = &m.att { if !a.wait_eof() { return bad(who, format!("the client of '{}' is let go when its time is up", n), "it stays connected"); } }
        }
        Ok(())
    }
    /// lets every time-to-live of sessions that are gone pass
    pub fn ghosts(&mut self) -> R<()> {
        let Some(t) = self.ghosts.iter().max().cloned() else { return Ok(()) };
        self.ghosts.clear();
        loop {
            self.expire(Duration::from_millis(1200))?;
            let now = Instant::now();
            let to = t + Duration::from_millis(250);
            if now >= to { break; }
            let mut w = to - now;
            if let Some((_, (lo, _))) = self.soonest() { w = w.min((lo - Duration::from_millis(600)).checked_duration_since(now).unwrap_or_default() + Duration::from_millis(1)); }
            std::thread::sleep(w);
        }
        let l = self.d.names();
        let lost: Vec<&String> = self.m.iter().filter(|(n, m)| !l.contains(&self.full(n)) && !m.ttl.map(|t| t.0 <= Instant::now()).unwrap_or(false)).map(|x| x.0).collect();
        if !lost.is_empty() { return bad(&["P12"], "an older session's time to live does not end a newer one of the same name", format!("{:?} gone", lost)); }
        let all: Vec<String> = self.m.keys().cloned().collect();
        for n in all {
            let (alive, pid) = { let m = &self.m[&n]; (m.alive, m.pid) };
            if alive && gone(pid) && self.m[&n].ttl.map(|t| t.0 > Instant::now()).unwrap_or(true) { return bad(&["P12"], format!("the shell of '{}' is left alone", n), "it ended"); }
        }
        Ok(())
    }
    /// the table as it is reported
    pub fn listed(&mut self, who: &'static str) -> R<()> {
        let l = self.d.list();
        let mut got: Vec<String> = l.iter().map(|s| s.name.clone()).collect();
        got.sort();
        let want: Vec<String> = self.m.keys().map(|n| self.full(n)).collect();
        if got != want { return bad(&[who, "P16"], format!("the sessions {:?}", want), format!("{:?}", got)); }
        let w: &[&'static str] = &["P16"];
        for s in &l {
            let m = &self.m[&s.name[self.pre.len()..]];
            let att = matches!(s.status, SessionStatus::Attached);
            if att != m.att.is_some() { return bad(w, format!("'{}' is listed as {}", s.name, if m.att.is_some() { "attached" } else { "disconnected" }), format!("{:?}", s.status)); }
            let a: Vec<(String, i32)> = s.attachments.iter().map(|a| (a.session_name_template.clone(), a.pid)).collect();
            let wa: Vec<(String, i32)> = m.att.iter().map(|_| (m.tmpl.clone(), std::process::id() as i32)).collect();
            if a != wa { return bad(w, format!("attachments of '{}' are {:?}", s.name, wa), format!("{:?}", a)); }
            let within = |x: i64, r: (i64, i64)| x >= r.0 && x <= r.1;
            if !within(s.started_at_unix_ms, m.started) { return bad(w, format!("'{}' started in {:?}", s.name, m.started), format!("{}", s.started_at_unix_ms)); }
            if !s.last_connected_at_unix_ms.map(|x| within(x, m.conn)).unwrap_or(false) { return bad(w, format!("'{}' was last connected in {:?}", s.name, m.conn), format!("{:?}", s.last_connected_at_unix_ms)); }
            let d = s.last_disconnected_at_unix_ms;
            let ok = match m.disc { None => d.is_none(), Some(r) => d.map(|x| within(x, r)).unwrap_or(false) };
            if !ok { return bad(w, format!("'{}' was last disconnected in {:?}", s.name, m.disc), format!("{:?}", d)); }
        }
        Ok(())
    }
    pub fn listed_by_cli(&mut self) -> R<()> {
        let w: &[&'static str] = &["P16"];
        let l = self.d.list();
        let Some((0, out, _)) = self.d.run(&["list"]) else { return bad(w, "shpool list works", "it fails") };
        let mut got: Vec<(String, String)> = vec![];
        for (i, line) in out.lines().enumerate() {
            let p: Vec<&str> = line.split('\t').collect();
            if i == 0 { if line != "NAME\tSTATUS" { return bad(w, "a heading", line); } continue; }
            if p.len() != 2 { return bad(w, "a name and a status per line", line); }
            got.push((p[0].trim_end().to_string(), p[1].to_string()));
        }
        got.sort();
        let mut want: Vec<(String, String)> = l.iter().map(|s| (s.name.clone(), format!("{}", s.status))).collect();
        want.sort();
        if got != want { return bad(w, format!("shpool list shows {:?}", want), format!("{:?}", got)); }
        let Some((0, out, _)) = self.d.run(&["list", "--json"]) else { return bad(w, "shpool list --json works", "it fails") };
        let Ok(v) = serde_json::from_str::<Value>(&out) else { return bad(w, "JSON", out) };
        let mut got: Vec<String> = v["sessions"].as_array().map(|a| a.iter().map(|x| x.to_string()).collect()).unwrap_or_default();
        let mut want: Vec<String> = l.iter().map(|s| serde_json::to_value(s).unwrap().to_string()).collect();
        got.sort();
        want.sort();
        if got != want { return bad(w, format!("shpool list --json shows {:?}", want), format!("{:?}", got)); }
        Ok(())
    }
    pub fn events(&self) -> R<()> {
        let n = self.want_ev.len();
        wait_for(LONG, || self.ev.lock().unwrap().len() >= self.base + n);
        let got: Vec<String> = self.ev.lock().unwrap()[self.base..].to_vec();
        if got.len() != n || got.iter().zip(&self.want_ev).any(|(a, b)| a != b) { return bad(&["P23"], format!("the events {:?}", self.want_ev), format!("{:?}", got)); }
        Ok(())
    }
    /// in the time during which a session may or may not have expired nothing can be said
    fn fuzzy(&self) -> bool { self.m.values().any(|m| m.ttl.map(|t| t.0 <= Instant::now()).unwrap_or(false)) }
    pub fn step(&mut self, op: &Value) -> R<()> {
        let s = |i: usize| op[i].as_str().unwrap_or("").to_string();
        let names = |i: usize| -> Vec<String> { op[i].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default() };
        let kind = s(0);
        self.expire(Duration::from_millis(1200))?;
        match kind.as_str() {
            "attach" => self.attach(&s(1), &format!("t{}", op[4].as_u64().unwrap_or(0)), op[2].as_u64(), op[3] == 1, 1)?,
            "race" => self.attach(&s(1), "r", op[2].as_u64(), op[3] == 1, op[4].as_u64().unwrap_or(2) as usize)?,
            "hangup" => self.hangup(&s(1))?,
            "detach" => if !names(1).is_empty() && (s(2) != "msg" || self.m.get(&names(1)[0]).map(|m| m.alive).unwrap_or(true)) {
                let n = if s(2) == "msg" || s(2) == "env" { names(1)[..1].to_vec() } else { names(1) };
                self.detach(&n, &s(2))?
            },
            "kill" => if !names(1).is_empty() { let n = if s(2) == "env" { names(1)[..1].to_vec() } else { names(1) }; self.kill(&n, &s(2))? },
            "exit" => self.exit(&s(1), op[2].as_i64().unwrap_or(0) as i32)?,
            "die" => self.die(&s(1))?,
            "stop" => self.stop(&s(1))?,
            "expire" => self.expire(Duration::from_secs(600))?,
            "ghosts" => self.ghosts()?,
            "list" => self.listed_by_cli()?,
            _ => {}
        }
        if self.fuzzy() { return Ok(()); }
        let owner = match kind.as_str() { "attach" | "race" | "hangup" => "P10", "detach" => "P15", "kill" => "P14", "exit" | "die" | "stop" => "P13", "expire" | "ghosts" => "P12", _ => "P16" };
        self.listed(owner)?;
        self.events()
    }
}
/// many clients at once doing all sorts of things to one session
fn storm(w: &mut W, v: &Value) -> R<()> {
    let f = w.full("s");
    let (k, steps, excl, seed) = (v["k"].as_u64().unwrap_or(3) as usize, v["steps"].as_u64().unwrap_or(5), v["excl"] == true, v["seed"].as_u64().unwrap_or(1));
    let inside = AtomicUsize::new(0);
    let broken: Mutex<Option<Bad>> = Mutex::new(None);
    let stop = AtomicBool::new(false);
    let d = w.d;
    let h0 = w.header("s", "s", None, false);
    let cmd = h0.cmd.clone();
    std::thread::scope(|sc| {
        for t in 0..k {
            let (inside, broken, stop, f, cmd) = (&inside, &broken, &stop, &f, &cmd);
            sc.spawn(move || {
                let mut r = Rng(seed.wrapping_mul(7919).wrapping_add(t as u64));
                for _ in 0..steps {
                    if stop.load(Ordering::SeqCst) { return; }
                    let op = if excl { 0 } else { r.below(8) };
                    match op {
                        6 => { d.kill(&[f]); }
                        7 => { d.detach(&[f]); }
                        _ => {
                            let a = d.attach_with(AttachHeader { name: f.clone(), name_template: f.clone(), cmd: cmd.clone(), local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 },
                                local_env: vec![("TERM".into(), "xterm".into())], ..Default::default() });
                            let fail = |want: &str, got: String| { stop.store(true, Ordering::SeqCst); broken.lock().unwrap().get_or_insert(Bad { who: vec!["P10"], want: want.into(), got }); };
                            if a.status.is_none() { fail("every attach is answered", "no reply".into()); return; }
                            if a.busy() { continue; }
                            if !a.created() && !a.reattached() { fail("an attach is answered created, attached or busy", format!("{:?}", a.status)); return; }
                            if excl && inside.fetch_add(1, Ordering::SeqCst) != 0 { fail("one client at a time", "two were let in".into()); return; }
                            if r.chance(1, 2) { std::thread::sleep(Duration::from_millis(r.below(12))); }
                            if excl { inside.fetch_sub(1, Ordering::SeqCst); }
                            if !excl && op == 5 { a.send(b"x3\n"); a.wait(Duration::from_millis(400), |s| s.eof); }
                            a.hang_up();
                        }
                    }
                }
            });
        }
    });
    if let Some(b) = broken.lock().unwrap().take() { return Err(b); }
    if !wait_for(LONG, || d.list().iter().all(|s| s.name != f || matches!(s.status, SessionStatus::Disconnected))) { return bad(&["P10"], "nobody is attached when all clients are gone", "somebody is"); }
    let me = d.proc.id() as i32;
    let mut got = (vec![], vec![]);
    if !wait_for(LONG, || { got = (children(me), d.names()); got.0.len() <= got.1.len() }) { return bad(&["P10"], "at most one shell per listed session", format!("shells {:?} sessions {:?}", got.0, got.1)); }
    d.kill(&[&f]);
    if !wait_for(LONG, || children(me).is_empty()) { return bad(&["P10", "P14"], "no shell is left after the session was killed", format!("{:?}", children(me))); }
    if !d.names().is_empty() { return bad(&["P14"], "no session is left", format!("{:?}", d.names())); }
    // the events tell one session's story
    let net = |e: &[String]| e.iter().filter(|x| *x == "session.created").count() as i64 - e.iter().filter(|x| *x == "session.removed").count() as i64;
    wait_for(Duration::from_secs(4), || net(&w.ev.lock().unwrap()[w.base..]) == 0);
    std::thread::sleep(Duration::from_millis(20));
    let e: Vec<String> = w.ev.lock().unwrap()[w.base..].to_vec();
    let mut st = "none";
    for (i, x) in e.iter().enumerate() {
        st = match (st, x.as_str()) {
            ("none", "session.created") => "new",
            ("new" | "idle", "session.attached") => "used",
            ("used", "session.detached") => "idle",
            ("used" | "idle", "session.removed") => "none",
            _ => return bad(&["P23"], "each session's events are created, attached, then detached and attached by turns, then removed", format!("{:?}", &e[i.saturating_sub(6)..(i + 1)])),
        };
    }
    if st != "none" { return bad(&["P23"], "the last event is that the session was removed", format!("{:?}", &e[e.len().saturating_sub(6)..])); }
    Ok(())
}
/// a program that closes its terminal but runs on is still the session's shell
fn closed(w: &mut W, v: &Value) -> R<()> {
    let who: &[&'static str] = &["P10"];
    let mark = w.d.dir.join(format!("{}mark", w.pre));
    let cmd = format!("sh -c 'trap \"\" HUP; t=$(tty); echo \"id=$$:up;\"; while read l; do case $l in x) exec </dev/null >/dev/null 2>&1; while [ ! -e {} -a -d {} ]; do sleep 0.05; done; exec <$t >$t 2>&1;; *) echo \"id=$$:$l;\";; esac; done'", mark.display(), w.d.dir.display());
    let hdr = |w: &W| AttachHeader { cmd: Some(cmd.clone()), ..w.header("a", "t", None, false) };
    let a = w.d.attach_with(hdr(w));
    if !a.created() { return bad(who, "a new session", format!("{:?}", a.status)); }
    let pid = match w.ping(&a) { Ok(p) => p, Err(e) => return bad(who, "the shell answers", e) };
    a.send(b"x\n");
    let me = w.d.proc.id() as i32;
    let shut = wait_for(LONG, || std::fs::read_link(format!("/proc/{}/fd/0", pid)).map(|l| l.to_str() == Some("/dev/null")).unwrap_or(false)
        && std::fs::read_link(format!("/proc/{}/fd/2", pid)).map(|l| l.to_str() == Some("/dev/null")).unwrap_or(false));
    if !shut { return bad(&[], "the program closes its terminal", "it does not"); }
    let mut cur = Some(a);
    for how in v["leave"].as_array().unwrap() {
        std::thread::sleep(Duration::from_millis(v["pause"].as_u64().unwrap_or(0)));
        if let Some(a) = cur.take() {
            if a.seen().eof { return bad(who, "a client stays attached while the shell runs", "it was hung up on"); }
            if how == "detach" { w.d.detach(&[&w.full("a")]); } else { a.hang_up(); }
        }
        if !wait_for(LONG, || w.status("a") != Some(true)) { return bad(who, "'a' has no client any more", "still attached"); }
        if w.status("a").is_none() { return bad(who, "'a' outlives its client", "it is gone from the table"); }
        let b = w.d.attach_with(hdr(w));
        if !b.reattached() { return bad(who, "attaching to the detached 'a' reattaches while its shell runs", format!("{:?}", b.status)); }
        let c = children(me);
        if c != [pid] { return bad(who, format!("'a' still has its shell {}", pid), format!("{:?}", c)); }
        cur = Some(b);
    }
    std::fs::write(&mark, "").unwrap();
    if let Some(b) = &cur {
        match w.ping(b) { Ok(p) if p == pid => {} x => return bad(who, format!("the client talks to the shell {} when it has its terminal back", pid), format!("{:?}", x)) }
    }
    unsafe { libc::kill(pid, libc::SIGKILL); }
    if !wait_for(LONG, || children(me).is_empty()) { return bad(&["P13"], "the shell that died is reaped", "it is still there"); }
    drop(cur);
    w.d.kill(&[&w.full("a")]);
    wait_for(LONG, || w.d.names().is_empty());
    std::thread::sleep(Duration::from_millis(60));
    Ok(())
}
/// a program that does not read what is typed for a while
fn stuck(w: &mut W, v: &Value) -> R<()> {
    let who: &[&'static str] = &["P10"];
    let (mark, file) = (w.d.dir.join(format!("{}mark", w.pre)), w.d.dir.join(format!("{}in", w.pre)));
    let n = v["bytes"].as_u64().unwrap_or(0) as usize;
    let hdr = |w: &W| AttachHeader { cmd: Some(format!("sh -c 'stty raw -echo; echo id=$$:up; while [ ! -e {} -a -d {} ]; do sleep 0.02; done; exec cat > {}'", mark.display(), w.d.dir.display(), file.display())), ..w.header("a", "t", None, false) };
    let a = w.d.attach_with(hdr(w));
    if !a.created() { return bad(who, "a new session", format!("{:?}", a.status)); }
    if !a.wait_data(b":up") { return bad(who, "the shell comes up", "it does not"); }
    let me = w.d.proc.id() as i32;
    let pid = children(me);
    let sent: Vec<u8> = (0..n).flat_map(|i| format!("{};", i).into_bytes()).take(n).collect();
    let mut cur = a;
    let mut own = sent.clone();
    let (k, b) = (cur.sock.try_clone().unwrap(), sent.clone());
    let t = std::thread::spawn(move || { use std::io::Write; let _ = (&k).write_all(&b); });
    std::thread::sleep(Duration::from_millis(v["pause"].as_u64().unwrap_or(200)));
    let left = v["leave"] != "stay";
    if left {
        if v["leave"] == "detach" { w.d.detach(&[&w.full("a")]); } else { cur.hang_up(); }
        if !wait_for(LONG, || w.status("a") != Some(true)) { return bad(who, "'a' has no client any more, whatever its shell does", "still attached"); }
        if w.status("a").is_none() { return bad(who, "'a' outlives its client", "it is gone from the table"); }
        cur = w.d.attach_with(hdr(w));
        if !cur.reattached() { return bad(who, "attaching to the detached 'a' reattaches, whatever its shell does", format!("{:?}", cur.status)); }
        if children(me) != pid { return bad(who, format!("'a' still has its shell {:?}", pid), format!("{:?}", children(me))); }
        own = b"<later>".to_vec();
    }
    std::fs::write(&mark, "").unwrap();
    if left { cur.send(&own); }
    let read = || std::fs::read(&file).unwrap_or_default();
    wait_for(LONG, || read().ends_with(&own));
    let _ = t.join();
    let got = read();
    let first = got.len().saturating_sub(own.len());
    if !got.ends_with(&own) || !sent.starts_with(&got[..first]) || (!left && first > 0) {
        let at = got.iter().zip(&sent).take_while(|(a, b)| a == b).count();
        return bad(&["P04"], format!("the shell gets {}", if left { "a first part of what the first client typed, then all that the second one did" } else { "all that was typed" }),
            format!("{} of {} bytes, the first {} agree; then {:?}..", got.len(), sent.len(), at, String::from_utf8_lossy(&got[at..got.len().min(at + 40)])));
    }
    drop(cur);
    w.d.kill(&[&w.full("a")]);
    wait_for(LONG, || children(me).is_empty());
    std::thread::sleep(Duration::from_millis(60));
    Ok(())
}
/// a client that does not read what its shell writes
fn deaf(w: &mut W, v: &Value) -> R<()> {
    let who: &[&'static str] = &["P15"];
    let hdr = AttachHeader { cmd: Some("sh -c 'trap \"\" HUP; while echo 0123456789012345678901234567890123456789012345678901234567890123456789; do :; done'".into()), ..w.header("a", "t", None, false) };
    let b = w.d.attach_with(AttachHeader { cmd: Some("sh -c 'trap \"\" HUP; while read l; do echo id=$$:$l\\;; done'".into()), ..w.header("b", "t", None, false) });
    if !b.created() { return bad(&[], "a new session", format!("{:?}", b.status)); }
    let mut s = w.d.connect();
    s.write_all(&enc(&ConnectHeader::Attach(hdr))).unwrap();
    let me = w.d.proc.id() as i32;
    if !wait_for(LONG, || w.status("a") == Some(true)) { return bad(&[], "a new session", "none"); }
    let pid = children(me);
    // until the shell's output is stuck for want of a reader
    std::thread::sleep(Duration::from_millis(v["pause"].as_u64().unwrap_or(1000)));
    let (a, bn) = (w.full("a"), w.full("b"));
    let names: Vec<&str> = v["names"].as_array().unwrap().iter().map(|n| if n == "a" { a.as_str() } else if n == "b" { bn.as_str() } else { "nosuch" }).collect();
    match v["how"].as_str().unwrap() {
        "msg" => {
            let r: Option<SessionMessageReply> = w.d.rpc(ConnectHeader::SessionMessage(SessionMessageRequest { session_name: a.clone(), payload: SessionMessageRequestPayload::Detach }));
            if !matches!(r, Some(SessionMessageReply::Detach(_))) { return bad(who, "a request to detach 'a' is answered although its client does not read", format!("{:?}", r)); }
        }
        how => {
            let r = if how == "cli" {
                let mut args = vec!["detach"]; args.extend(&names);
                match w.d.run(&args) { Some((0, _, _)) if !names.contains(&"nosuch") => Some((vec![], vec![])), Some((c, _, _)) if c != 0 && names.contains(&"nosuch") => Some((vec!["nosuch".to_string()], vec![])), x => return bad(who, "shpool detach ends with success exactly if all the names were attached", format!("{:?}", x)) }
            } else { w.d.detach(&names).map(|r| (r.not_found_sessions, r.not_attached_sessions)) };
            let want: Vec<String> = names.iter().filter(|n| **n == "nosuch").map(|n| n.to_string()).collect();
            if r != Some((want.clone(), vec![])) { return bad(who, format!("a request to detach {:?} is answered with the unknown names {:?} although a client does not read", names, want), format!("{:?}", r)); }
        }
    }
    for (n, x) in [("a", &a), ("b", &bn)] {
        if !(names.contains(&x.as_str()) || v["how"] == "msg" && n == "a") { if w.status(n) != Some(true) { return bad(who, format!("'{}' keeps its client", n), format!("attached: {:?}", w.status(n))); } continue; }
        if !wait_for(LONG, || w.status(n) == Some(false)) { return bad(who, format!("'{}' is still listed, without a client", n), format!("attached: {:?}", w.status(n))); }
    }
    if children(me) != pid { return bad(who, format!("the shells {:?} are still running", pid), format!("{:?}", children(me))); }
    let mut again = None;
    let freed = v["how"] == "msg" || names.contains(&a.as_str());
    if freed && !wait_for(LONG, || { let x = w.d.attach_with(w.header("a", "t", None, false)); let ok = x.reattached(); again = Some(x); ok }) { return bad(who, "the next client gets 'a'", format!("{:?}", again.map(|x| x.status.clone()))); }
    drop(again);
    drop(b);
    let r = w.d.kill(&[&a, &bn]);
    if r.is_none() { return bad(who, "the daemon goes on answering", "it does not"); }
    wait_for(LONG, || children(me).is_empty());
    std::thread::sleep(Duration::from_millis(60));
    Ok(())
}
pub fn with_live<T>(f: impl FnOnce(&mut Live) -> Result<T, Bad>) -> Result<T, Bad> {
    let mut g = LIVE.lock().unwrap_or_else(|e| e.into_inner());
    if g.is_none() {
        let d = Daemon::start("norc = true\nsession_restore_mode = \"simple\"\nmotd = \"never\"\n", &[]);
        let ev = subscribe(&d);
        // the subscription is in place once an event arrives
        let a = d.attach("warm", Some("sh -c 'read x'"));
        wait_for(LONG, || !ev.lock().unwrap().is_empty());
        drop(a);
        d.kill(&["warm"]);
        wait_for(LONG, || ev.lock().unwrap().iter().any(|x| x == "session.removed"));
        wait_for(LONG, || children(d.proc.id() as i32).is_empty());
        std::thread::sleep(Duration::from_millis(60));
        *g = Some(Live { d, n: 0, ev, base: 0 });
    }
    let l = g.as_mut().unwrap();
    l.n += 1;
    l.base = l.ev.lock().unwrap().len();
    let r = f(l);
    if r.is_err() { *g = None; }
    r
}
pub fn run(me: &'static str, v: &Value) -> CaseResult {
    let r = with_live(|l| {
        let mut w = W { d: &l.d, pre: format!("c{}.", l.n), m: BTreeMap::new(), ev: Arc::clone(&l.ev), base: l.base, want_ev: vec![], nonce: 0, ghosts: vec![] };
        if v["kind"] == "storm" { return storm(&mut w, v); }
        if v["kind"] == "stuck" { return stuck(&mut w, v); }
        if v["kind"] == "closed" { return closed(&mut w, v); }
        if v["kind"] == "deaf" { return deaf(&mut w, v); }
        if v["kind"] == "cli" {
            let r = crate::clis::case(&l.d, w.pre.clone(), v);
            // leave nothing for the next one
            wait_for(LONG, || children(l.d.proc.id() as i32).is_empty());
            std::thread::sleep(Duration::from_millis(60));
            return r;
        }
        for op in v["ops"].as_array().unwrap() { w.step(op)?; }
        if w.fuzzy() { w.expire(Duration::from_millis(0))?; }
        if me == "P12" { w.expire(Duration::from_secs(600))?; w.ghosts()?; }
        // nothing more than was to be seen
        std::thread::sleep(Duration::from_millis(15));
        if !w.fuzzy() { w.events()?; }
        let left: Vec<String> = w.m.keys().cloned().collect();
        if !left.is_empty() {
            for n in &left { let m = w.m.get_mut(n).unwrap(); m.ttl = None; }
            w.kill(&left, "")?;
        }
        w.events()
    });
    match r {
        Ok(()) => Ok(()),
        Err(b) if b.who.contains(&me) => Err((b.want, b.got)),
        Err(b) => { if std::env::var_os("ORACLE_DEBUG").is_some() { eprintln!("other: {:?} want {} got {}", b.who, b.want, b.got); } OTHER.fetch_add(1, Ordering::SeqCst); Ok(()) }
    }
}
pub struct Mix { pub attach: u64, pub race: u64, pub hangup: u64, pub detach: u64, pub kill: u64, pub exit: u64, pub die: u64, pub stop: u64, pub list: u64, pub ttl: bool, pub hup: bool, pub cli: bool, pub real: u64 }
impl Default for Mix { fn default() -> Self { Mix { attach: 6, race: 1, hangup: 3, detach: 3, kill: 2, exit: 2, die: 1, stop: 0, list: 0, ttl: false, hup: false, cli: false, real: 0 } } }
pub fn gen(r: &mut Rng, mix: &Mix, len: u64) -> Value {
    let pool = ["a", "b", "c"];
    let mut ops = vec![];
    let tot = mix.attach + mix.race + mix.hangup + mix.detach + mix.kill + mix.exit + mix.die + mix.stop + mix.list;
    for i in 0..len {
        let n = *r.pick(&pool);
        let ttl = if mix.ttl && r.chance(1, 2) { json!(r.range(2, 3)) } else { Value::Null };
        let hup = if mix.hup && r.chance(1, 6) { 1 } else { 0 };
        let mut some = |r: &mut Rng| -> Value { let c = match r.below(6) { 0 => 3, 1 | 2 => 2, _ => 1 }; json!((0..c).map(|_| *r.pick(&["a", "b", "c", "a", "b", "nosuch"])).collect::<Vec<_>>()) };
        let mut x = if i == 0 { 0 } else { r.below(tot) };
        let mut pick = |w: u64| { if x < w { true } else { x -= w; false } };
        let op = if pick(mix.attach) { json!(["attach", n, ttl, hup, r.below(50)]) }
            else if pick(mix.race) { json!(["race", n, ttl, hup, r.range(2, 4)]) }
            else if pick(mix.hangup) { json!(["hangup", n]) }
            else if pick(mix.detach) { json!(["detach", some(r), *r.pick(if mix.cli { &["", "", "msg", "cli", "env"][..] } else { &["", "", "msg"][..] })]) }
            else if pick(mix.kill) { json!(["kill", some(r), *r.pick(if mix.cli { &["", "", "cli", "env"][..] } else { &[""][..] })]) }
            else if pick(mix.exit) { json!(["exit", n, *r.pick(&[0, 1, 3, 127, 255, 256 + 9, 256 + 15])]) }
            else if pick(mix.die) { json!(["die", n]) }
            else if pick(mix.stop) { json!(["stop", n]) }
            else { json!(["list"]) };
        ops.push(op);
    }
    json!({"ops": ops})
}
/// fixed histories first, then generated ones until the time is up
pub fn search(cx: &mut Ctx, fixed: &[Value], mix: &Mix, storms: u64) {
    for f in fixed { if cx.expired() { return; } cx.case(f.clone()); }
    let n = if cx.thorough { 100_000 } else { 2_000 };
    for i in 0..n {
        if cx.expired() { return; }
        if storms > 0 && i % storms == storms - 1 {
            let s = cx.rng.below(1 << 30);
            let (k, st, ex) = (cx.rng.range(2, 5), cx.rng.range(4, 14), cx.rng.chance(1, 2));
            cx.case(json!({"kind": "storm", "k": k, "steps": st, "excl": ex, "seed": s}));
            continue;
        }
        if mix.real > 0 && i % mix.real == 0 {
            let v = crate::clis::gen(&mut cx.rng, mix.ttl);
            cx.case(v);
            continue;
        }
        let len = cx.rng.range(3, 12);
        let v = gen(&mut cx.rng, mix, len);
        cx.case(v);
    }
}
pub fn shrink(v: &Value) -> Vec<Value> {
    if v["kind"] == "storm" || v["kind"] == "stuck" { return vec![]; }
    if v["kind"] == "deaf" { return crate::shrink_list(v["names"].as_array().unwrap()).into_iter().map(|q| { let mut w = v.clone(); w["names"] = json!(q); w }).collect(); }
    if v["kind"] == "closed" { return crate::shrink_list(v["leave"].as_array().unwrap()).into_iter().map(|q| { let mut w = v.clone(); w["leave"] = json!(q); w }).collect(); }
    crate::shrink_list(v["ops"].as_array().unwrap()).into_iter().map(|q| { let mut w = v.clone(); w["ops"] = json!(q); w }).collect()
}
