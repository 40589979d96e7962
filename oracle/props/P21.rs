use std::io::BufRead;
use std::os::fd::IntoRawFd;
use std::os::unix::fs::MetadataExt;
use std::os::unix::net::{UnixListener, UnixStream};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use crate::e2e::*;
pub const RULE: &str = "real daemons on one socket: started by hand, by a command (from a terminal or not, with absolute or relative paths, several commands at once), or with a socket handed over, over nothing, a stale socket, a stale pid file or a daemon that is there; ended by each signal or killed outright; which processes serve, what they hold, what files are there and what the sessions say, in generated order; distinct = distinct input";
pub const BOUND: &str = "up to 10 steps per history, up to 6 commands at once";

fn s(v: &Value) -> &str { v.as_str().unwrap_or("") }
const AUTO: &str = "SHPOOL__INTERNAL__AUTODAEMONIZE";
const FILES: [&str; 3] = ["s", "events.socket", "daemonized-shpool.pid"];
#[derive(Clone, Copy, PartialEq, Debug)]
enum How { Hand, Auto, Handed }
struct World { dir: PathBuf, up: Option<(i32, How)>, kids: Vec<Child>, pids: Vec<i32>, sessions: Vec<String>, serial: usize, handed: Option<UnixListener>, umask: u32, mark: usize }
impl Drop for World {
    fn drop(&mut self) {
        for _ in 0..3 { for p in self.all() { unsafe { libc::kill(p, libc::SIGKILL); } } }
        for p in &self.pids { unsafe { libc::kill(*p, libc::SIGKILL); } }
        for k in &mut self.kids { let _ = k.kill(); let _ = k.wait(); }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn stat(pid: i32) -> Option<Vec<String>> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    Some(t[t.rfind(')')? + 2..].split(' ').map(|x| x.to_string()).collect())
}
/// (a thread that is still on its way out holds on to everything)
fn alive(pid: i32) -> bool { stat(pid).map(|f| f[0] != "Z" || f[17].parse::<i32>().unwrap_or(0) > 1).unwrap_or(false) }
fn err<T>(e: impl Into<String>, a: impl Into<String>) -> Result<T, (String, String)> { Err((e.into(), a.into())) }
impl World {
    fn new(umask: u32) -> World {
        let dir = scratch();
        let w = World { dir, up: None, kids: vec![], pids: vec![], sessions: vec![], serial: 0, handed: None, umask, mark: 0 };
        w.configure();
        w
    }
    fn configure(&self) {
        std::fs::write(self.dir.join("c.tmp"), format!("norc = true\nsession_restore_mode = \"simple\"\n[env]\nMARK = \"m{}\"\n", self.mark)).unwrap();
        std::fs::rename(self.dir.join("c.tmp"), self.dir.join("c.toml")).unwrap();
    }
    /// the daemons of this directory: processes of this program that run as one
    fn serving(&self) -> Vec<i32> {
        // children of a daemon on their way to be a session's shell do not count
        let all = self.all();
        all.iter().copied().filter(|p| stat(*p).and_then(|f| f[1].parse::<i32>().ok()).map(|pp| !all.contains(&pp)).unwrap_or(false)).collect()
    }
    fn all(&self) -> Vec<i32> {
        let mut v = vec![];
        for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
            let Some(pid) = e.file_name().to_str().and_then(|x| x.parse::<i32>().ok()) else { continue };
            let Ok(c) = std::fs::read(format!("/proc/{}/cmdline", pid)) else { continue };
            let args: Vec<_> = c.split(|b| *b == 0).map(|x| String::from_utf8_lossy(x).to_string()).collect();
            if !args.iter().any(|a| a == "daemon") { continue; }
            let sock = args.iter().position(|a| a == "--socket").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
            let ours = PathBuf::from(&sock) == self.dir.join("s") || (sock == "s" && std::fs::read_link(format!("/proc/{}/cwd", pid)).map(|x| x == self.dir).unwrap_or(false));
            if ours && alive(pid) && !v.contains(&pid) { v.push(pid); }
        }
        v
    }
    fn command(&self, rel: bool) -> Command {
        let mut c = Command::new(std::env::current_exe().unwrap());
        let d = self.dir.display().to_string();
        c.env_clear().env("HOME", &d).env("XDG_RUNTIME_DIR", format!("{}/run", d)).env("PATH", "/usr/bin:/bin").env("TERM", "xterm").env("USER", "root").env("SHELL", "/bin/bash").env("ORACLE_AS_SHPOOL", "1");
        c.current_dir(&self.dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        if rel { c.args(["--socket", "s", "--config-file", "c.toml"]); } else { c.arg("--socket").arg(self.dir.join("s")).arg("--config-file").arg(self.dir.join("c.toml")); }
        let m = self.umask;
        unsafe { c.pre_exec(move || { libc::umask(m as libc::mode_t); libc::dup2(0, 77); Ok(()) }); }
        c
    }
    /// a session whose shell tells what it runs in, made by a command that may have to start a daemon
    fn attach(&mut self, rel: bool) -> (Command, String) {
        self.serial += 1;
        let n = format!("x{}", self.serial);
        let mut c = self.command(rel);
        let f = self.dir.join(&n);
        c.arg("--daemonize").args(["attach", "-b", "--cmd"]).arg(format!("/bin/sh -c 'umask > {0}.t; echo $MARK >> {0}.t; echo made > {0}.f; echo ${1} >> {0}.t; mv {0}.t {0}; exec sleep 1000'", f.display(), AUTO)).arg(&n);
        (c, n)
    }
    /// what the session's shell found
    fn told(&mut self, n: String) -> CaseResult {
        let f = self.dir.join(&n);
        if !wait_for(LONG, || f.exists()) { return err(format!("session {} runs its command", n), "it does not"); }
        let t = std::fs::read_to_string(&f).unwrap();
        let want = format!("{:04o}\nm{}\n\n", self.umask, self.mark);
        if t != want { return err(format!("a session has the user's file creation mask, the configuration's variable and no trace of how the daemon came to be: {:?}", want), format!("{:?}", t)); }
        let mode = std::fs::metadata(self.dir.join(format!("{}.f", n))).unwrap().mode() & 0o777;
        if mode != 0o666 & !self.umask { return err(format!("what a session makes has mode {:o}", 0o666 & !self.umask), format!("{:o}", mode)); }
        self.sessions.push(n);
        Ok(())
    }
    fn names(&self) -> Option<Vec<String>> {
        let c = UnixStream::connect(self.dir.join("s")).ok()?;
        c.set_read_timeout(Some(LONG)).ok()?;
        let _: VersionHeader = dec(&c)?;
        std::io::Write::write_all(&mut &c, &enc(&ConnectHeader::List)).ok()?;
        let mut v: Vec<String> = dec::<ListReply, _>(&c)?.sessions.into_iter().map(|x| x.name).collect();
        v.sort();
        Some(v)
    }
    fn files(&self) -> Vec<(String, u64, Vec<u8>)> {
        FILES.iter().filter_map(|f| {
            let p = self.dir.join(f);
            let m = std::fs::symlink_metadata(&p).ok()?;
            Some((f.to_string(), m.ino(), if m.is_file() { std::fs::read(&p).unwrap_or_default() } else { vec![] }))
        }).collect()
    }
    /// exactly one daemon serves, with all its sessions, its files there; a subscriber hears of a session
    fn check(&mut self, what: &str) -> CaseResult {
        let Some((pid, how)) = self.up else {
            // whoever lost the race is gone soon
            if !wait_for(LONG, || self.serving().is_empty()) { return err(format!("no daemon runs after {}", what), format!("{:?} do", self.serving())); }
            return Ok(());
        };
        if !wait_for(LONG, || self.serving() == [pid]) { return err(format!("exactly one daemon, {}, runs after {}", pid, what), format!("{:?} do", self.serving())); }
        let names = self.names();
        let mut want = self.sessions.clone();
        want.sort();
        if names.as_ref() != Some(&want) { return err(format!("the sessions are {:?} after {}", want, what), format!("{:?}", names)); }
        let there: Vec<String> = self.files().into_iter().map(|f| f.0).collect();
        let want: Vec<String> = FILES.iter().filter(|f| **f != FILES[2] || how == How::Auto).map(|f| f.to_string()).collect();
        let missing: Vec<_> = want.iter().filter(|f| !there.contains(f)).collect();
        if !missing.is_empty() { return err(format!("{:?} are there after {}", want, what), format!("{:?}", there)); }
        if how == How::Auto {
            let said = std::fs::read_to_string(self.dir.join(FILES[2])).unwrap_or_default();
            if said != format!("{}\n", pid) { return err(format!("the pid file says {}", pid), format!("{:?}", said)); }
            let cwd = std::fs::read_link(format!("/proc/{}/cwd", pid)).unwrap_or_default();
            if cwd != PathBuf::from("/") { return err("the daemon stays in no directory of the user's", format!("it is in {:?}", cwd)); }
            for fd in 0..3 {
                let f = std::fs::read_link(format!("/proc/{}/fd/{}", pid, fd)).unwrap_or_default();
                if f != PathBuf::from("/dev/null") { return err(format!("descriptor {} of the daemon is /dev/null", fd), format!("{:?}", f)); }
            }
            let f = stat(pid).unwrap_or_default();
            if f.get(4).map(|x| x.as_str()) != Some("0") { return err("the daemon has no controlling terminal", format!("{:?}", f)); }
            if f.get(3) == Some(&pid.to_string()) { return err("the daemon can't come by a controlling terminal: it leads no session", "it does"); }
            let mine = stat(std::process::id() as i32).unwrap_or_default();
            if f.get(3) == mine.get(3) { return err("the daemon is in a session of its own", "it is in that of the command"); }
        }
        // the events socket is this daemon's
        let Ok(sub) = UnixStream::connect(self.dir.join("events.socket")) else { return err("events can be subscribed to", "they can't") };
        sub.set_read_timeout(Some(LONG)).unwrap();
        let (mut c, n) = self.attach(false);
        let r = finish(c.spawn().unwrap(), Duration::from_secs(25));
        if r.as_ref().map(|r| r.0) != Some(0) { return err(format!("a session is made after {}", what), format!("{:?}", r)); }
        self.told(n)?;
        // (of the one before, it may hear that it was left)
        let (mut line, mut r) = (String::new(), std::io::BufReader::new(&sub));
        for _ in 0..4 { line.clear(); if r.read_line(&mut line).unwrap_or(0) == 0 || line.contains("session.created") { break; } }
        if !line.contains("session.created") { return err(format!("subscribers hear of a new session after {}", what), format!("{:?}", line)); }
        if self.serving() != [pid] { return err(format!("the daemon {} still serves, alone, after {}", pid, what), format!("{:?} run", self.serving())); }
        Ok(())
    }
    fn comes_up(&self) -> bool { wait_for(LONG, || UnixStream::connect(self.dir.join("s")).is_ok()) }
    fn by_hand(&mut self, rel: bool, handed: bool) -> Child {
        let mut c = self.command(rel);
        c.arg("--log-file").arg(self.dir.join("log")).arg("daemon");
        if handed {
            let l = match &self.handed { Some(l) => l.try_clone().unwrap(), None => {
                let _ = std::fs::remove_file(self.dir.join("s"));
                let l = UnixListener::bind(self.dir.join("s")).unwrap();
                self.handed = Some(l.try_clone().unwrap());
                l
            } };
            let fd = l.into_raw_fd();
            c.env("LISTEN_FDS", "1");
            unsafe { c.pre_exec(move || { if fd == 3 { libc::fcntl(3, libc::F_SETFD, 0); } else { libc::dup2(fd, 3); } Ok(()) }); }
            let k = c.spawn().unwrap();
            unsafe { libc::close(fd); }
            return k;
        }
        c.spawn().unwrap()
    }
    fn step(&mut self, o: &Value) -> CaseResult {
        let rel = o["rel"] == true;
        match s(&o["op"]) {
            "hand" => {
                let mut k = self.by_hand(rel, false);
                if self.up.is_some() || self.handed.is_some() { return self.turned_away(k, o); }
                if !self.comes_up() || !wait_for(LONG, || self.names().is_some()) { let _ = k.kill(); return err("a daemon started by hand comes up", format!("after {}", o)); }
                self.up = Some((k.id() as i32, How::Hand));
                self.kids.push(k);
            }
            "handed" if self.up.is_none() => {
                let k = self.by_hand(rel, true);
                self.up = Some((k.id() as i32, How::Handed));
                self.kids.push(k);
                if !wait_for(LONG, || self.dir.join("events.socket").exists()) || self.names().is_none() { return err("a daemon that was handed its socket comes up", format!("after {}", o)); }
            }
            // commands that need a daemon, n of them at once
            "auto" if self.handed.is_none() || self.up.is_some() => {
                let n = o["n"].as_u64().unwrap_or(1);
                let mut l = vec![];
                for _ in 0..n {
                    let (c, name) = self.attach(rel);
                    l.push((c, name));
                }
                if o["tty"] == true {
                    for (c, name) in l {
                        let mut p = Pty::spawn(c, 24, 80);
                        let r = p.wait_exit(Duration::from_secs(25));
                        if r != Some(0) { return err(format!("the command from a terminal works: {}", o), format!("{:?}: {}", r, String::from_utf8_lossy(&p.out()))); }
                        self.told(name)?;
                    }
                } else {
                    let ps: Vec<_> = l.into_iter().map(|(mut c, name)| { c.stdout(Stdio::piped()).stderr(Stdio::piped()); (c.spawn().unwrap(), name) }).collect();
                    let mut rs = vec![];
                    for (p, name) in ps { rs.push((finish(p, Duration::from_secs(30)), name)); }
                    for (r, name) in rs {
                        if r.as_ref().map(|r| r.0) != Some(0) { return err(format!("every command finds a daemon: {}", o), format!("{}: {:?}", name, r)); }
                        self.told(name)?;
                    }
                }
                if self.up.is_none() {
                    if !wait_for(LONG, || self.serving().len() == 1) { return err(format!("exactly one daemon runs after {}", o), format!("{:?}", self.serving())); }
                    let pid = self.serving()[0];
                    self.pids.push(pid);
                    self.up = Some((pid, How::Auto));
                }
            }
            // one more, as a command would start it
            "again" if self.up.is_some() => {
                let mut c = self.command(rel);
                c.env(AUTO, "true").arg("--log-file").arg(self.dir.join("log2")).arg("daemon");
                let k = c.spawn().unwrap();
                return self.turned_away(k, o);
            }
            "stop" => if let Some((pid, how)) = self.up.take() {
                let had_pid = self.dir.join(FILES[2]).exists();
                let sig = match s(&o["sig"]) { "INT" => libc::SIGINT, "QUIT" => libc::SIGQUIT, "KILL" => libc::SIGKILL, _ => libc::SIGTERM };
                unsafe { libc::kill(pid, sig); }
                self.sessions.clear();
                let kids = &mut self.kids;
                let code = std::cell::Cell::new(None);
                let gone = wait_for(LONG, || {
                    if let Some(k) = kids.iter_mut().find(|k| k.id() as i32 == pid) { if alive(pid) { return false; } if let Ok(Some(x)) = k.try_wait() { code.set(Some(x)); return true; } return false; }
                    !alive(pid)
                });
                if !gone { return err(format!("a daemon that gets {} ends", o), "it does not"); }
                if sig != libc::SIGKILL {
                    if let Some(x) = code.get() { if x.code() != Some(0) { return err(format!("it ends well on {}", o), format!("{:?}", x)); } }
                    let left: Vec<String> = self.files().into_iter().map(|f| f.0).collect();
                    let mut want: Vec<String> = if how == How::Handed { vec!["s".into()] } else { vec![] };
                    if how != How::Auto && had_pid { want.push(FILES[2].into()); }
                    if left != want { return err(format!("{:?} are left behind by a daemon ended by {}", want, o), format!("{:?}", left)); }
                }
            },
            // the daemon notices, in a while
            "config" => {
                self.mark += 1;
                self.configure();
                if self.up.is_some() {
                    std::thread::sleep(Duration::from_millis(300));
                    let want = format!("m{}\n", self.mark);
                    let mut last = String::new();
                    let seen = wait_for(LONG, || {
                        let (mut c, n) = self.attach(false);
                        let f = self.dir.join(&n);
                        if finish(c.spawn().unwrap(), Duration::from_secs(25)).map(|r| r.0) != Some(0) || !wait_for(LONG, || f.exists()) { return false; }
                        self.sessions.push(n);
                        last = std::fs::read_to_string(&f).unwrap_or_default().lines().nth(1).unwrap_or("").to_string() + "\n";
                        if last == want { return true; }
                        std::thread::sleep(Duration::from_millis(500));
                        false
                    });
                    if !seen { return err(format!("new sessions follow the changed configuration ({:?})", want), format!("{:?}", last)); }
                }
            }
            // what someone may have left there
            "litter" if self.up.is_none() && self.handed.is_none() => match s(&o["what"]) {
                "socket" => if !self.dir.join("s").exists() { drop(UnixListener::bind(self.dir.join("s")).unwrap()); },
                "events" => if !self.dir.join("events.socket").exists() { drop(UnixListener::bind(self.dir.join("events.socket")).unwrap()); },
                _ => std::fs::write(self.dir.join(FILES[2]), s(&o["text"])).unwrap(),
            },
            _ => {}
        }
        Ok(())
    }
    /// a daemon too many ends by itself and changes nothing
    fn turned_away(&mut self, mut k: Child, o: &Value) -> CaseResult {
        let before = self.files();
        let mut st = None;
        if !wait_for(LONG, || { st = k.try_wait().ok().flatten(); st.is_some() }) { let _ = k.kill(); let _ = k.wait(); return err(format!("a second daemon ends: {}", o), "it goes on"); }
        if self.handed.is_some() && self.up.is_none() { return Ok(()); }
        // one that daemonizes may have left its starter before it found out
        if s(&o["op"]) == "hand" && st.map(|x| x.success()) == Some(true) { return err(format!("a second daemon fails: {}", o), format!("{:?}", st)); }
        let Some((pid, how)) = self.up else { return Ok(()) };
        if !wait_for(LONG, || self.serving() == [pid]) { return err(format!("{} alone goes on running after {}", pid, o), format!("{:?}", self.serving())); }
        let mut after = self.files();
        if how != How::Auto { after.retain(|f| f.0 != FILES[2]); }
        let want: Vec<_> = before.into_iter().filter(|f| how == How::Auto || f.0 != FILES[2]).collect();
        if after != want { return err(format!("a second daemon leaves the files of the first as they are: {:?}", want), format!("{:?}", after)); }
        Ok(())
    }
}
pub fn case(v: &Value) -> CaseResult {
    let mut w = World::new(v["umask"].as_u64().unwrap_or(0o22) as u32);
    for o in v["ops"].as_array().unwrap() {
        w.step(o)?;
        w.check(&o.to_string())?;
    }
    Ok(())
}
pub fn shrink(v: &Value) -> Vec<Value> {
    let mut out = vec![];
    for t in shrink_list(v["ops"].as_array().unwrap()) { let mut w = v.clone(); w["ops"] = json!(t); out.push(w); }
    out
}
pub fn search(cx: &mut Ctx) {
    cx.case(json!({"umask": 0o27, "ops": [{"op": "auto", "tty": true, "rel": true}, {"op": "hand"}, {"op": "again"}, {"op": "config"}, {"op": "stop", "sig": "TERM"}, {"op": "auto", "n": 1}, {"op": "stop", "sig": "KILL"}, {"op": "auto", "n": 4}]}));
    cx.case(json!({"umask": 0o22, "ops": [{"op": "hand", "rel": true}, {"op": "hand"}, {"op": "again"}, {"op": "stop", "sig": "INT"}, {"op": "litter", "what": "socket"}, {"op": "hand"}, {"op": "stop", "sig": "KILL"}, {"op": "hand"}, {"op": "stop", "sig": "QUIT"}]}));
    cx.case(json!({"umask": 0o77, "ops": [{"op": "litter", "what": "pid", "text": "1234567890123\n"}, {"op": "litter", "what": "events"}, {"op": "auto", "n": 5}, {"op": "stop", "sig": "INT"}]}));
    cx.case(json!({"umask": 0o22, "ops": [{"op": "handed"}, {"op": "hand"}, {"op": "stop", "sig": "TERM"}]}));
    while !cx.expired() {
        let r = &mut cx.rng;
        let n = r.range(2, 8);
        let ops: Vec<Value> = (0..n).map(|i| match r.below(if i == 0 { 6 } else { 10 }) {
            0 => json!({"op": "hand", "rel": r.chance(1, 2)}),
            1 | 2 => json!({"op": "auto", "rel": r.chance(1, 2), "n": if r.chance(1, 3) { r.range(2, 6) } else { 1 }}),
            3 => json!({"op": "auto", "rel": r.chance(1, 2), "tty": true}),
            4 => json!({"op": "litter", "what": *r.pick(&["socket", "events", "pid"]), "text": *r.pick(&["", "1\n", "99999999\n", "x"])}),
            5 => json!({"op": "handed"}),
            6 => if r.chance(1, 2) { json!({"op": "again"}) } else { json!({"op": "config"}) },
            _ => json!({"op": "stop", "sig": *r.pick(&["TERM", "INT", "QUIT", "KILL"])}),
        }).collect();
        let m = *r.pick(&[0o22u64, 0o77, 0o2, 0o27]);
        cx.case(json!({"umask": m, "ops": ops}));
    }
}
