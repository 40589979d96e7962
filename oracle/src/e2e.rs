//! Drives the real daemon and the real command line through their public
//! surface only: sockets, ptys, files and exit codes, all inside one scratch
//! directory per daemon.
use serde::{de::DeserializeOwned, Serialize};
pub use shpool_protocol::*;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

static COUNTER: AtomicUsize = AtomicUsize::new(0);
static SCRATCH: Mutex<Vec<(i32, PathBuf)>> = Mutex::new(vec![]);

pub fn root() -> PathBuf {
    PathBuf::from("/tmp").join(format!("shv{}", std::process::id()))
}
/// end every daemon that was started and remove its scratch directory
pub fn cleanup() {
    for (pid, dir) in SCRATCH.lock().unwrap().drain(..) {
        unsafe { libc::kill(pid, libc::SIGKILL); }
        let _ = std::fs::remove_dir_all(&dir);
    }
    let _ = std::fs::remove_dir_all(root());
}
pub fn scratch() -> PathBuf {
    let n = COUNTER.fetch_add(1, Ordering::SeqCst);
    let dir = root().join(format!("d{}", n));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    dir
}
pub fn enc<T: Serialize>(v: &T) -> Vec<u8> {
    let mut out = vec![];
    let mut s = rmp_serde::Serializer::new(&mut out).with_struct_map();
    v.serialize(&mut s).unwrap();
    out
}
pub fn dec<T: DeserializeOwned, R: Read>(r: R) -> Option<T> {
    T::deserialize(&mut rmp_serde::Deserializer::new(r)).ok()
}
pub fn wait_for(timeout: Duration, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + timeout;
    let mut nap = 1;
    loop {
        if f() { return true; }
        if Instant::now() > end { return false; }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap * 2).min(20);
    }
}
pub const LONG: Duration = Duration::from_secs(12);

pub struct Daemon {
    pub dir: PathBuf,
    pub sock: PathBuf,
    pub config: PathBuf,
    pub proc: Child,
    env: Vec<(String, String)>,
}
impl Drop for Daemon {
    fn drop(&mut self) {
        let _ = self.proc.kill();
        let _ = self.proc.wait();
        let pid = self.proc.id() as i32;
        SCRATCH.lock().unwrap().retain(|(p, _)| *p != pid);
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
impl Daemon {
    pub fn start(config: &str, env: &[(&str, &str)]) -> Daemon {
        let dir = scratch();
        let (sock, cfg) = (dir.join("s"), dir.join("c.toml"));
        std::fs::write(&cfg, config).unwrap();
        let mut e: Vec<(String, String)> = vec![("HOME".into(), dir.display().to_string()), ("XDG_RUNTIME_DIR".into(), dir.join("run").display().to_string()),
            ("PATH".into(), "/usr/bin:/bin:/usr/sbin:/sbin".into()), ("TERM".into(), "xterm".into()), ("USER".into(), "root".into()),
            ("SHELL".into(), "/bin/bash".into()), ("LANG".into(), "C.UTF-8".into())];
        for (k, v) in env { e.push((k.to_string(), v.to_string())); }
        let mut c = Self::command(&dir, &sock, &cfg, &e);
        c.arg("--log-file").arg(dir.join("log")).arg("daemon");
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        // something of the daemon's own that no shell may get hold of
        unsafe { c.pre_exec(|| { libc::dup2(0, 77); Ok(()) }); }
        let proc = c.spawn().unwrap();
        SCRATCH.lock().unwrap().push((proc.id() as i32, dir.clone()));
        let d = Daemon { dir, sock, config: cfg, proc, env: e };
        assert!(wait_for(LONG, || UnixStream::connect(&d.sock).is_ok()), "daemon did not come up");
        d
    }
    fn command(dir: &Path, sock: &Path, cfg: &Path, env: &[(String, String)]) -> Command {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.env_clear();
        for (k, v) in env { c.env(k, v); }
        c.env("ORACLE_AS_SHPOOL", "1");
        c.current_dir(dir);
        c.arg("--socket").arg(sock).arg("--config-file").arg(cfg);
        unsafe { c.pre_exec(|| { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL); Ok(()) }); }
        c
    }
    /// the shpool command line, talking to this daemon
    pub fn cli(&self, args: &[&str]) -> Command {
        let mut c = Self::command(&self.dir, &self.sock, &self.config, &self.env);
        c.arg("--no-daemonize").args(args);
        c.stdin(Stdio::null());
        c
    }
    /// run it to its end (or None after 20 s): exit code, stdout, stderr
    pub fn run(&self, args: &[&str]) -> Option<(i32, String, String)> {
        let mut c = self.cli(args);
        c.stdout(Stdio::piped()).stderr(Stdio::piped());
        finish(c.spawn().unwrap(), Duration::from_secs(20))
    }
    pub fn connect(&self) -> UnixStream {
        let s = UnixStream::connect(&self.sock).unwrap();
        let v: Option<VersionHeader> = dec(&s);
        assert!(v.is_some(), "no version header");
        s
    }
    pub fn rpc<T: DeserializeOwned>(&self, h: ConnectHeader) -> Option<T> {
        let mut s = self.connect();
        s.set_read_timeout(Some(LONG)).unwrap();
        s.write_all(&enc(&h)).unwrap();
        dec(&s)
    }
    pub fn list(&self) -> Vec<Session> {
        self.rpc::<ListReply>(ConnectHeader::List).map(|r| r.sessions).unwrap_or_default()
    }
    pub fn names(&self) -> Vec<String> {
        let mut v: Vec<String> = self.list().into_iter().map(|s| s.name).collect();
        v.sort();
        v
    }
    pub fn detach(&self, names: &[&str]) -> Option<DetachReply> {
        self.rpc(ConnectHeader::Detach(DetachRequest { sessions: names.iter().map(|s| s.to_string()).collect() }))
    }
    pub fn kill(&self, names: &[&str]) -> Option<KillReply> {
        self.rpc(ConnectHeader::Kill(KillRequest { sessions: names.iter().map(|s| s.to_string()).collect() }))
    }
    pub fn set_var(&self, k: &str, v: Option<&str>) -> Option<ModifyVarReply> {
        self.rpc(ConnectHeader::ModifyVar(ModifyVarRequest { var: k.into(), val: v.map(|s| s.to_string()) }))
    }
    pub fn attach(&self, name: &str, cmd: Option<&str>) -> Att {
        self.attach_with(AttachHeader { name: name.into(), name_template: name.into(), cmd: cmd.map(|s| s.into()),
            local_tty_size: TtySize { rows: 24, cols: 80, xpixel: 0, ypixel: 0 },
            local_env: vec![("TERM".into(), "xterm".into())], ..Default::default() })
    }
    pub fn attach_with(&self, h: AttachHeader) -> Att {
        let (s, st) = self.attach_unread(h);
        Att::new(s, st)
    }
    /// a client that reads nothing yet but the reply
    pub fn attach_unread(&self, h: AttachHeader) -> (UnixStream, Option<AttachStatus>) {
        let mut s = self.connect();
        s.set_read_timeout(Some(LONG)).unwrap();
        s.write_all(&enc(&ConnectHeader::Attach(h))).unwrap();
        let reply: Option<AttachReplyHeader> = dec(&s);
        s.set_read_timeout(None).unwrap();
        (s, reply.map(|r| r.status))
    }
}
pub fn finish(mut p: Child, limit: Duration) -> Option<(i32, String, String)> {
    use std::os::unix::process::ExitStatusExt;
    let (mut o, mut e) = (p.stdout.take(), p.stderr.take());
    let th = std::thread::spawn(move || { let mut s = vec![]; if let Some(o) = o.as_mut() { let _ = o.read_to_end(&mut s); } s });
    let te = std::thread::spawn(move || { let mut s = vec![]; if let Some(e) = e.as_mut() { let _ = e.read_to_end(&mut s); } s });
    let mut st = None;
    if !wait_for(limit, || { st = p.try_wait().ok().flatten(); st.is_some() }) {
        let _ = p.kill();
        let _ = p.wait();
        return None;
    }
    let st = st.unwrap();
    let code = st.code().unwrap_or_else(|| 1000 + st.signal().unwrap_or(0));
    Some((code, String::from_utf8_lossy(&th.join().unwrap()).into(), String::from_utf8_lossy(&te.join().unwrap()).into()))
}

#[derive(Default, Clone)]
pub struct Seen {
    pub data: Vec<u8>,
    pub frames: Vec<(u8, Vec<u8>)>,
    pub exit: Vec<i32>,
    pub switches: Vec<Vec<u8>>,
    pub heartbeats: usize,
    pub eof: bool,
    /// the byte stream was not a sequence of well-formed frames
    pub broken: bool,
}
/// one attached client speaking the wire protocol itself
pub struct Att {
    pub sock: UnixStream,
    pub status: Option<AttachStatus>,
    seen: Arc<(Mutex<Seen>, Condvar)>,
}
impl Drop for Att {
    fn drop(&mut self) { let _ = self.sock.shutdown(std::net::Shutdown::Both); }
}
impl Att {
    pub fn new(sock: UnixStream, status: Option<AttachStatus>) -> Att {
        let seen = Arc::new((Mutex::new(Seen::default()), Condvar::new()));
        let (mut s, sh) = (sock.try_clone().unwrap(), Arc::clone(&seen));
        std::thread::spawn(move || {
            let put = |f: &mut dyn FnMut(&mut Seen)| { f(&mut sh.0.lock().unwrap()); sh.1.notify_all(); };
            loop {
                let mut k = [0u8; 1];
                if s.read_exact(&mut k).is_err() { put(&mut |x| x.eof = true); return; }
                let mut l = [0u8; 4];
                let n = if k[0] == 2 { 4 } else {
                    if s.read_exact(&mut l).is_err() { put(&mut |x| { x.eof = true; x.broken = true }); return; }
                    u32::from_le_bytes(l) as usize
                };
                if k[0] > 3 || n > 16 * 1024 * 1024 { put(&mut |x| { x.eof = true; x.broken = true }); return; }
                let mut b = vec![0u8; n];
                if s.read_exact(&mut b).is_err() { put(&mut |x| { x.eof = true; x.broken = true }); return; }
                put(&mut |x| {
                    match k[0] {
                        0 => x.data.extend_from_slice(&b),
                        1 => x.heartbeats += 1,
                        2 => x.exit.push(i32::from_le_bytes([b[0], b[1], b[2], b[3]])),
                        _ => x.switches.push(b.clone()),
                    }
                    if k[0] != 1 { x.frames.push((k[0], b.clone())); }
                });
            }
        });
        Att { sock, status, seen }
    }
    pub fn created(&self) -> bool { matches!(self.status, Some(AttachStatus::Created { .. })) }
    pub fn reattached(&self) -> bool { matches!(self.status, Some(AttachStatus::Attached { .. })) }
    pub fn busy(&self) -> bool { matches!(self.status, Some(AttachStatus::Busy)) }
    pub fn send(&self, b: &[u8]) -> bool { (&self.sock).write_all(b).is_ok() }
    pub fn seen(&self) -> Seen { self.seen.0.lock().unwrap().clone() }
    pub fn wait(&self, limit: Duration, f: impl Fn(&Seen) -> bool) -> bool {
        let end = Instant::now() + limit;
        let mut g = self.seen.0.lock().unwrap();
        while !f(&g) {
            let now = Instant::now();
            if now >= end { return false; }
            g = self.seen.1.wait_timeout(g, (end - now).min(Duration::from_millis(100))).unwrap().0;
        }
        true
    }
    pub fn wait_data(&self, needle: &[u8]) -> bool { self.wait(LONG, |s| contains(&s.data, needle)) }
    pub fn wait_eof(&self) -> bool { self.wait(LONG, |s| s.eof) }
    pub fn clear(&self) { let mut g = self.seen.0.lock().unwrap(); g.data.clear(); g.frames.clear(); g.switches.clear(); }
    pub fn hang_up(&self) { let _ = self.sock.shutdown(std::net::Shutdown::Both); }
}
pub fn contains(hay: &[u8], needle: &[u8]) -> bool {
    needle.is_empty() || hay.windows(needle.len()).any(|w| w == needle)
}

/// a command line run on its own pty
pub struct Pty {
    pub master: std::fs::File,
    pub proc: Child,
    out: Arc<Mutex<Vec<u8>>>,
    slave: i32,
}
impl Drop for Pty {
    fn drop(&mut self) {
        let _ = self.proc.kill();
        let _ = self.proc.wait();
        unsafe { libc::close(self.slave); }
    }
}
impl Pty {
    pub fn spawn(c: Command, rows: u16, cols: u16) -> Pty { Pty::spawn_with(c, rows, cols, false) }
    /// piped: what the command prints goes to a pipe rather than the terminal
    pub fn spawn_with(mut c: Command, rows: u16, cols: u16, piped: bool) -> Pty {
        let (mut m, mut s) = (0, 0);
        let ws = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        assert_eq!(unsafe { libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), &ws as *const _ as *mut _) }, 0);
        unsafe { libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC); libc::fcntl(s, libc::F_SETFD, libc::FD_CLOEXEC); }
        let dup = |fd| unsafe { Stdio::from_raw_fd(libc::dup(fd)) };
        c.stdin(dup(s)).stdout(if piped { Stdio::piped() } else { dup(s) }).stderr(dup(s));
        unsafe { c.pre_exec(|| { libc::setsid(); libc::ioctl(0, libc::TIOCSCTTY, 0); Ok(()) }); }
        let mut proc = c.spawn().unwrap();
        drop(c);
        let master = unsafe { std::fs::File::from_raw_fd(m) };
        let out = Arc::new(Mutex::new(vec![]));
        let o = Arc::clone(&out);
        let mut r: Box<dyn Read + Send> = match proc.stdout.take() { Some(p) => Box::new(p), None => Box::new(master.try_clone().unwrap()) };
        std::thread::spawn(move || {
            let mut b = [0u8; 8192];
            while let Ok(n) = r.read(&mut b) { if n == 0 { break; } o.lock().unwrap().extend_from_slice(&b[..n]); }
        });
        Pty { master, proc, out, slave: s }
    }
    pub fn out(&self) -> Vec<u8> { self.out.lock().unwrap().clone() }
    pub fn send(&mut self, b: &[u8]) { let _ = self.master.write_all(b); }
    pub fn wait_out(&self, needle: &[u8]) -> bool { wait_for(LONG, || contains(&self.out(), needle)) }
    pub fn wait_exit(&mut self, limit: Duration) -> Option<i32> {
        use std::os::unix::process::ExitStatusExt;
        let mut st = None;
        let p = &mut self.proc;
        wait_for(limit, || { st = p.try_wait().ok().flatten(); st.is_some() });
        st.map(|s| s.code().unwrap_or_else(|| 1000 + s.signal().unwrap_or(0)))
    }
    pub fn resize(&self, rows: u16, cols: u16) {
        let ws = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ, &ws); }
    }
    /// the terminal's settings, as the tty driver reports them
    pub fn termios(&self) -> String {
        let mut t: libc::termios = unsafe { std::mem::zeroed() };
        unsafe { libc::tcgetattr(self.slave, &mut t); }
        format!("{:o} {:o} {:o} {:o} {:?}", t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc)
    }
}

static WINCH: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// for every line on stdin, the size of its terminal and how many window-change signals it got so far
pub fn probe_winsize() {
    extern "C" fn note(_: libc::c_int) { WINCH.fetch_add(1, std::sync::atomic::Ordering::SeqCst); }
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = note as *const () as usize;
        sa.sa_flags = libc::SA_RESTART;
        libc::sigaction(libc::SIGWINCH, &sa, std::ptr::null_mut());
    }
    println!("probe");
    let mut l = String::new();
    while { l.clear(); std::io::stdin().read_line(&mut l).unwrap_or(0) > 0 } {
        let mut w = libc::winsize { ws_row: 0, ws_col: 0, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { libc::ioctl(0, libc::TIOCGWINSZ, &mut w); }
        println!("<{} {} {} {} {}>", w.ws_row, w.ws_col, w.ws_xpixel, w.ws_ypixel, WINCH.load(std::sync::atomic::Ordering::SeqCst));
    }
}

/// what a program finds itself started with; then, line by line, what it is told until "probe-now", before it tells
pub fn probe_shell() {
    use serde_json::json;
    let fds: Vec<String> = { let mut v: Vec<i32> = std::fs::read_dir("/proc/self/fd").unwrap().filter_map(|e| e.ok()?.file_name().to_str()?.parse().ok()).collect();
        v.sort(); v.into_iter().filter_map(|n| Some(format!("{} {}", n, std::fs::read_link(format!("/proc/self/fd/{}", n)).ok()?.display()))).collect() };
    let mut t: libc::termios = unsafe { std::mem::zeroed() };
    let tty = unsafe { libc::tcgetattr(0, &mut t) } == 0;
    let echo = t.c_lflag & libc::ECHO != 0;
    let args: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().into_owned()).collect();
    let mut env: Vec<(String, String)> = std::env::vars_os().map(|(k, v)| (k.to_string_lossy().into_owned(), v.to_string_lossy().into_owned())).collect();
    env.sort();
    let exe = std::fs::read_link("/proc/self/exe").map(|p| p.display().to_string()).unwrap_or_default();
    let own = unsafe { libc::getsid(0) == libc::getpid() && libc::tcgetpgrp(0) == libc::getpid() };
    let mut report = json!({"args": args, "env": env, "dir": std::env::current_dir().map(|p| p.display().to_string()).unwrap_or_default(), "fds": fds, "tty": tty, "echo": echo, "exe": exe, "own": own});
    println!("probe-ready");
    let (mut l, mut told) = (String::new(), vec![]);
    while { l.clear(); std::io::stdin().read_line(&mut l).unwrap_or(0) > 0 } {
        let t = l.trim_end_matches(&['\n', '\r'][..]).to_string();
        if t == "probe-now" {
            report["told"] = json!(told);
            println!("[{}]", crate::hex(report.to_string().as_bytes()));
        } else if t.contains("SHPOOL__INTERNAL__PRINT_SENTINEL=") {
            told.push("(sentinel)".into());
            let _ = Command::new("/bin/sh").arg("-c").arg(&t).status();
        } else { told.push(t); }
    }
}

/// a nonblocking listener that has nobody waiting takes its time to say so if ORACLE_SLOW_ACCEPT (ms) is set
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: libc::c_int, addr: *mut libc::sockaddr, len: *mut libc::socklen_t, flags: libc::c_int) -> libc::c_int {
    static SLOW: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
    let r = libc::syscall(libc::SYS_accept4, fd, addr, len, flags) as libc::c_int;
    if r < 0 {
        let e = *libc::__errno_location();
        let ms = *SLOW.get_or_init(|| std::env::var("ORACLE_SLOW_ACCEPT").ok().and_then(|v| v.parse().ok()).unwrap_or(0));
        if e == libc::EAGAIN && ms > 0 { std::thread::sleep(Duration::from_millis(ms)); }
        *libc::__errno_location() = e;
    }
    r
}
