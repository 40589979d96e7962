H = "libshpool/src/daemon/server.rs"
E = "libshpool/src/daemon/events.rs"
D = "libshpool/src/daemonize.rs"
M = "libshpool/src/daemon/mod.rs"
R = "libshpool/src/daemon/ttl_reaper.rs"
AUTO = """
import signal
class Auto:
    def __init__(self, *args):
        self.dir = tempfile.mkdtemp(prefix="dm", dir="/tmp")
        self.env = {"HOME": self.dir, "XDG_RUNTIME_DIR": self.dir + "/run", "PATH": "/usr/bin:/bin", "TERM": "xterm", "SHELL": "/bin/bash", "USER": "root"}
        open(self.dir + "/c.toml", "w").write("")
        self.cmd = [BIN, "--socket", self.dir + "/s", "--config-file", self.dir + "/c.toml"]
        self.r, self.w = os.pipe()
        p = subprocess.run(self.cmd + ["--daemonize", "list"], env=self.env, cwd=self.dir, stdin=self.r, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
        assert p.returncode == 0
        self.pidfile = self.dir + "/daemonized-shpool.pid"
        self.pid = int(open(self.pidfile).read())
    def __enter__(self): return self
    def __exit__(self, *a):
        try: os.kill(self.pid, 9)
        except OSError: pass
        shutil.rmtree(self.dir, ignore_errors=True)
    def gone(self):
        try: return open("/proc/%d/stat" % self.pid).read().split(") ")[1][0] == "Z"
        except OSError: return True
"""
SEEDS = [
    dict(id="P13-stopped-shell", property="P13",
         edits=[(H, "libc::waitpid(waitable_child_pid, &mut status, 0)", "libc::waitpid(waitable_child_pid, &mut status, libc::WUNTRACED)")],
         py="""
import signal
with Daemon() as d:
    a = d.attach("a", cmd="/bin/sh -c 'echo up; read x; exit 7'")
    assert a.wait(b"up")
    pid = int(subprocess.run(["pgrep", "-P", str(d.proc.pid)], capture_output=True, text=True).stdout.split()[0])
    os.kill(pid, signal.SIGSTOP)
    time.sleep(1.5)
    check(not a.exit and d.names() == ["a"], "a stopped shell has not exited: %r %r" % (a.exit, d.names()))
    os.kill(pid, signal.SIGCONT)
    a.send(b"\\n")
    check(a.wait_eof() and a.exit == [7], "the shell exits with 7: %r" % a.exit)
""",
         needs="a session whose shell is stopped by a signal and goes on later",
         what="the session ends, with status 1, while its shell is only stopped"),
    dict(id="P13-high-status", property="P13",
         edits=[(H, "unpacked_status = Some(libc::WEXITSTATUS(status));", "unpacked_status = Some(libc::WEXITSTATUS(status) & 0x7f);")],
         py="""
with Daemon() as d:
    for c in (3, 127, 130, 200, 255):
        a = d.attach("a%d" % c, cmd="/bin/sh -c 'read x; exit %d'" % c)
        a.send(b"\\n")
        check(a.wait_eof() and a.exit == [c], "exit status %d: %r" % (c, a.exit))
""",
         needs="an exit status above 127",
         what="the client is told another exit status"),
    dict(id="P17-term-like", property="P17",
         edits=[(H, 'if var == "TERM" || var == "SSH_AUTH_SOCK" {\n                continue;', 'if var.starts_with("TERM") || var == "SSH_AUTH_SOCK" {\n                continue;')],
         py="""
with Daemon() as d:
    a = d.attach("a", cmd="/bin/sh -c 'echo \\"<$TERMCAP-$TERM_X>\\"; sleep 100'", local_env=[["TERM", "xterm"], ["TERM_X", "yes"], ["TERMCAP", "cap"]])
    check(a.wait(b"<cap-yes>", 5), "forwarded variables reach the session: %r" % a.data)
""",
         needs="a forwarded variable whose name starts with TERM",
         what="the session does not get that variable"),
    dict(id="P12-same-name", property="P12",
         edits=[(R, "recv(new_sess) -> new_sess_msg => {\n                    match new_sess_msg {\n", "recv(new_sess) -> new_sess_msg => {\n                    match new_sess_msg {\n                        Ok((session_name, ..)) if heap.iter().any(|r: &Reapable| r.session_name == session_name) => {\n                            info!(\"already watching {}\", session_name);\n                        }\n")],
         py="""
with Daemon() as d:
    d.attach("a", cmd="sleep 100", ttl_secs=4)
    d.kill("a")
    d.attach("a", cmd="sleep 100", ttl_secs=3)
    check(wait(lambda: d.names() == [], 8), "the second session is ended as well: %r" % d.names())
""",
         needs="a session with a time to live that gets the name of one whose time is not over yet",
         what="the new session is never ended"),
    dict(id="P18-same-group", property="P18",
         edits=[(H, "    let peer_uid = unistd::Uid::from_raw(peer_creds.uid());\n    let self_uid = unistd::Uid::current();\n    if peer_uid != self_uid {\n        return Err(anyhow!(\"shpool prohibits connections across users\"));\n    }\n\n    let peer_pid = unistd::Pid",
                 "    let peer_uid = unistd::Uid::from_raw(peer_creds.uid());\n    let self_uid = unistd::Uid::current();\n    let peer_gid = unistd::Gid::from_raw(peer_creds.gid());\n    if peer_uid != self_uid && peer_gid != unistd::Gid::current() {\n        return Err(anyhow!(\"shpool prohibits connections across users\"));\n    }\n\n    let peer_pid = unistd::Pid")],
         py="""
STRANGER = '''
import sys, os
sys.path.insert(0, sys.argv[1])
os.setresuid(65533, 65533, 65533)
import ctypes; ctypes.CDLL(None).prctl(4, 1, 0, 0, 0)
from e2e import *
s = socket.socket(socket.AF_UNIX); s.connect(sys.argv[2]); s.settimeout(10)
unpack(reader(s))
s.sendall(pack("List"))
try: print(unpack(reader(s)))
except (EOFError, OSError): print("nothing")
'''
with Daemon() as d:
    d.attach("secret", cmd="sleep 100")
    os.chmod(d.dir, 0o755); os.chmod(d.sock, 0o777)
    here = os.path.dirname(os.path.abspath(__file__))
    code = open(os.path.join(here, "e2e.py")).read()
    os.mkdir(d.dir + "/lib"); os.chmod(d.dir + "/lib", 0o755)
    open(d.dir + "/lib/e2e.py", "w").write(code); os.chmod(d.dir + "/lib/e2e.py", 0o644)
    r = subprocess.run([sys.executable, "-c", STRANGER, d.dir + "/lib", d.sock], capture_output=True, text=True, timeout=30)
    check(r.stdout.strip() == "nothing", "another user is told nothing: %r %r" % (r.stdout, r.stderr[-300:]))
""",
         needs="a connection from another user of the same group",
         what="the other user is served"),
    dict(id="P18-no-descriptor", property="P18",
         edits=[(H, '                    error!("accepting stream: {:?}", err);\n', '                    error!("accepting stream: {:?}", err);\n                    if err.raw_os_error() == Some(libc::EMFILE) {\n                        break;\n                    }\n')],
         py="""
import resource
with Daemon() as d:
    resource.prlimit(d.proc.pid, resource.RLIMIT_NOFILE, (30, 30))
    l = []
    for i in range(60):
        s = socket.socket(socket.AF_UNIX); s.settimeout(0.3)
        try: s.connect(d.sock)
        except OSError: break
        l.append(s)
    time.sleep(1)
    for s in l: s.close()
    def served():
        try: return d.list() == []
        except (EOFError, OSError): return False
    check(wait(served, 10), "the daemon serves again once the connections are gone")
""",
         needs="more connections at once than the daemon may have descriptors",
         what="the daemon ends, and all its sessions with it"),
    dict(id="P21-pid-left", property="P21",
         edits=[(M, "    if let Some(pid_guard) = pid_guard.as_ref().map(|g| g.path().clone()) {\n        socks_to_clean.push(pid_guard);\n    }\n", "")],
         py=AUTO + """
with Auto() as d:
    os.kill(d.pid, signal.SIGTERM)
    check(wait(d.gone), "the daemon ends")
    check(not os.path.exists(d.pidfile), "it leaves its pid file behind")
    check(not os.path.exists(d.dir + "/s") and not os.path.exists(d.dir + "/events.socket"), "it leaves a socket behind")
""",
         needs="a daemon that was launched by a command and is ended by a signal",
         what="its pid file stays behind"),
    dict(id="P21-pid-emptied", property="P21",
         edits=[(D, "        .truncate(false)\n", "        .truncate(true)\n")],
         py=AUTO + """
with Auto() as d:
    env = dict(d.env, SHPOOL__INTERNAL__AUTODAEMONIZE="true")
    r = subprocess.run(d.cmd + ["daemon"], env=env, cwd=d.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
    check(r.returncode != 0, "a second daemon does not start")
    check(open(d.pidfile).read() == "%d\\n" % d.pid, "the pid file names the daemon: %r" % open(d.pidfile).read())
""",
         needs="a second daemon launched while the first one runs",
         what="the running daemon's pid file is emptied"),
    dict(id="P21-stdin-held", property="P21",
         edits=[(D, "    let fd = unsafe { libc::dup2(nullfd.as_raw_fd(), libc::STDIN_FILENO) };", "    let fd = unsafe { libc::dup2(nullfd.as_raw_fd(), libc::STDOUT_FILENO) };")],
         py=AUTO + """
with Auto() as d:
    at = os.readlink("/proc/%d/fd/0" % d.pid)
    check(at == "/dev/null", "the daemon's stdin is %s" % at)
    # nobody holds the read end any more
    os.close(d.r)
    try: os.write(d.w, b"x"); check(False, "somebody still holds the command's input")
    except BrokenPipeError: pass
""",
         needs="a command that launches a daemon and has something other than /dev/null as its input",
         what="the daemon holds on to the command's terminal or input"),
]
