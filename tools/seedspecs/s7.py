H = "libshpool/src/daemon/server.rs"
A = "libshpool/src/attach.rs"
R = "libshpool/src/daemon/ttl_reaper.rs"
SUB = """
def sub(d):
    s = socket.socket(socket.AF_UNIX); s.connect(d.dir + "/events.socket")
    got = []
    def rd():
        for l in s.makefile(): got.append(json.loads(l)["type"].split(".")[1])
    threading.Thread(target=rd, daemon=True).start()
    time.sleep(0.3)
    return got
"""
CLI = """
import pty, fcntl, termios, signal
class Cli:
    # `shpool attach` with a terminal of its own
    def __init__(self, d, *args, size=(24, 80)):
        self.pid, self.fd = pty.fork()
        if self.pid == 0:
            time.sleep(0.2)
            os.execve(BIN, [BIN, "--no-daemonize", "--socket", d.sock, "--config-file", d.cfg, "attach", *args], d.env)
        self.resize(*size)
        self.data = b""
        def loop():
            try:
                while True:
                    b = os.read(self.fd, 4096)
                    if not b: break
                    self.data += b
            except OSError: pass
        threading.Thread(target=loop, daemon=True).start()
    def resize(self, rows, cols): fcntl.ioctl(self.fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
    def wait(self, needle, secs=10): return wait(lambda: needle in self.data, secs)
    def end(self):
        try: os.kill(self.pid, 9)
        except OSError: pass
        os.waitpid(self.pid, 0)
"""
SEEDS = [
    dict(id="P23-ghost-removed", property="P23",
         edits=[(R, "                              reapable.session_name);\n                        continue;\n                    }\n                    shells.remove", "                              reapable.session_name);\n                    }\n                    shells.remove")],
         py=SUB + """
with Daemon() as d:
    got = sub(d)
    d.attach("a", cmd="sleep 100", ttl_secs=2)
    d.kill("a")
    time.sleep(3)
    check([x for x in got if x in ("created", "removed")] == ["created", "removed"], "one session comes and goes: %r" % got)
""",
         needs="a session with a time to live that is gone before its time is over",
         what="subscribers hear of the removal of a session that is not there"),
    dict(id="P10-error-ends", property="P10",
         edits=[(H, '                    error!("error shuffling bytes: {:?}", e);\n', '                    error!("error shuffling bytes: {:?}", e);\n                    child_done = true;\n')],
         py="""
with Daemon() as d:
    s = d.connect()
    s.sendall(pack({"Attach": {"name": "a", "name_template": "a", "local_tty_size": {"rows": 24, "cols": 80, "xpixel": 0, "ypixel": 0},
                               "local_env": [["TERM", "xterm"]], "cmd": "/bin/sh -c 'trap \\"\\" HUP; echo hello; sleep 100'"}}))
    check("Created" in unpack(reader(s))["status"], "created")
    time.sleep(1.2)
    s.close()
    end = time.time() + 3
    while time.time() < end:
        check(d.names() == ["a"], "the session outlives its client: %r" % d.names())
        time.sleep(0.05)
    check(d.attach("a").kind() == "Attached", "the next client gets the same shell")
""",
         needs="a client that dies while output for it is still unread, so that its connection is reset",
         what="its session disappears from the list while the shell still runs"),
    dict(id="P11-dangling", property="P11",
         edits=[(H, "            let _ = fs::remove_file(&symlink); // clean up the link if it exists already\n", "            if symlink.exists() {\n                let _ = fs::remove_file(&symlink); // clean up the link if it exists already\n            }\n")],
         py="""
with Daemon() as d:
    for agent in ("/tmp/gone-1", "/tmp/gone-2"):
        a = d.attach("a", cmd="sleep 100", local_env=[["SSH_AUTH_SOCK", agent]])
        check(a.kind() in ("Created", "Attached"), "attaching works: %r" % (a.status,))
        at = next((r + "/" + x for r, ds, fs in os.walk(d.dir + "/run") for x in ds + fs if x == "ssh-auth-sock.socket"), "none")
        check(wait(lambda: os.path.islink(at) and os.readlink(at) == agent, 3), "the link points to the latest agent")
        a.hang_up()
        wait(lambda: d.list()[0]["status"] == "Disconnected", 5)
""",
         needs="a second attach after the first client's SSH agent has gone",
         what="attaching fails, since the old link is still in the way"),
    dict(id="P11-stale-env", property="P11",
         edits=[(H, '        info!("populating {:?}", session_env_file);\n', '        info!("populating {:?}", session_env_file);\n        if header.local_env.is_empty() {\n            return Ok(());\n        }\n')],
         py="""
with Daemon() as d:
    a = d.attach("a", cmd="sleep 100", local_env=[["DISPLAY", ":7"]])
    at = next((r + "/" + x for r, ds, fs in os.walk(d.dir + "/run") for x in fs if x == "forward.env"), "none")
    check(wait(lambda: os.path.exists(at) and open(at).read() == "DISPLAY=:7", 3), "what the first client sent")
    a.hang_up()
    wait(lambda: d.list()[0]["status"] == "Disconnected", 5)
    d.attach("a", local_env=[])
    check(wait(lambda: open(at).read() == "", 3), "the latest client sent nothing: %r" % open(at).read())
""",
         needs="a client with none of the variables that attaches after one with some",
         what="forward.env keeps what an earlier client sent"),
    dict(id="P20-longer-name", property="P20",
         edits=[(A, "            session_name_tmpl.apply(&var_map) != resolved.session_name\n", "            !resolved.session_name.starts_with(&session_name_tmpl.apply(&var_map))\n")],
         py=CLI + """
with Daemon('default_dir = "/"') as d:
    d.setvar("ws", "main-2")
    c = Cli(d, "-c", "/bin/sh -c 'echo \\"<$SHPOOL_SESSION_NAME>\\"; sleep 100'", "{ws}")
    try:
        check(c.wait(b"<main-2>"), "attached: %r" % c.data)
        time.sleep(0.5)
        d.setvar("ws", "main")
        check(c.wait(b"<main>", 6), "follows the variable to a shorter name: %r %r" % (c.data, d.names()))
    finally: c.end()
""",
         needs="a change to a name that the old one starts with",
         what="the client stays where it was"),
    dict(id="P19-old-session-resized", property="P19",
         edits=[(A, "                *slot = resolved.session_name.clone();\n", "                info!(\"attaching to '{}' after '{}'\", resolved.session_name, slot);\n")],
         py=CLI + """
with Daemon('default_dir = "/"') as d:
    d.setvar("ws", "one")
    c = Cli(d, "-c", "/bin/sh -c 'trap \\"stty size\\" WINCH; echo \\"<$SHPOOL_SESSION_NAME>\\"; while true; do sleep 0.1; done'", "{ws}")
    try:
        check(c.wait(b"<one>"), "attached: %r" % c.data)
        time.sleep(0.5)
        d.setvar("ws", "two")
        check(c.wait(b"<two>", 6), "follows: %r" % c.data)
        time.sleep(0.5)
        c.resize(33, 77)
        check(c.wait(b"33 77", 5), "the session in front of the user gets the new size: %r" % c.data)
    finally: c.end()
""",
         needs="a client that has switched to another session and is then resized",
         what="the resize goes to the session that the client has left"),
    dict(id="P20-empty-unsets", property="P20",
         edits=[(H, "            if let Some(val) = request.val {\n", "            if let Some(val) = request.val.filter(|v| !v.is_empty()) {\n")],
         py="""
with Daemon() as d:
    d.setvar("a", ""); d.setvar("b", "x")
    v = sorted(d.rpc("GetVars")["vars"])
    check(v == [["a", ""], ["b", "x"]], "both variables are set: %r" % v)
""",
         needs="a variable set to nothing",
         what="it is not set"),
    dict(id="P17-cmd-login", property="P17",
         edits=[(H, "        if header.cmd.is_none() {\n            // spawn", "        if header.cmd.as_ref().map_or(true, |c| c.split(' ').next() == Some(&shell)) {\n            // spawn")],
         py="""
with Daemon('shell = "/bin/bash"') as d:
    a = d.attach("a", cmd="/bin/bash -c 'echo \\"<$0>\\"; sleep 100' me")
    b = d.attach("b", cmd="/bin/bash -c 'cat /proc/self/cmdline | head -c 0; tr \\"\\\\0\\" \\" \\" < /proc/$$/cmdline; sleep 100'")
    check(b.wait(b"/bin/bash -c", 5) and b"-bash" not in b.data, "the command is run as given: %r" % b.data)
""",
         needs="a command whose program is the shell that a session without a command would get",
         what="it is run as a login shell"),
]
