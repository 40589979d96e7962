M = "libshpool/src/daemon/show_motd.rs"
P = "libshpool/src/daemon/pager.rs"
PG = """
def pager(body, every=None):
    # a daemon whose motd pager is a script of ours, in a directory of its own
    top = tempfile.mkdtemp(prefix="dmp", dir="/tmp")
    pg = top + "/pg"
    open(pg, "w").write("#!/bin/sh\\nPATH=/usr/bin:/bin\\necho x >> %s/starts\\n%s\\n" % (top, body.replace("@", top)))
    os.chmod(pg, 0o755)
    open(top + "/motd", "w").write("hello\\n")
    cfg = 'norc = true\\nsession_restore_mode = "simple"\\nmotd_args = ["motd=%s/motd", "motd_dir=%s/none"]\\n[motd.pager]\\nbin = "%s"\\n' % (top, top, pg)
    if every: cfg += 'show_every = "%s"\\n' % every
    return top, cfg
SH = "/bin/sh -c 'stty -echo; while read l; do case $l in size) echo \\"[$(stty size)]\\";; *) echo \\"[$l]\\";; esac; done'"
def answers(a):
    def ask():
        a.send(b"hi\\n"); return a.wait(b"[hi]", 0.3)
    check(wait(ask), "the session's shell answers")
"""
SEEDS = [
    dict(id="P22-looked-at", property="P22",
         edits=[(M, '            info!("not firing yet (last_fired = {:?})", *last_fired);', '            info!("not firing yet (last_fired = {:?})", last_fired.replace(time::SystemTime::now()));')],
         py=PG + """
top, cfg = pager("exit 0", "3s")
try:
    with Daemon(cfg) as d:
        for k in range(8):
            a = d.attach("a", cmd=SH)
            check(a.kind() in ("Created", "Attached"), "attached: %r" % (a.status,))
            answers(a)
            a.hang_up()
            check(wait(lambda: d.list()[0]["status"] != "Attached"), "free again")
            time.sleep(0.7)
        n = len(slurp(top + "/starts").split())
        check(n >= 2, "in about six seconds of attaching the pager is due again after three: shown %d times" % n)
finally: shutil.rmtree(top)
""",
         needs="show_every, and a user who attaches more often than that, for longer than that",
         what="the pager is never shown again: every attach that finds it not yet due starts the interval anew"),
    dict(id="P22-first-size", property="P22",
         edits=[(P, '                        // exit.\n                        let tty_size = tty_size.lock();\n                        return Ok(tty_size.clone());', '                        // exit.\n                        return Ok(init_tty_size);')],
         py=PG + """
top, cfg = pager("stty -echo; echo up; read l; exit 0")
try:
    with Daemon(cfg) as d:
        a = d.attach("a", cmd=SH)
        check(a.wait(b"up"), "pager shown")
        d.rpc({"SessionMessage": {"session_name": "a", "payload": {"Resize": {"tty_size": {"rows": 41, "cols": 103, "xpixel": 0, "ypixel": 0}}}}})
        a.send(b"q\\n")
        answers(a)
        def ask():
            a.send(b"size\\n"); return a.wait(b"[41 103]", 0.3)
        check(wait(ask), "the session has the size the client had last: %r" % a.data)
finally: shutil.rmtree(top)
""",
         needs="a change of the terminal's size while the pager shows the message",
         what="the session's terminal keeps the size the client had before"),
    dict(id="P22-daemons-env", property="P22",
         edits=[(P, "cmd.env_clear().envs(shell_env.to_vec());", "cmd.envs(shell_env.to_vec());")],
         py=PG + """
top, cfg = pager("env > @/env.t; mv @/env.t @/env; exit 0")
try:
    with Daemon(cfg, {"DAEMONS_OWN": "secret"}) as d:
        a = d.attach("a", cmd="/bin/sh -c 'env; echo end; sleep 100'")
        check(a.wait(b"end"), "session up")
        check(b"DAEMONS_OWN" not in a.data, "not in the session")
        e = slurp(top + "/env")
        check(b"TERM=" in e, "the pager ran")
        check(b"DAEMONS_OWN" not in e, "the pager has the session's environment, and only that: %r" % e)
finally: shutil.rmtree(top)
""",
         needs="a variable in the daemon's environment that sessions do not get",
         what="the pager runs with the daemon's environment on top of the session's"),
]
