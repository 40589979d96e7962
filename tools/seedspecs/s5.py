S = "libshpool/src/daemon/server.rs"
H = "libshpool/src/daemon/shell.rs"
R = "libshpool/src/daemon/ttl_reaper.rs"
D = "libshpool/src/detach.rs"
SEEDS = [
    dict(id="P12-zero-ttl", property="P12",
         edits=[(S, "if let Some(ttl_secs) = header.ttl_secs {", "if let Some(ttl_secs) = header.ttl_secs.filter(|s| *s > 0) {")],
         py="""
with Daemon() as d:
    a = d.attach("a", cmd="sleep 100", ttl_secs=0)
    assert wait(lambda: d.names() == [], 8), d.names()
""",
         needs="a session created with a time to live of zero seconds",
         what="the session never expires"),
    dict(id="P12-order", property="P12",
         edits=[(R, "other.reap_at.cmp(&self.reap_at)", "self.reap_at.cmp(&other.reap_at)")],
         py="""
with Daemon() as d:
    a = d.attach("a", cmd="sleep 100", ttl_secs=60)
    b = d.attach("b", cmd="sleep 100", ttl_secs=2)
    assert wait(lambda: d.names() == ["a"], 9), d.names()
""",
         needs="two sessions with different times to live, the longer one created first",
         what="the session with the shorter time lives as long as the other"),
    dict(id="P14-polite", property="P14",
         edits=[(H, "match signal::kill(Pid::from_raw(self.child_pid), Some(signal::Signal::SIGKILL)) {",
                 "match signal::kill(Pid::from_raw(self.child_pid), Some(signal::Signal::SIGTERM)) {")],
         py="""
with Daemon() as d:
    a = d.attach("a", cmd="/bin/bash -c \\"trap '' HUP TERM; echo pid=\\\\$\\\\$.; while :; do sleep 0.1; done\\"")
    import re
    assert wait(lambda: re.search(rb"pid=(\\d+)\\.", a.data)), a.data
    pid = int(re.search(rb"pid=(\\d+)\\.", a.data).group(1))
    d.kill("a")
    def gone():
        try: os.kill(pid, 0)
        except OSError: return True
    ok = wait(gone, 5)
    if not ok: os.kill(pid, 9)
    assert ok
""",
         needs="a shell that ignores both SIGHUP and SIGTERM",
         what="kill reports success and unlists the session, but its shell runs on"),
    dict(id="P15-stop-early", property="P15",
         edits=[(S, "                    not_found_sessions.push(session);\n                }\n            }\n        }\n\n        write_reply(&mut stream, DetachReply",
                 "                    not_found_sessions.push(session);\n                    if not_attached_sessions.is_empty() {\n                        break;\n                    }\n                }\n            }\n        }\n\n        write_reply(&mut stream, DetachReply")],
         py="""
with Daemon() as d:
    a = d.attach("a", cmd="sleep 100")
    r = d.detach("nope", "a", "other")
    assert r == {"not_found_sessions": ["nope", "other"], "not_attached_sessions": []}, r
    assert wait(lambda: a.eof, 5)
""",
         needs="one detach request with an unknown name followed by others",
         what="the sessions after the unknown name keep their clients"),
    dict(id="P15-cli-silent", property="P15",
         edits=[(D, "if !reply.not_attached_sessions.is_empty() {", "if reply.not_attached_sessions.len() == 1 {")],
         py="""
with Daemon() as d:
    for n in "ab":
        d.attach(n, cmd="sleep 100").s.close()
    assert wait(lambda: all(x["status"] == "Disconnected" for x in d.list()))
    r = d.cli("detach", "a", "b")
    assert r.returncode != 0 and "a b" in r.stderr, r
""",
         needs="a detach command for two sessions, both without a client",
         what="the command claims success"),
    dict(id="P16-whole-seconds", property="P16",
         edits=[(S, """                    .last_connected_at
                    .map(|t| t.duration_since(time::UNIX_EPOCH).map(|d| d.as_millis() as i64))""",
                 """                    .last_connected_at
                    .map(|t| t.duration_since(time::UNIX_EPOCH).map(|d| d.as_secs() as i64 * 1000))""")],
         py="""
with Daemon() as d:
    for i in range(4):
        t = int(time.time() * 1000)
        d.attach("s%d" % i, cmd="sleep 100")
        x = [x for x in d.list() if x["name"] == "s%d" % i][0]
        assert x["last_connected_at_unix_ms"] >= t, (x, t)
        time.sleep(0.13)
""",
         needs="a client that does not come at the very start of a second",
         what="the list says that the client came before it did"),
    dict(id="P16-forget-leave", property="P16",
         edits=[(H, "        state.last_connected_at = Some(time::SystemTime::now());\n", "        *state = SessionLifecycleState { last_connected_at: Some(time::SystemTime::now()), ..Default::default() };\n")],
         py="""
with Daemon() as d:
    d.attach("a", cmd="sleep 100").s.close()
    assert wait(lambda: d.list()[0]["last_disconnected_at_unix_ms"])
    b = d.attach("a")
    assert b.kind() == "Attached"
    assert d.list()[0]["last_disconnected_at_unix_ms"], d.list()
""",
         needs="a session that a client left and another one came back to",
         what="the list no longer knows when the last client left"),
    dict(id="P05-nul-reads", property="P05",
         edits=[(H, "                if len == 0 {\n                    if pending_exit.is_some() {", "                if buf[..len].iter().all(|b| *b == 0) {\n                    if pending_exit.is_some() {")],
         py="""
with Daemon() as d:
    a = d.attach("a", cmd="/bin/bash -c 'stty raw -echo; printf x; sleep 1; printf \\"\\\\000\\\\000\\"; sleep 1; printf y; sleep 100'")
    assert a.wait(b"y"), a.data
    assert b"x\\0\\0y" in a.data, a.data
""",
         needs="a program that writes only NUL bytes for a while",
         what="the NUL bytes do not reach the client"),
    dict(id="P19-pending-resize", property="P19",
         edits=[(H, "                                output_spool.resize(size.clone());\n                                resize_cmd = Some(ResizeCmd {",
                 "                                output_spool.resize(size.clone());\n                                resize_cmd = resize_cmd.take().or(Some(ResizeCmd {"),
                (H, "                                    when: time::Instant::now(),\n                                });\n                                args.tty_size_change_ack", "                                    when: time::Instant::now(),\n                                }));\n                                args.tty_size_change_ack")],
         py="""
with Daemon() as d:
    d.attach("a", cmd="/bin/bash -c 'while sleep 0.3; do stty size; done'").s.close()
    assert wait(lambda: d.list()[0]["status"] == "Disconnected")
    b = d.attach("a")
    sz = {"rows": 33, "cols": 99, "xpixel": 0, "ypixel": 0}
    d.rpc({"SessionMessage": {"session_name": "a", "payload": {"Resize": {"tty_size": sz}}}})
    assert b.wait(b"33 99", 5), b.data
""",
         needs="a client that changes its size right after it came back",
         what="the session keeps the size the client had when it attached"),
]
