S = "libshpool/src/daemon/shell.rs"
TYPED = '''
def typed(config, portions, pause=0.15, secs=4):
    """what the shell has received after the portions were typed"""
    with Daemon("norc = true\\n" + config) as d:
        out = d.dir + "/typed"
        a = d.attach("s", "/bin/sh -c 'stty raw -echo; printf GO; exec cat > %s'" % out)
        check(a.wait(b"GO"), "shell did not start")
        try:
            for p in portions:
                a.send(p)
                time.sleep(pause)
            a.send(b"~~~~END")
        except OSError:
            pass
        wait(lambda: slurp(out).endswith(b"END"), secs)
        return slurp(out)
'''
KB = '''
KB = lambda *ks: "".join('[[keybinding]]\\nbinding = "%s"\\naction = "noop"\\n' % k for k in ks)
'''
SEEDS = [
    dict(id="P04-bounded-pending", property="P04",
         edits=[(S, '''                            Partial => {
                                partial_keybinding.push(*byte);
                            }''', '''                            Partial => {
                                // no binding anyone types is this long
                                if partial_keybinding.len() < 4 {
                                    partial_keybinding.push(*byte);
                                }
                            }''')],
         py=TYPED + KB + '''
got = typed(KB("a b c d e f"), [b"12abcde", b"q"])
check(got == b"12abcdeq~~~~END", got)
''', needs="a binding of six or more keys abandoned after its fifth key, with a read boundary in between",
         what="keys that were held back beyond the fourth come out in the wrong place"),
    dict(id="P04-long-partial", property="P04",
         edits=[(S, '''                        let snip_chunk_len = if partial_keybinding.len() > len {
                            len
                        } else {
                            partial_keybinding.len()
                        };''', '''                        let snip_chunk_len = if partial_keybinding.len() > 2 {
                            len
                        } else {
                            partial_keybinding.len().min(len)
                        };''')],
         py=TYPED + KB + '''
got = typed(KB("x y z w"), [b"abxyz", b"q"])
check(got == b"abxyzq~~~~END", got)
''', needs="a read that ends in three or more keys of an unfinished binding, with ordinary typing before them in the same read",
         what="the ordinary bytes before the unfinished binding are lost"),
]
