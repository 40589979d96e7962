P = "libshpool/src/protocol.rs"
K = "libshpool/src/daemon/keybindings.rs"
D = "libshpool/src/duration.rs"
RT = '''
    #[test]
    fn t() {
        for len in LENS {
            let data: Vec<u8> = (0..len).map(|i| (i * 7) as u8).collect();
            let mut wire = vec![];
            Chunk { kind: ChunkKind::Data, buf: &data }.write_to(&mut wire).unwrap();
            Chunk { kind: ChunkKind::Heartbeat, buf: &[] }.write_to(&mut wire).unwrap();
            let mut r = std::io::Cursor::new(wire);
            let mut buf = vec![0u8; CAP];
            let c = Chunk::read_into(&mut r, &mut buf).unwrap();
            assert_eq!(c.buf, &data[..]);
            let mut buf = vec![0u8; CAP];
            assert_eq!(Chunk::read_into(&mut r, &mut buf).unwrap().kind, ChunkKind::Heartbeat);
        }
    }
'''
SEEDS = [
    dict(id="P01-len16", property="P01", module=P,
         edits=[(P, "w.write_u32::<LittleEndian>(self.buf.len() as u32)?;", "w.write_u32::<LittleEndian>(u32::from(self.buf.len() as u16))?;")],
         test=RT.replace("LENS", "[65535usize, 65536, 70000]").replace("CAP", "80000"),
         needs="a frame of 64 KiB or more (a big message-of-the-day dump)",
         what="the length prefix wraps, so the reader takes payload bytes for the next frame header"),
    dict(id="P02-silent-undecodable", property="P02", module=P,
         edits=[(P, '''                warn!("error parsing VersionHeader: {:?}", e);
                return Ok(ClientResult::VersionMismatch {
                    warning: String::from("could not get daemon version"),
                    client: Client { stream },
                });''', '''                warn!("error parsing VersionHeader: {:?}", e);
                return Ok(ClientResult::JustClient(Client { stream }));''')],
         test='''
    #[test]
    fn t() {
        use std::io::Write as _;
        let d = tempfile::tempdir().unwrap();
        let p = d.path().join("s");
        let l = std::os::unix::net::UnixListener::bind(&p).unwrap();
        let h = std::thread::spawn(move || { let (mut s, _) = l.accept().unwrap(); s.write_all(&[0xc1, 0xff, 3]).unwrap(); });
        assert!(matches!(Client::new(&p), Ok(ClientResult::VersionMismatch { .. })));
        h.join().unwrap();
    }
''',
         needs="a daemon whose greeting cannot be decoded", what="no warning is given"),
    dict(id="P03-stuck-cursor", property="P03", module=K,
         edits=[(K, '''                _ => {
                    self.sequences_cursor = TrieCursor::Start;
                    BindingResult::NoMatch
                }
            }
        } else {''', '''                _ => BindingResult::NoMatch,
            }
        } else {''')],
         test='''
    #[test]
    fn t() {
        let mut b = Bindings::new(vec![("a b", Action::Detach)]).unwrap();
        assert_eq!(b.transition(b'b'), BindingResult::NoMatch);
        assert_eq!(b.transition(b'a'), BindingResult::Partial);
        assert_eq!(b.transition(b'b'), BindingResult::Match(Action::Detach));
    }
''',
         needs="a bound key pressed out of order before the binding is typed", what="the binding does not fire until an unrelated key is pressed"),
    dict(id="P03-first-binding-wins", property="P03", module=K,
         edits=[("libshpool/src/daemon/trie.rs", "        self.nodes[current_node].value = Some(value);\n", "        self.nodes[current_node].value.get_or_insert(value);\n")],
         test='''
    #[test]
    fn t() {
        let mut b = Bindings::new(vec![("Ctrl-a", Action::Detach), ("Ctrl-a", Action::NoOp)]).unwrap();
        assert_eq!(b.transition(1), BindingResult::Match(Action::NoOp));
    }
''',
         needs="two bindings of the same keys", what="the first instead of the last one counts"),
    dict(id="P03-ctrl-five", property="P03", module=K,
         edits=[(K, '("Ctrl-5", 29)', '("Ctrl-5", 28)')],
         test='''
    #[test]
    fn t() {
        let mut b = Bindings::new(vec![("Ctrl-5 x", Action::Detach)]).unwrap();
        assert_eq!(b.transition(29), BindingResult::Partial);
        assert_eq!(b.transition(b'x'), BindingResult::Match(Action::Detach));
    }
''',
         needs="a binding with Ctrl-5", what="Ctrl-4 triggers it instead"),
    dict(id="P06-unicode-digits", property="P06", module=D,
         edits=[(D, '''let num: String = src.chars().take_while(|c| c.is_numeric()).collect();''',
                 '''let num: String = src.trim_start_matches('0').chars().take_while(|c| c.is_numeric()).collect();
    let src = src.trim_start_matches('0');''')],
         test='''
    #[test]
    fn t() {
        assert_eq!(parse("0s").unwrap(), time::Duration::from_secs(0));
        assert_eq!(parse("00012m").unwrap(), time::Duration::from_secs(720));
    }
''',
         needs="a duration of zero with a unit letter", what="0s, 0m, 0h and 0d are refused"),
    dict(id="P06-five-parts", property="P06", module=D,
         edits=[(D, '''    let mut parts = src.split(':').collect::<Vec<_>>();
    parts.reverse();''', '''    let mut parts = src.split(':').collect::<Vec<_>>();
    parts.reverse();
    if parts.len() > 4 && parts[parts.len() - 1].is_empty() {
        parts.truncate(4);
    }''')],
         test='''
    #[test]
    fn t() {
        assert!(parse(":1:2:3:4").is_err());
        assert!(parse("::1:2:3:4").is_err());
    }
''',
         needs="five or more colon-separated parts, the first one empty", what="the text is accepted and its leading parts silently dropped"),
]
