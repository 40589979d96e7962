"""The properties and how each is claimed; tools/mkprops.py writes properties.jsonl and MANIFEST.json from this."""
SPECS = []


def prop(id, title, statement, over, text, tests, files, mech, note=None, state=(), observe=(), hook=None, na=None, level="proof",
         technique=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": tests,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, "level": level}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    if na:
        d["not_applicable"] = na
    else:
        d["level_note"] = note
    if technique:
        d["technique"] = technique
    SPECS.append(d)


prop("P01", "Frames cross the daemon-client socket intact",
     "Every frame the daemon writes is read back by the client with the same kind and exactly the same payload, whatever the payload "
     "bytes and whatever follows it on the stream, and reading it consumes exactly the bytes that were written for it. A frame whose "
     "kind is unknown or whose payload exceeds the receiver's buffer is refused with an error, never truncated, and never crashes the receiver.",
     ["inputs"], "every frame kind, every payload up to 2^32-1 bytes, every continuation of the stream, every receive buffer size, every arbitrary byte stream",
     "The unit test round-trips a handful of small payloads; it never reads a frame followed by others, a malformed frame or one near the buffer size.",
     ["libshpool/src/protocol.rs", "shpool-protocol/src/lib.rs"],
     [("frame encoder and decoder", "libshpool/src/protocol.rs: write_to, read_into"), ("kind tags", "shpool-protocol/src/lib.rs: ChunkKind")],
     note="Proved for all inputs: encoder and decoder are verified against one wire-format specification and a round-trip lemma over it. "
          "Assumes std Read/Write and byteorder behave as their contracts state.",
     observe=["bytes on the unix socket"], hook="private decoder/encoder reachable from the harness")

prop("P02", "Protocol version mismatches are judged correctly",
     "A client treats a daemon as compatible exactly when both versions have three numeric parts and agree on the breaking part: the minor number when both are "
     "0.x releases, the major number otherwise; older and newer are told apart the same way. A daemon with another version, or whose greeting cannot be decoded, still yields a "
     "usable client together with a warning, never a silent pass; a version text that is not three numbers is an error.",
     ["inputs"], "every pair of version texts and every greeting a peer can send",
     "The unit tests compare a few version pairs; they do not cover numbers with different digit counts, malformed parts or undecodable greetings systematically.",
     ["libshpool/src/protocol.rs"], [("version comparison", "libshpool/src/protocol.rs: version_ord"), ("greeting handling", "libshpool/src/protocol.rs: Client::new")],
     note="Proved for all version texts and greetings over contracts for std's string splitting and number parsing and for the message decoder (both assumed).",
     hook="private comparison reachable from the harness")

prop("P06", "Durations mean what they say, or are refused",
     "A time-to-live text is accepted exactly when it is up to four colon-separated numbers ([[[days:]hours:]minutes:]seconds, at least one colon) or one number followed by a single "
     "unit letter s, m, h or d, and then stands for exactly that many seconds. Everything else, including values too large to represent, is refused with an "
     "error; no text is silently misread and none crashes the program.",
     ["inputs"], "every text a user can pass as a time-to-live, of any length",
     "The unit tests try seven good and four bad texts; the set of texts is unbounded and the overflow and trailing-garbage cases are not among them.",
     ["libshpool/src/duration.rs"], [("duration parser", "libshpool/src/duration.rs: parse, parse_colon_duration, parse_suffix_duration, make_suffix_duration")],
     note="Proved for every text over contracts for std's string operations and number parsing (assumed), including absence of arithmetic overflow.",
     hook="none")

prop("P03", "Keybindings fire exactly on the bound key presses",
     "A keybinding text is accepted exactly when it is a non-empty sequence of chords, each a single known key or Ctrl joined by a dash to one (spaces never matter), and "
     "every chord has a key code; anything else is refused when the configuration is loaded. Once loaded, for every stream of bytes the user types: an action fires exactly "
     "at the byte that completes its binding's key codes counted from the last point where nothing was pending, the last binding of identical sequences winning; while what was typed since then still begins some "
     "binding the engine reports partial; otherwise it reports no match and starts over with nothing pending. Letters with Ctrl send codes 1 to 26.",
     ["inputs", "histories"], "every set of binding texts, every byte stream of any length",
     "The unit tests try about twenty texts and a dozen short key streams; tables with shared prefixes, aliased codes or many nodes and long streams are not covered.",
     ["libshpool/src/daemon/keybindings.rs", "libshpool/src/daemon/trie.rs"],
     [("lexer and parser", "libshpool/src/daemon/keybindings.rs: Lexer::tokenize, parse, Chord::key_code"),
      ("compilation into tries", "libshpool/src/daemon/keybindings.rs: Bindings::new; libshpool/src/daemon/trie.rs: insert"),
      ("matching engine", "libshpool/src/daemon/keybindings.rs: Bindings::transition; libshpool/src/daemon/trie.rs: advance, get")],
     note="Proved for all texts and key streams, from the binding text to each key press, over contracts for std's strings and vstd's Vec and HashMap.",
     hook="private engine reachable from the harness")

prop("P04", "What the user types reaches the shell unchanged, except keybindings",
     "Everything the user types reaches the shell's terminal: the same bytes, in the same order, each exactly once, however the typing is split into messages and reads. The only bytes left out are those of "
     "key sequences that complete a keybinding, which are removed whole and trigger their action instead; bytes that only begin a binding are held back no longer than until the next byte shows they do "
     "not complete it, and are then delivered. Everything typed before a detach sequence in the same read is delivered before the session detaches.",
     ["inputs", "histories"], "every byte stream, every split of it into messages and reads of any size, every set of keybindings",
     "No test types more than a line at a time or splits a key sequence over reads; the carry-over between reads only shows on particular splits.",
     ["libshpool/src/daemon/shell.rs", "libshpool/src/daemon/keybindings.rs", "libshpool/src/protocol.rs"],
     [("terminal to daemon", "libshpool/src/protocol.rs: pipe_bytes"), ("client to shell forwarding loop", "libshpool/src/daemon/shell.rs: spawn_client_to_shell"), ("binding removal", "libshpool/src/daemon/shell.rs: snip_buf")],
     note="Proved for every stream, split and table: the forwarding loop carries the invariant that what was written to the pty is the input seen so far with completed bindings removed. Assumes the "
          "binding engine meets the contract proved for P03, and contracts for Read, Write and the unsafe-free pty handle.",
     observe=["bytes read by the program on the session's terminal"], hook="none")

prop("P07", "Templates name exactly the text they describe",
     "A session name, start directory or command given as a template is accepted exactly when every '{' opens a substitution that is closed by a '}' and names a variable (a non-empty word of letters, digits and "
     "underscores that does not start with a digit). Instantiating it replaces each substitution by the variable's current value, an unset variable by nothing, and keeps every other character in place; values are not "
     "substituted again. Everything else is refused with an error and never crashes the client.",
     ["inputs"], "every template text and every variable map",
     "The unit tests parse about fifteen short ASCII templates and instantiate five; multi-byte text around the braces, stray closing braces and values holding braces are not covered.",
     ["libshpool/src/template.rs", "libshpool/src/attach.rs"],
     [("template parser", "libshpool/src/template.rs: Template::new"), ("instantiation", "libshpool/src/template.rs: Template::apply")],
     note="Proved for every text and every variable map over contracts for std's strings and HashMap (assumed).",
     hook="private template type reachable from the harness")

prop("P08", "/etc/environment sets exactly what pam_env would set",
     "From /etc/environment the daemon takes, in order, exactly one variable per line that sets one and nothing from any other line: leading and trailing blanks go, a leading 'export ' with exactly one space goes, everything from "
     "the first '#' on goes, and what remains must be KEY=VALUE with a non-empty key of ASCII letters, digits and underscores, split at the first '='. Quotes around the value are handled as pam_env does: a leading single quote and then a leading double "
     "quote go, and if there was a leading quote so do a trailing single and then a trailing double quote. Every other character of the value is kept.",
     ["inputs"], "every readable file, of any number of lines of any length",
     "The unit test parses one file of eleven lines; the interplay of quotes, comments, export and blanks over all lines is not sampled by it.",
     ["libshpool/src/daemon/etc_environment.rs", "libshpool/src/daemon/server.rs"],
     [("parser", "libshpool/src/daemon/etc_environment.rs: parse_compat")],
     note="Proved for every file over contracts for std's strings and BufRead::read_line (assumed). A file that cannot be read or decoded makes the parser report an error.",
     hook="private parser reachable from the harness")

prop("P09", "Configuration files are merged by priority, and a bad edit never takes effect",
     "Without -c the daemon uses /etc/shpool/config.toml and then the user's $XDG_CONFIG_HOME/shpool/config.toml (~/.config when that is not set); with -c only the named file. For every option the last of these files that sets it decides, "
     "independently of all other options; an option no file sets stays unset; a file that cannot be read is skipped. A file that is not valid configuration makes start-up fail with an error, and on a later reload leaves the "
     "configuration in effect entirely unchanged; every file that counts, existing or not, is watched from start-up on.",
     ["inputs"], "every contents of every configuration file, every set of options",
     "The unit tests merge three of the twenty options; nothing tests that each option is merged with its own counterpart, or a failing reload.",
     ["libshpool/src/config.rs"],
     [("merge", "libshpool/src/config.rs: Config::merge"), ("load", "libshpool/src/config.rs: Manager::load"), ("choice of files, reload", "libshpool/src/config.rs: Manager::new, config_base_dir")],
     note="Proved for every configuration over contracts for reading files, decoding TOML (assumed) and path joining; the reload handler is verified as a block of its own with the lock it takes dropped.",
     hook="private loader reachable from the harness")

prop("P05", "An attached client sees all output, in order, and then the exit status",
     "While a client is attached it receives exactly the bytes the session's programs write to the terminal, in order, none lost, repeated or changed, and only well-formed frames of at most 16 KiB; with prompt setup on, output up to and including "
     "the setup marker is never shown and everything after it is, whatever precedes the marker. When the shell ends, the client first gets the rest of its output and then one exit frame with the shell's exit status; a "
     "client that is detached or replaced gets one exit frame with status 0, nobody gets more than one; a client that comes back gets the restored screen and then everything written from then on.",
     ["inputs", "histories", "schedules"], "every output, every split into reads, every interleaving of attach, detach, resize, heartbeat and exit messages with output",
     "The tests type a few commands and look for a line of output; a lost tail, a frame at the buffer boundary or output that resembles the marker are not among them.",
     ["libshpool/src/daemon/shell.rs", "libshpool/src/daemon/shell_inject.rs", "libshpool/src/protocol.rs"],
     [("daemon to terminal", "libshpool/src/protocol.rs: pipe_bytes"), ("shell->client thread", "libshpool/src/daemon/shell.rs: spawn_shell_to_client, finish_exit, write_exit_chunk"), ("marker scanner", "libshpool/src/daemon/shell_inject.rs: SentinelScanner")],
     note="Proved for every history of messages and output of the thread that serves a session; the kernel's pty, the sockets and the channels are assumed contracts, and liveness (that the thread gets to run) is not part of it.",
     hook="none")

prop("P18", "Only the daemon's own user is served, and no connection gets in another's way",
     "A request that comes from a process of another user is not carried out and learns nothing of sessions or variables: an attach is answered with Forbidden, anything else not at all, and the connection is closed. Every connection is first greeted "
     "with the daemon's protocol version, and a complete request of the daemon's own user is carried out, once, as what it is, whatever program it comes from. A connection that sends garbage, part of a request or nothing is dropped, and "
     "neither ends the daemon nor keeps other connections waiting.",
     ["inputs", "histories", "schedules"], "every peer, everything a peer may send or leave unsent, and every number of connections at once",
     "The tests only ever connect as the user who runs them, with well-formed requests.",
     ["libshpool/src/daemon/server.rs"],
     [("accepting", "libshpool/src/daemon/server.rs: Server::serve"), ("letting in", "libshpool/src/daemon/server.rs: handle_conn, check_peer"), ("reading and answering", "libshpool/src/daemon/server.rs: parse_connect_header, write_reply")],
     note="Proved for the main socket on Linux, for every peer and request. Assumed: the kernel's peer credentials, serde, and that accept keeps yielding connections. The events socket carries no requests and no names and is not covered.",
     observe=["replies", "end of the connection", "sessions and variables afterwards"], hook="none")

prop("P21", "One daemon serves a socket; coming and going leave nothing behind",
     "A daemon started where another one is listening fails and leaves that one's sockets, pid file and sessions as they are. A command that finds no daemon starts one in the background and goes on only once a daemon answers; however many do so at once, one daemon remains, and "
     "it serves sessions as one started by hand would (same files, same creation mask) and keeps neither the directory nor the terminal of the command. A daemon ended by a signal removes its sockets and its pid file and nothing else, and what a killed one leaves does not keep "
     "a new one from starting.",
     ["histories", "schedules", "crash_points"], "every way to start a daemon over everything an earlier one may have left or still hold, every order and number of starts, and every signal",
     "One test daemonizes once; started twice, over leftovers, from another directory or a terminal, with another creation mask, or ended by a signal is not tested.",
     ["libshpool/src/daemonize.rs", "libshpool/src/lib.rs", "libshpool/src/daemon/mod.rs", "libshpool/src/daemon/signals.rs", "libshpool/src/daemon/systemd.rs"],
     [("launching", "libshpool/src/lib.rs: run; libshpool/src/daemonize.rs: maybe_launch_daemon"), ("becoming a daemon", "libshpool/src/daemonize.rs: daemonize, become_child, redirect_std_fds_to_null"), ("start and end", "libshpool/src/daemon/mod.rs: run"),
      ("signals", "libshpool/src/daemon/signals.rs: Handler::spawn"), ("activation", "libshpool/src/daemon/systemd.rs: activation_socket")],
     note="Proved for every outcome of every system call. Daemons that are started by hand at the same moment over a stale socket are not told apart by any lock and are not covered; two sockets in one directory share an events socket. That a launched daemon answers in time is observed only.",
     observe=["processes", "files", "sessions"], hook="none")

prop("P23", "Subscribers to events hear of every change, in order",
     "Each change of the session table (a session created, attached to, detached from, removed) is told, in the order in which they happened, as one line of JSON with nothing but the type, to everyone who was connected to the events socket before it happened, and a list made after hearing of it shows it. "
     "What one subscriber does (not reading, writing, hanging up at any moment) affects neither the sessions nor what others are told; one that falls too far behind is disconnected after a prefix of what it was due, and one that left is forgotten. "
     "`shpool events` prints these lines as they come and ends when the daemon does.",
     ["inputs", "histories", "schedules"], "every history of sessions and of subscribers coming, reading, stalling and going, in every interleaving with the sink",
     "The tests look at single events and a handful of subscribers; events that race with subscribers coming and going, partial writes and order across publishers are not settled by them.",
     ["libshpool/src/daemon/events.rs", "libshpool/src/events.rs", "libshpool/src/daemon/server.rs", "libshpool/src/daemon/ttl_reaper.rs"],
     [("sink", "libshpool/src/daemon/events.rs: Sink::run, accept_pending"), ("a subscriber's queue", "libshpool/src/daemon/events.rs: SubscriberWriter, drive_pending"), ("publishing", "libshpool/src/daemon/events.rs: EventBus::publish; libshpool/src/daemon/server.rs: handle_attach, select_shell_desc, handle_detach, handle_kill; libshpool/src/daemon/ttl_reaper.rs: run"), ("command", "libshpool/src/events.rs: run")],
     note="Proved for every outcome of every system call in the sink and for every path through the publishers. A backlog of more than 4096 unpublished events is lost for everybody by design. That the sink gets to run in time is observed only.",
     observe=["lines", "end of the connection", "sessions listed", "descriptors"], hook="none")

prop("P22", "The message of the day is shown as configured and gets in nobody's way",
     "With motd = \"dump\" a new session's terminal shows the whole message, every line ended by a newline and the terminal's carriage return, once and before anything the session's program writes; with a pager, the configured program is shown to a client that attaches, with the session's environment, the client's terminal size and a file with the message, whenever it was not shown within show_every (any duration, whatever the clock does), and otherwise nothing is. "
     "While the pager runs it gets every byte the user types and every change of size, the user sees everything it writes until it exits, and when the user goes it is ended and the session is free again. "
     "Whatever becomes of message or pager (it can't be read, started or crashes), the client ends up in its session, at the size it had last.",
     ["inputs", "schedules", "fault_sequences"], "every message, duration, clock, interleaving of pager output, input, resizes, exit and hang-up",
     "The tests show one message in each mode to one client; exits racing with output, sizes told meanwhile, failures and odd clocks or durations are not settled by them.",
     ["libshpool/src/daemon/show_motd.rs", "libshpool/src/daemon/pager.rs", "libshpool/src/daemon/server.rs"],
     [("what is shown and when", "libshpool/src/daemon/show_motd.rs: DailyMessenger, Debouncer"), ("the pager", "libshpool/src/daemon/pager.rs: Pager::display, PagerCltGuard, PagerProcGuard"), ("attaching", "libshpool/src/daemon/server.rs: handle_attach")],
     note="Proved for show_motd.rs and pager.rs; that handle_attach goes on after any pager that is not a hang-up, with the size it returned, is checked by the bounded search. Where the message comes from is the motd crate's doing. A pager whose descendants keep writing to its terminal after it exits is shown until they stop.",
     observe=["terminal output", "file, environment and size the pager sees", "processes", "sessions listed"], hook="none")

prop("P19", "The session's terminal has the size of the client's",
     "After a client attaches, and after every resize it sends, the session's terminal ends up with exactly the size last told (rows, columns and pixels), for any size, and stays at it. A client that comes back makes "
     "programs in the session see a change of size even if its terminal has the size it had before, so that they redraw, and its screen is restored for its own size.",
     ["inputs", "histories", "schedules"], "every size and every sequence of attaches, detaches, hang-ups and resizes",
     "One test resizes once; sizes at the limits, resizes that overtake the delayed resize of an attach, and the redraw are not tested.",
     ["libshpool/src/daemon/shell.rs", "libshpool/src/tty.rs", "libshpool/src/attach.rs", "libshpool/src/daemon/server.rs"],
     [("resize", "libshpool/src/daemon/shell.rs: spawn_shell_to_client"), ("size ioctl", "libshpool/src/tty.rs: TtySizeExt")],
     note="Proved for every history of messages: a resize is pending or the size is the one last told. That the pending one is executed in time, and the client's own side, are observed by the bounded search only.",
     hook="none")

prop("P10", "One shell per session name, at most one client each, and none left behind",
     "However clients race, at most one running session has a given name: an attach to a name nobody uses starts a shell and says so; one to a detached session gets that very shell, as long as it still runs, and says so; "
     "one to a session in use is told that it is busy and changes nothing, so at most one client is attached at a time; a session whose shell has ended is replaced by a new one. Every shell that is started "
     "ends up listed under its name or is ended at once, a listed session only leaves the list when its shell has exited or was told to, and a client that goes away, for whatever reason, leaves the session free for the next one.",
     ["inputs", "histories", "schedules"], "every interleaving of any number of clients attaching, detaching, hanging up and dying with kills, exits, expiry and each other",
     "The tests start one or two clients after each other; what happens between the two critical sections of an attach, or between a shell's end and the removal of its entry, needs particular interleavings.",
     ["libshpool/src/daemon/server.rs", "libshpool/src/daemon/shell.rs"],
     [("choosing or starting the session", "libshpool/src/daemon/server.rs: select_shell_desc"), ("life of an attachment", "libshpool/src/daemon/server.rs: handle_attach, note_client_disconnect"),
      ("stale sessions", "libshpool/src/daemon/shell.rs: Session::is_stale")],
     note="Proved for every interleaving at the granularity of the table's lock: whenever a handler does not hold it, the table is arbitrary. Starting a shell, serving a client and the lock types are assumed contracts; that a "
          "handler gets to run (no deadlock) is only searched for.",
     state=[("session table", "the sessions by name, under one lock", "libshpool/src/daemon/server.rs: Server::shells"), ("inner lock", "held by the thread serving a client", "libshpool/src/daemon/shell.rs: Session::inner")],
     observe=["attach replies", "list replies", "processes"], hook="none")

prop("P11", "Only usable names become sessions, and a session's files are its own",
     "A name that is empty, `.` or `..`, or longer than a file name may be, or that contains a slash, a NUL or white space, is answered with an error: no session, no shell, no file anywhere comes of it. With any other name, everything shpool writes for the session "
     "lies in the directory of that name below its sessions directory, which only its user may enter: `forward.env` has the variables the latest client sent, one per line, and `ssh-auth-sock.socket` points to the latest client's SSH agent, "
     "unless the user disabled that or the client has none (or an empty one), in which case the link stays as it was. What the client's environment is never stops it from attaching.",
     ["inputs", "histories"], "every session name, every environment a client may send, every sequence of attaches",
     "Tests attach under plain names and with one or two variables; names that walk out of the directory, over-long names, empty variables and stale links are not sampled.",
     ["libshpool/src/daemon/server.rs", "libshpool/src/attach.rs"],
     [("names", "libshpool/src/daemon/server.rs: handle_attach"), ("files", "libshpool/src/daemon/server.rs: link_ssh_auth_sock, populate_session_env_file, session_dir")],
     note="Proved for every name and environment over contracts for the file operations of std; that the file system does what std says is observed by the bounded search, which compares every file below the daemon's runtime directory.",
     observe=["files below the runtime directory", "list replies", "reply to attach"], hook="none")

prop("P17", "A new session runs exactly what was asked for, in its place and environment",
     "A new session runs the words of the command it was asked for, or else the user's shell as a login shell (without its rc files if configured so), in the directory asked for or else the home directory, on a terminal of its own that echoes unless configured not to. Its environment is made of the daemon's "
     "few base variables, XDG_RUNTIME_DIR, the configured variables, TERM, the client's variables and /etc/environment (unless disabled), a later one winning over an earlier one, and of nothing else: none of the daemon's own variables or open files reach it. A start command is typed exactly once, into shells only, and the prompt prefix names the session.",
     ["inputs", "configurations"], "every command line, directory, configuration and environment",
     "Tests look at a handful of variables and commands; the priority of every source over every other one, command lines with quotes, and what leaks out of the daemon are not sampled.",
     ["libshpool/src/daemon/server.rs", "libshpool/src/daemon/shell_inject.rs", "libshpool/src/user.rs", "libshpool/src/attach.rs"],
     [("environment", "libshpool/src/daemon/server.rs: build_shell_env"), ("spawning", "libshpool/src/daemon/server.rs: spawn_subshell"), ("does_not_support_sentinels", "libshpool/src/daemon/server.rs")],
     note="Proved for every request, configuration and environment over contracts for std's Command, shell_words and fork; that exec runs what Command was told is observed by the bounded search with a program that reports how it was started.",
     observe=["arguments, environment, directory and open files of the shell"], hook="none")

prop("P12", "Sessions with a time to live end when it is over, never before; others stay",
     "A session created with a time to live is ended, together with its shell, and removed once that time since its creation has passed, attached or not, and never before; a session without one never expires. Another session that later gets the same name, or a "
     "lost race to create one, neither inherits nor cancels it. A time too far off to represent never comes, and no time to live, however large, disturbs the daemon.",
     ["inputs", "histories", "schedules"], "every time to live, every number of sessions with one, every history of creations, kills and exits under the same names",
     "One test waits for a single session to expire; the order of several expiries, reuse of names and races between expiry and other operations are not sampled.",
     ["libshpool/src/daemon/ttl_reaper.rs", "libshpool/src/daemon/server.rs"],
     [("reaper loop", "libshpool/src/daemon/ttl_reaper.rs: run, Ord for Reapable"), ("registration", "libshpool/src/daemon/server.rs: spawn_subshell")],
     note="Proved for every history of registrations and clock readings over contracts for channels, std's BinaryHeap and the clock: nothing is ended before its own deadline, every registration is kept until its "
          "time came, and is acted upon then. That the thread wakes up in time is observed by the bounded search.",
     observe=["list replies", "processes"], hook="none")

prop("P13", "The exit status of the shell reaches the user",
     "When the shell of a session ends, that becomes known to everybody who waits for it, once, with its exit status, or 1 if it was ended by a signal; a shell that is only stopped has not ended. No one is ever told "
     "that a shell has ended which has not, or another status than the shell's. The attach command that is connected at that moment ends with that very status, whatever it is, and it ends with a status of its own (1) only if the "
     "connection ended without one; having been told a status it reads no further, and the terminal is given back before it ends.",
     ["inputs", "histories", "schedules"], "every exit status and every interleaving of the shell's end with its output, clients coming and going, and other waiters",
     "One test checks one status in one order; a status that is lost needs the exit to coincide with a hang-up, a closed stdin or a wait that times out.",
     ["libshpool/src/daemon/exit_notify.rs", "libshpool/src/daemon/server.rs", "libshpool/src/daemon/shell.rs", "libshpool/src/protocol.rs"],
     [("exit notifier", "libshpool/src/daemon/exit_notify.rs: ExitNotifier"), ("the thread that waits for the shell", "libshpool/src/daemon/server.rs: spawn_subshell"),
      ("telling the client", "libshpool/src/daemon/shell.rs: spawn_supervisor, bidi_stream"), ("the attach command", "libshpool/src/protocol.rs: pipe_bytes")],
     note="Proved for every schedule at the granularity of the locks: what other threads may do between two accesses is part of the contracts. The frame itself is P05 and P01; that a thread gets to run is not part of it.",
     state=[("exit slot", "the status, once there is one", "libshpool/src/daemon/exit_notify.rs: ExitNotifier::slot")],
     observe=["exit status of the attach command"], hook="none")

prop("P14", "kill ends exactly the sessions it names",
     "A kill request ends the shell of every session it names that exists and removes it from the list, whether it is attached, detached or has exited, however often it is named; it answers with exactly the names that do not exist, in order, "
     "and touches no other session or process. A shell that ignores the hangup signal is given time and then killed for good. The command reports success exactly if all the names existed; without names it means the session it is run in.",
     ["inputs", "histories", "schedules"], "every list of names and every state of the sessions they name",
     "Tests kill one or two running sessions; repeated names, sessions whose shell has just exited (whose pid may belong to somebody else by now) and shells that ignore the signal together are not covered.",
     ["libshpool/src/daemon/server.rs", "libshpool/src/daemon/shell.rs", "libshpool/src/kill.rs", "libshpool/src/common.rs"],
     [("request handler", "libshpool/src/daemon/server.rs: handle_kill"), ("signals", "libshpool/src/daemon/shell.rs: Session::kill"), ("command", "libshpool/src/kill.rs: run; libshpool/src/common.rs: resolve_sessions")],
     note="Proved for every request and table; that a signalled shell dies is the kernel's part. When ending one shell fails with anything but 'no such process', the request is answered with an error and the rest of its names are not looked at.",
     observe=["kill replies", "list replies", "processes", "exit status of the command"], hook="none")

prop("P15", "detach lets go of exactly the clients of the sessions it names",
     "A detach request disconnects the client of every session it names, leaves the sessions themselves running and listed, and touches no other session. It answers with exactly the names that do not exist, and those that exist but had no client "
     "attached, each in order; one session whose shell is gone does not keep the others from being handled. The command reports success exactly if all the names existed and were attached; without names it means the session it is run in.",
     ["inputs", "histories", "schedules"], "every list of names and every state of the sessions they name",
     "Tests detach one session, or one that does not exist; lists that mix attached, detached, ended, repeated and unknown names are not covered.",
     ["libshpool/src/daemon/server.rs", "libshpool/src/daemon/shell.rs", "libshpool/src/detach.rs"],
     [("request handler", "libshpool/src/daemon/server.rs: handle_detach"), ("letting go", "libshpool/src/daemon/shell.rs: spawn_shell_to_client"), ("command", "libshpool/src/detach.rs: run; libshpool/src/common.rs: resolve_sessions")],
     note="Proved for every request and table over contracts for the channels to the sessions' threads, whose answers are proved with P05.",
     observe=["detach replies", "the clients' connections", "exit status of the command"], hook="none")

prop("P16", "The list tells the truth",
     "A list reply has exactly one entry for every session there is at that moment and no other: its name, when it was started, whether a client is being served, when a client last came and last left, and, while one is attached, the "
     "template text and process it came with. The command shows one line with name and status per entry, or with --json all of the reply.",
     ["inputs", "histories", "schedules"], "every set of sessions and every history that led to it",
     "Tests list one or two sessions and look at their names; the times and attachments after takeovers, failed attaches and detaches are not checked.",
     ["libshpool/src/daemon/server.rs", "libshpool/src/daemon/shell.rs", "libshpool/src/list.rs"],
     [("report", "libshpool/src/daemon/server.rs: handle_list"), ("records", "libshpool/src/daemon/shell.rs: SessionLifecycle"), ("comings and goings", "libshpool/src/daemon/server.rs: select_shell_desc, handle_attach, note_client_disconnect"),
      ("command", "libshpool/src/list.rs: run")],
     note="Proved for every table and history. Assumed: mapping the table to rows visits each entry once, formatting and serde, and the clock does not run before 1970 (the request fails then). A session whose shell has "
          "exited stays in the list until it is attached to, killed or expires.",
     observe=["list replies", "output of the command"], hook="none")

prop("P20", "Clients follow the variables their session's name is made of",
     "The daemon's variables are the configured defaults as changed by every set and unset, in one order that everybody sees; get and list show exactly them. A client attached under a template is told of every change that came after the variables its "
     "session was chosen by, however the changes race with its attaching, in that order; exactly when the template stands for another name under what it was told it leaves its session, which stays, and attaches to that other one. A template that "
     "makes no sense is refused before anything is asked of the daemon.",
     ["inputs", "histories", "schedules"], "every set of variables and templates, every sequence of changes by any number of parties, and every interleaving of them with clients attaching, switching and leaving",
     "The tests switch one client once; changes while a client is attaching, several changes at a time, changes that do not concern a client, and values that are odd as names are not sampled.",
     ["libshpool/src/daemon/server.rs", "libshpool/src/daemon/shell.rs", "libshpool/src/attach.rs", "libshpool/src/protocol.rs", "libshpool/src/var.rs"],
     [("changing and telling", "libshpool/src/daemon/server.rs: handle_modify_var, handle_get_vars, send_missed_vars, Server::new"), ("passing it on", "libshpool/src/daemon/shell.rs: spawn_shell_to_client, bidi_stream; libshpool/src/protocol.rs: pipe_bytes"),
      ("moving", "libshpool/src/attach.rs: Attach::run, attach_resolved"), ("command", "libshpool/src/var.rs: run")],
     note="Proved for every history of changes, at the granularity of the lock on the variables, and for every client. Assumed: a session's queue of ten pending changes is emptied within half a second, channels keep their order, serde carries the "
          "variables unchanged, and templates are filled in as proved in P07.",
     state=[("variables", "names and values, under one lock", "libshpool/src/daemon/server.rs: Server::vars")],
     observe=["get and list replies", "frames to clients", "list replies", "which session answers what a client types"], hook="none")

prop("P24", "A restored screen looks like the one that was left",
     "With session_restore_mode = \"screen\" or \"lines\", a client that attaches again, at any size, sees what a terminal of that size that had shown the session's whole output would show: text, attributes, cursor and modes.",
     ["histories", "inputs"], "every output a program can write, every split of it into reads, every size and change of size",
     "The tests restore a handful of short texts; escape sequences, wide characters and resizes are not settled by them.",
     ["libshpool/src/session_restore/mod.rs"],
     [("restoring", "libshpool/src/session_restore/mod.rs: Vterm::process, restore_buffer")],
     observe=["bytes on the terminal"], hook="none",
     na="What the restored bytes are is decided by the VT engines (the vt100 and shpool_vterm crates: thousands of lines outside /repo, with no specification of terminals to prove against); a contract could only assume the property. "
        "That the engine gets exactly the session's output, in order, and that what it gives back is what is sent is proved with P05 and P19.")

prop("P25", "The daemon never stalls",
     "Whatever clients, sessions and subscribers do, every request to the daemon is answered and every session's output keeps flowing to a client that reads.",
     ["schedules", "histories"], "every interleaving of the daemon's threads, every behaviour of peers",
     "The tests run a handful of schedules; a deadlock needs a particular one.",
     ["libshpool/src/daemon/server.rs", "libshpool/src/daemon/shell.rs"],
     [("locks and channels", "libshpool/src/daemon/server.rs; libshpool/src/daemon/shell.rs")],
     observe=["replies", "terminal output"], hook="none",
     na="A liveness property of many threads over blocking channels, locks and sockets: Hoare-style contracts per function say what holds when a call returns, not that it returns, and Verus proves no progress of concurrent code. "
        "The places where a stall was found (P10, P11, P12, P15, P23) are covered as safety: time limits, locks not held across blocking calls.")

prop("P26", "A client that vanished without a word is noticed",
     "A client whose connection broke without being closed stops being shown as attached within a bounded time, because the daemon sends heartbeats at the stated interval.",
     ["schedules", "fault_sequences"], "every moment of the break, every amount of output going on",
     "The tests only close connections properly.",
     ["libshpool/src/daemon/shell.rs", "libshpool/src/consts.rs"],
     [("heartbeats", "libshpool/src/daemon/shell.rs: spawn_heartbeat")],
     observe=["sessions listed"], hook="none",
     na="A bound on real time: when the thread runs and when the kernel reports a broken Unix socket is outside what a contract can state. The bounded searches of P10 and P22 see clients go in every way but this one.")
