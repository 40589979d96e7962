"""What each check verifies and which hooks its bounded search needs."""
PROPS = {
    "P01": {"units": ["P01"], "hooks": ["protocol"], "assumptions": [
        "std::io::Write/Read and byteorder behave as their contracts in contracts/prelude/io.rs say"]},
    "P02": {"units": ["P02"], "hooks": ["protocol"], "assumptions": [
        "std's str operations behave as their contracts in contracts/prelude/str.rs say; decoding a greeting yields at most one header"]},
    "P06": {"units": ["P06"], "hooks": ["duration"], "assumptions": [
        "std's str, String and char operations behave as their contracts in contracts/prelude/str.rs say"]},
    "P03": {"units": ["P03"], "hooks": ["daemon_keybindings"], "assumptions": [
        "std's String/str/char operations and HashMap behave as the contracts in contracts/P03.rs and vstd say"]},
    "P04": {"units": ["P04", "P04pipe", "P04acli"], "hooks": [], "oracle_secs": (25, 300), "assumptions": [
        "the matching engine keeps the contract proved in P03; reads and writes on sockets and ptys behave as their contracts in contracts/P04.rs",
        "no binding is longer than 2^64 key codes",
        "stdin yields what is typed in order; frames are decoded as proved in P01 (client side, contracts/prelude/pipe.rs)"]},
    "P07": {"units": ["P07"], "hooks": ["template"], "assumptions": [
        "std's str, String, char and HashMap operations behave as their contracts in contracts/prelude/{str,opt,map}.rs say",
        "template texts are shorter than 2^55 bytes (the size estimate is a usize sum)", "usize is 64 bits wide"]},
    "P08": {"units": ["P08"], "hooks": ["daemon_etc_environment"], "assumptions": [
        "std's str, String and char operations behave as their contracts in contracts/prelude/str.rs say",
        "BufRead::read_line yields the file's lines in order, each once, and 0 only at the end"]},
    "P09": {"units": ["P09"], "hooks": ["config"], "assumptions": [
        "reading a file and decoding TOML are functions of the file for the time of one load (assumed contracts); serde's derived decoder fills exactly the options the file sets",
        "taking the configuration's lock is dropped from the extracted reload handler"]},
    "P05": {"units": ["P05", "P05pipe"], "hooks": [], "oracle_secs": (30, 300), "assumptions": [
        "a pty that reports no readable data, an error or end of file has nothing left to read (kernel)",
        "a write to a client either takes effect in order or fails, and once one failed that client is gone; frames are encoded as proved in P01",
        "select! may take any arm whose channel is ready; the first message on the connection channel is never an exit (bidi_stream hands a client over first)",
        "a client that leaves its socket unread for more than 300 ms while the shell exits may lose the rest (time-outs are outside the contracts)"]},
    "P17": {"units": ["P17", "P17acli"], "hooks": [], "oracle_secs": (50, 300), "assumptions": [
        "std::process::Command, fork and the terminal behave as their contracts in contracts/prelude/spawn.rs say; shell_words splits as a shell does",
        "close_inherited_fds closes everything but the terminal; disabling echo on a fresh terminal succeeds; the setup that is typed into the shell is what maybe_setup says",
        "/etc/environment is read as proved in P08, the configuration is the one of P09, the wire carries the request unchanged (P01)"]},
    "P18": {"units": ["P18"], "hooks": [], "oracle_secs": (25, 240), "assumptions": [
        "the kernel reports the identity of the process that made a connection (SO_PEERCRED)",
        "the request handlers keep their own contracts (P14-P20); here they are what may be called, when and with what",
        "encoding and decoding headers is serde's; /proc names executables; thread::spawn runs its closure on a thread of its own"]},
    "P21": {"units": ["P21", "P21top"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "fork, setsid, flock, dup2, sockets and files behave as their contracts in contracts/prelude/launch.rs say; a lock is held until its value is gone",
        "signal_hook calls what is registered for a signal in the order of registration; systemd hands over what LISTEN_FDS says",
        "what becomes of the server once it runs is P10-P20; PidFileGuard's and ListenerGuard's drops remove only their own file"]},
    "P23": {"units": ["P23", "P23cli", "P23attach", "P23kill", "P23detach", "P23reaper"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "poll, accept, read and write behave as their contracts in contracts/prelude/bus.rs say; a write of a short line to a Unix socket is not split by the kernel, and if it is, the rest follows",
        "the channel between publishers and sink keeps its order and holds 4096 events; serde_json prints an event as its derive says (the text is observed)",
        "who publishes holds the table's lock and has made the change before it lets go (contracts/prelude/srv.rs)"]},
    "P22": {"units": ["P22", "P22pager"], "hooks": [], "oracle_secs": (30, 200), "assumptions": [
        "what the message is, given motd_args, is the motd crate's doing; it is read when it is to be shown",
        "strip_ansi_escapes takes out exactly what colours the text; tempfile makes a file nobody else has and removes it when dropped; exec starts the program asked for",
        "the terminal database's carriage return for TERM is what the terminal understands; the wall clock may jump either way (covered), locks are locks",
        "that a session's first output comes after the message is P05's loop, which calls dump before it; here the bounded search observes it"]},
    "P19": {"units": ["P19", "P19bidi", "P19acli"], "hooks": [], "oracle_secs": (25, 300), "assumptions": [
        "the size ioctl on the pty master sets the size of the terminal and signals the program when it changes (kernel)",
        "that the thread wakes up again within its 100 ms poll is not part of the contracts; the bounded search observes it"]},
    "P20": {"units": ["P20vars", "P20attach", "P20bidi", "P20s2c", "P20pipe", "P20acli", "P20cli"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "channels keep their order; a session's queue of pending changes is emptied within 500 ms (a change that finds it full for longer is not passed on)",
        "serde and the wire carry the variables unchanged (frames: P01); printing JSON is serde_json's",
        "templates mean what is proved in P07; the variables' lock is a lock",
        "while a client that switches waits for a session to become free (up to 2 s) it does not look at further changes"]},
    "P10": {"units": ["P10", "P10s2c", "P10bidi", "P10acli"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "the table is behind one lock, and an inner lock is held by whoever serves the session (contracts in contracts/prelude/srv.rs)",
        "spawn_subshell either starts a session or leaves nothing behind; the exit notifier keeps what is proved in P13",
        "lexical scopes that hold the table's lock end with an explicit unlock in the extracted text"]},
    "P11": {"units": ["P11", "P11names", "P11acli"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "paths and file operations behave as their contracts in contracts/prelude/shenv.rs say; nobody else changes the session's directory at the same time",
        "the first of a client's variables of a name counts as its SSH_AUTH_SOCK (clients send each name once)"]},
    "P12": {"units": ["P12", "P12attach", "P12acli"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "std's BinaryHeap returns a greatest element by Ord; channels hand over every registration once; the clock does not run backwards",
        "select! may take any arm that is ready",
        "Session::kill is proved in P14"]},
    "P13": {"units": ["P13", "P13pipe", "P13spawn", "P13acli"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "waitpid(2) reports the end of the child it is asked for and fails only if there is none; parking_lot's condition variables do not wake up without a notification",
        "common::sleep_unless ends when its condition holds or the time is over; the exit frame between the two ends is proved in P05 (daemon) and P01 (wire)",
        "the atomic flags are only raised by the extracted functions"]},
    "P14": {"units": ["P14"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "kill(2), the clock and the exit notifier (P13) behave as their contracts in contracts/prelude/sig.rs say",
        "the wire carries requests and replies unchanged (P01)"]},
    "P15": {"units": ["P15", "P15ctl"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "the channels to a session's thread behave as their contracts in contracts/prelude/srv.rs say; its answers are proved in P05",
        "the wire carries requests and replies unchanged (P01)"]},
    "P16": {"units": ["P16"], "hooks": [], "oracle_secs": (40, 300), "assumptions": [
        "iterating the table visits each entry once; try_lock fails exactly while a client is served",
        "formatting, serde_json and the wire carry the reply unchanged",
        "the clock shows a time between 1970 and year 292277026"]},
}
