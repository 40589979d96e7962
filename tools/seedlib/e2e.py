"""Drives /repo's built shpool daemon in a scratch directory over its socket."""
import json, os, shutil, socket, struct, subprocess, sys, tempfile, threading, time

BIN = os.path.join(os.getcwd(), "target/debug/shpool")


def pack(v):
    if v is None: return b"\xc0"
    if v is True: return b"\xc3"
    if v is False: return b"\xc2"
    if isinstance(v, int):
        return b"\xd3" + struct.pack(">q", v) if v < 2**63 else b"\xcf" + struct.pack(">Q", v)
    if isinstance(v, str):
        b = v.encode()
        return b"\xdb" + struct.pack(">I", len(b)) + b
    if isinstance(v, (list, tuple)): return b"\xdd" + struct.pack(">I", len(v)) + b"".join(pack(x) for x in v)
    if isinstance(v, dict): return b"\xdf" + struct.pack(">I", len(v)) + b"".join(pack(k) + pack(x) for k, x in v.items())
    raise TypeError(v)


def unpack(rd):
    t = rd(1)[0]
    if t < 0x80: return t
    if t >= 0xe0: return t - 256
    if t < 0x90: return {unpack(rd): unpack(rd) for _ in range(t & 15)}
    if t < 0xa0: return [unpack(rd) for _ in range(t & 15)]
    if t < 0xc0: return rd(t & 31).decode()
    if t == 0xc0: return None
    if t in (0xc2, 0xc3): return t == 0xc3
    if t in (0xca, 0xcb): return struct.unpack(">f" if t == 0xca else ">d", rd(4 if t == 0xca else 8))[0]
    if 0xcc <= t <= 0xcf: return int.from_bytes(rd(1 << (t - 0xcc)), "big")
    if 0xd0 <= t <= 0xd3: return int.from_bytes(rd(1 << (t - 0xd0)), "big", signed=True)
    if 0xd9 <= t <= 0xdb: return rd(int.from_bytes(rd(1 << (t - 0xd9)), "big")).decode()
    if t in (0xc4, 0xc5, 0xc6): return rd(int.from_bytes(rd(1 << (t - 0xc4)), "big"))
    if t in (0xdc, 0xdd): return [unpack(rd) for _ in range(int.from_bytes(rd(2 << (t - 0xdc)), "big"))]
    if t in (0xde, 0xdf): return {unpack(rd): unpack(rd) for _ in range(int.from_bytes(rd(2 << (t - 0xde)), "big"))}
    raise ValueError(t)


def reader(s):
    def rd(n):
        b = b""
        while len(b) < n:
            x = s.recv(n - len(b))
            if not x: raise EOFError
            b += x
        return b
    return rd


def wait(f, secs=10):
    end = time.time() + secs
    while time.time() < end:
        if f(): return True
        time.sleep(0.02)
    return False


class Daemon:
    def __init__(self, config="", env=None):
        self.dir = tempfile.mkdtemp(prefix="dm", dir="/tmp")
        self.sock = self.dir + "/s"
        self.cfg = self.dir + "/c.toml"
        open(self.cfg, "w").write(config)
        self.env = {"HOME": self.dir, "XDG_RUNTIME_DIR": self.dir + "/run", "PATH": "/usr/bin:/bin:/usr/sbin:/sbin", "TERM": "xterm",
                    "SHELL": "/bin/bash", "USER": "root", "LANG": "C.UTF-8"}
        self.env.update(env or {})
        self.proc = subprocess.Popen([BIN, "--log-file", self.dir + "/log", "--socket", self.sock, "--config-file", self.cfg, "daemon"],
                                     env=self.env, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        assert wait(lambda: self.up()), "daemon did not come up"

    def up(self):
        try:
            s = socket.socket(socket.AF_UNIX); s.connect(self.sock); s.close()
            return True
        except OSError:
            return False

    def stop(self):
        self.proc.kill(); self.proc.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self): return self
    def __exit__(self, *a): self.stop()

    def connect(self):
        s = socket.socket(socket.AF_UNIX)
        s.connect(self.sock)
        unpack(reader(s))
        return s

    def rpc(self, h):
        s = self.connect(); s.settimeout(15)
        s.sendall(pack(h))
        return unpack(reader(s))

    def list(self): return self.rpc("List")["sessions"]
    def names(self): return sorted(x["name"] for x in self.list())
    def kill(self, *n): return self.rpc({"Kill": {"sessions": list(n)}})
    def detach(self, *n): return self.rpc({"Detach": {"sessions": list(n)}})
    def setvar(self, k, v): return self.rpc({"ModifyVar": {"var": k, "val": v}})

    def cli(self, *args, **k):
        return subprocess.run([BIN, "--no-daemonize", "--socket", self.sock, "--config-file", self.cfg, *args], env=k.pop("env", self.env),
                              cwd=self.dir, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=30, **k)

    def attach(self, name, cmd=None, **h):
        hd = {"name": name, "name_template": name, "local_tty_size": {"rows": 24, "cols": 80, "xpixel": 0, "ypixel": 0},
              "local_env": [["TERM", "xterm"]], "cmd": cmd}
        hd.update(h)
        s = self.connect()
        s.sendall(pack({"Attach": hd}))
        return Att(s)


class Att:
    def __init__(self, s):
        self.s = s
        self.rd = reader(s)
        s.settimeout(15)
        self.status = unpack(self.rd).get("status")
        s.settimeout(None)
        self.data, self.exit, self.switches, self.eof = b"", [], [], False
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        try:
            while True:
                k = self.rd(1)[0]
                n = 4 if k == 2 else struct.unpack("<I", self.rd(4))[0]
                b = self.rd(n)
                if k == 0: self.data += b
                elif k == 2: self.exit.append(struct.unpack("<i", b)[0])
                elif k == 3: self.switches.append(b)
        except (EOFError, OSError):
            self.eof = True

    def kind(self): return self.status if isinstance(self.status, str) else list(self.status)[0]
    def send(self, b): self.s.sendall(b)
    def wait(self, needle, secs=10): return wait(lambda: needle in self.data, secs)
    def wait_eof(self, secs=10): return wait(lambda: self.eof, secs)
    def hang_up(self):
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close()


def check(cond, msg):
    if not cond:
        print("FAIL:", msg)
        sys.stdout.flush()
        raise SystemExit(1)


def slurp(p):
    try: return open(p, "rb").read()
    except OSError: return b""
