"""Mechanical extraction of Rust items from /repo into a Verus file.

A contract template (contracts/*.rs) is plain Verus text plus extraction
blocks.  A block names an item of /repo's current source; the extractor copies
the item's tokens verbatim from the file and splices ghost text (contracts,
loop invariants, proof blocks) around them.  It never edits executable tokens
except through the block's explicit `sub` lines (path/type shims that the
prelude explains) and by dropping the things listed in `DROPPED`.

Block syntax, one directive per line, sections end at the next `//@` line:

  //@fn FILE :: [container regex ::] NAME       extract a function
  //@closure FILE :: FN :: ANCHOR               extract the block that follows ANCHOR inside FN
  //@item FILE :: KIND NAME                     extract struct / enum / const / static / type
  //@ret NAME                 name of the returned value
  //@elide `A (` => `B`      replace what that bracket encloses by B (extracted elsewhere)
  //@append `A (` => `B`     pass B as one more, last, argument (or parameter)
  //@scoped `A` => `B`      a `let` local whose value starts with A is given up at the end of its block
                            or where it is dropped: say B there ($g is its name; `@fn B`: also at the end of the function)
  //@pre / //@post TEXT     (closure) text between the contract and the block, and after it
  //@sig                      (closure) signature text of the wrapping function
  //@attr TEXT                attribute line put in front
  //@sub `A` => `B`           token-sequence substitution (recorded)
  //@bind X `let mut ? = 0`   capture a local's name; ghost text says $X
                              ($1, $2, .. are the parameters' current names)
  //@spec                     requires / ensures / decreases text
  //@loop N [iter=x] [sel=..] loop invariants of the N-th loop
  //@at start|end|loopstart N|loopend N|loopbefore N|loopafter N|before K `toks`|after K `toks`
  //@endfn
"""
import os
import re

REPO = os.environ.get("VERIF_REPO", "/repo")

DROPPED = [
    "doc comments and comments",
    "attributes (#[instrument], #[allow], #[cfg(not(..))] ...; derives are restated in the template)",
    "visibility modifiers are kept; `async`/`unsafe` are never dropped",
]


class ExtractError(Exception):
    """The anchor is gone: the code no longer has the shape the contract names."""


# ---------------------------------------------------------------- tokenizer
class Tok:
    __slots__ = ("kind", "s", "a", "b", "pre")

    def __init__(self, kind, s, a, b, pre=""):
        self.kind, self.s, self.a, self.b, self.pre = kind, s, a, b, pre

    def __repr__(self):
        return f"{self.s!r}"


PUNCT3 = ["<<=", ">>=", "...", "..=", "::", "->", "=>", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=",
          "%=", "^=", "&=", "|=", "..", "<<"]


def tokenize(src):
    toks = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(?:br|r|cr)(#*)"').match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.find(close, m.end())
            if j < 0:
                raise ExtractError("unterminated raw string")
            j += len(close)
            toks.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        m = re.compile(r'[bc]?"').match(src, i)
        if m:
            j = m.end()
            while src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            toks.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        m = re.compile(r"b?'(\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^\\'])'", re.S).match(src, i)
        if m:
            toks.append(Tok("char", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = re.compile(r"'[A-Za-z_]\w*").match(src, i)
        if m:
            toks.append(Tok("life", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = re.compile(r"(r#)?[A-Za-z_]\w*").match(src, i)
        if m:
            toks.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        m = re.compile(r"\d[\w]*(\.\d[\w]*)?([eE][+-]?\d+)?").match(src, i)
        if m:
            toks.append(Tok("num", m.group(0), i, m.end()))
            i = m.end()
            continue
        for p in PUNCT3:
            if src.startswith(p, i):
                toks.append(Tok("p", p, i, i + len(p)))
                i += len(p)
                break
        else:
            toks.append(Tok("p", c, i, i + 1))
            i += 1
    return toks


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        s = toks[j].s
        if toks[j].kind == "p":
            if s in OPEN:
                d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise ExtractError("unbalanced brackets")


class Source:
    _cache = {}

    def __init__(self, path):
        self.path = path
        full = os.path.join(REPO, path)
        try:
            with open(full, encoding="utf-8") as f:
                self.src = f.read()
        except OSError as e:
            raise ExtractError(f"cannot read {path}: {e}")
        self.toks = tokenize(self.src)
        self._skip_tests()

    def _skip_tests(self):
        """mark token ranges under #[cfg(test)] / #[cfg(shpool_verif)]"""
        t = self.toks
        self.skip = []
        i = 0
        while i < len(t):
            if t[i].s == "#" and i + 1 < len(t) and t[i + 1].s == "[":
                j = match_close(t, i + 1)
                txt = "".join(x.s for x in t[i:j + 1])
                if txt in ("#[cfg(test)]", "#[cfg(shpool_verif)]", '#[cfg(feature="test_hooks")]',
                           '#[cfg(any(target_os="macos",target_os="ios"))]', '#[cfg(target_os="macos")]'):
                    k = j + 1
                    while t[k].s == "#":
                        k = match_close(t, k + 1) + 1
                    while t[k].s not in ("{", ";"):
                        k += 1
                    if t[k].s == "{":
                        k = match_close(t, k)
                    self.skip.append((i, k))
                    i = k + 1
                    continue
                i = j + 1
                continue
            i += 1

    def skipped(self, i):
        return any(a <= i <= b for a, b in self.skip)

    @classmethod
    def get(cls, path):
        if path not in cls._cache:
            cls._cache[path] = cls(path)
        return cls._cache[path]

    def containers(self):
        """(header text, open idx, close idx) of every impl/trait/mod block"""
        t = self.toks
        out = []
        i = 0
        while i < len(t):
            if t[i].kind == "id" and t[i].s in ("impl", "trait", "mod") and not self.skipped(i):
                if i > 0 and t[i - 1].s in (":", "->", "(", ",", "<", "&", "=", "+"):
                    i += 1
                    continue
                j = i
                while j < len(t) and t[j].s not in ("{", ";"):
                    j += 1
                if j < len(t) and t[j].s == "{":
                    hdr = " ".join(x.s for x in t[i:j])
                    out.append((hdr, j, match_close(t, j)))
            i += 1
        return out

    def find_fn(self, name, container=None):
        t = self.toks
        conts = self.containers()
        hits = []
        for i in range(len(t) - 1):
            if t[i].s == "fn" and t[i].kind == "id" and t[i + 1].s == name and not self.skipped(i):
                cs = [c for c in conts if c[1] < i < c[2]]
                inner = max(cs, key=lambda c: c[1]) if cs else None
                hdr = inner[0] if inner else ""
                if container is not None:
                    if container == "-":
                        if hdr and not hdr.startswith("mod"):
                            continue
                    elif not re.search(container, hdr):
                        continue
                # skip declarations without a body
                j = i
                while t[j].s not in ("{", ";"):
                    if t[j].s in OPEN and t[j].kind == "p":
                        j = match_close(t, j)
                    j += 1
                if t[j].s == ";":
                    continue
                hits.append((i, j))
        if not hits:
            raise ExtractError(f"{self.path}: no function `{name}`" + (f" in `{container}`" if container else ""))
        if len(hits) > 1:
            raise ExtractError(f"{self.path}: function `{name}` is ambiguous")
        return hits[0]


# ---------------------------------------------------------------- pieces
def strip_attrs(toks):
    """drop outer/inner attributes from a token list"""
    out = []
    i = 0
    while i < len(toks):
        if toks[i].s == "#" and i + 1 < len(toks) and (toks[i + 1].s == "[" or (
                toks[i + 1].s == "!" and i + 2 < len(toks) and toks[i + 2].s == "[")):
            k = i + 1 if toks[i + 1].s == "[" else i + 2
            i = match_close(toks, k) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


class Ins:
    """pending text for a token gap"""

    def __init__(self):
        self.before = {}
        self.after = {}

    def b(self, i, s):
        self.before.setdefault(i, []).append(s)

    def a(self, i, s):
        self.after.setdefault(i, []).append(s)


def render(src, toks, ins, lo, hi):
    """text of toks[lo:hi] keeping the source's own line structure"""
    out = []
    prev_end = None
    for i in range(lo, hi):
        t = toks[i]
        for s in ins.before.get(i, []):
            out.append("\n" + s + "\n")
        if prev_end is not None:
            gap = src[prev_end:t.a] if prev_end <= t.a else " "
            nl = gap.count("\n")
            if nl:
                indent = gap.rsplit("\n", 1)[1]
                out.append("\n" + (indent if indent.isspace() or indent == "" else "    "))
            elif gap:
                out.append(" ")
        out.append(t.pre + t.s)
        prev_end = t.b
        for s in ins.after.get(i, []):
            out.append("\n" + s + "\n")
    return "".join(out)


def find_seq(toks, lo, hi, pat):
    p = [x.s for x in tokenize(pat)]
    hits = []
    for i in range(lo, hi - len(p) + 1):
        if all(toks[i + k].s == p[k] for k in range(len(p))):
            hits.append(i)
    return hits, len(p)


def loops_in(toks, lo, hi):
    """[(keyword idx, body open idx, body close idx, kw)] in order of occurrence"""
    out = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.kind == "id" and t.s in ("while", "for", "loop"):
            if t.s == "for" and toks[i + 1].s == "<":
                i += 1
                continue
            if t.s == "for" and i > lo and toks[i - 1].s not in ("{", "}", ";", ":", "=>"):
                i += 1
                continue
            j = i + 1
            while toks[j].s != "{":
                if toks[j].s in ("(", "["):
                    j = match_close(toks, j)
                elif toks[j].s == ";":
                    raise ExtractError("loop header without body")
                j += 1
            out.append((i, j, match_close(toks, j), t.s))
        i += 1
    return out


def closures_in(toks, lo, hi):
    """[(open bar idx, close bar idx, body lo, body hi)] of every closure, in order"""
    out = []
    i = lo
    while i < hi:
        if toks[i].kind == "p" and toks[i].s in ("|", "||") and (
                toks[i - 1].s in ("(", ",", "=", "{", ";", "=>", "return", "move", "&&", "||") and toks[i - 1].kind != "str"):
            a = i
            if toks[i].s == "||":
                b = i
            else:
                b = i + 1
                while toks[b].s != "|":
                    b = match_close(toks, b) + 1 if toks[b].s in OPEN and toks[b].kind == "p" else b + 1
            c = b + 1
            if toks[c].s == "->":
                while toks[c].s != "{":
                    c += 1
            if toks[c].s == "{" :
                e = match_close(toks, c)
            else:
                e, d = c, 0
                while True:
                    x = toks[e]
                    if x.kind == "p":
                        if x.s in OPEN:
                            d += 1
                        elif x.s in CLOSE:
                            if d == 0:
                                break
                            d -= 1
                        elif x.s in (",", ";") and d == 0:
                            break
                    e += 1
                e -= 1
            out.append((a, b, c, e))
            i = b + 1
            continue
        i += 1
    return out


def stmt_start(toks, i, lo):
    """walk back from i to the start of its statement"""
    d = 0
    j = i - 1
    while j >= lo:
        s = toks[j].s
        if toks[j].kind == "p":
            if s in (")", "]"):
                d += 1
            elif s in ("(", "["):
                d -= 1
            elif d <= 0 and s in (";", "{", "}"):
                return j + 1
        j -= 1
    return lo


def stmt_end(toks, i, hi):
    d = 0
    j = i
    while j < hi:
        s = toks[j].s
        if toks[j].kind == "p":
            if s in OPEN:
                d += 1
            elif s in CLOSE:
                if d == 0:
                    return j - 1
                d -= 1
            elif s == ";" and d == 0:
                return j
        j += 1
    return hi - 1


def tail_start(toks, bopen, bclose):
    """start of the block's tail expression, or None"""
    i = bopen + 1
    start = i
    if toks[bclose - 1].s == ";" or bclose == i:
        return None
    while i < bclose:
        x = toks[i]
        if x.kind == "p" and x.s in OPEN:
            e = match_close(toks, i)
            # a block-like statement ends at its brace (unless an expression continues)
            if x.s == "{" and toks[start].s in ("if", "match", "while", "for", "loop", "unsafe", "{") and e + 1 < bclose and toks[
                    e + 1].s not in ("else", ".", "?", ";"):
                start = e + 1
            i = e + 1
            continue
        if x.s == ";":
            start = i + 1
        i += 1
    return start


class Block:
    def __init__(self, kind, head, lineno):
        self.kind, self.head, self.lineno = kind, head, lineno
        self.ret = None
        self.attrs = []
        self.subs = []
        self.spec = ""
        self.sig = ""
        self.loops = {}
        self.loopopt = {}
        self.elides = []
        self.appends = []
        self.pre = self.post = ""
        self.ats = []
        self.name = None
        self.optional = False
        self.binds = []
        self.cls = {}
        self.selarg = ""
        self.andthen = self.mapor = self.vecs = False
        self.scoped = []


def parse_template(text):
    """-> list of str | Block"""
    out = []
    buf = []
    blk = None
    sect = None
    for ln, line in enumerate(text.split("\n"), 1):
        m = re.match(r"\s*//@(\w+)\s?(.*)$", line)
        if not m:
            if blk is None:
                buf.append(line)
            elif sect is not None:
                sect.append(line)
            elif line.strip():
                raise ValueError(f"line {ln}: stray text in block: {line}")
            continue
        d, arg = m.group(1), m.group(2).strip()
        if d in ("fn", "closure", "item", "body"):
            if blk is not None:
                raise ValueError(f"line {ln}: nested block")
            out.append("\n".join(buf))
            buf = []
            blk = Block(d, arg, ln)
            sect = None
            if d == "item":
                out.append(blk)
                blk = None
        elif blk is None:
            raise ValueError(f"line {ln}: directive outside a block")
        elif d == "endfn":
            blk.spec = "\n".join(blk.spec) if blk.spec else ""
            blk.sig = "\n".join(blk.sig) if blk.sig else ""
            out.append(blk)
            blk = None
            sect = None
        elif d == "ret":
            blk.ret = arg
            sect = None
        elif d == "attr":
            blk.attrs.append(arg)
            sect = None
        elif d == "sub":
            mm = re.match(r"`(.*?)`\s*=>\s*`(.*?)`$", arg)
            if not mm:
                raise ValueError(f"line {ln}: bad sub")
            blk.subs.append((mm.group(1), mm.group(2)))
            sect = None
        elif d == "elide":
            mm = re.match(r"`(.*?)`\s*=>\s*`(.*?)`$", arg)
            blk.elides.append((mm.group(1), mm.group(2)))
            sect = None
        elif d == "append":
            mm = re.match(r"`(.*?)`\s*=>\s*`(.*?)`$", arg)
            blk.appends.append((mm.group(1), mm.group(2)))
            sect = None
        elif d == "scoped":
            mm = re.match(r"`(.*?)`\s*=>\s*`(.*?)`$", arg)
            blk.scoped.append((mm.group(1), mm.group(2)))
            sect = None
        elif d == "select":
            blk.selarg = arg
            sect = None
        elif d == "andthen":
            blk.andthen = True
            sect = None
        elif d == "vecs":
            blk.vecs = True
        elif d == "mapor":
            blk.mapor = True
            sect = None
        elif d in ("pre", "post"):
            setattr(blk, d, arg)
            sect = None
        elif d == "bind":
            mm = re.match(r"(\w+)\s+(?:(\d+)\s+)?`(.*)`$", arg)
            blk.binds.append((mm.group(1), int(mm.group(2) or 0), mm.group(3)))
            sect = None
        elif d == "spec":
            sect = blk.spec = []
        elif d == "sig":
            sect = blk.sig = []
        elif d == "loop":
            mm = re.match(r"(\d+)\s*(.*)$", arg)
            k = int(mm.group(1))
            sect = blk.loops[k] = []
            blk.loopopt[k] = dict(x.split("=", 1) for x in mm.group(2).split()) if mm.group(2) else {}
        elif d == "cl":
            mm = re.match(r"(\d+)\s+(\(.*?\))?\s*(.*)$", arg)
            blk.cls[int(mm.group(1))] = (mm.group(2), mm.group(3))
            sect = None
        elif d == "at":
            sect = []
            blk.ats.append((arg, sect))
        else:
            raise ValueError(f"line {ln}: unknown directive {d}")
    if blk is not None:
        raise ValueError("unterminated block")
    out.append("\n".join(buf))
    return out


def apply_subs(toks, subs, used):
    """token-sequence substitution on a list of Tok (positions kept for layout)"""
    for a, b in subs:
        pat = [x.s for x in tokenize(a)]
        rep = tokenize(b)
        out = []
        i = 0
        while i < len(toks):
            if len(toks) - i >= len(pat) and all(toks[i + k].s == pat[k] for k in range(len(pat))):
                used.append((a, b))
                pos_a, pos_b = toks[i].a, toks[i + len(pat) - 1].b
                for r_i, r in enumerate(rep):
                    # keep layout: the first replacement token sits at the match start,
                    # the last ends at the match end
                    ta = pos_a if r_i == 0 else pos_b
                    t2 = Tok(r.kind, r.s, ta, pos_b)
                    if r_i > 0 and r.a > rep[r_i - 1].b:
                        t2.pre = " "
                    out.append(t2)
                i += len(pat)
            else:
                out.append(toks[i])
                i += 1
        toks = out
    return toks


def scope_ends(toks, subs, used):
    """`let g = A..;` binds a guard that the end of the enclosing block gives up: the statement B is put at
    that end (after the tail expression is evaluated), and in place of `drop(g)`"""
    for a, b0 in subs:
        mk = _mk
        whole = b0.startswith("@fn ")
        b0 = b0[4:] if whole else b0
        hits, ln = find_seq(toks, 0, len(toks), a)
        n = 0
        for h in sorted(hits, reverse=True):
            st = stmt_start(toks, h, 0)
            if toks[st].s != "let" or toks[h - 1].s != "=":
                continue
            name = toks[h - 2].s
            d, o = 0, st
            while o > 0:
                o -= 1
                if toks[o].s in CLOSE and toks[o].kind == "p":
                    d += 1
                elif toks[o].s in OPEN and toks[o].kind == "p":
                    if d == 0:
                        break
                    d -= 1
            c = match_close(toks, o)
            k = st
            inner = toks[st:c]
            b = b0.replace("$g", name)
            out = []
            i = 0
            while i < len(inner):
                if [x.s for x in inner[i:i + 4]] == ["drop", "(", name, ")"]:
                    out += mk(b.rstrip(";"), inner[i].a)
                    i += 4
                elif i > 0 and inner[i].s in ("return", "continue", "break") and inner[i - 1].s in ("{", "}", ";") and (
                        inner[i].s == "return" or not any(lo < i < hi for _, lo, hi, _ in loops_in(inner, 0, len(inner)))):
                    out += mk(b, inner[i].a) + [inner[i]]
                    i += 1
                else:
                    out.append(inner[i])
                    i += 1
            new = toks[:st] + out + toks[c:]
            c = match_close(new, o)
            outer = not whole and not any(x.s == "{" for x in new[:o])
            if not outer:
                t = tail_start(new, o, c)
                if t is not None and t < c and new[t].s not in ("for", "while", "return"):
                    new = new[:t] + mk(f"let __r{n} =", new[t].a) + new[t:c] + mk(f"; {b} __r{n}", new[c].a) + new[c:]
                elif t is None or new[t].s != "return":
                    new = new[:c] + mk(b, new[c].a) + new[c:]
            toks = new
            n += 1
            used.append((f"end of the block that binds {a}..", b0))
    return toks


def split_stmts(toks, bopen, bclose):
    """[(lo, hi)] token ranges of the statements of a block (hi exclusive)"""
    out = []
    i = bopen + 1
    start = i
    while i < bclose:
        x = toks[i]
        if x.kind == "p" and x.s in OPEN:
            e = match_close(toks, i)
            if x.s == "{" and toks[start].s in ("if", "match", "while", "for", "loop", "unsafe", "{") and (
                    e + 1 >= bclose or toks[e + 1].s not in ("else", ".", "?", ";")):
                out.append((start, e + 1))
                start = e + 1
            i = e + 1
            continue
        if x.s == ";":
            out.append((start, i + 1))
            start = i + 1
        i += 1
    if start < bclose:
        out.append((start, bclose))
    return out


def own_continue(toks, lo, hi):
    """index of the first `continue` in toks[lo:hi] that belongs to this loop, or None"""
    i = lo
    while i < hi:
        t = toks[i]
        if t.kind == "id" and t.s in ("while", "for", "loop") and not (t.s == "for" and toks[i + 1].s == "<"):
            j = i + 1
            while toks[j].s != "{":
                j = match_close(toks, j) + 1 if toks[j].s in ("(", "[") else j + 1
            i = match_close(toks, j) + 1
            continue
        if t.kind == "id" and t.s == "continue":
            return i
        i += 1
    return None


def elim_continue(toks, used):
    """`for` bodies: `if C { ..; continue; } REST` becomes `if C { .. } else { REST }` and a `continue` in tail
    position is dropped (the verifier has no `continue` in `for` loops); anything else is refused."""
    def mk(s, pos):
        return Tok("p" if s in "{};" else "id", s, pos, pos)

    def block(ts):
        """ts = '{' .. '}' token list of a block in tail position of the loop body"""
        if own_continue(ts, 0, len(ts)) is None:
            return ts
        st = split_stmts(ts, 0, len(ts) - 1)
        out = [ts[0]]
        for n, (lo, hi) in enumerate(st):
            part = ts[lo:hi]
            last = n == len(st) - 1
            if own_continue(part, 0, len(part)) is None:
                out += part
                continue
            if part[0].s == "continue":
                break  # the rest of the block is unreachable
            if part[0].s == "if" and not last:
                j = 1
                while part[j].s != "{":
                    j = match_close(part, j) + 1 if part[j].s in ("(", "[") else j + 1
                e = match_close(part, j)
                body = part[j:e + 1]
                bst = split_stmts(body, 0, len(body) - 1)
                if e == len(part) - 1 and bst and body[bst[-1][0]].s == "continue":
                    rest = ts[hi:len(ts) - 1]
                    pos = rest[0].a
                    out += part[:j] + block(body) + [mk("else", pos), mk("{", pos)]
                    out[-1].pre = " "
                    out += block([mk("{", pos)] + rest + [mk("}", rest[-1].b)])[1:]
                    used.append(("continue", "else-branch"))
                    out.append(ts[-1])
                    return out
                raise ExtractError("`continue` in a for loop in a position the extractor cannot restructure")
            if not last:
                raise ExtractError("`continue` in a for loop in a position the extractor cannot restructure")
            if part[0].s in ("if", "match", "{", "unsafe"):
                k = 0
                is_match = part[0].s == "match"
                while k < len(part):
                    if part[k].kind == "p" and part[k].s == "{":
                        e = match_close(part, k)
                        if is_match and k > 0 and not any(x.s == "=>" for x in part[:k]):
                            out.append(part[k])  # the match's own brace: descend into its arms
                            k += 1
                            continue
                        if is_match and part[k - 1].s != "=>":
                            out += part[k:e + 1]  # a struct pattern
                            k = e + 1
                            continue
                        out += block(part[k:e + 1])
                        k = e + 1
                        continue
                    if part[k].s == "continue":
                        if is_match and part[k - 1].s == "=>":
                            out += [mk("{", part[k].a), mk("}", part[k].b)]
                            k += 1
                            continue
                        raise ExtractError("`continue` in a for loop in a position the extractor cannot restructure")
                    out.append(part[k])
                    k += 1
                continue
            raise ExtractError("`continue` in a for loop in a position the extractor cannot restructure")
        out.append(ts[-1])
        used.append(("continue", "dropped in tail position"))
        return out
    i = 0
    while i < len(toks):
        lps = loops_in(toks, 0, len(toks))
        for kw, lo, lc, kind in lps:
            if kind == "for" and own_continue(toks, lo + 1, lc) is not None:
                toks = toks[:lo] + block(toks[lo:lc + 1]) + toks[lc + 1:]
                break
        else:
            return toks
        i += 1
    return toks


def elim_vecs(toks, used):
    """`let mut v = vec![a, b];` becomes `let mut v = Vec::new(); v.push(a); v.push(b);` (annotations cannot go into macros)"""
    i = 0
    while i < len(toks):
        if [x.s for x in toks[i:i + 2]] == ["vec", "!"] and toks[i + 2].s == "[":
            e = match_close(toks, i + 2)
            st = stmt_start(toks, i, 0)
            if e > i + 3 and [x.s for x in toks[st:st + 2]] == ["let", "mut"] and toks[st + 2].kind == "id" and toks[i - 1].s == "=" and toks[e + 1].s == ";":
                nm = toks[st + 2].s
                els, j, a = [], i + 3, i + 3
                while j < e:
                    if toks[j].s == ",":
                        els.append(toks[a:j])
                        a = j + 1
                    j = match_close(toks, j) + 1 if toks[j].s in OPEN and toks[j].kind == "p" else j + 1
                if a < e:
                    els.append(toks[a:e])
                new = _mk("Vec::new();", toks[i].a)
                for el in els:
                    new += _mk(f"{nm}.push(", el[0].a) + el + _mk(");", el[-1].b)
                toks = toks[:i] + new + toks[e + 2:]
                used.append(("vec![..]", "one push for each element"))
                i += len(new)
                continue
        i += 1
    return toks


def elim_closure_patterns(toks, used):
    """`|(a, b)| B` becomes `|__pN| { let (a, b) = __pN; B }` (the verifier has no patterns in closure parameters)"""
    n = 0
    while True:
        for ca, cb, c0, c1 in closures_in(toks, 0, len(toks)):
            if cb == ca:
                continue
            j, at = ca + 1, True
            while j < cb:
                if at and toks[j].s == "(" and toks[j].kind == "p":
                    break
                at = toks[j].s == ","
                j = match_close(toks, j) + 1 if toks[j].s in OPEN and toks[j].kind == "p" else j + 1
            if j >= cb:
                continue
            e = match_close(toks, j)
            nm = f"__p{n}"

            def mk(text, pos):
                out = []
                for r in tokenize(text):
                    t = Tok(r.kind, r.s, pos, pos)
                    t.pre = " "
                    out.append(t)
                return out
            pat = toks[j:e + 1]
            if toks[cb + 1].s == "->":
                raise ExtractError("closure with a pattern and a return type")
            toks = (toks[:j] + mk(nm, toks[j].a) + toks[e + 1:cb + 1] + mk("{ let", toks[c0].a) + pat + mk(f"= {nm};", toks[c0].a)
                    + toks[c0:c1 + 1] + mk("}", toks[c1].b) + toks[c1 + 1:])
            used.append(("closure parameter pattern", "let in the closure's body"))
            n += 1
            break
        else:
            return toks


def elim_str_patterns(toks, used):
    """a string literal inside a match arm's pattern becomes a name and a guard: `(".", None) => E` becomes
    `(__s0, None) if same(__s0, ".") => E` (the verifier has no string patterns)"""
    n = 0
    i = 0
    while i < len(toks):
        if toks[i].s != "match" or toks[i].kind != "id":
            i += 1
            continue
        o = i + 1
        while o < len(toks) and toks[o].s != "{":
            o = match_close(toks, o) + 1 if toks[o].s in ("(", "[") and toks[o].kind == "p" else o + 1
        j = o + 1
        while j < len(toks) and toks[j].s != "}":
            # one arm: pattern [if guard] => body
            lits, a, alt, guard = [], j, False, None
            while toks[a].s != "=>":
                if guard is None:
                    if toks[a].s == "if":
                        guard = a
                    elif toks[a].kind == "str" and toks[a].s.startswith('"'):
                        lits.append(a)
                    elif toks[a].s == "|":
                        alt = True
                a = match_close(toks, a) + 1 if guard is not None and toks[a].s in OPEN and toks[a].kind == "p" else a + 1
            if lits:
                if alt:
                    raise ExtractError("string literals in an or-pattern")
                conds = []
                for x in lits:
                    conds.append((f"__s{n}", toks[x]))
                    n += 1
                g = []
                for k, (nm, lt) in enumerate(conds):
                    g += (_mk("&&", lt.b) if k else []) + _mk(f"same({nm},", lt.b) + [Tok(lt.kind, lt.s, lt.b, lt.b, " ")] + _mk(")", lt.b)
                if guard is None:
                    ins = _mk("if", toks[a - 1].b) + g
                    toks[a:a] = ins
                else:
                    ins = g + _mk("&& (", toks[guard].b)
                    toks[a:a] = _mk(")", toks[a - 1].b)
                    toks[guard + 1:guard + 1] = ins
                    ins = ins + [None]
                for x, (nm, lt) in zip(lits, conds):
                    toks[x] = Tok("id", nm, lt.a, lt.b)
                a += len(ins)
                used.append(("string literal pattern", "name and guard"))
            # the body
            a += 1
            if toks[a].s == "{":
                a = match_close(toks, a) + 1
                if toks[a].s == ",":
                    a += 1
            else:
                while toks[a].s not in (",", "}"):
                    a = match_close(toks, a) + 1 if toks[a].s in OPEN and toks[a].kind == "p" else a + 1
                if toks[a].s == ",":
                    a += 1
            j = a
        i += 1
    return toks


def elim_break_value(toks, used):
    """`let X = loop { .. break E; .. };` becomes `let mut __brN = None; loop { .. { __brN = Some(E); break; } .. } let X = __brN.unwrap();`
    (the verifier has no break with a value)"""
    n = 0
    i = 0
    while i + 4 < len(toks):
        if toks[i].s == "loop" and toks[i - 1].s == "=" and toks[i + 1].s == "{":
            c = match_close(toks, i + 1)
            st = stmt_start(toks, i, 0)
            if toks[st].s != "let" or toks[c + 1].s != ";":
                raise ExtractError("a loop's value in a position the extractor cannot rewrite")
            inner = [(lo, lc) for kw, lo, lc, kind in loops_in(toks, i + 2, c)]
            body, j = [], i + 2
            while j < c:
                nested = any(lo < j < lc for lo, lc in inner)
                if toks[j].s == "break" and not nested and toks[j + 1].s not in (";", ",", "}"):
                    e = j + 1
                    while toks[e].s not in (";", ",", "}"):
                        e = match_close(toks, e) + 1 if toks[e].s in OPEN and toks[e].kind == "p" else e + 1
                    body += _mk(f"{{ __br{n} = Some(", toks[j].a) + toks[j + 1:e] + _mk("); break; }", toks[e - 1].b)
                    j = e
                else:
                    body.append(toks[j])
                    j += 1
            pat = toks[st:i]
            toks = (toks[:st] + _mk(f"let mut __br{n} = None;", toks[st].a) + [toks[i], toks[i + 1]] + body + [toks[c]]
                    + _mk(" ", toks[c].b) + [Tok(x.kind, x.s, toks[c].b, toks[c].b, " ") for x in pat] + _mk(f"__br{n}.unwrap();", toks[c].b) + toks[c + 2:])
            used.append(("value of a loop", "a variable that `break` sets"))
            n += 1
        i += 1
    return toks


def elim_enumerate(toks, used):
    """`for (i, x) in E.enumerate() { B }` becomes `let mut __enN = 0usize; for x in E { let i = __enN; __enN += 1; B }`
    (the verifier has no Enumerate); the loop's contract states that __enN is the position."""
    n = 0
    while True:
        for kw, lo, lc, kind in loops_in(toks, 0, len(toks)):
            if kind != "for" or toks[kw + 1].s != "(":
                continue
            if [x.s for x in toks[lo - 4:lo]] != [".", "enumerate", "(", ")"]:
                continue
            e = match_close(toks, kw + 1)
            if toks[e + 1].s != "in" or toks[kw + 2].kind != "id" or toks[kw + 3].s != ",":
                continue
            if toks[kw - 1].s not in ("{", "}", ";"):
                raise ExtractError("enumerate loop in a position the extractor cannot rewrite")
            idx, nm = toks[kw + 2].s, f"__en{n}"

            def mk(text, pos):
                out = []
                for r in tokenize(text):
                    t = Tok(r.kind, r.s, pos, pos)
                    t.pre = " "
                    out.append(t)
                return out
            pa, pb = toks[kw].a, toks[lo].b
            toks = (toks[:kw] + mk(f"let mut {nm} = 0usize;", pa) + [toks[kw]] + toks[kw + 4:e] + toks[e + 1:lo - 4] + [toks[lo]]
                    + mk(f"let {idx} = {nm}; {nm} += 1;", pb) + toks[lo + 1:])
            used.append((".enumerate()", "explicit position counter"))
            n += 1
            break
        else:
            return toks


def desugar_select(toks, used, selarg=""):
    """`crossbeam_channel::select! { recv(R) -> P => B .. default => D }` becomes a choice that may take any arm:
    `{ let __sel = select_any(); if __sel == 0 { let P = (R).recv_any(); B } .. else { D } }`"""
    while True:
        hit = next((i for i in range(len(toks) - 2) if toks[i].s == "select" and toks[i + 1].s == "!" and toks[i + 2].s == "{"), None)
        if hit is None:
            return toks
        lo, hi = hit + 2, match_close(toks, hit + 2)
        st = hit - 2 if toks[hit - 1].s == "::" else hit
        end = hi + 1
        arms, dflt, i = [], None, lo + 1
        while i < hi:
            if toks[i].s == ",":
                i += 1
                continue
            kind = toks[i].s
            if kind not in ("recv", "default"):
                raise ExtractError(f"select! arm `{kind}` is not one the extractor rewrites")
            j, chan, pat = i + 1, [], []
            if toks[j].s == "(":
                e = match_close(toks, j)
                chan = toks[j + 1:e]
                j = e + 1
            if toks[j].s == "->":
                k = j + 1
                while toks[k].s != "=>":
                    k = match_close(toks, k) + 1 if toks[k].s in ("(", "[", "{") else k + 1
                pat = toks[j + 1:k]
                j = k
            if toks[j].s != "=>":
                raise ExtractError("select! arm of an unknown form")
            j += 1
            k = j
            if toks[j].s == "{":
                k = match_close(toks, j) + 1
            else:
                while k < hi and toks[k].s != ",":
                    k = match_close(toks, k) + 1 if toks[k].s in ("(", "[", "{") else k + 1
            body = toks[j:k]
            if kind == "recv":
                arms.append((chan, pat, body))
            else:
                dflt = body
            i = k

        def mk(text, pos):
            out = []
            for r in tokenize(text):
                t = Tok(r.kind, r.s, pos, pos)
                t.pre = " "
                out.append(t)
            return out
        new = mk("{ let __sel = select_any();", toks[st].a)
        for n, (chan, pat, body) in enumerate(arms):
            lastarm = n == len(arms) - 1 and dflt is None
            pos = body[0].a
            new += mk(("else " if n else "") + ("" if lastarm else f"if __sel == {n}usize ") + "{ let", pos)
            new += [Tok(x.kind, x.s, pos, pos, " ") for x in pat] + mk("= (", pos) + [Tok(x.kind, x.s, pos, pos) for x in chan] + mk(f").recv_any({selarg});", pos)
            new += body + mk("}", body[-1].b)
        if dflt is not None:
            new += mk("else {", dflt[0].a) + dflt + mk("}", dflt[-1].b)
        new += mk("}", toks[hi].b)
        toks = toks[:st] + new + toks[end:]
        used.append(("select!", "a choice that may take any arm"))


def receiver_start(toks, i):
    """start of the postfix expression that the method call at toks[i] (the dot) is on"""
    j = i - 1
    while True:
        if toks[j].s == "?":
            j -= 1
            continue
        if toks[j].s in (")", "]", "}"):
            j = next(k for k in range(j, -1, -1) if toks[k].s in ("(", "[", "{") and match_close(toks, k) == j) - 1
            if toks[j].kind == "id" and toks[j].s not in ("match", "return", "if", "in", "let"):
                j -= 1
        elif toks[j].kind in ("id", "num"):
            j -= 1
        else:
            raise ExtractError("a method call on an expression the extractor cannot delimit")
        if toks[j].s in (".", "::"):
            j -= 1
        else:
            return j + 1


def _mk(text, pos):
    return [Tok(r.kind, r.s, pos, pos, " ") for r in tokenize(text)]


def inline_and_then(toks, used):
    """`E.and_then(|_| B)` becomes `(match E { Ok(_) => B, Err(__e) => Err(__e) })`, what Result::and_then does"""
    while True:
        for i in range(len(toks) - 6):
            if [x.s for x in toks[i:i + 6]] in ([".", "and_then", "(", "|", "_", "|"],):
                break
        else:
            return toks
        e = match_close(toks, i + 2)
        st = receiver_start(toks, i)
        mk = _mk
        toks = (toks[:st] + mk("(match", toks[st].a) + [Tok(toks[st].kind, toks[st].s, toks[st].a, toks[st].b, " ")] + toks[st + 1:i] + mk("{ Ok(_) =>", toks[i].a) + toks[i + 6:e]
                + mk(", Err(__e) => Err(__e) })", toks[e].a) + toks[e + 1:])
        used.append((".and_then(|_| ..)", "the match it stands for"))


def inline_map_or(toks, used):
    """`E.map(|p| B).unwrap_or(D)` on an Option becomes `(match E { Some(p) => B, None => D })`; D is a constant"""
    i = 0
    while i < len(toks) - 6:
        if [x.s for x in toks[i:i + 4]] == [".", "map", "(", "|"] and toks[i + 4].kind == "id" and toks[i + 5].s == "|":
            e = match_close(toks, i + 2)
            if [x.s for x in toks[e + 1:e + 4]] == [".", "unwrap_or", "("] and e + 5 < len(toks) and toks[e + 5].s == ")":
                st = receiver_start(toks, i)
                p, d = toks[i + 4].s, toks[e + 4].s
                toks = (toks[:st] + _mk("(match", toks[st].a) + [Tok(toks[st].kind, toks[st].s, toks[st].a, toks[st].b, " ")] + toks[st + 1:i] + _mk(f"{{ Some({p}) =>", toks[i].a)
                        + toks[i + 6:e] + _mk(f", None => {d} }})", toks[e].a) + toks[e + 6:])
                used.append((".map(|p| ..).unwrap_or(D)", "the match it stands for"))
        i += 1
    return toks


def desugar_for(toks, ks, used):
    """loop option next=F: `for P in E { B }` becomes Rust's own desugaring
    `let mut __itK = F(E); loop { let P = match __itK.next() { Some(__x) => __x, None => break }; B }`"""
    for k in sorted(ks, reverse=True):
        lps = loops_in(toks, 0, len(toks))
        if k >= len(lps) or lps[k][3] != "for":
            raise ExtractError(f"loop {k} is not a for loop any more")
        kw, lo, lc, kind = lps[k]
        e = kw + 1
        while toks[e].s != "in":
            e = match_close(toks, e) + 1 if toks[e].s in ("(", "[", "{") else e + 1
        st = kw
        if toks[kw - 1].s == ":" and toks[kw - 2].kind == "life":
            st = kw - 2
        if toks[st - 1].s not in ("{", "}", ";"):
            raise ExtractError("for loop in a position the extractor cannot rewrite")

        def mk(text, pos):
            out = []
            for r in tokenize(text):
                t = Tok(r.kind, r.s, pos, pos)
                t.pre = " "
                out.append(t)
            return out
        nm = f"__it{k}"
        toks = (toks[:st] + mk(f"let mut {nm} = {ks[k]}(", toks[st].a) + toks[e + 1:lo] + mk(");", toks[lo].a) + toks[st:kw] + mk("loop", toks[lo].a) + [toks[lo]]
                + mk("let", toks[lo].b) + [Tok(x.kind, x.s, toks[lo].b, toks[lo].b, " ") for x in toks[kw + 1:e]]
                + mk(f"= match {nm}.next() {{ Some(__x) => __x, None => break }};", toks[lo].b) + toks[lo + 1:])
        used.append(("for", "loop over next()"))
    return toks


def param_names(toks, bopen):
    """names of the non-self parameters, in order"""
    k = 0
    d = 0
    while not (toks[k].s == "(" and d == 0):
        if toks[k].s == "<":
            d += 1
        elif toks[k].s == ">":
            d -= 1
        k += 1
    e = match_close(toks, k)
    names = []
    j = k + 1
    start = j
    parts = []
    d = 0
    while j <= e:
        s = toks[j].s
        if (s == "," and d == 0) or j == e:
            if j > start:
                parts.append(toks[start:j])
            start = j + 1
        elif s in ("(", "[", "{", "<"):
            d += 1
        elif s in (")", "]", "}", ">"):
            d -= 1
        j += 1
    for p in parts:
        ss = [x.s for x in p]
        c = ss.index(":") if ":" in ss else None
        pat = [x for x in (ss[:c] if c is not None else ss) if x not in ("mut", "&", "ref")]
        if pat == ["self"] or (len(pat) == 2 and pat[1] == "self"):
            continue
        names.append(pat[0] if len(pat) == 1 else "__pat")
    return names


def bind_local(toks, lo, hi, pat, nth, fname):
    p = [x.s for x in tokenize(pat.replace("?", " \u00a7 ").replace("\u00a7", "__Q__"))]
    hits = []
    for i in range(lo, hi - len(p) + 1):
        cap = None
        for k in range(len(p)):
            if p[k] == "__Q__":
                if toks[i + k].kind != "id":
                    break
                cap = toks[i + k].s
            elif toks[i + k].s != p[k]:
                break
        else:
            hits.append(cap)
    if nth >= len(hits):
        raise ExtractError(f"{fname}: local bound by `{pat}` is gone")
    return hits[nth]


def wrap_lits(toks):
    """string literals outside macro calls become lit("..") (prelude/str.rs)"""
    out = []
    i = 0
    while i < len(toks):
        if toks[i].s == "!" and i > 0 and toks[i - 1].kind == "id" and i + 1 < len(toks) and toks[i + 1].s in OPEN \
                and toks[i - 1].s not in ("if", "while", "return", "in", "match", "else", "vec"):
            e = match_close(toks, i + 1)
            out.extend(toks[i:e + 1])
            i = e + 1
            continue
        t = toks[i]
        if t.kind == "str" and t.s.startswith('"'):
            out.append(Tok("str", f"lit({t.s})", t.a, t.b))
        else:
            out.append(t)
        i += 1
    return out


# Macros whose arguments the extraction drops, and the calls that may be among them: these change nothing.
DROPPED = ("trace", "debug", "info", "warn", "error", "anyhow", "bail", "eprintln", "format", "span", "event")
PURE = set("""len display join is_empty is_some is_none is_ok is_err from_utf8_lossy now elapsed raw_fd as_raw_fd as_fd borrow_fd is_finished get_session_name clone as_ref as_str
as_slice as_bytes as_path as_os_str as_deref to_string to_string_lossy to_owned to_path_buf to_str to_vec as_millis as_secs as_secs_f64 as_secs_f32 as_nanos as_micros subsec_millis file_name parent path
id pid name iter keys values get first last contains contains_key starts_with ends_with unwrap_or unwrap_or_default kind raw_os_error last_os_error last_error errno into_iter collect cloned copied map
Some Ok Err String from str debug field valuestring capacity code signal success local_addr peer_addr current thread root_cause chain type_name lines chars bytes min max as_raw as_inner as_millis_f64 rev
format concat stringify line file column matches hex""".split())


def dropped_effects(name, toks):
    """what is dropped must not do anything"""
    for i in range(len(toks) - 2):
        if toks[i].kind == "id" and toks[i].s in DROPPED and toks[i + 1].s == "!" and toks[i + 2].s in ("(", "[", "{"):
            c = match_close(toks, i + 2)
            for k in range(i + 3, c):
                t = toks[k]
                called = t.kind == "id" and toks[k + 1].s == "(" and t.s not in PURE
                called = called or t.kind == "id" and toks[k + 1].s == "!" and toks[k + 2].s in ("(", "[", "{") and t.s not in PURE and t.s not in DROPPED
                if called or t.s in ("+=", "-=", "*=", "/=", "|=", "&=", "^=", "return", "break", "continue") or t.s == "mut":
                    raise ExtractError(f"{name}: an argument of {toks[i].s}! does something ({t.s})")


def emit_fn(blk, vac, log):
    parts = [p.strip() for p in blk.head.split(" :: ")]
    path = parts[0]
    s = Source.get(path)
    if blk.kind == "fn":
        name = parts[-1]
        cont = parts[1] if len(parts) == 3 else None
        i, open_i = s.find_fn(name, cont)
        close_i = match_close(s.toks, open_i)
        # include qualifiers / visibility
        st = i
        while st > 0 and s.toks[st - 1].s in ("pub", "const", "unsafe", "async", "extern") or (
                st > 0 and s.toks[st - 1].s == ")" and "pub" in [x.s for x in s.toks[max(0, st - 6):st]] and
                s.toks[st - 1].s == ")" and _vis_open(s.toks, st - 1) is not None):
            if s.toks[st - 1].s == ")":
                st = _vis_open(s.toks, st - 1)
            else:
                st -= 1
        if any(x.s in ("unsafe", "async") for x in s.toks[st:i]):
            log["notes"].append(f"{name}: qualified {[x.s for x in s.toks[st:i]]}")
        raw = [s.toks[k] for k in range(i, close_i + 1) if k <= open_i or not s.skipped(k)]
        nopen = open_i - i
    else:
        fname = parts[1].split("::")[-1].strip()
        cont = None
        if " @ " in fname:
            fname, cont = [x.strip() for x in fname.split(" @ ")]
        i, open_i = s.find_fn(fname, cont)
        close_i = match_close(s.toks, open_i)
        anchor = parts[2].strip("`")
        hits, ln = find_seq(s.toks, open_i, close_i, anchor)
        if len(hits) != 1:
            raise ExtractError(f"{path}: {fname}: block anchor `{anchor}` found {len(hits)} times")
        j = hits[0] + ln - 1
        while s.toks[j].s != "{":
            j += 1
        k = match_close(s.toks, j)
        raw = [s.toks[x] for x in range(j, k + 1) if not s.skipped(x)]
        nopen = 0
        name = blk.name or re.search(r"fn\s+(\w+)", blk.sig).group(1)
    # source line range for the log
    line0 = s.src.count("\n", 0, raw[0].a) + 1
    line1 = s.src.count("\n", 0, raw[-1].b) + 1
    toks = strip_attrs(raw)
    dropped_effects(blk.head, toks)
    used = []
    toks = scope_ends(toks, blk.scoped, used)
    for a, b in blk.elides:
        # replace what the bracket that ends the anchor encloses (verified as a unit of its own)
        hits, ln = find_seq(toks, 0, len(toks), a)
        if len(hits) != 1:
            raise ExtractError(f"{name}: elision anchor `{a}` found {len(hits)} times")
        o = hits[0] + ln - 1
        c = match_close(toks, o)
        used.append((f"{a} ..", f"{b} (the elided part is extracted on its own)"))
        toks = toks[:o + 1] + [Tok(x.kind, x.s, toks[o].b, toks[o].b, " ") for x in tokenize(b)] + toks[c:]
    pn = []
    if blk.kind == "fn":
        j = 0
        while toks[j].s != "{":
            j = match_close(toks, j) + 1 if toks[j].s in ("(", "[") else j + 1
        pn = param_names(toks, j)

    def pp(t):
        # $pN: the N-th parameter the function has in the source
        return re.sub(r"\$p(\d+)", lambda m: pn[int(m.group(1)) - 1] if int(m.group(1)) <= len(pn) else m.group(0), t)
    toks = apply_subs(toks, [(pp(a), pp(b)) for a, b in blk.subs], used)
    for a, b in [(pp(a), pp(b)) for a, b in blk.appends]:
        hits, ln = find_seq(toks, 0, len(toks), a)
        if hits:
            used.append((f"{a} ..)", f".. , {b})"))
        for h in reversed(hits):
            c = match_close(toks, h + ln - 1)
            sep = [] if toks[c - 1].s in (",", "(") else [Tok("p", ",", toks[c].a, toks[c].a, "")]
            toks = toks[:c] + sep + [Tok(x.kind, x.s, toks[c].a, toks[c].a, " ") for x in tokenize(b)] + toks[c:]
    toks = desugar_select(toks, used, blk.selarg)
    if blk.andthen:
        toks = inline_and_then(toks, used)
    if blk.mapor:
        toks = inline_map_or(toks, used)
    toks = desugar_for(toks, {k: o["next"] for k, o in blk.loopopt.items() if "next" in o}, used)
    toks = elim_continue(toks, used)
    toks = elim_enumerate(toks, used)
    toks = elim_closure_patterns(toks, used)
    toks = elim_str_patterns(toks, used) if log.get("lits") else toks
    toks = elim_break_value(toks, used)
    if blk.vecs:
        toks = elim_vecs(toks, used)
    if log.get("lits"):
        toks = wrap_lits(toks)
    # re-find body open
    if blk.kind == "fn":
        j = 0
        while toks[j].s != "{":
            if toks[j].s in ("(", "["):
                j = match_close(toks, j)
            j += 1
        bopen = j
    else:
        bopen = 0
    bclose = len(toks) - 1
    ins = Ins()
    head = ""
    env = {}
    if blk.kind == "fn":
        for k, nm in enumerate(param_names(toks, bopen), 1):
            env[str(k)] = nm
    for var, nth, pat in blk.binds:
        env[var] = bind_local(toks, bopen, bclose, re.sub(r"\$(\w+)", lambda m: env.get(m.group(1), m.group(0)), pat), nth, name)

    def gh(text):
        def f(m):
            if m.group(1) not in env:
                raise ExtractError(f"{name}: ${m.group(1)} has no binding (parameter or local is gone)")
            return env[m.group(1)]
        return re.sub(r"\$(\w+)", f, text)
    spec = gh(blk.spec)
    if blk.kind == "fn":
        # name the return value
        if blk.ret:
            # params' closing paren
            k = 0
            while toks[k].s != "(":
                if toks[k].s == "<":
                    d = 0
                    while True:
                        if toks[k].s == "<":
                            d += 1
                        elif toks[k].s == ">":
                            d -= 1
                            if d == 0:
                                break
                        k += 1
                k += 1
            k = match_close(toks, k)
            if toks[k + 1].s == "->":
                e = k + 2
                d = 0
                while not (d == 0 and (toks[e].s in ("{", "where"))):
                    if toks[e].s in ("(", "["):
                        d += 1
                    if toks[e].s in (")", "]"):
                        d -= 1
                    e += 1
                ins.a(k + 1, f"({blk.ret}:")
                ins.a(e - 1, ")")
            else:
                ins.a(k, f"-> ({blk.ret}: ())")
        if spec.strip():
            # a where clause ending without comma
            w = [x for x in range(bopen) if toks[x].s == "where"]
            if w and toks[bopen - 1].s != ",":
                ins.a(bopen - 1, ",")
            ins.b(bopen, spec)
    else:
        head = blk.sig + "\n" + spec + "\n"
    lps = loops_in(toks, bopen, bclose)
    for k, text in blk.loops.items():
        if k >= len(lps):
            raise ExtractError(f"{name}: loop {k} is gone (function now has {len(lps)} loops)")
        kw, lo, lc, kind = lps[k]
        want = blk.loopopt[k].get("kind")
        if want and want != kind:
            raise ExtractError(f"{name}: loop {k} is now a `{kind}` loop, contract is for `{want}`")
        if "iter" in blk.loopopt[k]:
            if kind != "for":
                raise ExtractError(f"{name}: loop {k} is not a for loop")
            e = kw
            while toks[e].s != "in":
                e += 1
            ins.a(e, blk.loopopt[k]["iter"] + ":")
        ins.b(lo, gh("\n".join(text)))
    if len(lps) != len(blk.loops):
        raise ExtractError(f"{name}: has {len(lps)} loops, contract annotates {len(blk.loops)}")
    cls = closures_in(toks, bopen + 1, bclose)
    for k, (ret, text) in blk.cls.items():
        if k >= len(cls):
            raise ExtractError(f"{name}: closure {k} is gone (function now has {len(cls)} closures)")
        ca, cb, c0, c1 = cls[k]
        pn = [x.s for x in toks[ca + 1:cb] if x.kind == "id" and x.s not in ("mut", "ref")] if cb > ca else []

        def gc(m):
            if not m.group(1).isdigit() or int(m.group(1)) > len(pn):
                return m.group(0)
            return pn[int(m.group(1)) - 1]
        text = gh(re.sub(r"\$c(\d+)", gc, text))
        if toks[cb + 1].s == "->":
            raise ExtractError(f"{name}: closure {k} has its own return type")
        ins.a(cb, (f"-> {ret} " if ret else "") + text + (" {" if toks[c0].s != "{" else ""))
        if toks[c0].s != "{":
            ins.after.setdefault(c1, []).insert(0, "}")
    for arg, text in blk.ats:
        text = gh("\n".join(text))
        if arg == "tail":
            # name the tail expression: let __r = <tail>; <ghost text> __r
            j = tail_start(toks, bopen, bclose)
            if j is None:
                raise ExtractError(f"{name}: no tail expression")
            ins.b(j, "let __r =")
            ins.b(bclose, "; " + text + " __r")
            continue
        m = re.match(r"(start|end)$", arg)
        if m:
            if m.group(1) == "start":
                ins.a(bopen, text)
            else:
                ins.b(bclose, text)
            continue
        m = re.match(r"(loophead|loopstart|loopend|loopbefore|loopafter)\s+(\d+)$", arg)
        if m:
            k = int(m.group(2))
            if k >= len(lps):
                raise ExtractError(f"{name}: loop {k} is gone")
            kw, lo, lc, kind = lps[k]
            if m.group(1) == "loopstart" and "next" in blk.loopopt.get(k, {}):
                ins.a(stmt_end(toks, lo + 1, lc), text)
            elif m.group(1) in ("loopstart", "loophead"):
                ins.a(lo, text)
            elif m.group(1) == "loopend":
                ins.b(lc, text)
            elif m.group(1) == "loopbefore":
                b = kw
                if toks[b - 1].s == ":" and toks[b - 2].kind == "life":
                    b -= 2
                ins.b(b, text)
            else:
                ins.a(lc, text)
            continue
        m = re.match(r"(before|after|afterblock)\s+(\d+)(\?)?\s+`(.*)`$", arg)
        if m:
            hits, ln = find_seq(toks, bopen, bclose, gh(m.group(4)))
            k = int(m.group(2))
            if k >= len(hits):
                if m.group(3):
                    continue
                raise ExtractError(f"{name}: anchor `{m.group(4)}` #{k} is gone")
            if m.group(1) == "before":
                ins.b(stmt_start(toks, hits[k], bopen + 1), text)
            elif m.group(1) == "afterblock":
                e = hits[k] + ln - 1
                while toks[e].s != "{":
                    e += 1
                ins.a(match_close(toks, e), text)
            else:
                ins.a(stmt_end(toks, hits[k], bclose), text)
            continue
        raise ValueError(f"bad @at {arg}")
    if vac:
        tag = f"VACUITY {name}"
        ins.after.setdefault(bopen, []).insert(0, f"proof {{ assert(false); }} // {tag} entry")
        for k, (kw, lo, lc, kind) in enumerate(lps):
            ins.after.setdefault(lo, []).insert(0, f"proof {{ assert(false); }} // {tag} loop {k}")
            log["vac"].append(f"{tag} loop {k}")
        log["vac"].append(f"{tag} entry")
    body = render(s.src, toks, ins, 0, len(toks))
    vis = "pub " if "pubfn" in blk.attrs else ""
    attrs = "".join(a + "\n" for a in blk.attrs if a != "pubfn")
    if blk.kind == "fn":
        # keep `pub`; restricted visibility is meaningless in the single file
        pre = "pub " if s.toks[i - 1].s in ("pub",) or (s.toks[i - 1].s == ")" and _vis_open(s.toks, i - 1) is not None) or vis else ""
        quals = [x.s for x in s.toks[st:i] if x.s in ("const", "unsafe")]
        pre += " ".join(quals) + (" " if quals else "")
        text = attrs + pre + body
    else:
        text = attrs + head + blk.pre + " " + body + " " + blk.post
    log["functions"].append({
        "function": name, "file": path, "lines": f"{line0}-{line1}", "kind": blk.kind,
        "loops": len(lps), "requires": _count(blk.spec, "requires"), "ensures": _count(blk.spec, "ensures"),
        "subs": sorted({f"{a} => {b}" for a, b in used}),
    })
    return f"// ==== extracted from {path}:{line0}-{line1}\n" + text


def _vis_open(toks, j):
    """index of `pub` for a `pub(...)` ending at j"""
    k = j
    while k > 0 and toks[k].s != "(":
        k -= 1
    return k - 1 if k > 0 and toks[k - 1].s == "pub" else None


def _count(spec, kw):
    """number of top-level clauses after requires/ensures"""
    t = tokenize(spec)
    n, i, on, d, pending = 0, 0, False, 0, False
    for x in t:
        if d == 0 and x.kind == "id" and x.s in ("requires", "ensures", "decreases", "invariant"):
            if on and pending:
                n += 1
            on, pending = x.s == kw, False
            continue
        if x.s in OPEN and x.kind == "p":
            d += 1
        elif x.s in CLOSE and x.kind == "p":
            d -= 1
        if on:
            if x.s == "," and d == 0:
                if pending:
                    n += 1
                pending = False
            else:
                pending = True
    if on and pending:
        n += 1
    return n


def emit_item(blk, log):
    path, rest = [p.strip() for p in blk.head.split(" :: ", 1)]
    m = re.match(r"(\w+)\s+(\w+)(.*)$", rest)
    kind, name, opts = m.group(1), m.group(2), m.group(3)
    s = Source.get(path)
    t = s.toks
    for i in range(len(t) - 1):
        if t[i].s == kind and t[i].kind == "id" and t[i + 1].s == name and not s.skipped(i):
            j = i
            while t[j].s not in ("{", ";"):
                if t[j].s in ("(", "["):
                    j = match_close(t, j)
                j += 1
            if t[j].s == "{":
                j = match_close(t, j)
                if kind in ("const", "static"):
                    while t[j].s != ";":
                        j += 1
            toks = strip_attrs(t[i:j + 1])
            used = []
            for mm in re.finditer(r"sub `(.*?)` => `(.*?)`", opts):
                toks = apply_subs(toks, [(mm.group(1), mm.group(2))], used)
            log["items"].append({"item": f"{kind} {name}", "file": path, "subs": sorted({f"{a} => {b}" for a, b in used})})
            # make fields visible inside the single file
            toks2 = []
            k = 0
            while k < len(toks):
                if toks[k].s == "pub" and k + 1 < len(toks) and toks[k + 1].s == "(" and toks[k + 2].s in (
                        "crate", "super", "self", "in"):
                    toks2.append(toks[k])
                    k = match_close(toks, k + 1) + 1
                    continue
                toks2.append(toks[k])
                k += 1
            ins = Ins()
            if kind == "struct":
                # every field pub: privacy is meaningless in the single file
                b = next((x for x in range(len(toks2)) if toks2[x].s in ("{", "(") and toks2[x].kind == "p"), None)
                if b is not None:
                    e, x, start, dep = match_close(toks2, b), b + 1, True, 0
                    while x < e:
                        if start and toks2[x].s != "pub":
                            toks2[x] = Tok(toks2[x].kind, "pub " + toks2[x].s, toks2[x].a, toks2[x].b)
                        start = False
                        if toks2[x].s in OPEN or toks2[x].s == "<":
                            dep += 1
                        elif toks2[x].s in CLOSE or toks2[x].s == ">":
                            dep -= 1
                        elif toks2[x].s == "," and dep == 0:
                            start = True
                        x += 1
            return "pub " + render(s.src, toks2, ins, 0, len(toks2))
    raise ExtractError(f"{path}: no {kind} `{name}`")


def build(template_path, vac=False):
    """-> (text, log); raises ExtractError"""
    with open(template_path, encoding="utf-8") as f:
        text = f.read()
    base = os.path.dirname(template_path)

    def inc(m):
        with open(os.path.join(base, m.group(1)), encoding="utf-8") as g:
            return g.read()
    for _ in range(4):
        text = re.sub(r"^\s*//@include\s+(\S+)\s*$", inc, text, flags=re.M)
    log = {"functions": [], "items": [], "vac": [], "notes": [], "lits": False}
    if re.search(r"^\s*//@lits\s*$", text, flags=re.M):
        text = re.sub(r"^\s*//@lits\s*$", "", text, flags=re.M)
        log["lits"] = True
    out = []
    for p in parse_template(text):
        if isinstance(p, str):
            out.append(p)
        elif p.kind == "item":
            out.append(emit_item(p, log))
        else:
            out.append(emit_fn(p, vac, log))
    return "\n".join(out), log


if __name__ == "__main__":
    import sys
    txt, lg = build(sys.argv[1], vac="--vac" in sys.argv)
    print(txt)
