"""C20: literals in every position against the value they were built from."""
import hashlib
from vlib import avm, diff
from vlib.tl import Rejected, Violation, compile_program, compile_ok, reformat
PROPERTY = "C20"
QUICK, THOROUGH = 3600, 400000
RULE = "Case = a program that uses 1-8 generated literals (strings built piecewise of characters and escapes, hex strings, integers up to 2**64-1 with leading zeros or underscores, " \
       "directly or through constants) in generated positions and logs what they denote, or one with a literal that denotes no value or has " \
       "another size than declared; the values observed on the AVM model, before and after formatting, must be those the literals were built " \
       "from, and the other programs rejected. Non-trivial: a literal has a special character, an escape or more than 32 bits, or the program is to be rejected."
ASSUMES = ["vlib/avm.py models the assembler's string and integer syntax and the AVM"]

U64 = 2**64 - 1
PLAIN = "abcxyzABZ019"
SPECIAL = ["#", "//", " //", "// ", ";", "; ", "'", " ", "  ", "   ", ",", ")", "(", ":", "=", " = ", "[", "]", "{", "}", "%s", "%", "$", "@", "!", "&&", "|", "^", "~",
           "end", "if ", "else:", " #", "# ", "#define", "#pragma version 5", "int", "FOO", "CC", "x", "tl:3:", "0x", "base64", "b64 ", "\t", "?", "*", ".", "+", "-", "/",
           "'a'", "''", "return", "pushint 1", "l0_end", "->", "<", ">", "_", "`", "$1"]
UNI = ["é", "ß", "ü", "€", "→", "日本", "😀", "\u00a0", "\u2028", "\u2029", "\x85", "\u200b", "\ufeff", "e\u0301", "\x7f", "\x1c", "\x1f", "\x0b", "\x0c", "\x01", "\x00", "\r",
       "İ", "ﬁ", "\U0010ffff", "\u3000"]
ESC = {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", '"': b'"'}
BAD_ESC = ["\\q", "\\x4", "\\xg1", "\\0", "\\u1234", "\\a", "\\x", "\\ ", "\\(", "\\N", "\\X41", "\\;", "\\é"]


def pieces(ch, quote, n=None, bad=False):
    """(text between the quotes, bytes)"""
    out, val = "", b""
    n = ch.weighted([(1, 0), (4, 1), (3, 2), (3, 3), (2, 5), (1, 9), (0.3, 40)]) if n is None else n
    for _ in range(n):
        k = ch.weighted([(4, "plain"), (4, "special"), (2, "esc"), (2, "hex"), (2, "uni"), (1, "quote")])
        if k == "plain":
            t = "".join(ch.choice(PLAIN) for _ in range(ch.int(1, 3)))
            v = t.encode()
        elif k == "special":
            t = ch.choice([s for s in SPECIAL if quote not in s])
            v = t.encode()
        elif k == "uni":
            t = ch.choice(UNI)
            v = t.encode()
        elif k == "esc":
            e = ch.choice(sorted(ESC))
            t, v = "\\" + e, ESC[e]
        elif k == "hex":
            b = ch.choice([0, 1, 10, 13, 34, 35, 39, 47, 59, 92, 127, 128, 255, ch.int(0, 255)])
            t, v = "\\x" + (f"{b:02x}" if ch.bool() else f"{b:02X}"), bytes([b])
        elif quote == "'":
            t, v = ch.choice([('"', b'"'), ("\\'", b"'")])
        else:
            t, v = "\\\"", b'"'
        out, val = out + t, val + v
    if bad:
        e = ch.choice(BAD_ESC + (["\\'"] if quote == '"' else []) + ["\ud800"])
        if ch.bool():
            out = e + " " + out
        else:
            out = out + " " + e
    return out, val


class Lit:
    """src: how it is written in an expression; val: int or bytes"""

    def __init__(self, src, val, kind):
        self.src, self.val, self.kind = src, val, kind


def hexlit(ch, n=None):
    n = ch.weighted([(4, 1), (3, 2), (2, 4), (1, 32), (0.5, 100)]) if n is None else n
    v = bytes(ch.int(0, 255) for _ in range(n)) if n < 9 else ch.rbytes(n)
    t = v.hex()
    return "0x" + (t if ch.bool() else t.upper()), v


# strings that look like something else as a whole
LIKE = ["0x41", "0xAB", "0x00ff", "0x", "0xg1", "0X41", "base64(QQ==)", "b64(QQ==)", "base32(ME)", "b32 ME", "123", "0", "TMPL_X", "CC", "FOO", "true", "v1", "txn Sender", "Txn.Sender", "i", "addr",
        'method(\\"f()void\\")', "0b1", "0o7", "-1", "1_000", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAY5HFKQ"]


def blit(ch, size=None):
    if ch.bool(0.06):
        if size is None:
            t = ch.choice(LIKE)
            return Lit('"' + t + '"', t.replace('\\"', '"').encode(), "string like something else")
        if size >= 2:
            t = ("0x" + ch.rbytes(size).hex())[:size]
            return Lit('"' + t + '"', t.encode(), "string like something else")
    k = ch.weighted([(5, '"'), (2, "'"), (2, "0x")])
    if k == "0x":
        return Lit(*hexlit(ch, size), "hex")
    if size is not None:
        t = "".join(ch.choice(PLAIN + "# ;/") for _ in range(size))
        return Lit(k + t + k, t.encode(), "string")
    t, v = pieces(ch, k)
    return Lit(k + t + k, v, "string")


EDGE = [0, 1, 2, 7, 8, 9, 10, 63, 127, 128, 255, 256, 257, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**53 + 1, 2**56, 2**63 - 1, 2**63, 2**64 - 2, U64]


def number(ch):
    v = ch.choice(EDGE) if ch.bool(0.6) else ch.int(0, (1 << ch.int(1, 64)) - 1)
    return v


def ilit(ch, plain=False):
    v = number(ch)
    s = str(v)
    k = ch.weighted([(8, "plain"), (1, "zeros"), (1, "under")])
    if k == "zeros":
        s = "0" * ch.int(1, 4) + s
    elif k == "under":
        # thousands, or anywhere between digits
        s = f"{v:_}" if ch.bool() else "".join(c + ("_" if i < len(s) - 1 and ch.bool(0.3) else "") for i, c in enumerate(s))
    return Lit(s, v, "int")


class Build:
    def __init__(self, ch):
        self.ch = ch
        self.head, self.funcs, self.body, self.want, self.msgs = [], [], [], [], []
        self.blocks, self.last = [], None
        self.n, self.tags, self.hard = 0, set(), False
        self.structs = []

    def name(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    def add(self, line, *want):
        ch = self.ch
        if ch.bool(0.12):
            line += ch.choice([" # c", ' # "x', " # 'y", " # // z", ' # "a" # b', "  #"])
        self.body.append(line)
        self.want += list(want)

    def mark(self, l):
        self.tags.add(l.kind)
        if l.kind == "int":
            self.hard |= l.val >= 2**32
        else:
            self.hard |= any(c not in PLAIN for c in l.src[1:-1]) if l.kind.startswith("string") else True

    def const(self, l, ty):
        """the literal through a constant"""
        nm = self.ch.choice(["CC", "FOO", "K", "X_1", "NAME"]) + f"_{len(self.head)}"
        self.head.append(f"const {ty} {nm} = {l.src}")
        self.tags.add("const")
        return Lit(nm, l.val, l.kind)

    def bytes_(self, size=None):
        l = blit(self.ch, size)
        self.mark(l)
        # hex can only be written in a constant
        if l.kind == "hex" or not l.src.startswith("'") and self.ch.bool(0.3):
            l = self.const(l, "bytes")
        return l

    def hexc(self, v):
        """an expression of that value which is not under test itself"""
        return self.const(Lit("0x" + v.hex(), v, "hex"), "bytes").src if v else "bzero(0)"

    def int_(self, cap=None):
        l = ilit(self.ch)
        if cap is not None and l.val > cap:
            l = Lit(str(l.val % (cap + 1)), l.val % (cap + 1), "int")
        self.mark(l)
        if self.ch.bool(0.3):
            # underscores can only be written in expressions
            l = self.const(Lit(l.src.replace("_", ""), l.val, "int"), "int")
        return l


def itob(n):
    return n.to_bytes(8, "big")


def log(b):
    return ["log", "0x" + b.hex()]


BPOS = ["log", "var", "sized", "assign", "concat", "Concat", "eq", "len", "func", "return", "return2", "gput", "note", "box", "field", "sha", "push",
        "rpad", "lpad", "switch", "assert", "arc28", "btoi", "cond", "extract", "substring", "method", "boxvar", "bigint", "match"]
IPOS = ["log", "var", "uint8", "assign", "or", "func", "return", "return2", "fee", "push", "imm", "for", "switch", "cond", "bzero", "gputv", "tobytes", "args",
        "field", "field8", "group", "cast", "dec", "message", "eq"]


def use_bytes(b, pos):
    ch = b.ch
    if pos in ("sized", "field", "boxvar"):
        n = ch.choice([1, 2, 4, 8, 32])
        l = b.bytes_(n)
    else:
        l = b.bytes_()
    v = l.val
    if pos == "log":
        b.add(f"log({l.src})", log(v))
    elif pos == "var":
        x = b.name()
        b.add(f"bytes {x} = {l.src}")
        b.add(f"log({x})", log(v))
    elif pos == "sized":
        x = b.name()
        b.add(f"bytes[{len(v)}] {x} = {l.src}")
        b.add(f"log({x})", log(v))
    elif pos == "bigint":
        x = b.name()
        b.add(f"bytes {x} = {l.src} b| {b.hexc(b'\0')}" if len(v) <= 64 else f"bytes {x} = {l.src}")
        b.add(f"log({x})", log(v.rjust(max(1, len(v)), b"\0") if len(v) <= 64 else v))
    elif pos == "assign":
        x = b.name()
        b.add(f"bytes {x}")
        b.add(f"{x} = {l.src}")
        b.add(f"log({x})", log(v))
    elif pos == "concat":
        m = b.bytes_()
        b.add(f"log(concat({l.src}, {m.src}))", log(v + m.val))
    elif pos == "Concat":
        ms = [b.bytes_() for _ in range(ch.int(0, 3))]
        b.add(f"log(Concat({', '.join(m.src for m in [l] + ms)}))", log(v + b"".join(m.val for m in ms)))
    elif pos == "eq":
        m = b.bytes_() if ch.bool() else Lit(b.hexc(v), v, "string")
        b.add(f"log(itob({l.src} == {m.src}))", log(itob(int(v == m.val))))
    elif pos == "len":
        b.add(f"log(itob(len({l.src})))", log(itob(len(v))))
    elif pos == "func":
        f = b.name("f")
        b.funcs += [f"func {f}(p: bytes, q: int) bytes:", "    return p", "end"]
        b.add(f"log({f}({l.src}, 7))", log(v))
    elif pos == "return":
        f = b.name("f")
        b.funcs += [f"func {f}() bytes:", f"    return {l.src}", "end"]
        b.add(f"log({f}())", log(v))
    elif pos == "return2":
        f, m, x, y = b.name("f"), b.bytes_(), b.name(), b.name()
        b.funcs += [f"func {f}() bytes, bytes:", f"    return {l.src}, {m.src}", "end"]
        b.add(f"bytes {x}")
        b.add(f"bytes {y}")
        b.add(f"{x}, {y} = {f}()")
        b.add(f"log({x})", log(v))
        b.add(f"log({y})", log(m.val))
    elif pos == "gput":
        m = b.bytes_()
        b.add(f"app_global_put({l.src}, {m.src})")
        b.add(f"log(app_global_get({l.src}))", ["gput", "0x" + v.hex(), "0x" + m.val.hex()], log(m.val))
    elif pos == "note":
        b.add("inner_txn:")
        b.body += ["    TypeEnum: Pay", f"    Note: {l.src}", "end"]
        b.want.append(["note", "0x" + v.hex()])
    elif pos == "box":
        m = b.bytes_()
        if not m.val or not v or len(v) > 64 or v in b.keys:
            return b.add(f"log({l.src})", log(v))
        b.keys.append(v)
        x, y = b.name(), b.name()
        b.add(f"box_put({l.src}, {m.src})")
        b.add(f"bytes {x}")
        b.add(f"int {y}")
        b.add(f"{y}, {x} = box_get({l.src})")
        b.add(f"log({x})", log(m.val))
    elif pos == "field":
        s, x = f"Sfield{len(b.structs)}", b.name()
        b.structs.append((s, len(v)))
        b.add(f"{s} {x} = bzero({len(v) + 1})")
        b.add(f"{x}.f = {l.src}")
        b.add(f"log({x})", log(v + b"\0"))
        b.add(f"log({x}.f)", log(v))
    elif pos == "boxvar":
        s, x, k = f"Sfield{len(b.structs)}", b.name(), b.bytes_()
        if not k.val or len(k.val) > 64 or k.val in b.keys:
            return b.add(f"log({l.src})", log(v))
        b.keys.append(k.val)
        b.structs.append((s, len(v)))
        b.add(f"box<{s}> {x} = CreateBox({k.src})")
        b.add(f"{x}.f = {l.src}")
        b.add(f"log({x}.f)", log(v))
    elif pos == "sha":
        b.add(f"log(sha256({l.src}))", log(hashlib.sha256(v).digest()))
    elif pos == "push":
        b.add(f"push({l.src})")
        b.add("log(pop())", log(v))
    elif pos == "rpad":
        n = len(v) + ch.int(0, 3)
        b.add(f"log(Rpad({l.src}, {n}))", log(v.ljust(n, b"\0")))
    elif pos == "lpad":
        n = len(v) + ch.int(0, 3)
        b.add(f"log(Lpad({l.src}, {n}))", log(v.rjust(n, b"\0")))
    elif pos == "assert":
        t = b.hexc(v)
        b.add(f"assert({l.src} == {t})")
        b.add('log("ok")', log(b"ok"))
    elif pos == "cond":
        k = ch.choice(["if", "while"])
        t = b.hexc(v)
        x = b.name()
        if k == "if":
            b.add(f"if {l.src} == {t}:")
            b.body += ['    log("yes")', "end"]
            b.want.append(log(b"yes"))
        else:
            b.add(f"bytes {x} = {t}")
            b.add(f"while {x} == {l.src}:")
            b.body += [f"    {x} = concat({x}, \"z\")", '    log("yes")', "end"]
            b.want.append(log(b"yes"))
    elif pos == "arc28":
        if l.src[0] != "\"":
            return b.add(f"log({l.src})", log(v))
        m = b.bytes_()
        b.add(f"log(ARC28Event({l.src}, {m.src}))", log(avm.sha512_256(v)[:4] + m.val))
    elif pos == "btoi":
        if len(v) > 8:
            return b.add(f"log({l.src})", log(v))
        b.add(f"log(itob(btoi({l.src})))", log(itob(int.from_bytes(v, "big"))))
    elif pos == "extract":
        s = ch.int(0, len(v))
        n = ch.int(0, len(v) - s)
        b.add(f"log(extract3({l.src}, {s}, {n}))", log(v[s:s + n]))
    elif pos == "substring":
        s = ch.int(0, min(255, len(v)))
        e = ch.int(s, min(255, len(v)))
        b.add(f"log(substring({s}, {e}, {l.src}))", log(v[s:e]))
    elif pos == "method":
        sig = ch.choice(["f()void", "add(uint64,uint64)uint64", "opt_in(asset,account)void", "x(string[],(bool,byte))bool"])
        b.add(f'log(method("{sig}"))', log(avm.sha512_256(sig.encode())[:4]))
    elif pos in ("switch", "match"):
        if b.last is not None:
            return b.add(f"log({l.src})", log(v))
        x = b.name()
        others = [m for m in (b.bytes_() for _ in range(ch.int(0, 2))) if m.val != v]
        b.head2 = True
        b.add(f"bytes {x} = {b.hexc(v)}")
        opts = ch.shuffle([(l, "hit")] + [(m, "miss") for m in others])
        b.last = [f"switch {x}:"] + [f"    {m.src}: {t}" for m, t in opts] + ["    else: miss", "end"]
    b.tags.add("b:" + pos)


def use_int(b, pos):
    ch = b.ch
    l = b.int_(255 if pos in ("uint8", "imm", "args", "field8") else 1000 if pos == "bzero" else None)
    v = l.val
    if pos == "log":
        b.add(f"log(itob({l.src}))", log(itob(v)))
    elif pos == "var":
        x = b.name()
        b.add(f"{ch.choice(['int', 'uint64'])} {x} = {l.src}")
        b.add(f"log(itob({x}))", log(itob(v)))
    elif pos == "uint8":
        x = b.name()
        # a constant is an int, whatever its value
        src = l.src if l.src[0].isdigit() else str(v)
        b.add(f"uint8 {x} = {src}")
        b.add(f"log(itob({x}))", log(itob(v)))
    elif pos == "assign":
        x = b.name()
        b.add(f"int {x}")
        b.add(f"{x} = {l.src}")
        b.add(f"log(itob({x}))", log(itob(v)))
    elif pos == "or":
        m = b.int_()
        op, r = ch.choice([("|", v | m.val), ("&", v & m.val), ("^", v ^ m.val), ("==", int(v == m.val)), ("<", int(v < m.val)), (">=", int(v >= m.val)),
                           ("&&", int(bool(v and m.val)))])
        b.add(f"log(itob({l.src} {op} {m.src}))", log(itob(r)))
    elif pos == "func":
        f = b.name("f")
        b.funcs += [f"func {f}(q: bytes, p: int) int:", "    return p", "end"]
        b.add(f'log(itob({f}("", {l.src})))', log(itob(v)))
    elif pos == "return":
        f = b.name("f")
        b.funcs += [f"func {f}() int:", f"    return {l.src}", "end"]
        b.add(f"log(itob({f}()))", log(itob(v)))
    elif pos == "return2":
        f, m, x, y = b.name("f"), b.int_(), b.name(), b.name()
        b.funcs += [f"func {f}() int, int:", f"    return {l.src}, {m.src}", "end"]
        b.add(f"int {x}")
        b.add(f"int {y}")
        b.add(f"{x}, {y} = {f}()")
        b.add(f"log(itob({x}))", log(itob(v)))
        b.add(f"log(itob({y}))", log(itob(m.val)))
    elif pos == "fee":
        b.add("inner_txn:")
        b.body += ["    TypeEnum: Pay", f"    Amount: {l.src}", "end"]
        b.want.append(["amount", v])
    elif pos == "push":
        b.add(f"push({l.src})")
        b.add("log(itob(pop()))", log(itob(v)))
    elif pos == "imm":
        b.add(f"log(substring(0, {l.src}, bzero(255)))", log(bytes(v)))
    elif pos == "for":
        v = min(v, U64 - 3)
        n, i = ch.int(0, 3), b.name()
        lo, hi = (l.src if v == l.val else str(v)), str(v + n)
        b.add(f"for {i} in {lo}:{hi}:")
        b.body += [f"    log(itob({i}))", "end"]
        b.want += [log(itob(v + k)) for k in range(n)]
    elif pos == "switch":
        if b.last is not None:
            return b.add(f"log(itob({l.src}))", log(itob(v)))
        x = b.name()
        others = [m for m in (b.int_() for _ in range(ch.int(0, 2))) if m.val != v]
        b.add(f"int {x} = btoi({b.hexc(itob(v))})")
        opts = ch.shuffle([(l, "hit")] + [(m, "miss") for m in others])
        b.last = [f"switch {x}:"] + [f"    {m.src}: {t}" for m, t in opts] + ["    else: miss", "end"]
    elif pos == "cond":
        b.add(f"if {l.src}:")
        b.body += ['    log("t")', "else:", '    log("f")', "end"]
        b.want.append(log(b"t" if v else b"f"))
    elif pos == "bzero":
        b.add(f"log(bzero({l.src}))", log(bytes(v)))
    elif pos == "gputv":
        b.add(f'app_global_put("k", {l.src})')
        b.want.append(["gput", "0x6b", v])
    elif pos == "tobytes":
        n = ch.choice([8, 8, 9, 16, max(1, (v.bit_length() + 7) // 8)])
        b.add(f"log(ToBytes({l.src}, {n}))", log(v.to_bytes(n, "big")))
    elif pos == "args":
        x = b.name()
        b.add(f"int {x} = {l.src}")
        b.add(f"log(itob(Txn.ApplicationArgs[{l.src}] == Txn.ApplicationArgs[{x}]))", log(itob(1)))
        b.nargs = max(b.nargs, v + 1)
    elif pos in ("field", "field8"):
        s, x = f"Sint{len(b.structs)}", b.name()
        b.structs.append((s, "int" if pos == "field" else "uint8"))
        n = 8 if pos == "field" else 1
        src = l.src if pos == "field" or l.src[0].isdigit() else str(v)
        b.add(f"{s} {x} = bzero({n + 1})")
        b.add(f"{x}.f = {src}")
        b.add(f"log({x})", log(v.to_bytes(n, "big") + b"\0"))
    elif pos == "group":
        b.add(f"log(itob({l.src} == (({l.src} / 1) + 0)))", log(itob(1)))
    elif pos == "cast":
        b.add(f"log(itob(Cast({l.src}, int)))", log(itob(v)))
    elif pos == "dec":
        b.add(f"log(itob({l.src} - {v}))", log(itob(0)))
    elif pos == "eq":
        b.add(f"assert(itob({l.src}) == {b.hexc(itob(v))})")
    elif pos == "message":
        # an empty message is no message
        t, _ = pieces(ch, '"', ch.int(1, 5))
        b.add(f'assert(1, "{t}")')
        b.msgs.append((len(b.body) - 1, t))
        b.hard = True
    b.tags.add("i:" + pos)


BAD_INT = [2**64, 2**64 + 1, 10**20, 2**65, 2**128, 10**40]
BADPOS_B = ["log({})", "bytes x = {}", "log(concat({}, \"z\"))", "log(concat(\"z\", {}))", "assert({} == \"z\")", "push({})", "app_global_put(\"k\", {})", "log(Rpad({}, 40))",
            "if {} == \"z\":\n    log(\"a\")\nend", "log(f({}))", "inner_txn:\n    TypeEnum: Pay\n    Note: {}\nend", "log((\"z\" b+ {}))", "const bytes FOO = {}\nlog(FOO)",
            "log(itob(len({})))", "bytes y\ny = {}", "while not {} == \"z\":\n    log(\"a\")\nend"]
BADPOS_I = ["log(itob({}))", "int x = {}", "log(itob(1 + {}))", "log(itob({} % 2))", "assert({})", "assert({} == 1)", "push({})", "for i in 0:{}:\n    log(\"a\")\nend",
            "for i in {}:7:\n    log(\"a\")\nend", "for _ in 0:{}:\n    log(\"a\")\nend", "while {}:\n    log(\"a\")\nend", "if {}:\n    log(\"a\")\nend", "log(g({}))",
            "inner_txn:\n    TypeEnum: Pay\n    Amount: {}\nend", "const int FOO = {}\nlog(itob(FOO))", "log(itob(({} - 1)))", "log(bzero({}))", "int y\ny = {}",
            "log(Txn.ApplicationArgs[{}])", "app_global_put(\"k\", {})", "log(itob(!{}))", "log(substring(0, {}, \"abc\"))", "log(ToBytes(1, {}))"]


def gen(ch):
    kind = ch.weighted([(5, "good"), (1, "badstr"), (1, "badint"), (1, "badhex"), (1, "size")])
    if kind != "good":
        return gen_bad(ch, kind)
    b = Build(ch)
    b.keys, b.nargs = [], 0
    for _ in range(ch.int(1, 5)):
        if ch.bool(0.65):
            use_bytes(b, ch.choice(BPOS))
        else:
            use_int(b, ch.choice(IPOS))
    src = ["#pragma version 8"]
    for s, t in b.structs:
        src += [f"struct {s}:", f"    f: {t if isinstance(t, str) else f'bytes[{t}]'}", "    z: uint8", "end"]
    src += b.head
    first = len(src)
    src += b.body
    code = None
    if b.last:
        src += b.last
        b.want.append(log(b"hit"))
        src += ["block hit:", '    log("hit")', "    exit(1)", "end", "block miss:", '    log("miss")', "    exit(1)", "end"]
    else:
        l = b.int_() if ch.bool(0.3) else Lit("1", 1, "int")
        if l.src.isupper() and l.src not in "".join(src):
            l = Lit(str(l.val), l.val, "int")
        code = l.val
        src.append(f"exit({l.src})")
    src += b.funcs
    return {"src": "\n".join(src), "want": b.want, "code": 1 if code is None else code, "msgs": [[first + i + 1, t] for i, t in b.msgs], "nargs": b.nargs,
            "tags": sorted(b.tags), "hard": b.hard}


def gen_bad(ch, kind):
    head, tail = ["#pragma version 8"], []
    if kind == "badstr":
        q = ch.choice(['"', '"', "'"])
        k = ch.weighted([(4, "esc"), (1, "open"), (1, "backslash"), (1, "two"), (1, "close")])
        if k == "esc":
            lit = q + pieces(ch, q, bad=True)[0] + q
        elif k == "open":
            lit = q + pieces(ch, q)[0]
        elif k == "close":
            lit = "".join(ch.choice(PLAIN) for _ in range(3)) + q
        elif k == "backslash":
            lit = q + pieces(ch, q)[0] + "\\" + q
        else:
            lit = q + "a" + q + ch.choice(["", " "]) + q + "b" + q
        pos = ch.choice(BADPOS_B)
    elif kind == "badhex":
        lit, v = hexlit(ch)
        k = ch.choice(["odd", "empty", "char", "upper"])
        lit = {"odd": lit[:-1], "empty": "0x", "char": lit[:-1] + "g", "upper": "0X" + lit[2:]}[k]
        pos = "const bytes FOO = {}\nlog(FOO)"
    elif kind == "badint":
        lit = str(ch.choice(BAD_INT) if ch.bool() else ch.int(2**64, 2**80))
        if ch.bool(0.1):
            lit = ch.choice(["0x" + "10" * 2 + "g", "1.5", "-1", "1e3", "1a", "0b1", "0o7", "+1"])
        pos = ch.choice(BADPOS_I)
    else:
        l = blit(ch)
        n = max(0, len(l.val) + ch.choice([-1, 1, 1, 7, -len(l.val) // 2]))
        if n == len(l.val) or n == 0:
            n = len(l.val) + 1
        ty, pos = f"bytes[{n}]", ch.choice(["decl", "assign", "func", "return", "field", "const", "uint8", "uint8arg"])
        lit = l.src
        if pos in ("uint8", "uint8arg"):
            lit, ty = str(ch.choice([256, 257, 511, 65535, 65536, 2**64 - 1, ch.int(256, 10**9)])), "uint8"
            pos = ch.choice(["decl", "assign", "func", "return", "field"])
        if lit.startswith("0x"):
            pos = "const"
        if pos == "const":
            if lit.startswith("'"):
                lit = "0x" + l.val.hex() if l.val else '"ab"'
                n = len(l.val) + 1 if l.val else 3
                ty = f"bytes[{n}]"
            head.append(f"const bytes KK = {lit}")
            lit, pos = "KK", "decl"
        body = {"decl": [f"{ty} x = {lit}"], "assign": [f"{ty} x", f"x = {lit}"], "func": [f"f({lit})"], "return": [f"{ty} x = f()"],
                "field": ["Sbad x = bzero(SizeOf(Sbad))", f"x.f = {lit}"]}[pos]
        if pos == "func":
            tail = [f"func f(p: {ty}):", "    return", "end"]
        elif pos == "return":
            tail = [f"func f() {ty}:", f"    return {lit}", "end"]
        elif pos == "field":
            head += ["struct Sbad:", f"    f: {ty}", "end"]
            body[0] = f"Sbad x = bzero({1 if ty == 'uint8' else n})"
        return {"src": "\n".join(head + body + ["exit(1)"] + tail), "bad": kind, "tags": [kind, "size:" + pos]}
    body = pos.replace("{}", lit).split("\n")
    tail = ["func f(p: bytes) bytes:", "    return p", "end", "func g(p: int) int:", "    return p", "end"]
    return {"src": "\n".join(head + body + ["exit(1)"] + tail), "bad": kind, "tags": [kind, "pos:" + pos.split("\n")[0]]}


def effects(trace):
    """what the uses make observable"""
    out = []
    for t in avm.jsonable(list(trace)):
        if t[0] == "log":
            out.append(t)
        elif t[0] == "gput":
            out.append(t)
        elif t[0] == "itxn":
            for f, v in t[1][0]:
                if f in ("Note", "Amount"):
                    out.append([f.lower(), v])
    return out


def runit(case, teal, what):
    asm = diff.assemble(teal)
    ctx = avm.Ctx(seed=1, args=[bytes([i, 7]) for i in range(case["nargs"])])
    r = diff.execute(asm, ctx)
    if r.status != "return":
        raise Violation("run", f"{what} the program ends with {r.status} {r.detail}")
    got = effects(r.trace)
    if got != case["want"]:
        i = next((i for i, (a, b) in enumerate(zip(got + [None] * 99, case["want"])) if a != b), len(case["want"]))
        raise Violation("value", f"{what} observation {i} is {got[i:i + 1]}, the literals say {case['want'][i:i + 1]}")
    if r.value != case["code"]:
        raise Violation("value", f"{what} the exit value is {r.value}, the literal says {case['code']}")


def check(case):
    if "bad" in case:
        try:
            teal, _ = compile_program(case["src"])
        except Rejected:
            return {"nontrivial": True, "tags": case["tags"], "key": case["src"]}
        raise Violation("accepted " + case["bad"], "a program with a literal that has no such value is accepted")
    teal, m = compile_ok(case["src"])
    if any("\n" in l for l in teal):
        raise Violation("lines", "a TEAL line contains a line break")
    runit(case, teal, "")
    want = {int(n): t for n, t in case["msgs"]}
    if {n: t for n, t in m.errors.items()} != want:
        raise Violation("message", f"error messages are {m.errors}, written {want}")
    try:
        out = reformat(case["src"])
    except Rejected as e:
        raise Violation("rejected", f"the formatter rejects a program that compiles: {e}") from None
    runit(case, compile_ok(out)[0], "formatted,")
    return {"nontrivial": case["hard"], "tags": case["tags"], "key": case["src"], "counts": {"observations": len(case["want"])}}


def show(case):
    return {"src": case["src"], "want": case.get("want", "rejected")}
