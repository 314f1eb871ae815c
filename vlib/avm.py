"""A small TEAL assembler-checker and AVM interpreter (independent of tealish).

Only what the observable behaviour needs: control flow, stack, scratch space, integer
and byte arithmetic, effects.  Everything that reads the outside world (fields, balances,
crypto) is an uninterpreted function: a pure hash of (opcode, immediates, arguments),
shared with the reference interpreter, so that the *use* of an opcode is decided exactly
and its meaning is not.
"""
import base64
import hashlib
import json
import math
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = json.load(open(os.path.join(HERE, "..", "data", "langspec_snapshot.json")))
OPS = {o["Name"]: o for o in SPEC["Ops"]}
U64 = (1 << 64) - 1


class AsmError(Exception):
    """The TEAL text would not assemble."""


class AvmFail(Exception):
    """A legitimate run-time failure (assert, overflow, err ...)."""


class AvmTypeFault(AvmFail):
    """An opcode got a value of the wrong AVM type."""


class AvmUnderflow(AvmFail):
    """An opcode found too few values on the stack."""


class OutOfFuel(Exception):
    pass


FIELD_TYPES = {}
for _n in ("txn", "global", "asset_holding_get", "asset_params_get", "app_params_get",
           "acct_params_get", "itxn_field", "txna"):
    FIELD_TYPES[_n] = dict(zip(OPS[_n]["ArgEnum"], OPS[_n]["ArgEnumTypes"]))
ARRAY_FIELDS = set(OPS["txna"]["ArgEnum"])
ADDRESS_FIELDS = {
    "Sender", "Receiver", "CloseRemainderTo", "AssetSender", "AssetReceiver",
    "AssetCloseTo", "RekeyTo", "ConfigAssetManager", "ConfigAssetReserve",
    "ConfigAssetFreeze", "ConfigAssetClawback", "FreezeAssetAccount", "Accounts",
    "CreatorAddress", "ZeroAddress", "CurrentApplicationAddress",
    "CallerApplicationAddress",
}
GROUP_SIZE = 16
NAMED_INTS = {
    "NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4,
    "DeleteApplication": 5, "unknown": 0, "pay": 1, "keyreg": 2, "acfg": 3, "axfer": 4,
    "afrz": 5, "appl": 6,
}


def sha512_256(b):
    try:
        return hashlib.new("sha512_256", b).digest()
    except ValueError:
        from Cryptodome.Hash import SHA512
        return SHA512.new(b, truncate="256").digest()


def _h(*key):
    return hashlib.sha256(repr(key).encode()).digest()


def uninterp(kind, *key):
    """Deterministic pseudo value of kind 'U' | 'B' | 'A' (32 byte address) | '.'"""
    d = _h(*key)
    if kind == ".":
        kind = "UB"[d[31] & 1]
    if kind == "U":
        return int.from_bytes(d[:8], "big") % (7 if d[8] & 1 else 100000)
    if kind == "A":
        return d
    return d[: d[9] % 12]


class Ctx:
    """The transaction context a program runs in."""

    def __init__(self, seed=0, args=(), oc=0, app_id=7, group_index=4, boxes=None):
        self.boxes = dict(boxes or {})
        self.seed, self.args, self.oc = seed, [bytes(a) for a in args], oc
        self.app_id, self.group_index = app_id, group_index

    def to_json(self):
        return {"seed": self.seed, "args": [a.hex() for a in self.args], "oc": self.oc,
                "app_id": self.app_id, "group_index": self.group_index,
                "boxes": {k.hex(): v.hex() for k, v in self.boxes.items()}}

    @classmethod
    def from_json(cls, d):
        return cls(d["seed"], [bytes.fromhex(a) for a in d["args"]], d["oc"], d["app_id"],
                   d["group_index"], {bytes.fromhex(k): bytes.fromhex(v) for k, v in d["boxes"].items()})

    def txn(self, field, gi=None, idx=None):
        gi = self.group_index if gi is None else gi
        if not 0 <= gi < GROUP_SIZE:
            raise AvmFail("group index")
        t = FIELD_TYPES["txn"][field]
        own = gi == self.group_index
        if field == "GroupIndex":
            return gi
        if own and field == "ApplicationArgs":
            i = 0 if idx is None else idx
            if i >= len(self.args):
                raise AvmFail("ApplicationArgs index")
            return self.args[i]
        if own and field == "NumAppArgs":
            return len(self.args)
        if own and field == "OnCompletion":
            return self.oc
        if own and field == "ApplicationID":
            return self.app_id
        if idx is not None and idx > 7:
            raise AvmFail("array index")
        if field in ADDRESS_FIELDS:
            t = "A"
        return uninterp(t, "txn", self.seed, gi, field, idx)

    def glob(self, field):
        t = "A" if field in ADDRESS_FIELDS else FIELD_TYPES["global"][field]
        return uninterp(t, "global", self.seed, field)


# --------------------------------------------------------------------------- primitives
def _u(v):
    if not isinstance(v, int):
        raise AvmTypeFault("want uint64, got bytes")
    return v


def _b(v):
    if not isinstance(v, bytes):
        raise AvmTypeFault("want bytes, got uint64")
    return v


def _rng(v):
    if not 0 <= v <= U64:
        raise AvmFail("uint64 range")
    return v


def _big(v):
    v = _b(v)
    if len(v) > 64:
        raise AvmFail("byte math size")
    return int.from_bytes(v, "big")


def _bb(n):
    if n < 0:
        raise AvmFail("byte math underflow")
    return n.to_bytes((n.bit_length() + 7) // 8, "big")


def _cap(b):
    if len(b) > 4096:
        raise AvmFail("byte string too long")
    return b


def _same(a, b):
    if isinstance(a, int) != isinstance(b, int):
        raise AvmTypeFault("cannot compare")
    return a == b


def _div(a, b):
    if b == 0:
        raise AvmFail("division by zero")
    return a // b


def _mod(a, b):
    if b == 0:
        raise AvmFail("modulo by zero")
    return a % b


def _exp(a, b, lim):
    if a == 0 and b == 0:
        raise AvmFail("0^0")
    if a > 1 and b > 128:
        raise AvmFail("exp overflow")
    r = a ** b
    if r > lim:
        raise AvmFail("exp overflow")
    return r


def _sub(b, s, e):
    if e < s or e > len(b):
        raise AvmFail("substring range")
    return b[s:e]


def _ext(b, s, n):
    if s + n > len(b) or s > len(b):
        raise AvmFail("extract range")
    return b[s:s + n]


def _repl(b, s, r):
    if s + len(r) > len(b):
        raise AvmFail("replace range")
    return b[:s] + r + b[s + len(r):]


def _zpad2(a, b):
    n = max(len(a), len(b))
    return a.rjust(n, b"\0"), b.rjust(n, b"\0")


def _blog(f):
    def g(a, b):
        a, b = _zpad2(_b(a), _b(b))
        return bytes(f(x, y) for x, y in zip(a, b))
    return g


def _getbit(v, i):
    if isinstance(v, int):
        if i > 63:
            raise AvmFail("getbit")
        return (v >> i) & 1
    if i >= 8 * len(v):
        raise AvmFail("getbit")
    return (v[i // 8] >> (7 - i % 8)) & 1


def _setbit(v, i, x):
    if x > 1:
        raise AvmFail("setbit")
    if isinstance(v, int):
        if i > 63:
            raise AvmFail("setbit")
        return (v & ~(1 << i)) | (x << i)
    if i >= 8 * len(v):
        raise AvmFail("setbit")
    a = bytearray(v)
    m = 1 << (7 - i % 8)
    a[i // 8] = (a[i // 8] & ~m) | (m if x else 0)
    return bytes(a)


def _getbyte(b, i):
    if i >= len(b):
        raise AvmFail("getbyte")
    return b[i]


def _setbyte(b, i, x):
    if i >= len(b) or x > 255:
        raise AvmFail("setbyte")
    return b[:i] + bytes([x]) + b[i + 1:]


def _btoi(b):
    if len(b) > 8:
        raise AvmFail("btoi")
    return int.from_bytes(b, "big")


def _bzero(n):
    if n > 4096:
        raise AvmFail("bzero")
    return bytes(n)


def _sh(n):
    if n > 63:
        raise AvmFail("shift")
    return n


def _one(f, *kinds):
    def g(imms, args):
        a = [(_u(v) if k == "U" else _b(v) if k == "B" else v) for k, v in zip(kinds, args)]
        return [f(*a)]
    return g


def _divmodw(i, a):
    n, d = (a[0] << 64) | a[1], (a[2] << 64) | a[3]
    if d == 0:
        raise AvmFail("divmodw")
    q, r = divmod(n, d)
    return [q >> 64, q & U64, r >> 64, r & U64]


def _divw(a, b, c):
    if c == 0:
        raise AvmFail("divw")
    return _rng(((a << 64) | b) // c)


def _typed(kinds, f):
    def g(imms, args):
        for k, v in zip(kinds, args):
            if k == "U":
                _u(v)
            elif k == "B":
                _b(v)
        return f(imms, args)
    return g


PRIMS = {
    "+": _one(lambda a, b: _rng(a + b), "U", "U"),
    "-": _one(lambda a, b: _rng(a - b), "U", "U"),
    "*": _one(lambda a, b: _rng(a * b), "U", "U"),
    "/": _one(_div, "U", "U"),
    "%": _one(_mod, "U", "U"),
    "<": _one(lambda a, b: int(a < b), "U", "U"),
    ">": _one(lambda a, b: int(a > b), "U", "U"),
    "<=": _one(lambda a, b: int(a <= b), "U", "U"),
    ">=": _one(lambda a, b: int(a >= b), "U", "U"),
    "&&": _one(lambda a, b: int(bool(a) and bool(b)), "U", "U"),
    "||": _one(lambda a, b: int(bool(a) or bool(b)), "U", "U"),
    "==": _one(lambda a, b: int(_same(a, b)), ".", "."),
    "!=": _one(lambda a, b: int(not _same(a, b)), ".", "."),
    "!": _one(lambda a: int(not a), "U"),
    "~": _one(lambda a: a ^ U64, "U"),
    "|": _one(lambda a, b: a | b, "U", "U"),
    "&": _one(lambda a, b: a & b, "U", "U"),
    "^": _one(lambda a, b: a ^ b, "U", "U"),
    "shl": _one(lambda a, b: (a << _sh(b)) & U64, "U", "U"),
    "shr": _one(lambda a, b: a >> _sh(b), "U", "U"),
    "sqrt": _one(math.isqrt, "U"),
    "exp": _one(lambda a, b: _exp(a, b, U64), "U", "U"),
    "expw": _typed("UU", lambda i, a: (lambda r: [r >> 64, r & U64])(_exp(a[0], a[1], (1 << 128) - 1))),
    "mulw": _typed("UU", lambda i, a: [(a[0] * a[1]) >> 64, (a[0] * a[1]) & U64]),
    "addw": _typed("UU", lambda i, a: [(a[0] + a[1]) >> 64, (a[0] + a[1]) & U64]),
    "divmodw": _typed("UUUU", _divmodw),
    "divw": _one(_divw, "U", "U", "U"),
    "bitlen": _one(lambda v: v.bit_length() if isinstance(v, int) else int.from_bytes(v, "big").bit_length(), "."),
    "len": _one(len, "B"),
    "itob": _one(lambda a: a.to_bytes(8, "big"), "U"),
    "btoi": _one(_btoi, "B"),
    "concat": _one(lambda a, b: _cap(a + b), "B", "B"),
    "substring": lambda i, a: [_sub(_b(a[0]), i[0], i[1])],
    "substring3": _one(_sub, "B", "U", "U"),
    "extract": lambda i, a: [_ext(_b(a[0]), i[0], i[1] if i[1] else max(len(_b(a[0])) - i[0], 0))],
    "extract3": _one(_ext, "B", "U", "U"),
    "extract_uint16": _one(lambda b, s: int.from_bytes(_ext(b, s, 2), "big"), "B", "U"),
    "extract_uint32": _one(lambda b, s: int.from_bytes(_ext(b, s, 4), "big"), "B", "U"),
    "extract_uint64": _one(lambda b, s: int.from_bytes(_ext(b, s, 8), "big"), "B", "U"),
    "replace2": lambda i, a: [_repl(_b(a[0]), i[0], _b(a[1]))],
    "replace3": _one(lambda a, s, b: _repl(a, s, b), "B", "U", "B"),
    "getbit": _one(_getbit, ".", "U"),
    "setbit": _one(_setbit, ".", "U", "U"),
    "getbyte": _one(_getbyte, "B", "U"),
    "setbyte": _one(_setbyte, "B", "U", "U"),
    "bzero": _one(_bzero, "U"),
    "select": _one(lambda a, b, c: b if c else a, ".", ".", "U"),
    "b+": lambda i, a: [_bb(_big(a[0]) + _big(a[1]))],
    "b-": lambda i, a: [_bb(_big(a[0]) - _big(a[1]))],
    "b*": lambda i, a: [_bb(_big(a[0]) * _big(a[1]))],
    "b/": lambda i, a: [_bb(_div(_big(a[0]), _big(a[1])))],
    "b%": lambda i, a: [_bb(_mod(_big(a[0]), _big(a[1])))],
    "b<": lambda i, a: [int(_big(a[0]) < _big(a[1]))],
    "b>": lambda i, a: [int(_big(a[0]) > _big(a[1]))],
    "b<=": lambda i, a: [int(_big(a[0]) <= _big(a[1]))],
    "b>=": lambda i, a: [int(_big(a[0]) >= _big(a[1]))],
    "b==": lambda i, a: [int(_big(a[0]) == _big(a[1]))],
    "b!=": lambda i, a: [int(_big(a[0]) != _big(a[1]))],
    "b|": _one(_blog(lambda x, y: x | y), "B", "B"),
    "b&": _one(_blog(lambda x, y: x & y), "B", "B"),
    "b^": _one(_blog(lambda x, y: x ^ y), "B", "B"),
    "b~": _one(lambda a: bytes(x ^ 255 for x in a), "B"),
    "bsqrt": lambda i, a: [_bb(math.isqrt(_big(a[0])))],
    "pop": lambda i, a: [],
    "dup": lambda i, a: [a[0], a[0]],
    "dup2": lambda i, a: [a[0], a[1], a[0], a[1]],
    "swap": lambda i, a: [a[1], a[0]],
}


class World:
    """The mutable application state and the effect trace."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.trace = []
        self.glob = {}
        self.local = {}
        self.boxes = dict(ctx.boxes)
        self.itxn = None     # list of txns under construction
        self.submitted = 0

    def eff(self, *t):
        if len(self.trace) > 5000:
            raise OutOfFuel()
        self.trace.append(t)

    # one entry point for every non stack-shuffling, non-control op
    def op(self, name, imms, args):
        """imms: decoded immediates (ints / field-name strings); args: stack args in order."""
        p = PRIMS.get(name)
        if p:
            return p(imms, args)
        f = getattr(self, "op_" + name, None)
        if f:
            return f(imms, args)
        spec = OPS[name]
        for k, v in zip(spec.get("Args", ""), args):
            if k == "U":
                _u(v)
            elif k == "B":
                _b(v)
        rets = list(spec.get("Returns", ""))
        if name in FIELD_TYPES and imms and "." in rets:
            rets[rets.index(".")] = FIELD_TYPES[name].get(imms[0], ".")
        if not rets:
            self.eff(name, tuple(imms), tuple(args))
        return [uninterp(k, name, self.ctx.seed, tuple(imms), tuple(args), i)
                for i, k in enumerate(rets)]

    # fields
    def op_txn(self, i, a):
        return [self.ctx.txn(i[0])]

    def op_txna(self, i, a):
        return [self.ctx.txn(i[0], None, i[1])]

    def op_txnas(self, i, a):
        return [self.ctx.txn(i[0], None, _u(a[0]))]

    def op_gtxn(self, i, a):
        return [self.ctx.txn(i[1], i[0])]

    def op_gtxna(self, i, a):
        return [self.ctx.txn(i[1], i[0], i[2])]

    def op_gtxnas(self, i, a):
        return [self.ctx.txn(i[1], i[0], _u(a[0]))]

    def op_gtxns(self, i, a):
        return [self.ctx.txn(i[0], _u(a[0]))]

    def op_gtxnsa(self, i, a):
        return [self.ctx.txn(i[0], _u(a[0]), i[1])]

    def op_gtxnsas(self, i, a):
        return [self.ctx.txn(i[0], _u(a[0]), _u(a[1]))]

    def op_global(self, i, a):
        return [self.ctx.glob(i[0])]

    def _itx(self, field, idx=None):
        if not self.submitted:
            raise AvmFail("no inner transaction")
        t = "A" if field in ADDRESS_FIELDS else FIELD_TYPES["txn"][field]
        return [uninterp(t, "itxn", self.ctx.seed, self.submitted, field, idx)]

    def op_itxn(self, i, a):
        return self._itx(i[0])

    def op_itxna(self, i, a):
        return self._itx(i[0], i[1])

    def op_itxnas(self, i, a):
        return self._itx(i[0], _u(a[0]))

    def op_sha256(self, i, a):
        return [hashlib.sha256(_b(a[0])).digest()]

    def op_sha512_256(self, i, a):
        return [sha512_256(_b(a[0]))]

    # effects
    def op_log(self, i, a):
        self.eff("log", _b(a[0]))
        return []

    def op_app_global_put(self, i, a):
        self.eff("gput", _b(a[0]), a[1])
        self.glob[a[0]] = a[1]
        return []

    def op_app_global_get(self, i, a):
        return [self.glob.get(_b(a[0]), 0)]

    def op_app_global_del(self, i, a):
        self.eff("gdel", _b(a[0]))
        self.glob.pop(a[0], None)
        return []

    def op_app_local_put(self, i, a):
        self.eff("lput", a[0], _b(a[1]), a[2])
        self.local[(a[0], a[1])] = a[2]
        return []

    def op_app_local_get(self, i, a):
        return [self.local.get((a[0], _b(a[1])), 0)]

    # boxes
    def _name(self, n):
        n = _b(n)
        if not 1 <= len(n) <= 64:
            raise AvmFail("box name")
        return n

    def _box(self, n):
        n = self._name(n)
        if n not in self.boxes:
            raise AvmFail("no such box")
        return self.boxes[n]

    def op_box_create(self, i, a):
        n, size = self._name(a[0]), _u(a[1])
        if size > 32768:
            raise AvmFail("box size")
        if n in self.boxes:
            if len(self.boxes[n]) != size:
                raise AvmFail("box size mismatch")
            return [0]
        self.boxes[n] = bytes(size)
        return [1]

    def op_box_len(self, i, a):
        n = self._name(a[0])
        return [len(self.boxes.get(n, b"")), int(n in self.boxes)]

    def op_box_get(self, i, a):
        n = self._name(a[0])
        return [self.boxes.get(n, b""), int(n in self.boxes)]

    def op_box_put(self, i, a):
        n, v = self._name(a[0]), _b(a[1])
        if n in self.boxes and len(self.boxes[n]) != len(v):
            raise AvmFail("box size mismatch")
        self.boxes[n] = v
        return []

    def op_box_del(self, i, a):
        n = self._name(a[0])
        if n in self.boxes:
            del self.boxes[n]
            return [1]
        return [0]

    def op_box_extract(self, i, a):
        return [_ext(self._box(a[0]), _u(a[1]), _u(a[2]))]

    def op_box_replace(self, i, a):
        v = _repl(self._box(a[0]), _u(a[1]), _b(a[2]))
        self.boxes[a[0]] = v
        return []

    # inner transactions
    def op_itxn_begin(self, i, a):
        if self.itxn is not None:
            raise AvmFail("itxn_begin without itxn_submit")
        self.itxn = [[]]
        return []

    def op_itxn_next(self, i, a):
        if self.itxn is None:
            raise AvmFail("itxn_next without itxn_begin")
        self.itxn.append([])
        return []

    def op_itxn_field(self, i, a):
        if self.itxn is None:
            raise AvmFail("itxn_field without itxn_begin")
        self.itxn[-1].append((i[0], a[0]))
        return []

    def op_itxn_submit(self, i, a):
        if self.itxn is None:
            raise AvmFail("itxn_submit without itxn_begin")
        g, self.itxn = self.itxn, None
        self.submitted += 1
        self.eff("itxn", tuple(tuple(t) for t in g))
        return []


# --------------------------------------------------------------------------- assembler
def tokenize(line):
    """Split one physical TEAL line into statements (lists of tokens), like go-algorand."""
    out, cur, i, n = [], [], 0, len(line)
    while i < n:
        c = line[i]
        b64 = cur and cur[-1] in ("base64", "b64")
        if c in " \t\r\v\f":
            i += 1
        elif c == ";":
            out.append(cur)
            cur = []
            i += 1
        elif line.startswith("//", i) and not b64:
            break
        elif c == '"':
            j = i + 1
            while True:
                if j >= n:
                    raise AsmError(f"unterminated string: {line!r}")
                if line[j] == "\\":
                    j += 2
                    continue
                if line[j] == '"':
                    break
                j += 1
            j += 1
            if j < n and line[j] not in " \t;\r" and not line.startswith("//", j):
                raise AsmError(f"junk after string: {line!r}")
            cur.append(line[i:j])
            i = j
        else:
            j = i
            while j < n and line[j] not in ' \t;\r"' and (b64 or not line.startswith("//", j)):
                if line[j] == "(":
                    while j < n and line[j] != ")":
                        j += 1
                j += 1
            if j < n and line[j] == '"':
                raise AsmError(f"quote inside a token: {line!r}")
            cur.append(line[i:j])
            i = j
    out.append(cur)
    return [s for s in out if s]


def parse_string(tok):
    out = bytearray()
    s = tok[1:-1]
    i = 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c.encode("utf-8", "surrogatepass")
            i += 1
            continue
        i += 1
        e = s[i] if i < len(s) else ""
        if e in "nrt\\\"" and e:
            out += {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", '"': b'"'}[e]
            i += 1
        elif e == "x":
            h = s[i + 1:i + 3]
            if not re.fullmatch("[0-9a-fA-F]{2}", h):
                raise AsmError(f"bad hex escape in {tok!r}")
            out.append(int(h, 16))
            i += 3
        else:
            raise AsmError(f"bad escape in {tok!r}")
    return bytes(out)


def parse_bytes(toks):
    if len(toks) != 1 and not (len(toks) == 2 and toks[0] in ("base64", "b64", "base32", "b32")):
        raise AsmError(f"byte argument: {toks}")
    t = toks[0]
    if t.startswith('"'):
        return parse_string(t)
    enc, txt = t, None
    if "(" in t and t.endswith(")"):
        enc, txt = t[:-1].split("(", 1)
    elif len(toks) == 2:
        txt = toks[1]
    if txt is not None and enc in ("base64", "b64", "base32", "b32"):
        try:
            if enc in ("base64", "b64"):
                return base64.b64decode(txt + "=" * (-len(txt) % 4 if "=" not in txt else 0), validate=True)
            return base64.b32decode(txt + "=" * (-len(txt) % 8 if "=" not in txt else 0))
        except ValueError:
            raise AsmError(f"bad {enc} {txt}") from None
    if t.startswith("0x"):
        if len(t) % 2 or not re.fullmatch("[0-9a-fA-F]*", t[2:]):
            raise AsmError(f"bad hex {t}")
        return bytes.fromhex(t[2:])
    raise AsmError(f"bad byte constant {t!r}")


def parse_uint(t, hi=U64):
    m = t.replace("_", "")
    if re.fullmatch("0x[0-9a-fA-F]+", m):
        v = int(m, 16)
    elif re.fullmatch("[0-9]+", m):
        # a leading 0 means octal to the assembler
        v = int(m, 8) if len(m) > 1 and m[0] == "0" and re.fullmatch("[0-7]+", m) else None
        if v is None:
            if len(m) > 1 and m[0] == "0":
                raise AsmError(f"bad octal {t}")
            v = int(m)
    else:
        raise AsmError(f"bad integer {t!r}")
    if v > hi:
        raise AsmError(f"integer out of range {t} > {hi}")
    return v


B32 = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"


class Ins:
    __slots__ = ("op", "imms", "line", "labels")

    def __init__(self, op, imms, line, labels=()):
        self.op, self.imms, self.line, self.labels = op, imms, line, labels


LABEL_OPS = {"b", "bz", "bnz", "callsub", "switch", "match"}
UINT8_IMM = re.compile(r"\{u?int8 ")


class Assembled:
    def __init__(self):
        self.ins, self.labels, self.version, self.macros = [], {}, None, {}


def assemble(lines, user_version=None):
    """Check and decode TEAL text.  Raises AsmError for text no assembler would take."""
    a = Assembled()
    macros = a.macros
    for ln, line in enumerate(lines, 1):
        if "\n" in line:
            raise AsmError(f"line {ln}: embedded newline")
        stripped = line.strip()
        if stripped.startswith("#pragma"):
            t = stripped.split()
            if len(t) < 3 or t[1] != "version" or not t[2].isdigit():
                raise AsmError(f"line {ln}: bad pragma {line!r}")
            if a.ins or a.labels:
                raise AsmError(f"line {ln}: #pragma version is only allowed before instructions")
            a.version = int(t[2])
            continue
        for toks in tokenize(line):
            if toks[0] == "#define":
                if len(toks) < 3:
                    raise AsmError(f"line {ln}: bad #define")
                name = toks[1]
                if not re.fullmatch(r"[A-Za-z_][A-Za-z0-9_!?%&|^$<>+\-*/]*", name):
                    raise AsmError(f"line {ln}: bad macro name {name}")
                if name in a.labels:
                    raise AsmError(f"line {ln}: macro {name} is a label")
                macros[name] = toks[2:]
                continue
            if toks[0].startswith("#"):
                raise AsmError(f"line {ln}: unknown directive {toks[0]}")
            ex = []
            for t in toks:
                depth = 0
                stack = [t]
                res = []
                while stack:
                    x = stack.pop(0)
                    if x in macros:
                        depth += 1
                        if depth > 50:
                            raise AsmError("macro cycle")
                        stack = list(macros[x]) + stack
                    else:
                        res.append(x)
                ex += res
            toks = ex
            if toks[0].endswith(":") and not toks[0].startswith('"'):
                lab = toks[0][:-1]
                if not lab or not re.fullmatch(r"[A-Za-z_][\w\-!?.$%&|^<>+*/@]*", lab):
                    raise AsmError(f"line {ln}: bad label {lab!r}")
                if lab in a.labels:
                    raise AsmError(f"line {ln}: duplicate label {lab}")
                if lab in macros:
                    raise AsmError(f"line {ln}: label {lab} is a macro")
                a.labels[lab] = len(a.ins)
                toks = toks[1:]
                if not toks:
                    continue
            a.ins.append(decode(toks[0], toks[1:], ln))
    for ins in a.ins:
        for lab in ins.labels:
            if lab not in a.labels:
                raise AsmError(f"line {ins.line}: undefined label {lab} in {ins.op}")
    return a


def decode(op, imm, ln):
    def bad(msg):
        return AsmError(f"line {ln}: {op} {' '.join(imm)}: {msg}")

    def need(n):
        if len(imm) != n:
            raise bad(f"expects {n} immediate arguments")

    if op in LABEL_OPS:
        if op in ("b", "bz", "bnz", "callsub"):
            need(1)
        return Ins(op, [], ln, tuple(imm))
    if op in ("int", "pushint"):
        need(1)
        if op == "int" and imm[0] in NAMED_INTS:
            return Ins("pushint", [NAMED_INTS[imm[0]]], ln)
        return Ins("pushint", [parse_uint(imm[0])], ln)
    if op in ("byte", "pushbytes"):
        return Ins("pushbytes", [parse_bytes(imm)], ln)
    if op == "addr":
        need(1)
        if len(imm[0]) != 58 or any(c not in B32 for c in imm[0]):
            raise bad("bad address")
        n = 0
        for c in imm[0]:
            n = n * 32 + B32.index(c)
        raw = (n >> 2).to_bytes(36, "big")
        return Ins("pushbytes", [raw[:32]], ln)
    if op == "method":
        need(1)
        return Ins("pushbytes", [sha512_256(parse_bytes(imm))[:4]], ln)
    # overloaded names
    n = len(imm)
    if op == "extract" and n == 0:
        op = "extract3"
    elif op == "substring" and n == 0:
        op = "substring3"
    elif op == "replace":
        op = "replace2" if n == 1 else "replace3"
    elif op == "txn" and n == 2:
        op = "txna"
    elif op == "gtxn" and n == 3:
        op = "gtxna"
    elif op == "gtxns" and n == 2:
        op = "gtxnsa"
    elif op == "itxn" and n == 2:
        op = "itxna"
    if op not in OPS:
        raise bad("unknown opcode")
    spec = OPS[op]
    size = spec["Size"]
    if size == 0:
        raise bad("opcode not modelled")
    need(size - 1)
    out = []
    for k, t in enumerate(imm):
        if t.startswith('"'):
            raise bad("string immediate")
        if "ArgEnum" in spec and not t.isdigit():
            if t not in spec["ArgEnum"]:
                raise bad(f"unknown field {t}")
            out.append(t)
        elif op in ("ecdsa_verify", "ecdsa_pk_decompress", "ecdsa_pk_recover",
                    "base64_decode", "json_ref", "vrf_verify", "block", "itxnas", "gitxnas") \
                and re.fullmatch("[A-Za-z]\\w*", t):
            out.append(t)
        elif t.lstrip("-").isdigit():
            lo, hi = (-128, 127) if op.startswith("frame_") else (0, 255)
            v = -parse_uint(t[1:]) if t.startswith("-") else parse_uint(t)
            if not lo <= v <= hi:
                raise bad("immediate out of range")
            if "ArgEnum" in spec and not any(isinstance(x, str) for x in out) \
                    and k == n - 1 and op not in ("txna", "gtxna", "gtxnsa", "itxna", "gitxna"):
                raise bad("field name expected")
            out.append(v)
        else:
            raise bad(f"bad immediate {t}")
    return Ins(op, out, ln)


# --------------------------------------------------------------------------- interpreter
class Result:
    boxes = {}

    def __init__(self, status, value, trace, detail="", fault=""):
        self.status, self.value, self.trace = status, value, trace
        self.detail, self.fault = detail, fault

    def key(self):
        return (self.status, self.value, self.trace)


def run(asm, ctx, fuel=200000, world=None, hook=None, stack=None):
    """Execute.  Result.status: 'return' (value = top of stack) | 'fail' | 'end' (ran off
    the end; value = the remaining stack)."""
    w = world or World(ctx)
    ins, labels = asm.ins, asm.labels
    scratch, calls = [0] * 256, []
    if stack is None:
        stack = []
    pc = 0

    def pop():
        if not stack:
            raise AvmUnderflow("stack underflow")
        return stack.pop()

    try:
        while pc < len(ins):
            fuel -= 1
            if fuel < 0:
                raise OutOfFuel()
            i = ins[pc]
            if hook:
                hook(pc, i, stack, scratch, calls)
            pc += 1
            op, im = i.op, i.imms
            if op == "pushint" or op == "pushbytes":
                stack.append(im[0])
            elif op == "load":
                stack.append(scratch[im[0]])
            elif op == "store":
                scratch[im[0]] = pop()
            elif op == "loads":
                k = _u(pop())
                if k > 255:
                    raise AvmFail("scratch")
                stack.append(scratch[k])
            elif op == "stores":
                v = pop()
                k = _u(pop())
                if k > 255:
                    raise AvmFail("scratch")
                scratch[k] = v
            elif op == "b":
                pc = labels[i.labels[0]]
            elif op == "bz":
                if _u(pop()) == 0:
                    pc = labels[i.labels[0]]
            elif op == "bnz":
                if _u(pop()) != 0:
                    pc = labels[i.labels[0]]
            elif op == "callsub":
                calls.append(pc)
                if len(calls) > 500:
                    raise OutOfFuel()
                pc = labels[i.labels[0]]
            elif op == "retsub":
                if not calls:
                    raise AvmUnderflow("retsub with empty callstack")
                pc = calls.pop()
            elif op == "return":
                v = _u(pop())
                r = Result("return", v, w.trace)
                r.boxes = w.boxes
                return r
            elif op == "err":
                raise AvmFail("err")
            elif op == "assert":
                if _u(pop()) == 0:
                    raise AvmFail("assert failed")
            elif op == "switch":
                k = _u(pop())
                if k < len(i.labels):
                    pc = labels[i.labels[k]]
            elif op == "match":
                v = pop()
                n = len(i.labels)
                if len(stack) < n:
                    raise AvmUnderflow("match")
                cand = stack[len(stack) - n:]
                del stack[len(stack) - n:]
                for c, lab in zip(cand, i.labels):
                    if isinstance(c, int) == isinstance(v, int) and c == v:
                        pc = labels[lab]
                        break
            elif op == "dig":
                if im[0] >= len(stack):
                    raise AvmUnderflow("dig")
                stack.append(stack[-1 - im[0]])
            elif op == "uncover":
                if im[0] >= len(stack):
                    raise AvmUnderflow("uncover")
                stack.append(stack.pop(-1 - im[0]))
            elif op == "cover":
                if im[0] >= len(stack):
                    raise AvmUnderflow("cover")
                v = stack.pop()
                stack.insert(len(stack) - im[0], v)
            elif op == "bury":
                if im[0] >= len(stack) or im[0] == 0:
                    raise AvmUnderflow("bury")
                v = stack.pop()
                stack[-im[0]] = v
            elif op == "popn":
                for _ in range(im[0]):
                    pop()
            elif op == "dupn":
                v = pop()
                stack.extend([v] * (im[0] + 1))
            elif op in ("proto", "frame_dig", "frame_bury"):
                raise AvmFail("not modelled")
            else:
                n = len(OPS[op].get("Args") or "")
                if len(stack) < n:
                    raise AvmUnderflow(f"{op}: stack underflow")
                args = stack[len(stack) - n:] if n else []
                if n:
                    del stack[len(stack) - n:]
                stack.extend(w.op(op, im, args))
            if len(stack) > 1000:
                raise AvmFail("stack overflow")
        return Result("end", list(stack), w.trace)
    except AvmFail as e:
        if world:
            raise
        fault = type(e).__name__ if not type(e) is AvmFail else ""
        at = ins[pc - 1].line if 0 < pc <= len(ins) else 0
        r = Result("fail", None, w.trace, f"{e} (TEAL line {at})", fault)
        r.line = at
        return r


def jsonable(v):
    if isinstance(v, bytes):
        return "0x" + v.hex()
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    return v
