"""Our own Tealish AST: types, printer and reference interpreter.

Independent of tealish: variables are identities in a flat store (there is no recursion in
the language subset), control flow is Python control flow, effects go to the shared World.
"""
import hashlib
from . import avm
from .avm import World, AvmFail, AvmTypeFault, OutOfFuel, OPS


# ----------------------------------------------------------------------------- types
class Ty:
    """kind: int | bytes | struct | array | bigint | addr | box | any.  size 0 = unsized."""
    __slots__ = ("kind", "size", "name", "struct")

    def __init__(self, kind, size, name, struct=None):
        self.kind, self.size, self.name, self.struct = kind, size, name, struct

    def __repr__(self):
        return f"{self.name}/{self.size}"

    @property
    def is_int(self):
        return self.kind == "int"

    @property
    def is_bytes(self):
        return self.kind not in ("int", "any")


INT = Ty("int", 8, "int")
UINT64 = Ty("int", 8, "uint64")
UINT8 = Ty("int", 1, "uint8")
BYTES = Ty("bytes", 0, "bytes")
BIGINT = Ty("bigint", 0, "bigint")
ADDR = Ty("addr", 32, "addr")
ANY = Ty("any", 0, "any")


def lit_int_ty(v):
    return Ty("int", max(1, (v.bit_length() + 7) // 8), "literal")


def bytes_ty(n):
    return Ty("bytes", n, f"bytes[{n}]") if n else BYTES


def array_ty(n):
    return Ty("array", n, f"uint8[{n}]")


class Struct:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields      # [(fname, Ty)]
        self.offsets, off = {}, 0
        for f, t in fields:
            self.offsets[f] = (off, t)
            off += t.size
        self.size = off
        self.ty = Ty("struct", off, name, self)
        self.boxty = Ty("box", off, f"box<{name}>", self)

    def lines(self):
        return ([("struct %s:" % self.name)] + ["    %s: %s" % (f, t.name) for f, t in self.fields]
                + ["end"])


def can_hold(dst, src):
    """The documented compatibility rule (see C09)."""
    if dst.kind == "any":
        return True
    if src.kind == "any":
        return (dst.kind == "int" and dst.size == 8) or (dst.kind in ("bytes", "bigint") and not dst.size)
    if dst.kind == "int":
        return src.kind == "int" and src.size <= dst.size
    if src.kind == "int":
        return False
    if not dst.size:
        return dst.kind != "struct"
    return src.size == dst.size


# ----------------------------------------------------------------------------- runtime
class ExitP(Exception):
    def __init__(self, v):
        self.v = v


class ReturnP(Exception):
    def __init__(self, vals):
        self.vals = vals


class BreakP(Exception):
    pass


class JumpP(Exception):
    def __init__(self, block):
        self.block = block


class TypeUnsound(Exception):
    """A value the static type promised never to occur."""


class RT:
    def __init__(self, ctx, fuel=30000):
        self.w = World(ctx)
        self.env = {}
        self.stack = []
        self.fuel = fuel
        self.group = None        # None | list under construction (inner_group active)
        self.depth = 0
        self.soft = []           # static/dynamic type mismatches seen (for C10)
        self.steps = {}          # coverage counters

    def tick(self, k=None):
        self.fuel -= 1
        if self.fuel < 0:
            raise OutOfFuel()
        if k:
            self.steps[k] = self.steps.get(k, 0) + 1

    def store(self, var, v):
        t = var.ty
        if t.kind != "any" and t.kind != "box":
            if t.is_int != isinstance(v, int):
                self.soft.append(f"{var.name}: {t.name} holds {v!r}")
            elif t.is_int and t.size < 8 and v >> (8 * t.size):
                self.soft.append(f"{var.name}: {t.name} holds {v!r}")
            elif t.is_bytes and t.size and len(v) != t.size:
                self.soft.append(f"{var.name}: {t.name} holds {len(v)} bytes")
        self.env[var.uid] = v

    def load(self, var):
        return self.env.get(var.uid, 0)


class Var:
    n = 0

    def __init__(self, name, ty, assignable=True):
        Var.n += 1
        self.uid, self.name, self.ty, self.assignable = Var.n, name, ty, assignable


def need_int(v):
    if not isinstance(v, int):
        raise AvmTypeFault("want uint64")
    return v


def need_bytes(v):
    if not isinstance(v, bytes):
        raise AvmTypeFault("want bytes")
    return v


def truth(v):
    return need_int(v) != 0


# ----------------------------------------------------------------------------- expressions
class E:
    ty = INT
    prec = "value"      # value | binary | unary ; what the grammar allows where

    def src(self):
        raise NotImplementedError

    def ev(self, rt):
        raise NotImplementedError

    def val(self):
        """source as a grammar Value (operand position)"""
        return "(" + self.src() + ")" if self.prec == "binary" else self.src()

    def kids(self):
        return []


class Lit(E):
    def __init__(self, v, text=None):
        self.v, self.text, self.ty = v, text, lit_int_ty(v)

    def src(self):
        return self.text or str(self.v)

    def ev(self, rt):
        return self.v


def quote(b):
    """A literal for printable text without quote, backslash."""
    return '"' + b.decode("ascii") + '"'


class BLit(E):
    def __init__(self, v, text=None):
        self.v, self.text, self.ty = v, text or quote(v), bytes_ty(len(v))
        if not v:
            self.ty = BYTES

    def src(self):
        return self.text

    def ev(self, rt):
        return self.v


class VarE(E):
    def __init__(self, var):
        self.var, self.ty = var, var.ty

    def src(self):
        return self.var.name

    def ev(self, rt):
        return rt.load(self.var)


class ConstE(E):
    def __init__(self, c):
        self.c, self.ty = c, c.ty

    def src(self):
        return self.c.name

    def ev(self, rt):
        return self.c.value


class EnumE(E):
    VALUES = {"NoOp": 0, "OptIn": 1, "CloseOut": 2, "ClearState": 3, "UpdateApplication": 4,
              "DeleteApplication": 5, "Pay": 1, "Acfg": 3, "Axfer": 4, "Afrz": 5, "Appl": 6}

    def __init__(self, name):
        self.name, self.ty = name, INT

    def src(self):
        return self.name

    def ev(self, rt):
        return self.VALUES[self.name]


class Un(E):
    prec = "unary"

    def __init__(self, op, a):
        self.op, self.a = op, a
        self.ty = BYTES if op == "b~" else INT

    def src(self):
        return self.op + self.a.val()

    def ev(self, rt):
        rt.tick()
        return rt.w.op(self.op, [], [self.a.ev(rt)])[0]

    def kids(self):
        return [self.a]


BYTE_RESULT = {"b+", "b-", "b*", "b/", "b%", "b|", "b&", "b^"}


class Bin(E):
    prec = "binary"

    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b
        self.ty = BYTES if op in BYTE_RESULT else INT

    def src(self):
        return f"{self.a.val()} {self.op} {self.b.val()}"

    def ev(self, rt):
        rt.tick()
        a = self.a.ev(rt)
        b = self.b.ev(rt)
        return rt.w.op(self.op, [], [a, b])[0]

    def kids(self):
        return [self.a, self.b]


class Grp(E):
    """Redundant parentheses around a binary expression."""

    def __init__(self, e):
        self.e, self.ty = e, e.ty

    def src(self):
        return "(" + self.e.src() + ")"

    def ev(self, rt):
        return self.e.ev(rt)

    def kids(self):
        return [self.e]


TYCH = {"U": INT, "B": BYTES, ".": ANY}


class Call(E):
    """Opcode call: op(imm..., args...)"""

    def __init__(self, op, imms, args, rets=None):
        self.op, self.imms, self.args = op, imms, args
        self.nimms = len(imms)
        r = rets if rets is not None else OPS[op].get("Returns", "")
        self.rets = [TYCH[c] for c in reversed(r)]        # source order: top of stack first
        self.ty = self.rets[0] if len(self.rets) == 1 else (None if not self.rets else ANY)

    def src(self):
        return f"{self.op}({', '.join([i if isinstance(i, str) else i.src() for i in self.imms] + [a.src() for a in self.args])})"

    def ev_all(self, rt):
        rt.tick()
        vals = [a.ev(rt) for a in self.args]
        imms = [i if isinstance(i, str) else i.ev(rt) for i in self.imms]
        return rt.w.op(self.op, imms, vals)[::-1]

    def ev(self, rt):
        r = self.ev_all(rt)
        return r[0] if r else None

    def kids(self):
        return self.args


class UCall(E):
    def __init__(self, func, args):
        self.func, self.args = func, args
        self.rets = func.rets
        self.ty = func.rets[0] if len(func.rets) == 1 else (None if not func.rets else ANY)

    def src(self):
        return f"{self.func.name}({', '.join(a.src() for a in self.args)})"

    def ev_all(self, rt):
        vals = [a.ev(rt) for a in self.args]
        return self.func.call(rt, vals)

    def ev(self, rt):
        r = self.ev_all(rt)
        return r[0] if r else None

    def kids(self):
        return self.args


class Field(E):
    """Txn.F, Txn.F[i], Gtxn[i].F, Gtxn[i].F[j], Gtxn[+n].F, Global.F, Itxn.F"""

    def __init__(self, ns, field, gi=None, idx=None, rel=None):
        self.ns, self.field, self.gi, self.idx, self.rel = ns, field, gi, idx, rel
        table = avm.FIELD_TYPES["global" if ns == "Global" else "txn"]
        self.ty = {"U": INT, "B": BYTES}[table[field]]
        if field == "Sender" and ns != "Global":
            self.ty = bytes_ty(32)

    def src(self):
        s = self.ns
        if self.ns == "Gtxn":
            s += "[" + (self.rel if self.rel is not None else self.gi.src()) + "]"
        s += "." + self.field
        if self.idx is not None:
            s += "[" + self.idx.src() + "]"
        return s

    def ev(self, rt):
        rt.tick()
        ctx = rt.w.ctx
        gi = None
        if self.ns == "Gtxn":
            if self.rel is not None:
                gi = rt.w.op(self.rel[0], [], [ctx.group_index, int(self.rel[1:])])[0]
            else:
                gi = need_int(self.gi.ev(rt))
        idx = None if self.idx is None else need_int(self.idx.ev(rt))
        if self.ns == "Global":
            return ctx.glob(self.field)
        if self.ns == "Itxn":
            return rt.w._itx(self.field, idx)[0]
        return ctx.txn(self.field, gi, idx)

    def kids(self):
        return [k for k in (self.gi, self.idx) if k is not None]


class FieldRef(E):
    """s.f for a struct or box variable."""

    def __init__(self, var, f):
        self.var, self.f = var, f
        self.off, self.ty = var.ty.struct.offsets[f]

    def src(self):
        return f"{self.var.name}.{self.f}"

    def ev(self, rt):
        rt.tick("fieldref")
        v = rt.load(self.var)
        if self.var.ty.kind == "box":
            b = rt.w.op("box_extract", [], [v, self.off, self.ty.size])[0]
        else:
            b = rt.w.op("extract3", [], [v, self.off, self.ty.size])[0]
        return int.from_bytes(b, "big") if self.ty.is_int else b


class Std(E):
    """Standard library call; operand(s) in args, target type or size in extra."""

    def __init__(self, name, args, ty=None, extra=None):
        self.name, self.args, self.extra = name, args, extra
        self.ty = ty
        self.rets = [ty]

    def src(self):
        ex = [] if self.extra is None else [self.extra.name if isinstance(self.extra, Ty) else
                                            self.extra.src() if isinstance(self.extra, E) else str(self.extra)]
        a = [x.src() for x in self.args]
        if self.name == "ARC28Event":
            a = ['"%s"' % self.extra.v.decode()] + a
            ex = []
        return f"{self.name}({', '.join(a + ex)})"

    def ev(self, rt):
        rt.tick(self.name)
        if self.name == "SizeOf":
            return self.extra.size
        if self.name == "Error":
            raise AvmFail("Error()")
        if self.name == "Address":
            return self.extra.v
        vals = [a.ev(rt) for a in self.args]
        n, x = self.name, self.extra
        size = x.size if isinstance(x, Ty) else (x.v if isinstance(x, Lit) else x.c.value if isinstance(x, ConstE)
                                                 else x.extra.size if isinstance(x, Std) else None)
        v = vals[0] if vals else None
        if n == "UncheckedCast":
            return v
        if n in ("Cast", "EnsureType"):
            if x.is_int:
                need_int(v)
                if v.bit_length() > 8 * x.size:
                    raise AvmFail("cast")
            else:
                need_bytes(v)
                if x.size and len(v) != x.size:
                    raise AvmFail("cast")
            return v
        if n == "Convert":
            if x.is_int:
                need_bytes(v)
                if len(v) > 8:
                    raise AvmFail("convert")
                r = int.from_bytes(v, "big")
                if r.bit_length() > 8 * x.size:
                    raise AvmFail("convert")
                return r
            need_int(v)
            if not x.size:
                return v.to_bytes(8, "big")
            if v.bit_length() > 8 * x.size:
                raise AvmFail("convert")
            return v.to_bytes(x.size, "big")
        if n == "ToBytes":
            if isinstance(v, int):
                if size < 8 and v.bit_length() > 8 * size:
                    raise AvmFail("tobytes")
                return v.to_bytes(size, "big")
            if len(v) > 64:
                raise Unspecified()
            if size <= len(v):
                if size == len(v):
                    return v
                if any(v[:len(v) - size]):
                    raise AvmFail("tobytes")
                raise Unspecified()
            return v.rjust(size, b"\0")
        if n == "FromBytes":
            need_bytes(v)
            if x.is_int:
                if len(v) > 8:
                    raise AvmFail("frombytes")
                return int.from_bytes(v, "big")
            return v
        if n in ("Rpad", "Lpad"):
            need_bytes(v)
            if len(v) > size:
                raise AvmFail("pad")
            return v.ljust(size, b"\0") if n == "Rpad" else v.rjust(size, b"\0")
        if n == "bzero":
            if v > 4096:
                raise AvmFail("bzero")
            return bytes(v)
        if n == "Concat":
            r = need_bytes(v)
            for b in vals[1:]:
                r = avm._cap(r + need_bytes(b))
            return r
        if n == "ARC28Event":
            h = avm.sha512_256(self.extra.v)[:4]
            return avm._cap(h + b"".join(need_bytes(b) for b in vals))
        raise AssertionError(n)

    ev_all = None

    def kids(self):
        return self.args


class Unspecified(Exception):
    """The documentation does not fix the outcome for this input: drop the case."""


class PopE(E):
    ty = ANY

    def src(self):
        return "pop()"

    def ev(self, rt):
        rt.tick("pop")
        if not rt.stack:
            raise avm.AvmUnderflow("pop")
        return rt.stack.pop()


def walk(e):
    yield e
    for k in e.kids():
        yield from walk(k)


# ----------------------------------------------------------------------------- statements
class S:
    """lines() -> [(indent, text, owner)], owner = the statement (or option) a line belongs to"""

    def lines(self, ind=0):
        return [(ind, self.src(), self)]

    def src(self):
        raise NotImplementedError

    def ex(self, rt):
        raise NotImplementedError

    def bodies(self):
        return []

    def exprs(self):
        return []


def run_body(body, rt):
    for s in body:
        rt.tick()
        s.ex(rt)


def body_lines(body, ind):
    out = []
    for s in body:
        out += s.lines(ind)
    return out


class Comment(S):
    def __init__(self, text):
        self.text = text

    def src(self):
        return "#" + self.text

    def ex(self, rt):
        pass


class Blank(S):
    def src(self):
        return ""

    def ex(self, rt):
        pass


class ConstD(S):
    def __init__(self, name, ty, value, text):
        self.name, self.value, self.text = name, value, text
        self.decl = ty.name
        self.ty = INT if ty.is_int else bytes_ty(len(value))

    def src(self):
        return f"const {self.decl} {self.name} = {self.text}"

    def ex(self, rt):
        pass


class Decl(S):
    def __init__(self, var, e=None):
        self.var, self.e = var, e

    def src(self):
        return f"{self.var.ty.name} {self.var.name}" + (f" = {self.e.src()}" if self.e else "")

    def ex(self, rt):
        if self.e:
            rt.store(self.var, self.e.ev(rt))

    def exprs(self):
        return [self.e] if self.e else []


class Assign(S):
    """targets: list of Var or None (for _)"""

    def __init__(self, targets, e):
        self.targets, self.e = targets, e

    def src(self):
        return f"{', '.join(v.name if v else '_' for v in self.targets)} = {self.e.src()}"

    def ex(self, rt):
        rt.tick("assign")
        if len(self.targets) == 1:
            vals = [self.e.ev(rt)]
        else:
            vals = self.e.ev_all(rt)
        for v, x in zip(self.targets, vals):
            if v:
                rt.store(v, x)

    def exprs(self):
        return [self.e]


class CallS(S):
    def __init__(self, e):
        self.e = e

    def src(self):
        return self.e.src()

    def ex(self, rt):
        self.e.ev_all(rt)

    def exprs(self):
        return [self.e]


class ErrorS(S):
    def src(self):
        return "Error()"

    def ex(self, rt):
        raise AvmFail("Error()")


class Assert(S):
    def __init__(self, e, msg=None):
        self.e, self.msg = e, msg

    def src(self):
        return f"assert({self.e.src()}" + (f', "{self.msg}"' if self.msg else "") + ")"

    def ex(self, rt):
        rt.tick("assert")
        if not truth(self.e.ev(rt)):
            raise AvmFail("assert")

    def exprs(self):
        return [self.e]


class Exit(S):
    def __init__(self, e):
        self.e = e

    def src(self):
        return f"exit({self.e.src()})"

    def ex(self, rt):
        rt.tick("exit")
        raise ExitP(need_int(self.e.ev(rt)))

    def exprs(self):
        return [self.e]


class If(S):
    """arms: [(cond, negated, body)], els: body or None"""

    def __init__(self, arms, els=None):
        self.arms, self.els = arms, els
        self.owners = [self] + [Arm(self, i) for i in range(1, len(arms))]
        self.else_owner = Arm(self, -1)

    def lines(self, ind=0):
        out = []
        for i, (c, neg, body) in enumerate(self.arms):
            out.append((ind, f"{'elif' if i else 'if'} {'not ' if neg else ''}{c.src()}:", self.owners[i]))
            out += body_lines(body, ind + 1)
        if self.els is not None:
            out.append((ind, "else:", self.else_owner))
            out += body_lines(self.els, ind + 1)
        out.append((ind, "end", None))
        return out

    def ex(self, rt):
        rt.tick("if")
        for c, neg, body in self.arms:
            if truth(c.ev(rt)) != neg:
                return run_body(body, rt)
        if self.els is not None:
            run_body(self.els, rt)

    def bodies(self):
        return [b for _, _, b in self.arms] + ([self.els] if self.els is not None else [])

    def exprs(self):
        return [c for c, _, _ in self.arms]


class Arm:
    def __init__(self, stmt, i):
        self.stmt, self.i = stmt, i


class While(S):
    def __init__(self, cond, neg, body):
        self.cond, self.neg, self.body = cond, neg, body

    def lines(self, ind=0):
        return ([(ind, f"while {'not ' if self.neg else ''}{self.cond.src()}:", self)]
                + body_lines(self.body, ind + 1) + [(ind, "end", None)])

    def ex(self, rt):
        try:
            while truth(self.cond.ev(rt)) != self.neg:
                rt.tick("while")
                run_body(self.body, rt)
        except BreakP:
            pass

    def bodies(self):
        return [self.body]

    def exprs(self):
        return [self.cond]


class For(S):
    """var None = `for _`"""

    def __init__(self, var, a, b, body):
        self.var, self.a, self.b, self.body = var, a, b, body

    def lines(self, ind=0):
        return ([(ind, f"for {self.var.name if self.var else '_'} in {self.a.src()}:{self.b.src()}:", self)]
                + body_lines(self.body, ind + 1) + [(ind, "end", None)])

    def ex(self, rt):
        i = need_int(self.a.ev(rt))
        if self.var:
            rt.store(self.var, i)
        while True:
            # the end is a variable or literal, read before every iteration
            if self.var:
                i = rt.load(self.var)
            if i == need_int(self.b.ev(rt)):
                return
            rt.tick("for")
            run_body(self.body, rt)
            if self.var:
                rt.store(self.var, rt.w.op("+", [], [rt.load(self.var), 1])[0])
            else:
                i = rt.w.op("+", [], [i, 1])[0]

    def bodies(self):
        return [self.body]

    def exprs(self):
        return [self.a, self.b]


class Break(S):
    def src(self):
        return "break"

    def ex(self, rt):
        rt.tick("break")
        raise BreakP()


class Jump(S):
    def __init__(self, block):
        self.block = block

    def src(self):
        return f"jump {self.block.name}"

    def ex(self, rt):
        rt.tick("jump")
        raise JumpP(self.block)


class Switch(S):
    """opts: [(E, Block)], els: Block or None, at: number of options above the else (None: all)"""

    def __init__(self, e, opts, els=None, at=None):
        self.e, self.opts, self.els, self.at = e, opts, els, at

    def lines(self, ind=0):
        out = [(ind, f"switch {self.e.src()}:", self)]
        for v, b in self.opts:
            out.append((ind + 1, f"{v.src()}: {b.name}", self))
        if self.els:
            at = len(self.opts) if self.at is None else self.at
            out.insert(1 + at, (ind + 1, f"else: {self.els.name}", self))
        out.append((ind, "end", None))
        return out

    def ex(self, rt):
        rt.tick("switch")
        for v, b in self.opts:
            x = self.e.ev(rt)
            y = v.ev(rt)
            if avm._same(x, y):
                raise JumpP(b)
        if self.els:
            raise JumpP(self.els)
        raise AvmFail("switch")

    def exprs(self):
        return [self.e] + [v for v, _ in self.opts]


class Return(S):
    def __init__(self, es):
        self.es = es

    def src(self):
        return "return" + (" " + ", ".join(e.src() for e in self.es) if self.es else "")

    def ex(self, rt):
        rt.tick("return")
        vals = [e.ev(rt) for e in reversed(self.es)][::-1]
        raise ReturnP(vals)

    def exprs(self):
        return self.es


class FieldSet(S):
    def __init__(self, var, f, e):
        self.var, self.f, self.e = var, f, e
        self.off, self.ty = var.ty.struct.offsets[f]

    def src(self):
        return f"{self.var.name}.{self.f} = {self.e.src()}"

    def ex(self, rt):
        rt.tick("fieldset")
        v = self.e.ev(rt)
        if self.ty.is_int:
            if need_int(v) >> (8 * self.ty.size):
                rt.soft.append(f"{self.src()}: {v} does not fit")
            b = (v & ((1 << 8 * self.ty.size) - 1)).to_bytes(self.ty.size, "big")
        else:
            b = need_bytes(v)
            if len(b) != self.ty.size:
                rt.soft.append(f"{self.src()}: {len(b)} bytes")
        cur = rt.load(self.var)
        if self.var.ty.kind == "box":
            rt.w.op("box_replace", [], [cur, self.off, b])
        else:
            rt.store(self.var, rt.w.op("replace3", [], [cur, self.off, b])[0])

    def exprs(self):
        return [self.e]


class BoxD(S):
    """method: Create | Open | '' """

    def __init__(self, var, method, key):
        self.var, self.method, self.key = var, method, key

    def src(self):
        return f"{self.var.ty.name} {self.var.name} = {self.method}Box({self.key.src()})"

    def ex(self, rt):
        rt.tick("box")
        k = need_bytes(self.key.ev(rt))
        n = self.var.ty.struct.size
        if self.method == "Open":
            ln, ok = rt.w.op("box_len", [], [k])
            if not ok or ln != n:
                raise AvmFail("OpenBox")
        elif self.method == "Create":
            if not rt.w.op("box_create", [], [k, n])[0]:
                raise AvmFail("CreateBox")
        rt.store(self.var, k)

    def exprs(self):
        return [self.key]


class InnerTxn(S):
    """fields: [(name, index or None, E)]"""

    def __init__(self, fields):
        self.fields = fields
        self.owners = [FieldLine(self, i) for i in range(len(fields))]

    def lines(self, ind=0):
        out = [(ind, "inner_txn:", self)]
        for (n, i, e), o in zip(self.fields, self.owners):
            out.append((ind + 1, f"{n}{'' if i is None else f'[{i}]'}: {e.src()}", o))
        out.append((ind, "end", None))
        return out

    def ex(self, rt):
        rt.tick("inner_txn")
        w = rt.w
        if rt.group is None:
            w.op("itxn_begin", [], [])
        elif rt.group == "open":
            w.op("itxn_begin", [], [])
            rt.group = "started"
        else:
            w.op("itxn_next", [], [])
        for n, i, e in self.fields:
            w.op("itxn_field", [n], [e.ev(rt)])
        if rt.group is None:
            w.op("itxn_submit", [], [])

    def exprs(self):
        return [e for _, _, e in self.fields]


class FieldLine:
    def __init__(self, stmt, i):
        self.stmt, self.i = stmt, i


class InnerGroup(S):
    def __init__(self, body):
        self.body = body

    def lines(self, ind=0):
        return [(ind, "inner_group:", self)] + body_lines(self.body, ind + 1) + [(ind, "end", None)]

    def ex(self, rt):
        rt.tick("inner_group")
        if rt.group is not None:
            raise AvmFail("nested group")
        rt.group = "open"
        run_body(self.body, rt)
        rt.group = None
        rt.w.op("itxn_submit", [], [])

    def bodies(self):
        return [self.body]


class Push(S):
    def __init__(self, args):
        self.args = args

    def src(self):
        return f"push({', '.join(a.src() for a in self.args)})"

    def ex(self, rt):
        rt.tick("push")
        for a in self.args:
            v = a.ev(rt)
            rt.stack.append(v)

    def exprs(self):
        return self.args


class TealB(S):
    """raw lines; only what teal_exec understands"""

    def __init__(self, raw):
        self.raw = raw

    def lines(self, ind=0):
        return ([(ind, "teal:", self)] + [(ind + 1, r, (self, i)) for i, r in enumerate(self.raw)]
                + [(ind, "end", None)])

    def ex(self, rt):
        rt.tick("teal")
        asm = avm.assemble([r for r in self.raw if not r.strip().startswith("#")])
        r = avm.run(asm, rt.w.ctx, fuel=2000, world=rt.w, stack=rt.stack)
        if r.status == "end":
            rt.stack[:] = r.value
        if r.status == "return":
            raise ExitP(r.value)


class Router(S):
    """routes: [Func]"""

    def __init__(self, routes):
        self.routes = routes

    def lines(self, ind=0):
        return ([(ind, "router:", self)] + [(ind + 1, f.name, self) for f in self.routes]
                + [(ind, "end", None)])

    def ex(self, rt):
        ctx = rt.w.ctx
        name = ctx.txn("ApplicationArgs", None, 0)
        for f in self.routes:
            if f.name.encode() == name:
                break
        else:
            raise AvmFail("no route")
        rt.tick("route")
        if f.oc == "CreateApplication":
            if ctx.app_id != 0:
                raise AvmFail("not creating")
        elif ctx.oc != EnumE.VALUES[f.oc or "NoOp"]:
            raise AvmFail("OnCompletion")
        vals = []
        for i, v in enumerate(f.params):
            b = ctx.txn("ApplicationArgs", None, i + 1)
            if v.ty.is_int:
                if len(b) > 8:
                    raise AvmFail("btoi")
                x = int.from_bytes(b, "big")
                if x.bit_length() > 8 * v.ty.size:
                    raise AvmFail("param size")
                vals.append(x)
            else:
                if v.ty.size and len(b) != v.ty.size:
                    raise AvmFail("param size")
                vals.append(b)
        out = f.call(rt, vals)
        if out:
            data = b"".join(x.to_bytes(8, "big") if isinstance(x, int) else x for x in out)
            rt.w.op("log", [], [b"\x15\x1f\x7c\x75" + data])
        raise ExitP(1)


# ----------------------------------------------------------------------------- containers
class Func:
    def __init__(self, name, params, rets):
        self.name, self.params, self.rets, self.body = name, params, rets, []
        self.public, self.oc = False, None
        self.pure = False
        self.has_itxn = False
        self.decos = None
        self.calls = 0

    def lines(self, ind=0):
        out = []
        if self.decos:
            out += [(ind, d, self) for d in self.decos]
        elif self.public:
            out.append((ind, "@public(" + (f"OnCompletion={self.oc}" if self.oc else "") + ")", self))
        ps = ", ".join(f"{p.name}: {p.ty.name}" for p in self.params)
        rs = ", ".join(t.name for t in self.rets)
        out.append((ind, f"func {self.name}({ps}){' ' + rs if rs else ''}:", self))
        out += body_lines(self.body, ind + 1)
        out.append((ind, "end", None))
        return out

    def call(self, rt, vals):
        rt.tick("call")
        if len(vals) != len(self.params):
            raise AssertionError("arity")
        for p, v in zip(self.params, vals):
            rt.store(p, v)
        rt.depth += 1
        if rt.depth > 60:
            raise OutOfFuel()
        try:
            run_body(self.body, rt)
        except ReturnP as r:
            for t, v in zip(self.rets, r.vals):
                if t.size and t.is_bytes and isinstance(v, bytes) and len(v) != t.size:
                    rt.soft.append(f"{self.name} returns {len(v)} bytes for {t.name}")
            return r.vals
        finally:
            rt.depth -= 1
        raise AssertionError("function without return")


class Block:
    def __init__(self, name):
        self.name, self.body, self.after = name, [], []     # after: nested Blocks / Funcs / Comments

    def lines(self, ind=0):
        return ([(ind, f"block {self.name}:", self)] + body_lines(self.body, ind + 1)
                + body_lines(self.after, ind + 1) + [(ind, "end", None)])


class Program:
    def __init__(self):
        self.pragma = None
        self.structs, self.body, self.after = [], [], []

    def lines(self):
        out = []
        if self.pragma:
            out.append((0, f"#pragma version {self.pragma}", self))
        for s in self.structs:
            for l in s.lines():
                out.append((0, l, None))
        return out + body_lines(self.body, 0) + body_lines(self.after, 0)

    def source(self):
        return "\n".join("    " * i + t for i, t, _ in self.lines())

    def run(self, ctx, fuel=30000):
        """-> (Result, RT)"""
        rt = RT(ctx, fuel)
        try:
            try:
                run_body(self.body, rt)
                return avm.Result("end", None, rt.w.trace), rt
            except JumpP as j:
                b = j.block
            while True:
                try:
                    rt.tick("block")
                    run_body(b.body, rt)
                    return avm.Result("end", None, rt.w.trace, "fell out of block"), rt
                except JumpP as j:
                    b = j.block
                    rt.depth = 0
        except ExitP as e:
            r = avm.Result("return", e.v, rt.w.trace)
            r.boxes = rt.w.boxes
            return r, rt
        except AvmFail as e:
            fault = type(e).__name__ if type(e) is not AvmFail else ""
            return avm.Result("fail", None, rt.w.trace, str(e), fault), rt
