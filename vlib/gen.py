"""Well-typed Tealish program generator.

Every expression carries an interval (ints) or a length range (bytes) so that generated
programs mostly run to completion; `unsafe` lets a share of operations fail at run time.
"""
from . import avm, ref
from .avm import U64
from .ref import *


class Cfg:
    depth = 3                # expression nesting
    main = (2, 7)            # statements in the main body
    prelude = (1, 4)
    twins = 0.07             # chance that both operands of a binary operator are the same expression
    wide = 0.02              # chance that a list is much longer than usual
    hazard = 0.2             # chance that an operand is read before the next one assigns it, where that is possible
    again = 0.04             # statements that are written twice
    outer_assign = 0.25      # chance that a function may assign an outer variable
    body = (1, 3)            # statements in nested bodies
    nest = 3                 # statement nesting
    funcs = (0, 3)
    blocks = (0, 2)
    block_depth = 2
    structs = (0, 2)
    consts = (0, 2)
    params = (0, 4)
    rets = (0, 3)
    unsafe = 0.02
    shadow = 0.0             # chance that an inner function/block reuses an outer one's name
    backjump = 0.3
    comments = 0.05
    messages = True
    router = 0.0
    pragma = True
    ucall = 2                # weight of user calls inside expressions
    world = 1                # weight of uninterpreted / field reads
    std = 2
    big_struct = False
    frefs = 1                # weight of field reads
    dump = 0.0               # chance that a body ends with a log of every variable
    reuse = 0.4              # chance that a name already used elsewhere is taken again
    balanced = 0.3           # share of conditions that depend on the context and go both ways
    marks = 0.0              # chance that a body starts with a log of its own
    budget = 60              # statements in the whole program
    strange_names = 0.15
    anys = True              # values of unknown static type and unchecked casts
    stmts = dict(decl=5, assign=5, multi=2, call=2, assert_=2, if_=4, while_=2, for_=2, for__=1,
                 exit_=1, log=5, gput=1, itxn=0, group=0, fieldset=2, box=0, error=0, jump=1,
                 switch=1, push=0, breakx=1, router_=0)

    def __init__(self, **kw):
        self.stmts = dict(type(self).stmts)
        for k, v in kw.items():
            if k == "stmts":
                self.stmts.update(v)
            else:
                assert hasattr(self, k), k
                setattr(self, k, v)


WORDS = ["a", "b", "c", "x", "y", "z", "n", "amount", "total", "flag", "user", "key", "data", "res",
         "item", "idx", "cnt", "val", "tmp", "foo", "bar", "acc"]
STRANGE = ["end_", "ends", "elif_x", "else_x", "if_x", "iffy", "while_x", "for_x", "fort", "return_x",
           "returns", "break_x", "breaker", "jump_x", "switch_x", "block_x", "func_x", "exit_x", "struct_x", "notice", "note",
           "assert_x", "const_x", "teal_x", "router_x", "inner_group_x", "inner_txn_x", "box_x", "not_x",
           "int_x", "bytes_x", "nott", "b_x", "l0_end", "l0", "err", "aB", "x1_Y2", "endblock", "elifx",
           "txn_x", "in_", "of", "pushx", "popx", "intx", "byte_s", "main_x", "global_x", "load", "store", "log_x",
           "uint8_x", "struc", "knot", "orange", "android", "inner", "thenot", "xend", "endend", "commend"]


class Scope:
    """A tealish naming scope: names must not repeat along the chain of visible scopes."""

    def __init__(self, parent, kind):
        self.parent, self.kind = parent, kind
        self.names, self.children = set(), []
        self.funcs, self.blocks = {}, {}
        self.consts = set()
        if parent:
            parent.children.append(self)

    def taken(self):
        t = set()
        s = self
        while s:
            t |= s.names
            s = s.parent
        return t | self.below()

    def below(self):
        """names of functions and blocks inside, which see everything declared here; the scope
        of a loop that came before is closed"""
        t = set()
        for c in self.children:
            if c.kind != "loop":
                t |= c.deep()
        return t

    def deep(self):
        t = set(self.names)
        for c in self.children:
            t |= c.deep()
        return t

    def all_names(self):
        r = self
        while r.parent:
            r = r.parent
        t = set()

        def rec(s):
            t.update(s.names)
            for c in s.children:
                rec(c)
        rec(r)
        return t


class Frame:
    """Flow-sensitive view: which variables are certainly assigned here."""

    def __init__(self, sc, vars=(), func=None, in_while=False, in_for_=False, in_loop=False, in_group=False,
                 nest=0, targets=(), allow_for_=True):
        self.sc, self.vars, self.func = sc, list(vars), func
        self.in_while, self.in_for_, self.in_group, self.nest = in_while, in_for_, in_group, nest
        self.in_loop = in_loop
        self.targets = targets
        self.allow_for_ = allow_for_
        self.maybe = []

    def sub(self, sc=None, **kw):
        f = Frame(sc or self.sc, self.vars, self.func, self.in_while, self.in_for_, self.in_loop, self.in_group,
                  self.nest + 1, self.targets, self.allow_for_)
        for k, v in kw.items():
            setattr(f, k, v)
        return f


def I(e, lo, hi):
    e.lo, e.hi = lo, min(hi, U64)
    return e


def B(e, lo, hi):
    e.ln = (lo, hi)
    return e


def setvar(v, hi=None, ln=None):
    v.hi, v.ln = hi, ln
    return v


class Gen:
    def __init__(self, ch, cfg):
        self.ch, self.cfg = ch, cfg
        self.prog = Program()
        self.structs = []
        self.consts = []
        self.root = Scope(None, "main")
        self.features = set()
        self.boxkeys = []
        self.pre, self.created = {}, {}
        # a few names that are used all over the program
        self.theme = [ch.choice(STRANGE) for _ in range(ch.int(1, 2))] if ch.bool(cfg.strange_names) else None
        self.uses_group = False
        self.effect = False      # set when an effectful thing is generated (function purity)
        self.nfn = 0
        self.nmark = 0
        self.nraw = 0
        self.public = []
        self.budget = cfg.budget // 2

    # ---- names
    def name(self, sc, pool=WORDS, arg=False):
        taken = sc.taken()
        ch = self.ch
        base = None
        if ch.bool(max(self.cfg.strange_names, 0.6 if self.theme else 0)):
            base = ch.choice(self.theme or STRANGE)
            if arg:
                base = base.lower()
        elif ch.bool(self.cfg.reuse):
            others = sorted(self.root.all_names() - taken)
            if arg:
                others = [o for o in others if o == o.lower()]
            if others:
                base = ch.choice(others)
        if base is None:
            base = ch.choice(pool)
        nm, i = base, 0
        while nm in taken or nm in RESERVED:
            i += 1
            nm = f"{base}{i}" if not base.endswith("_") else f"{base}{i}"
        sc.names.add(nm)
        return nm

    # ---- types
    def sized(self):
        return self.ch.choice([1, 2, 3, 4, 7, 8, 9, 10, 16, 20, 32, 33, 40, 64])

    def vartype(self, any_struct=True):
        ch = self.ch
        k = ch.weighted([(6, "int"), (2, "uint8"), (4, "bytes"), (2, "sized"), (1, "bigint"), (1, "uint64"),
                         (1.5 if self.structs and any_struct else 0, "struct"), (0.5, "array"), (0.5, "addr")])
        return {"int": lambda: INT, "uint8": lambda: UINT8, "bytes": lambda: BYTES, "uint64": lambda: UINT64, "addr": lambda: ADDR,
                "sized": lambda: bytes_ty(self.sized()), "bigint": lambda: BIGINT, "array": lambda: array_ty(self.sized()),
                "struct": lambda: ch.choice(self.structs).ty}[k]()

    def mkvar(self, sc, ty, name=None, assignable=True, arg=False):
        ch = self.ch
        v = Var(name or self.name(sc, arg=arg), ty, assignable)
        if ty.is_int:
            v.hi = 255 if ty.size == 1 else ch.choice([1 << 16, 1 << 16, 100, 1 << 32, U64])
            v.ln = None
        else:
            v.hi = None
            v.ln = (ty.size, ty.size) if ty.size else (0, ch.choice([40, 40, 8, 64, 200]))
        return v

    def known(self, e):
        """give a value of unknown static type (select, setbit, ..) the type it has"""
        if e.ty.kind != "any":
            return e
        if hasattr(e, "ln"):
            return B(Std("UncheckedCast", [e], BYTES, BYTES), *e.ln)
        return I(Std("UncheckedCast", [e], INT, INT), e.lo, e.hi)

    # ---- leaves
    def lit(self, hi=None):
        ch = self.ch
        k = ch.weighted([(5, "small"), (2, "bound"), (1, "mid"), (0.5, "big")])
        v = {"small": lambda: ch.int(0, 12), "bound": lambda: ch.choice([0, 1, 255, 256, 65535, 65536, 127, 128, (1 << 32) - 1, 1 << 32]),
             "mid": lambda: ch.int(0, 5000), "big": lambda: ch.choice([U64, U64 - 1, 1 << 63, (1 << 56) - 1, 1 << 56])}[k]()
        if hi is not None and v > hi:
            v = v % (hi + 1)
        e = Lit(v)
        return I(e, v, v)

    SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 _-+.:(){}[]<>=!?*&^%$@,~|'"

    def blit(self, n=None):
        ch = self.ch
        if n is None:
            n = self.many(0, 0, 200) or ch.weighted([(5, ch.int), (1, lambda a, b: 32), (1, lambda a, b: 8), (0.3, lambda a, b: 0)])(1, 6)
        s = "".join(ch.choice(self.SAFE) if ch.bool(0.4) else ch.choice("abcxyz019") for _ in range(n))
        e = BLit(s.encode())
        return B(e, n, n)

    def vars_of(self, fr, pred):
        return [v for v in fr.vars if pred(v)]

    def var_e(self, v):
        e = VarE(v)
        if v.ty.is_int:
            I(e, 0, v.hi)
        else:
            B(e, *v.ln)
        return e

    def field_refs(self, fr, pred):
        out = []
        for v in fr.vars:
            if v.ty.kind in ("struct", "box") and v.ty.struct and getattr(v, "readable", True):
                for f, t in v.ty.struct.fields:
                    if pred(t):
                        out.append((v, f, t))
        return out

    def fref(self, x):
        v, f, t = x
        e = FieldRef(v, f)
        if v.ty.kind == "box":
            self.effect = True
        if t.is_int:
            return I(e, 0, (1 << 8 * t.size) - 1)
        return B(e, t.size, t.size)

    def unsafe(self):
        return self.ch.bool(self.cfg.unsafe)

    # ---- integer expressions
    def int_e(self, fr, d, hi=U64, pure=False):
        """an expression whose static type fits int (size 8) and whose value is <= hi"""
        e = self._int_e(fr, d, pure)
        if e.hi > hi and not self.unsafe():
            if hi == U64:
                return e
            m = Lit(hi + 1)
            if hi == 0:
                return self.lit(0)
            e = I(Bin("%", self.operand(e), m), 0, hi)
        return e

    def operand(self, e):
        return e

    def _int_e(self, fr, d, pure):
        ch, cfg = self.ch, self.cfg
        ints = self.vars_of(fr, lambda v: v.ty.is_int)
        frs = self.field_refs(fr, lambda t: t.is_int)
        if pure:
            frs = [x for x in frs if x[0].ty.kind == "struct"]
        consts = [c for c in self.consts if c.ty.is_int]
        leaf = d <= 0
        opts = [(3, "lit"), (8 if ints else 0, "var"), (1 if consts else 0, "const"), (0.3, "enum"),
                (3 * cfg.frefs if frs else 0, "fref"), (cfg.world, "field")]
        if not leaf:
            opts += [(8, "arith"), (3, "cmp"), (1.5, "logic"), (1, "not"), (0.7, "inv"), (3, "op"),
                     (cfg.std, "std"), (1.5, "bcmp"), (cfg.world * 0.7, "world"), (0.5, "bitop")]
            if not pure:
                fs = [f for f in self.callable(fr) if len(f.rets) == 1 and f.rets[0].is_int]
                opts.append((cfg.ucall * 2 if fs else 0, "ucall"))
        k = ch.weighted(opts)
        if k == "lit":
            return self.lit()
        if k == "var":
            return self.var_e(ch.choice(ints))
        if k == "const":
            c = ch.choice(consts)
            return I(ConstE(c), c.value, c.value)
        if k == "enum":
            n = ch.choice(sorted(EnumE.VALUES))
            return I(EnumE(n), EnumE.VALUES[n], EnumE.VALUES[n])
        if k == "fref":
            return self.fref(ch.choice(frs))
        if k == "field":
            return self.int_field(fr, d, pure)
        if k == "arith":
            return self.arith(fr, d, pure)
        if k == "cmp":
            op = ch.choice(["==", "!=", "<", ">", "<=", ">="])
            if op in ("==", "!=") and ch.bool(0.3):
                a, b = self.pair(lambda: self.bytes_e(fr, d - 1, pure=pure))
            else:
                a, b = self.pair(lambda: self._int_e(fr, d - 1, pure), None if pure else fr)
            return I(Bin(op, a, b), 0, 1)
        if k == "logic":
            return I(Bin(ch.choice(["&&", "||"]), *self.pair(lambda: self._int_e(fr, d - 1, pure), None if pure else fr)), 0, 1)
        if k == "not":
            return I(Un("!", self._int_e(fr, d - 1, pure)), 0, 1)
        if k == "inv":
            a = self._int_e(fr, d - 1, pure)
            return I(Un("~", a), U64 - a.hi, U64 - a.lo)
        if k == "bitop":
            a, b = self.pair(lambda: self._int_e(fr, d - 1, pure), None if pure else fr)
            op = ch.choice(["|", "^", "&"])
            top = max((1 << a.hi.bit_length()) - 1, (1 << b.hi.bit_length()) - 1)
            return I(Bin(op, a, b), 0, top)
        if k == "bcmp":
            a, b = self.pair(lambda: self.bytes_e(fr, d - 1, mx=64, pure=pure))
            return I(Bin(ch.choice(["b==", "b!=", "b<", "b>", "b<=", "b>="]), a, b), 0, 1)
        if k == "op":
            return self.int_op(fr, d, pure)
        if k == "world":
            self_effect = ch.choice(["balance", "min_balance", "app_opted_in", "gget", "lget"][:5 if cfg.anys else 3])
            if self_effect in ("balance", "min_balance"):
                return I(Call(self_effect, [], [self.bytes_e(fr, d - 1, pure=pure) if ch.bool() else self._int_e(fr, d - 1, pure)]), 0, 100000)
            if self_effect == "app_opted_in":
                return I(Call("app_opted_in", [], [self._int_e(fr, d - 1, pure), self._int_e(fr, d - 1, pure)]), 0, 100000)
            if self_effect == "gget":
                e = Call("app_global_get", [], [B(BLit(b"i" + bytes([97 + ch.int(0, 2)])), 2, 2)])
                if ch.bool(0.3):
                    e = Std("UncheckedCast", [e], INT, INT)
            else:
                e = Call("app_local_get", [], [self._int_e(fr, 0, pure), B(BLit(b"i" + bytes([97 + ch.int(0, 2)])), 2, 2)])
            return I(e, 0, U64)
        if k == "std":
            return self.int_std(fr, d, pure)
        if k == "ucall":
            return self.ucall(fr, ch.choice(fs), d)
        raise AssertionError(k)

    def hazards(self, fr):
        """(variable, function): the function assigns the variable, and returns an integer"""
        return [(v, f) for f in self.callable(fr) if len(f.rets) == 1 and f.rets[0].is_int
                for v in sorted(getattr(f, "outs", ()), key=lambda v: v.name) if v.ty.is_int and v in fr.vars]

    def hazard(self, fr):
        """two operands, of which one reads a variable and the other one assigns it; or None"""
        hs = self.hazards(fr) if self.cfg.hazard else []
        if not hs or not self.ch.bool(self.cfg.hazard):
            return None
        v, f = self.ch.choice(hs)
        self.features.add("hazard")
        two = [self.var_e(v), self.ucall(fr, f, 0)]
        return two if self.ch.bool(0.8) else two[::-1]

    def pair(self, make, fr=None):
        """two operands, sometimes the same expression; fr: calls of functions returning an integer will do"""
        two = fr and self.hazard(fr)
        if two:
            return two
        if not self.ch.bool(self.cfg.twins):
            return make(), make()
        self.features.add("same operands")
        fs = [f for f in self.callable(fr) if len(f.rets) == 1 and f.rets[0].is_int] if fr else []
        a = self.ucall(fr, self.ch.choice(fs), 0) if fs and self.ch.bool(0.6) else make()
        return a, a

    def arith(self, fr, d, pure):
        ch = self.ch
        op = ch.weighted([(4, "+"), (3, "-"), (3, "*"), (2, "/"), (2, "%")])
        a, b = self.pair(lambda: self._int_e(fr, d - 1, pure), None if pure else fr)
        if self.unsafe():
            if ch.bool(0.3):
                a, b = self.lit(), self.lit()
            return I(Bin(op, a, b), 0, U64)
        if op == "+":
            if a.hi + b.hi > U64:
                a, b = self.clip(a, 1 << 32), self.clip(b, 1 << 32)
            return I(Bin("+", a, b), a.lo + b.lo, a.hi + b.hi)
        if op == "-":
            if a.lo < b.hi:
                b = self.clip(b, 1 << 16)
                if a.hi + b.hi > U64:
                    a = self.clip(a, 1 << 32)
                a = I(Bin("+", a, Lit(b.hi)), a.lo + b.hi, a.hi + b.hi)
            return I(Bin("-", a, b), a.lo - b.hi, a.hi - b.lo)
        if op == "*":
            if a.hi * b.hi > U64:
                a, b = self.clip(a, 1 << 16), self.clip(b, 1 << 16)
            return I(Bin("*", a, b), a.lo * b.lo, a.hi * b.hi)
        if b.lo == 0:
            n = ch.choice([1, 2, 3, 7, 10, 256, 1000003])
            b = I(Lit(n), n, n) if ch.bool(0.6) or b.hi >= U64 else I(Bin("+", b, I(Lit(1), 1, 1)), 1, b.hi + 1)
        if op == "/":
            return I(Bin("/", a, b), a.lo // b.hi, a.hi // b.lo)
        return I(Bin("%", a, b), 0, min(a.hi, b.hi - 1))

    def clip(self, e, m):
        if e.hi <= m:
            return e
        return I(Bin("%", e, I(Lit(m), m, m)), 0, m - 1)

    def int_op(self, fr, d, pure):
        ch = self.ch
        k = ch.choice(["len", "btoi", "bitlen", "bitlenb", "sqrt", "shl", "shr", "exp", "getbit", "getbitb", "setbit",
                       "getbyte", "ex16", "ex32", "ex64", "select", "divw"])
        if not self.cfg.anys and k in ("setbit", "select"):
            k = "getbit"
        if k == "len":
            b = self.bytes_e(fr, d - 1, pure=pure)
            return I(Call("len", [], [b]), b.ln[0], b.ln[1])
        if k == "btoi":
            b = self.bytes_e(fr, d - 1, mx=8, pure=pure)
            return I(Call("btoi", [], [b]), 0, (1 << 8 * min(8, b.ln[1])) - 1)
        if k == "bitlen":
            return I(Call("bitlen", [], [self._int_e(fr, d - 1, pure)]), 0, 64)
        if k == "bitlenb":
            b = self.bytes_e(fr, d - 1, pure=pure)
            return I(Call("bitlen", [], [b]), 0, 8 * b.ln[1])
        if k == "sqrt":
            a = self._int_e(fr, d - 1, pure)
            return I(Call("sqrt", [], [a]), 0, 1 << 32)
        if k == "shl":
            n = ch.int(0, 63)
            a = self._int_e(fr, d - 1, pure)
            return I(Call("shl", [], [a, Lit(n)]), 0, min(U64, a.hi << n) if a.hi << n <= U64 else U64)
        if k == "shr":
            n = ch.int(0, 63)
            a = self._int_e(fr, d - 1, pure)
            return I(Call("shr", [], [a, Lit(n)]), a.lo >> n, a.hi >> n)
        if k == "exp":
            a, b = ch.int(1, 6), ch.int(0, 9)
            return I(Call("exp", [], [Lit(a), Lit(b)]), a ** b, a ** b)
        if k == "getbit":
            return I(Call("getbit", [], [self._int_e(fr, d - 1, pure), Lit(ch.int(0, 63))]), 0, 1)
        if k == "getbitb":
            b = self.bytes_min(fr, d - 1, 1, pure)
            return I(Call("getbit", [], [b, Lit(ch.int(0, 8 * b.ln[0] - 1))]), 0, 1)
        if k == "setbit":
            return I(Call("setbit", [], [self._int_e(fr, d - 1, pure), Lit(ch.int(0, 63)), Lit(ch.int(0, 1))]), 0, U64)
        if k == "getbyte":
            b = self.bytes_min(fr, d - 1, 1, pure)
            return I(Call("getbyte", [], [b, Lit(ch.int(0, b.ln[0] - 1))]), 0, 255)
        if k in ("ex16", "ex32", "ex64"):
            n = {"ex16": 2, "ex32": 4, "ex64": 8}[k]
            b = self.bytes_min(fr, d - 1, n, pure)
            return I(Call("extract_uint%d" % (8 * n), [], [b, Lit(ch.int(0, b.ln[0] - n))]), 0, (1 << 8 * n) - 1)
        if k == "select":
            a, b, c = (self._int_e(fr, d - 1, pure) for _ in range(3))
            return I(Call("select", [], [a, b, c]), min(a.lo, b.lo), max(a.hi, b.hi))
        if k == "divw":
            n = ch.choice([7, 255, 1 << 20])
            h = ch.int(0, 6)
            return I(Call("divw", [], [Lit(h), self._int_e(fr, d - 1, pure), Lit(n)]), 0, U64)
        raise AssertionError

    def int_std(self, fr, d, pure):
        ch = self.ch
        k = ch.choice(["cast8", "cast64", "conv", "conv8", "frombytes", "sizeof", "unchecked", "ensure"])
        if not self.cfg.anys and k == "unchecked":
            k = "cast64"
        if k == "cast8" or k == "ensure":
            a = self.int_e(fr, d - 1, 255, pure)
            return I(Std("Cast" if k == "cast8" else "EnsureType", [a], UINT8, UINT8), 0, 255)
        if k == "cast64":
            a = self._int_e(fr, d - 1, pure)
            return I(Std("Cast", [a], INT, INT), a.lo, a.hi)
        if k in ("conv", "conv8"):
            b = self.known(self.bytes_e(fr, d - 1, mx=8 if k == "conv" else 1, pure=pure))
            t = INT if k == "conv" else UINT8
            return I(Std("Convert", [b], t, t), 0, (1 << 8 * t.size) - 1)
        if k == "frombytes":
            b = self.known(self.bytes_e(fr, d - 1, mx=8, pure=pure))
            return I(Std("FromBytes", [b], INT, INT), 0, U64)
        if k == "sizeof":
            t = ch.choice([s.ty for s in self.structs]) if self.structs and ch.bool(0.7) else bytes_ty(self.sized())
            return I(Std("SizeOf", [], INT, t), t.size, t.size)
        a = self._int_e(fr, d - 1, pure)
        return I(Std("UncheckedCast", [a], INT, INT), a.lo, a.hi)

    INT_TXN = ["Fee", "FirstValid", "LastValid", "Amount", "TypeEnum", "XferAsset", "AssetAmount", "GroupIndex",
               "OnCompletion", "NumAppArgs", "NumAccounts", "ConfigAsset", "FreezeAsset", "ApplicationID"]
    B_TXN = ["Sender", "Receiver", "Note", "Lease", "CloseRemainderTo", "Type", "AssetSender", "TxID"]
    INT_GLOBAL = ["MinTxnFee", "MinBalance", "MaxTxnLife", "GroupSize", "Round", "LatestTimestamp",
                  "CurrentApplicationID", "LogicSigVersion"]
    B_GLOBAL = ["ZeroAddress", "CreatorAddress", "CurrentApplicationAddress", "GroupID"]
    INT_ARR = ["Assets", "Applications"]
    B_ARR = ["Accounts", "ApplicationArgs", "Logs"]

    def int_field(self, fr, d, pure):
        e = self.some_field(fr, d, pure, self.INT_TXN, self.INT_GLOBAL, self.INT_ARR)
        return I(e, 0, 100000)

    def some_field(self, fr, d, pure, scal, glob, arr):
        ch = self.ch
        k = ch.weighted([(3, "txn"), (1.5, "global"), (2, "gtxn"), (1, "txna"), (1, "gtxna")])
        if k == "txn":
            return Field("Txn", ch.choice(scal))
        if k == "global":
            return Field("Global", ch.choice(glob))
        if k == "txna":
            f = ch.choice(arr)
            if f == "ApplicationArgs":
                f = "Accounts"
            return Field("Txn", f, idx=self.index_e(fr, d, pure, 7))
        rel = gi = None
        q = ch.choice(["lit", "plus", "minus", "expr"])
        if q == "lit":
            gi = Lit(ch.int(0, 15))
        elif q == "plus":
            rel = "+%d" % ch.int(0, 6)
        elif q == "minus":
            rel = "-%d" % ch.int(0, 4)
        else:
            gi = self.index_e(fr, d, pure, 15)
            if isinstance(gi, Lit) and gi.v >= 16:      # rejected
                gi = Lit(15)
        if k == "gtxn":
            return Field("Gtxn", ch.choice([f for f in scal if f not in ("NumAppArgs",)]), gi=gi, rel=rel)
        f = ch.choice([a for a in arr if a != "ApplicationArgs"])
        return Field("Gtxn", f, gi=gi, rel=rel, idx=self.index_e(fr, d, pure, 7))

    def index_e(self, fr, d, pure, hi):
        if d <= 0 or self.ch.bool(0.4):
            return self.lit(hi)
        return self.int_e(fr, d - 1, hi, pure)

    # ---- byte expressions
    def bytes_min(self, fr, d, n, pure):
        e = self.bytes_e(fr, d, pure=pure)
        if e.ln[0] >= n:
            return e
        return self.sized_e(fr, d, max(n, self.sized()), pure)

    def bytes_e(self, fr, d, mx=300, pure=False):
        """static type bytes (any size), length <= mx"""
        e = self._bytes_e(fr, d, pure, mx)
        if e.ln[1] > mx:
            if mx >= 32:
                e = B(Call("sha256", [], [e]), 32, 32)
            else:
                e = self.blit(self.ch.int(1, min(mx, 6)))
        return e

    def _bytes_e(self, fr, d, pure, mx):
        ch, cfg = self.ch, self.cfg
        vs = self.vars_of(fr, lambda v: v.ty.is_bytes and v.ty.kind != "box" and v.ln[1] <= mx)
        frs = self.field_refs(fr, lambda t: t.is_bytes and t.size <= mx)
        if pure:
            frs = [x for x in frs if x[0].ty.kind == "struct"]
        consts = [c for c in self.consts if c.ty.is_bytes and len(c.value) <= mx]
        opts = [(4, "lit"), (8 if vs else 0, "var"), (1 if consts else 0, "const"), (3 * cfg.frefs if frs else 0, "fref"),
                (cfg.world if mx >= 32 else 0, "field")]
        if d > 0:
            opts += [(2 if mx >= 8 else 0, "itob"), (3, "concat"), (3, "sub"), (3, "bmath"), (1.5, "blog"), (1, "bnot"),
                     (1 if mx >= 32 else 0, "hash"), (2, "sized"), (1 if cfg.anys else 0, "setx"), (cfg.std * 0.6, "Concat"),
                     (cfg.std * 0.3 if mx >= 64 else 0, "event"), (1 if cfg.anys else 0, "select"), (0.7, "frombytes")]
            if not pure:
                fs = [f for f in self.callable(fr) if len(f.rets) == 1 and f.rets[0].is_bytes and f.ret_ln[0][1] <= mx]
                opts.append((cfg.ucall * 2 if fs else 0, "ucall"))
        k = ch.weighted(opts)
        if k == "lit":
            return self.blit(None if mx >= 6 else ch.int(1, max(1, mx)))
        if k == "var":
            return self.var_e(ch.choice(vs))
        if k == "const":
            c = ch.choice(consts)
            return B(ConstE(c), len(c.value), len(c.value))
        if k == "fref":
            return self.fref(ch.choice(frs))
        if k == "field":
            f = self.some_field(fr, d, pure, self.B_TXN, self.B_GLOBAL, self.B_ARR)
            if f.field in avm.ADDRESS_FIELDS:
                return B(f, 32, 32)
            return B(f, 0, 32)
        if k == "itob":
            return B(Call("itob", [], [self._int_e(fr, d - 1, pure)]), 8, 8)
        if k == "concat":
            a, b = self.bytes_e(fr, d - 1, mx // 2 or 1, pure), self.bytes_e(fr, d - 1, mx // 2 or 1, pure)
            return B(Call("concat", [], [a, b]), a.ln[0] + b.ln[0], a.ln[1] + b.ln[1])
        if k == "Concat":
            n = self.many(1, 4, 12)
            parts = [self.bytes_e(fr, d - 1, mx // n or 1, pure) for _ in range(n)]
            return B(Std("Concat", parts, BYTES), sum(p.ln[0] for p in parts), sum(p.ln[1] for p in parts))
        if k == "event":
            n = ch.int(0, 2)
            parts = [self.bytes_e(fr, d - 1, (mx - 4) // max(n, 1) or 1, pure) for _ in range(n)]
            sig = ch.choice(["set_manager(address)", "e()", "swap(uint64,address)", "x(byte[])"])
            return B(Std("ARC28Event", parts, BYTES, BLit(sig.encode())), 4 + sum(p.ln[0] for p in parts), 4 + sum(p.ln[1] for p in parts))
        if k == "sub":
            b = self.bytes_e(fr, d - 1, max(mx, 40), pure)
            lo = b.ln[0]
            s = ch.int(0, lo)
            n = ch.int(0, min(lo - s, mx))
            q = ch.choice(["substring", "substring3", "extract", "extract3"])
            if q == "substring" and s + n < 256:
                return B(Call(q, [Lit(s), Lit(s + n)], [b]), n, n)
            if q.startswith("substring"):
                return B(Call("substring3", [], [b, Lit(s), Lit(s + n)]), n, n)
            if q == "extract" and n and s < 256 and n < 256:
                return B(Call(q, [Lit(s), Lit(n)], [b]), n, n)
            return B(Call("extract3", [], [b, Lit(s), Lit(n)]), n, n)
        if k == "bmath":
            op = ch.choice(["b+", "b*", "b/", "b%", "b-"])
            m = min(mx, 64) // 2 or 1
            a, b = self.pair(lambda: self.bytes_e(fr, d - 1, m, pure))
            if op in ("b/", "b%") and not self.unsafe():
                b = B(BLit(ch.choice([b"\x01", b"7", b"ab"]) if False else ch.choice([b"7", b"ab", b"zzz"])), 1, 3)
            if op == "b-" and not self.unsafe():
                op = "b+"
            top = {"b+": max(a.ln[1], b.ln[1]) + 1, "b*": a.ln[1] + b.ln[1], "b/": a.ln[1], "b%": max(a.ln[1], b.ln[1]), "b-": max(a.ln[1], b.ln[1])}[op]
            return B(Bin(op, a, b), 0, top)
        if k == "blog":
            a, b = self.pair(lambda: self.bytes_e(fr, d - 1, mx, pure))
            return B(Bin(ch.choice(["b|", "b&", "b^"]), a, b), max(a.ln[0], b.ln[0]), max(a.ln[1], b.ln[1]))
        if k == "bnot":
            a = self.bytes_e(fr, d - 1, mx, pure)
            return B(Un("b~", a), *a.ln)
        if k == "hash":
            return B(Call(ch.choice(["sha256", "keccak256", "sha512_256", "sha3_256"]), [], [self.bytes_e(fr, d - 1, pure=pure)]), 32, 32)
        if k == "sized":
            return self.sized_e(fr, d, ch.int(1, min(mx, 40)), pure)
        if k == "setx":
            b = self.bytes_e(fr, d - 1, mx, pure)
            if not b.ln[0]:
                b = self.blit(ch.int(1, min(mx, 6)))
            if ch.bool():
                return B(Call("setbyte", [], [b, Lit(ch.int(0, b.ln[0] - 1)), Lit(ch.int(0, 255))]), *b.ln)
            return B(Call("setbit", [], [b, Lit(ch.int(0, 8 * b.ln[0] - 1)), Lit(ch.int(0, 1))]), *b.ln)
        if k == "select":
            a, b = self.bytes_e(fr, d - 1, mx, pure), self.bytes_e(fr, d - 1, mx, pure)
            return B(Call("select", [], [a, b, self._int_e(fr, d - 1, pure)]), min(a.ln[0], b.ln[0]), max(a.ln[1], b.ln[1]))
        if k == "frombytes":
            b = self.known(self.bytes_e(fr, d - 1, mx, pure))
            return B(Std(ch.choice(["FromBytes", "UncheckedCast"][:2 if cfg.anys else 1]), [b], BIGINT, BIGINT), *b.ln)
        if k == "ucall":
            return self.ucall(fr, ch.choice(fs), d)
        raise AssertionError(k)

    def sized_e(self, fr, d, n, pure=False, kinds=None):
        """static type of exactly n bytes (n >= 1), value exactly n bytes long"""
        ch = self.ch
        ty = bytes_ty(n)
        vs = self.vars_of(fr, lambda v: v.ty.is_bytes and v.ty.kind != "box" and v.ty.size == n)
        frs = self.field_refs(fr, lambda t: t.is_bytes and t.size == n)
        if pure:
            frs = [x for x in frs if x[0].ty.kind == "struct"]
        opts = [(3, "lit"), (6 if vs else 0, "var"), (3 * self.cfg.frefs if frs else 0, "fref"), (2, "bzero"), (1 if n == 32 else 0, "sender"),
                (0.5 if n == 32 else 0, "addr")]
        if d > 0:
            opts += [(2, "rpad"), (2, "lpad"), (2, "cast"), (1 if n <= 256 else 0, "convert"), (1.5, "tobytes"), (0.7, "unchecked"), (0.7, "ensure")]
            if not pure:
                fs = [f for f in self.callable(fr) if len(f.rets) == 1 and f.rets[0].is_bytes and f.rets[0].size == n]
                opts.append((self.cfg.ucall * 2 if fs else 0, "ucall"))
        k = ch.weighted(opts)
        if k == "lit":
            if n > 64:
                k = "bzero"
            else:
                return self.blit(n)
        if k == "var":
            return self.var_e(ch.choice(vs))
        if k == "fref":
            return self.fref(ch.choice(frs))
        if k == "bzero":
            return B(Std("bzero", [Lit(n)], ty), n, n)
        if k == "sender":
            return B(Field("Txn", "Sender"), 32, 32)
        if k == "addr":
            return B(Std("Cast", [Field("Global", ch.choice(["CreatorAddress", "ZeroAddress"]))], ty, ty), 32, 32)
        if k in ("rpad", "lpad"):
            b = self.known(self.bytes_e(fr, d - 1, n, pure))
            return B(Std("Rpad" if k == "rpad" else "Lpad", [b], ty, Lit(n)), n, n)
        if k in ("cast", "ensure", "unchecked"):
            nm = {"cast": "Cast", "ensure": "EnsureType", "unchecked": "UncheckedCast" if self.cfg.anys else "Cast"}[k]
            e = self.exact_bytes(fr, d - 1, n, pure)
            return B(Std(nm, [e], ty, ty), n, n)
        if k == "convert":
            hi = U64 if n >= 8 else (1 << 8 * n) - 1
            return B(Std("Convert", [self.known(self.int_e(fr, d - 1, hi, pure))], ty, ty), n, n)
        if k == "tobytes":
            hi = U64 if n >= 8 else (1 << 8 * n) - 1
            return B(Std("ToBytes", [self.known(self.int_e(fr, d - 1, hi, pure))], ty, Lit(n)), n, n)
        if k == "ucall":
            return self.ucall(fr, ch.choice(fs), d)
        raise AssertionError(k)

    def exact_bytes(self, fr, d, n, pure):
        """unsized static type but exactly n bytes"""
        ch = self.ch
        q = ch.choice(["concat", "extract3", "substring3"])
        if q == "concat" and n > 1:
            m = ch.int(1, n - 1)
            return B(Call("concat", [], [self.sized_e(fr, 0, m, pure), self.sized_e(fr, 0, n - m, pure)]), n, n)
        s = ch.int(0, 3)
        b = self.sized_e(fr, d - 1, n + s, pure)
        if q == "extract3":
            return B(Call("extract3", [], [b, Lit(s), Lit(n)]), n, n)
        return B(Call("substring3", [], [b, Lit(s), Lit(s + n)]), n, n)

    def typed(self, fr, d, ty, hi=U64, mx=300, pure=False):
        """an expression assignable to ty"""
        ch = self.ch
        if ty.is_int:
            if ty.size == 8:
                return self.int_e(fr, d, hi, pure)
            return self.uint8_e(fr, d, pure)
        if ty.size:
            if ty.kind == "struct" and ch.bool(0.5):
                vs = [v for v in fr.vars if v.ty is ty and getattr(v, "readable", True)]
                if vs and ch.bool(0.6):
                    return self.var_e(ch.choice(vs))
                return B(Std("Cast", [self.exact_bytes(fr, d - 1, ty.size, pure)], ty, ty), ty.size, ty.size)
            return self.sized_e(fr, d, ty.size, pure)
        return self.bytes_e(fr, d, mx, pure)

    def uint8_e(self, fr, d, pure=False):
        ch = self.ch
        vs = self.vars_of(fr, lambda v: v.ty.is_int and v.ty.size == 1)
        frs = self.field_refs(fr, lambda t: t.is_int and t.size == 1)
        if pure:
            frs = [x for x in frs if x[0].ty.kind == "struct"]
        opts = [(3, "lit"), (5 if vs else 0, "var"), (3 * self.cfg.frefs if frs else 0, "fref")]
        if d > 0:
            opts += [(3, "cast"), (1, "conv")]
            if not pure:
                fs = [f for f in self.callable(fr) if len(f.rets) == 1 and f.rets[0].is_int and f.rets[0].size == 1]
                opts.append((2 if fs else 0, "ucall"))
        k = ch.weighted(opts)
        if k == "lit":
            v = ch.choice([0, 1, 7, 42, 127, 128, 254, 255])
            return I(Lit(v), v, v)
        if k == "var":
            return self.var_e(ch.choice(vs))
        if k == "fref":
            return self.fref(ch.choice(frs))
        if k == "cast":
            return I(Std("Cast", [self.int_e(fr, d - 1, 255, pure)], UINT8, UINT8), 0, 255)
        if k == "conv":
            return I(Std("Convert", [self.known(self.bytes_e(fr, d - 1, 1, pure))], UINT8, UINT8), 0, 255)
        return self.ucall(fr, ch.choice(fs), d)

    # ---- calls
    def callable(self, fr):
        out, seen = [], set()
        s = fr.sc
        while s:
            for n, f in s.funcs.items():
                if n not in seen and f.ready and (not fr.in_group or not f.has_group) and \
                        (not getattr(fr, "no_itxn", False) or not f.has_itxn):
                    out.append(f)
                seen.add(n)
            s = s.parent
        return [f for f in out if f is not fr.func and (fr.in_loop_depth if hasattr(fr, "in_loop_depth") else 0) < 9]

    def ucall(self, fr, f, d):
        args = [self.typed(fr, min(d - 1, 2), p.ty, p.hi if p.ty.is_int else U64, p.ln[1] if p.ln else 300) for p in f.params]
        wide = [i for i, p in enumerate(f.params) if p.ty.is_int and p.ty.size == 8 and p.hi >= 1 << 16]
        two = self.hazard(fr) if len(wide) > 1 and d > 0 else None
        for i, e in zip(wide, two or ()):
            hi = f.params[i].hi
            args[i] = e if e.hi <= hi else I(Bin("%", e, Lit(hi + 1)), 0, hi)
        e = UCall(f, args)
        f.calls += 1
        self.features.add("call")
        if not f.pure:
            self.effect = True
        if fr.func:
            fr.func.has_itxn |= f.has_itxn
            fr.func.has_group |= f.has_group
        if len(f.rets) == 1:
            if f.rets[0].is_int:
                I(e, 0, f.ret_hi[0])
            else:
                B(e, *f.ret_ln[0])
        return e

    # ---- multi-value sources: (expr, [(ty, hi, ln)])
    def multi_e(self, fr, d):
        ch = self.ch
        fs = [f for f in self.callable(fr) if len(f.rets) >= 2]
        k = ch.weighted([(6 if fs else 0, "func"), (2, "op"), (self.cfg.world, "world")])
        if k == "func":
            f = ch.choice(fs)
            return self.ucall(fr, f, d), list(zip(f.rets, f.ret_hi, f.ret_ln))
        if k == "op":
            op = ch.choice(["addw", "mulw", "divmodw", "expw"])
            if op == "divmodw":
                e = Call(op, [], [self.int_e(fr, d), self.int_e(fr, d), Lit(ch.int(0, 3)), Lit(ch.int(1, 9))])
            elif op == "expw":
                e = Call(op, [], [Lit(ch.int(1, 9)), Lit(ch.int(0, 30))])
            else:
                e = Call(op, [], [self.int_e(fr, d), self.int_e(fr, d)])
            return e, [(INT, U64, None)] * len(e.rets)
        op = ch.choice(["asset_holding_get", "asset_params_get", "acct_params_get", "app_global_get_ex", "box_get", "box_len",
                        "app_params_get"])
        if op == "asset_holding_get":
            fld = ch.choice(["AssetBalance", "AssetFrozen"])
            e = Call(op, [fld], [self.acct(fr, d), self.int_e(fr, d)])
            t = (INT, 100000, None)
        elif op == "asset_params_get":
            fld = ch.choice(["AssetTotal", "AssetDecimals", "AssetName", "AssetUnitName", "AssetManager"])
            e = Call(op, [fld], [self.int_e(fr, d)])
            t = (INT, 100000, None) if avm.FIELD_TYPES[op][fld] == "U" else (BYTES, None, (0, 12))
        elif op == "acct_params_get":
            fld = ch.choice(["AcctBalance", "AcctMinBalance"])
            e = Call(op, [fld], [self.acct(fr, d)])
            t = (INT, 100000, None)
        elif op == "app_params_get":
            fld = ch.choice(["AppCreator", "AppGlobalNumUint", "AppExtraProgramPages"])
            e = Call(op, [fld], [self.int_e(fr, d)])
            t = (INT, 100000, None) if avm.FIELD_TYPES[op][fld] == "U" else (BYTES, None, (0, 32))
        elif op == "app_global_get_ex":
            e = Call(op, [], [self.int_e(fr, d), self.blit()])
            return e, [(INT, 100000, None), None]
        else:
            e = Call(op, [], [self.blit(ch.int(1, 5))])
            t = (BYTES, None, (0, 4096)) if op == "box_get" else (INT, 100000, None)
            return e, [(INT, 1, None), t]
        return e, [(INT, 100000, None), t]

    def acct(self, fr, d):
        return Field("Txn", "Sender") if self.ch.bool() else self.int_e(fr, d, 3)

    # ---- statements
    def many(self, lo, hi, top):
        """lo..hi, and now and then more"""
        if self.ch.bool(self.cfg.wide):
            self.features.add("wide")
            return self.ch.int(hi + 1, top)
        return self.ch.int(lo, hi)

    def stmts(self, fr, lo, hi):
        n = self.ch.int(lo, hi)
        out = []
        if self.ch.bool(self.cfg.marks):
            self.nmark += 1
            out.append(self.observe(fr, BLit(b"m%d" % self.nmark)))
        for _ in range(n):
            if self.budget <= 0:
                break
            out += self.stmt(fr)
        if n and fr.nest > 1:
            out += self.dump(fr)
        return out

    def decl(self, fr, ty=None, e=None, assignable=True):
        v = self.mkvar(fr.sc, ty or self.vartype(), assignable=assignable)
        if e is None:
            e = self.typed(fr, self.cfg.depth, v.ty, v.hi or U64, v.ln[1] if v.ln else 300)
        fr.vars.append(v)
        v.scope = fr.sc
        return v, Decl(v, e)

    def observe(self, fr, e):
        """a statement that makes the value of e visible"""
        self.effect = True
        if e.ty.is_int or (e.ty.kind == "any" and hasattr(e, "hi")):
            e = Call("itob", [], [e])
        return CallS(Call("log", [], [e]))

    def assignables(self, fr):
        return [v for v in fr.vars if v.assignable and v.ty.kind != "box" and self.local(fr, v)]

    def local(self, fr, v):
        """may this code assign v: its own variables, and (now and then) those the function sees from outside"""
        return fr.func is None or getattr(v, "func", None) is fr.func or self.cfg.outer_assign and self.ch.bool(self.cfg.outer_assign)

    def assigned(self, fr, v):
        if v and fr.func is not None and getattr(v, "func", None) is not fr.func:
            self.effect = True
            fr.func.outs = getattr(fr.func, "outs", set()) | {v}
            self.features.add("outer_assign")

    def coin(self, fr):
        """an integer expression that depends on the context (or a variable)"""
        ch = self.ch
        ints = self.vars_of(fr, lambda v: v.ty.is_int and v.hi <= 1 << 32)
        if ints and ch.bool(0.6):
            v = self.var_e(ch.choice(ints))
            if ch.bool(0.4):
                return v
            f = I(Field("Txn", ch.choice(self.INT_TXN)), 0, 100000)
            return I(Bin("+", v, f), 0, v.hi + f.hi)
        return I(Field("Txn", ch.choice(self.INT_TXN)), 0, 100000)

    def fixed_cond(self):
        """a literal or constant, and its value"""
        ch = self.ch
        cs = [c for c in self.consts if c.ty.is_int]
        if cs and ch.bool(0.4):
            c = ch.choice(cs)
            return ConstE(c), c.value
        n = ch.choice([0, 0, 1, 1, 2, 2**64 - 1])
        return Lit(n), n

    def cond(self, fr):
        ch = self.ch
        if ch.bool(0.03):
            e, n = self.fixed_cond()
            return I(e, n, n)
        if ch.bool(self.cfg.balanced):
            n = ch.choice([2, 2, 3])
            e = I(Bin("%", self.coin(fr), I(Lit(n), n, n)), 0, n - 1)
            k = ch.weighted([(3, "plain"), (2, "=="), (2, "<"), (1, "!=")])
            return e if k == "plain" else I(Bin(k, e, I(Lit(1), 1, 1)), 0, 1)
        return self._int_e(fr, max(1, self.cfg.depth - 1), False)

    def stmt(self, fr):
        ch, cfg = self.ch, self.cfg
        self.budget -= 1
        w = cfg.stmts
        deep = fr.nest >= cfg.nest
        opts = [(w["log"], "log"), (w["decl"], "decl"), (w["assign"] if self.assignables(fr) else 0, "assign"),
                (w["multi"], "multi"), (w["call"] if [f for f in self.callable(fr) if not f.rets] else 0, "call"),
                (w["assert_"], "assert_"), (w["gput"], "gput"),
                (0 if deep else w["if_"], "if_"), (0 if deep else w["while_"], "while_"), (0 if deep else w["for_"], "for_"),
                (0 if deep or not fr.allow_for_ or fr.in_for_ or fr.func or fr.in_loop else w["for__"], "for__"),
                (w["exit_"] if fr.nest and not fr.in_group else 0, "exit_"),
                (w["breakx"] if fr.in_while else 0, "breakx"),
                (w["itxn"] if not getattr(fr, "no_itxn", False) else 0, "itxn"),
                (w["group"] if not fr.in_group and not deep and not getattr(fr, "no_itxn", False) else 0, "group"),
                (w["fieldset"] if [v for v in fr.vars if v.ty.kind in ("struct", "box") and (v.ty.kind == "box" or v.assignable and self.local(fr, v))] else 0, "fieldset"),
                (w["box"] if self.structs else 0, "box"), (w["error"] if fr.nest else 0, "error"),
                (w["jump"] if fr.nest and fr.targets and not fr.in_group else 0, "jump"),
                (w["switch"] if fr.nest and fr.targets and not fr.in_group else 0, "switch"),
                (w["router_"] if fr.nest and not fr.func and not fr.in_group and self.public else 0, "router_"),
                (w["push"] if not fr.in_for_ else 0, "push")]
        k = ch.weighted(opts)
        self.features.add(k)
        out = []
        if ch.bool(cfg.comments):
            out.append(Comment(ch.choice([" note", " log(1)", "", " x = 1", "end", " pragma version 7", " define AA 1", ' "', "# x", "  if:",
                                          " /* x", " it's", " a; err", " // err", "  l0_end:", "\\n"])))
        if k == "log":
            e = self.any_e(fr)
            out.append(self.observe(fr, e))
        elif k == "decl":
            if ch.bool(0.15):
                v = self.mkvar(fr.sc, self.vartype())
                v.scope, v.func = fr.sc, fr.func
                out.append(Decl(v))
                out.append(Assign([v], self.typed(fr, cfg.depth, v.ty, v.hi or U64, v.ln[1] if v.ln else 300)))
                fr.vars.append(v)
            else:
                v, s = self.decl(fr)
                v.func = fr.func
                out.append(s)
        elif k == "assign":
            v = ch.choice(self.assignables(fr) or [v for v in fr.vars if v.assignable and v.ty.kind != "box" and fr.func is None] or [None])
            if v is None:
                return out
            self.assigned(fr, v)
            out.append(Assign([v], self.typed(fr, cfg.depth, v.ty, v.hi or U64, v.ln[1] if v.ln else 300)))
        elif k == "multi":
            e, outs = self.multi_e(fr, max(0, cfg.depth - 1))
            tg = []
            for o in outs:
                if o is None or ch.bool(0.2):
                    tg.append(None)
                    continue
                ty, hi, ln = o
                twice = ch.bool(0.15)       # the same name more than once
                cands = [v for v in self.assignables(fr) + (tg if twice else []) if v and can_hold(v.ty, ty) and (v in tg) == twice and
                         (not v.ty.is_int or v.ty.size == 1 or v.hi >= hi) and (v.ty.is_int or ln is None or v.ln[1] >= ln[1])]
                if cands and (twice or ch.bool(0.5)):
                    tg.append(ch.choice(cands))
                    continue
                v = self.mkvar(fr.sc, ty if ty.kind != "any" else INT)
                if ty.is_int and ty.size == 8:
                    v.hi = max(v.hi, hi)
                if ln and not v.ty.size:
                    v.ln = (0, max(v.ln[1], ln[1]))
                v.scope, v.func = fr.sc, fr.func
                out.append(Decl(v))
                tg.append(v)
            out.append(Assign(tg, e))
            for v in tg:
                self.assigned(fr, v)
                if v and v not in fr.vars:
                    fr.vars.append(v)
        elif k == "call":
            f = ch.choice([f for f in self.callable(fr) if not f.rets])
            out.append(CallS(self.ucall(fr, f, cfg.depth)))
        elif k == "assert_":
            e = self._int_e(fr, cfg.depth - 1, False)
            if not self.unsafe() and e.lo == 0:
                one = Bin("||", e, Lit(1)) if ch.bool() else Bin(">=", e, Lit(0))
                e = one
            msg = None
            if cfg.messages and ch.bool(0.4):
                msg = ch.choice(["bad value", "x", "must be > 0", "a, b", "no (parens)", "it's", "semi;colon", "fail", "a // b", "long " * 25 + "message", "x" * ch.int(1, 300), r"a \\ b", r"say \"no\"", r"C:\\"])
            out.append(Assert(e, msg))
        elif k == "gput":
            self.effect = True
            key = BLit(b"i" + bytes([97 + ch.int(0, 2)]))
            out.append(CallS(Call("app_global_put", [], [key, self.int_e(fr, cfg.depth - 1)])) if ch.bool(0.7) else
                       CallS(Call("app_local_put", [], [self.int_e(fr, 0, 3), key, self.int_e(fr, cfg.depth - 1)])))
        elif k == "if_":
            out.append(self.if_stmt(fr))
        elif k == "while_":
            out += self.while_stmt(fr)
        elif k == "for_":
            out += self.for_stmt(fr, True)
        elif k == "for__":
            out += self.for_stmt(fr, False)
        elif k == "exit_":
            self.effect = True
            out.append(self.guarded(fr, Exit(self.int_e(fr, 1))))
        elif k == "breakx":
            out.append(self.guarded(fr, Break()))
        elif k == "error":
            self.effect = True
            out.append(self.guarded(fr, ErrorS()))
        elif k == "jump":
            self.effect = True
            out.append(self.guarded(fr, Jump(ch.choice(fr.targets))))
        elif k == "switch":
            self.effect = True
            out.append(self.guarded(fr, self.switch_stmt(fr)))
        elif k == "itxn":
            out.append(self.itxn_stmt(fr))
        elif k == "group":
            out.append(self.group_stmt(fr))
        elif k == "fieldset":
            vs = [v for v in fr.vars if v.ty.kind in ("struct", "box") and (v.ty.kind == "box" or v.assignable and self.local(fr, v))]
            if not vs:
                return out
            v = ch.choice(vs)
            self.assigned(fr, v)
            f, t = ch.choice(v.ty.struct.fields)
            if v.ty.kind == "box":
                self.effect = True
            # a function that changes the variable itself
            fs = [g for g in self.callable(fr) if len(g.rets) == 1 and v in getattr(g, "outs", ()) and g.rets[0].name == t.name]
            if fs and cfg.hazard and ch.bool(0.6):
                self.features.add("hazard")
                out.append(FieldSet(v, f, self.ucall(fr, ch.choice(fs), 0)))
            else:
                out.append(FieldSet(v, f, self.typed(fr, cfg.depth - 1, t, (1 << 8 * t.size) - 1 if t.is_int else U64)))
        elif k == "box":
            out += self.box_stmt(fr)
        elif k == "router_":
            self.effect = True
            out.append(self.router_stmt(fr))
        elif k == "push":
            out += self.push_stmt(fr)
        else:
            raise AssertionError(k)
        if k in ("log", "assign", "multi", "call", "assert_", "gput", "itxn", "fieldset") and out and ch.bool(cfg.again):
            out.append(out[-1])         # the same statement once more
        if k not in ("log", "exit_", "breakx") and fr.vars and ch.bool(0.35):
            out.append(self.observe_var(fr))
        return out

    def dump(self, fr):
        if not self.ch.bool(self.cfg.dump):
            return []
        return [self.observe(fr, self.var_e(v)) for v in fr.vars[-10:] if v.ty.kind != "box"]

    def observe_var(self, fr):
        v = self.ch.choice([v for v in fr.vars])
        if v.ty.kind == "box":
            return Comment(" box")
        return self.observe(fr, self.var_e(v))

    def any_e(self, fr):
        if self.ch.bool(0.6):
            return self._int_e(fr, self.cfg.depth, False)
        return self.bytes_e(fr, self.cfg.depth)

    def router_stmt(self, fr):
        return self.guarded(fr, self.router(fr, self.public, ()))

    def guarded(self, fr, s):
        """sometimes behind a condition"""
        ch = self.ch
        if fr.nest > 1 and ch.bool(0.3):
            return s
        n = ch.weighted([(6, 1), (3, 2), (1, 3)])
        at = ch.int(0, n)               # n: in the else
        arms, els = [], None
        for i in range(max(n, 1)):
            arms.append((self.cond(fr), ch.bool(), [s] if i == at else self.filler(fr)))
        if at == n:
            els = [s]
        elif ch.bool(0.2):
            els = self.filler(fr)
        return If(arms, els)

    def filler(self, fr):
        """a short branch without further statements nested in it"""
        if self.budget > 0 and self.ch.bool(0.5):
            f2 = fr.sub()
            f2.nest = self.cfg.nest
            f2.targets = ()
            f2.in_while = False
            return self.nz(self.stmts(f2, 0, 1))
        return self.nz([])

    def if_stmt(self, fr):
        ch = self.ch
        if ch.bool(self.cfg.wide):
            n = ch.int(5, 14)
            c = self.coin(fr)
            arms = []
            for i in ch.shuffle(range(n)):
                e = I(Bin("%", c, I(Lit(n), n, n)), 0, n - 1)
                f2 = fr.sub()
                f2.nest = self.cfg.nest
                arms.append((Bin("==", e, Lit(i)), False, [self.observe(f2, BLit(b"arm%d" % i))] + self.stmts(f2, 0, 1)))
            self.features.add("wide")
            k = ch.int(0, 2)
            return If(arms[k:], [self.observe(fr.sub(), BLit(b"else"))] if k or ch.bool() else None)
        arms = []
        for _ in range(1 + ch.weighted([(5, 0), (3, 1), (1, 2), (0.5, 3)])):
            c = self.cond(fr)
            f2 = fr.sub()
            arms.append((c, ch.bool(0.25), self.nz(self.stmts(f2, *self.cfg.body))))
        els = None
        if ch.bool(0.5):
            els = self.nz(self.stmts(fr.sub(), *self.cfg.body))
        return If(arms, els)

    def nz(self, body):
        return body or [Comment(" nothing")]

    def while_stmt(self, fr):
        ch = self.ch
        v, d = self.decl(fr, INT, I(Lit(0), 0, 0), assignable=False)
        v.func, v.hi = fr.func, 1000
        n = self.many(0, 4, 12)
        sc = Scope(fr.sc, "loop")
        f2 = fr.sub(sc, in_while=True, in_loop=True, allow_for_=False)
        style = ch.choice(["lt", "notge", "ne", "and", "lt", "notge", "ne", "and", "fixed"])
        ve = self.var_e(v)
        if style == "lt":
            cond, neg = Bin("<", ve, Lit(n)), False
        elif style == "notge":
            cond, neg = Bin(">=", ve, Lit(n)), True
        elif style == "ne":
            cond, neg = Bin("!=", ve, Lit(n)), False
        else:
            cond, neg = Bin("&&", Bin("<", ve, Lit(n)), self._int_e(fr, 1, False)), False
        inc = Assign([v], Bin("+", self.var_e(v), Lit(1)))
        if style == "fixed":
            # never, or until a break
            cond, value = self.fixed_cond()
            neg = ch.bool()
            if bool(value) != neg:
                leave = Break() if ch.bool(0.3) else If([(Bin(">=", self.var_e(v), Lit(n)), False, [Break()])])
                at = ch.choice(["first", "last", "last"])
                body = [inc] + ([leave] if at == "first" else []) + self.stmts(f2, *self.cfg.body) + ([leave] if at == "last" else [])
                return [d, While(cond, neg, body)]
        if ch.bool():
            body = [inc] + self.stmts(f2, *self.cfg.body)
        else:
            body = self.stmts(f2, *self.cfg.body) + [inc]
        return [d, While(cond, neg, body)]

    def for_stmt(self, fr, named):
        ch = self.ch
        out = []
        lo = ch.int(0, 3)
        n = ch.int(0, 4)
        # the loop ends where its variable equals the end, wherever it comes from
        odd = named and ch.bool(0.12)
        if odd:
            lo, n = lo + ch.int(0, 4), ch.int(-3, 6)
            n = max(n, 1 - lo)

        def bound(x):
            k = ch.weighted([(4, "lit"), (2, "var"), (1, "const")])
            if k == "var":
                v, d = self.decl(fr, INT, I(Lit(x), x, x), assignable=False)
                v.func, v.hi = fr.func, x
                out.append(d)
                return self.var_e(v)
            if k == "const":
                cs = [c for c in self.consts if c.ty.is_int and c.value == x]
                if cs:
                    return ConstE(ch.choice(cs))
            return Lit(x)
        a, b = bound(lo), bound(lo + n)
        sc = Scope(fr.sc, "loop")
        f2 = fr.sub(sc, in_loop=True, in_while=fr.in_while and named, allow_for_=False, in_for_=fr.in_for_ or not named)
        var = None
        if named:
            var = self.mkvar(sc, INT, assignable=False)
            var.func, var.hi = fr.func, lo + max(n, 0) + 4
            f2.vars.append(var)
        body = self.nz(self.stmts(f2, *self.cfg.body))
        if odd:
            # at some value the variable is set to the one before the end; a loop that starts above its end needs that
            self.features.add("odd for")
            k = lo + (ch.int(0, 3) if n < 0 else ch.int(0, max(n - 1, 0)))
            leave = [Assign([var], Lit(lo + n - 1))]
            if ch.bool(0.3):
                leave.append(self.observe(f2, self.var_e(var)))
            body.append(If([(Bin("==", self.var_e(var), Lit(k)), False, leave)], None))
        return out + [For(var, a, b, body)]

    def switch_stmt(self, fr):
        ch = self.ch
        if ch.bool(2 * self.cfg.balanced):
            n = self.many(2, 4, 14)
            e = I(Bin("%", self.coin(fr), I(Lit(n), n, n)), 0, n - 1)
            vals = ch.shuffle(range(n))[ch.weighted([(3, 0), (1, 1)]):]
            els = ch.choice(fr.targets) if len(vals) < n and ch.bool(0.9) or ch.bool(0.5) else None
            return Switch(e, [(Lit(v), ch.choice(fr.targets)) for v in vals], els, self.else_at(vals))
        isint = ch.bool(0.6)
        e = self._int_e(fr, 1, True) if isint else self.bytes_e(fr, 1, pure=True)
        opts = []
        for _ in range(self.many(1, 3, 12)):
            v = (self._int_e(fr, 1, True) if ch.bool(0.3) else self.lit()) if isint else (self.bytes_e(fr, 1, pure=True) if ch.bool(0.3) else self.blit())
            opts.append((v, ch.choice(fr.targets)))
        els = ch.choice(fr.targets) if ch.bool(0.8) else None
        return Switch(e, opts, els, self.else_at(opts))

    def else_at(self, opts):
        """the else of a switch can stand anywhere"""
        return self.ch.int(0, len(opts)) if self.ch.bool(0.3) else None

    ITXN_INT = ["Fee", "Amount", "AssetAmount", "XferAsset", "ConfigAssetTotal", "FreezeAsset", "ApplicationID", "VoteFirst"]
    ITXN_B = ["Note", "Receiver", "AssetReceiver", "Sender", "ConfigAssetName", "CloseRemainderTo", "RekeyTo"]
    ITXN_ARR_B = ["ApplicationArgs", "Accounts"]
    ITXN_ARR_I = ["Assets", "Applications"]

    def itxn_stmt(self, fr):
        ch = self.ch
        self.effect = True
        if fr.func:
            fr.func.has_itxn = True
        fields = []
        saved = getattr(fr, "no_itxn", False)
        fr.no_itxn = True
        d = self.cfg.depth - 1
        if ch.bool(0.3):
            d += 1
        for _ in range(ch.int(0, 3)):
            if ch.bool():
                fields.append((ch.choice(self.ITXN_INT), None, self.int_e(fr, d)))
            else:
                fields.append((ch.choice(self.ITXN_B), None, self.bytes_e(fr, d)))
        if ch.bool(0.4):
            used = {}
            m = self.many(1, 4, 16)
            one = ch.choice(self.ITXN_ARR_B + self.ITXN_ARR_I) if m > 4 and ch.bool(0.7) else None
            if one:
                d = 0
            for _ in range(m):
                n = one or ch.choice(self.ITXN_ARR_B if ch.bool() else self.ITXN_ARR_I)
                isb = n in self.ITXN_ARR_B
                i = used.get(n, 0)
                used[n] = i + 1
                # anywhere, but after the one of the previous index
                last = max([k for k, f in enumerate(fields) if f[0] == n], default=-1)
                at = ch.int(last + 1, len(fields)) if ch.bool() else len(fields)
                fields.insert(at, (n, i, self.bytes_e(fr, d) if isb else self.int_e(fr, d)))
        kind = ("TypeEnum", None, EnumE(ch.choice(["Pay", "Axfer", "Appl", "Acfg"])))
        if ch.bool(0.96):
            fields.insert(0 if ch.bool(0.7) else ch.int(0, len(fields)), kind)
        elif ch.bool():
            fields = []
        fr.no_itxn = saved
        return InnerTxn(fields)

    def group_stmt(self, fr):
        ch = self.ch
        self.effect = True
        self.uses_group = True
        if fr.func:
            fr.func.has_itxn = True
            fr.func.has_group = True
        f2 = fr.sub(in_group=True, in_while=False, targets=())
        body = [self.itxn_stmt(f2)] if ch.bool(0.8) else []
        if ch.bool(self.cfg.wide):
            body += [InnerTxn([("TypeEnum", None, EnumE("Pay")), ("Amount", None, self.int_e(f2, 0))]) for _ in range(ch.int(2, 14))]
        body += self.stmts(f2, 1, 3)
        if not any(isinstance(s, InnerTxn) for s in body):
            body.append(self.itxn_stmt(f2))
        return InnerGroup(body)

    def box_stmt(self, fr):
        ch = self.ch
        self.effect = True
        st = ch.choice(self.structs)
        method = ch.weighted([(3, "Create"), (3, "Open"), (2, "")])
        known = [k for k in self.boxkeys if k[1] is st and (k[0] in self.pre or not fr.func)]
        once = not (fr.in_loop or fr.func or fr.nest)
        if self.unsafe():
            key = self.blit(ch.int(1, 2)) if ch.bool() else self.bytes_e(fr, 1, 60)
        elif method == "Create" and not once:
            # a new key every time
            self.nfn += 1
            key = B(Call("concat", [], [B(BLit(b"k%d" % self.nfn), 2, 4), Call("itob", [], [self._int_e(fr, 0, True)])]), 10, 12)
        else:
            if method != "Create" and known and ch.bool(0.6):
                nm = ch.choice(known)[0]
            else:
                self.nfn += 1
                nm = b"q%d" % self.nfn
                if method == "Create":
                    self.created[nm] = st
                else:
                    self.pre[nm] = st
                # keys made in the main program exist for whatever comes after
                if once or method != "Create":
                    self.boxkeys.append((nm, st))
            key = BLit(nm)
            if ch.bool(0.25):
                key = B(Call("concat", [], [BLit(nm[:1]), BLit(nm[1:])]), len(nm), len(nm))
        v = Var(self.name(fr.sc), st.boxty)
        v.hi, v.ln, v.scope, v.func = None, (1, 64), fr.sc, fr.func
        fr.vars.append(v)
        return [BoxD(v, method, key)]

    RAWB = ['"a // b"', '"x; y"', '"# no"', '"q\\"q"', '"sp  ace"', "0x00ff", "0xAbCd", '"\\x41\\n"', '"end"', "b64 aGk=",
            "base64(aGVsbG8=)", '"}{"', '"//"', '"é"']

    def raw_push(self, st):
        ch = self.ch
        self.nraw += 1
        if ch.bool(0.6):
            st.append("I")
            return ["%s %d%s" % (ch.choice(["pushint", "int"]), ch.int(0, 99) + 100 * self.nraw, ch.choice(["", "", " // five", "  //x"]))]
        st.append("B")
        return ["%s %s%s" % (ch.choice(["byte", "byte", "pushbytes"]), ch.choice(self.RAWB), ch.choice(["", "", " // c"]))]

    def raw_op(self, st):
        """raw lines and their effect on the (static) stack; None if there is no room"""
        ch = self.ch
        self.nraw += 1
        top2, top = st[-2:], st[-1:]
        opts = [("push", None)]
        if top:
            opts += [("dup", None), ("log", None)]
        if len(st) >= 2:
            opts += [("swap", None), ("dig 1", None)]
        if len(st) >= 3:
            opts += [("uncover 2", None), ("cover 2", None), ("dig 2", None)]
        if top == ["I"]:
            opts += [("itob", None), ("bz", None), ("!", None)]
        if top == ["B"]:
            opts += [("len", None), ("sha256", None)]
        if top2 == ["I", "I"]:
            opts += [("%s", o) for o in ("|", "^", "==", "<", "&&")] + [("; ", None)]
        if top2 == ["B", "B"]:
            opts += [("concat", None), ("b|", None)]
        k, o = ch.choice(opts)
        if k == "push":
            return self.raw_push(st)
        if k == "dup":
            st.append(st[-1])
        elif k == "swap":
            st[-1], st[-2] = st[-2], st[-1]
        elif k == "dig 1":
            st.append(st[-2])
        elif k == "uncover 2":
            st.append(st.pop(-3))
        elif k == "cover 2":
            v = st.pop()
            st.insert(len(st) - 2, v)
        elif k == "dig 2":
            st.append(st[-3])
        elif k == "itob":
            st[-1] = "B"
        elif k == "len":
            st[-1] = "I"
        elif k == "log":
            self.effect = True
            return ["dup", "log"] if st[-1] == "B" else ["dup", "itob; log"]
        elif k == "bz":
            n = self.nraw
            return ["dup", f"bz raw_{n}", f"byte \"r{n}\"; log", f"raw_{n}:"] if ch.bool() else ["dup", f"bnz raw_{n} // skip", "pushint 7", "|", f"raw_{n}:"]
        elif k == "%s":
            st.pop()
            return [o + ch.choice(["", " // op"])]
        elif k == "; ":
            st.pop()
            return ["swap; |"]
        elif k in ("concat", "b|"):
            st.pop()
        return [k]

    def push_stmt(self, fr):
        """values put on the stack by push or raw TEAL, transformed, and taken off again"""
        ch, d = self.ch, self.cfg.depth - 1
        out, st = [], []
        for _ in range(ch.int(1, 2)):
            if ch.bool(0.3):
                raw = []
                for _ in range(ch.int(1, 2)):
                    raw += self.raw_push(st)
                out.append(TealB(raw))
            else:
                es = self.hazard(fr) or []
                st += ["I"] * len(es)
                for _ in range(ch.weighted([(4, 1), (3, 2), (1, 3), (1, 4)]) if not es else ch.int(0, 1)):
                    if ch.bool(0.7):
                        es.append(self.int_e(fr, d))
                        st.append("I")
                    else:
                        es.append(self.bytes_e(fr, d, mx=60))
                        st.append("B")
                out.append(Push(es))
        if ch.bool(0.6):
            raw = []
            for _ in range(ch.int(1, 4)):
                raw += self.raw_op(st)
                if ch.bool(0.15):
                    raw.append(ch.choice(["# a comment", "// a comment", "# pushint 99", "// err", "#"]))
            out.append(TealB(raw))
        # nothing may leave the values behind or cover them
        sv = fr.allow_for_, fr.in_while, fr.targets
        fr.allow_for_, fr.in_while, fr.targets = False, False, ()
        if ch.bool(0.25):
            out += self.stmts(fr, 1, 2)
        while st:
            if len(st) > 1 and ch.bool(0.1):
                out.append(TealB(["pop"]))
                st.pop()
                continue
            t = st.pop()
            out += self.pop_use(fr, t, d)
        fr.allow_for_, fr.in_while, fr.targets = sv
        return out

    def pop_use(self, fr, t, d):
        ch = self.ch
        if t == "I":
            k = ch.weighted([(4, "decl"), (2, "log"), (1, "expr"), (1, "gput"), (1, "assert"), (1, "if"), (1, "assign"), (1, "call")])
            e = I(PopE(), 0, U64)
            if k == "log":
                return [self.observe(fr, e)]
            if k == "expr":
                return [self.observe(fr, I(Bin(ch.choice(["|", "==", "<", "^"]), e, self.int_e(fr, 1)), 0, U64))]
            if k == "gput":
                return [Push([e]), self.observe(fr, e)]
            if k == "assert":
                return [Assert(Bin(">=", e, Lit(0)))]
            if k == "if" and fr.nest < self.cfg.nest:
                return [If([(e, ch.bool(0.3), self.nz(self.stmts(fr.sub(), 1, 1)))], self.nz(self.stmts(fr.sub(), 1, 1)) if ch.bool() else None)]
            vs = [v for v in self.assignables(fr) if v.ty.is_int and v.ty.size == 8 and v.hi == U64]
            if k == "assign" and vs:
                v = ch.choice(vs)
                self.assigned(fr, v)
                return [Assign([v], e)]
            v = self.mkvar(fr.sc, ch.choice([INT, INT, UINT64]))
            v.hi = U64
        else:
            k = ch.weighted([(4, "decl"), (2, "log"), (1, "expr"), (1, "discard")])
            e = B(PopE(), 0, 200)
            if k == "log":
                return [self.observe(fr, e)]
            if k == "expr":
                return [self.observe(fr, Call("concat", [], [e, self.bytes_e(fr, 1, mx=60)]))]
            if k == "discard":
                return [Assign([None], e)]
            v = self.mkvar(fr.sc, ch.choice([BYTES, BYTES, BIGINT]))
            v.ln = (0, 200)
        v.scope, v.func = fr.sc, fr.func
        fr.vars.append(v)
        return [Decl(v, e), self.observe(fr, self.var_e(v))]

    # ---- functions
    def new_func(self, sc, name=None):
        ch, cfg = self.ch, self.cfg
        if name is None:
            taken = set()
            s = sc
            while s:
                taken |= set(s.funcs)
                s = s.parent
            if ch.bool(cfg.shadow) and sc.parent and sc.parent.funcs:
                cand = [n for n in sorted(set(sc.parent.funcs)) if n not in sc.funcs]
                name = ch.choice(cand) if cand else None
            if name is None:
                base = ch.choice(["f", "g", "helper", "sum", "do_it", "calc", "fn"] + (["returnall", "ender", "breaker", "ifs", "exits", "b", "elsewhere"] if ch.bool(cfg.strange_names) else []))
                name, i = base, 0
                allf = self.all_func_names()
                while name in taken or name in allf and not ch.bool(0.3) or name in RESERVED or name in avm.OPS:
                    i += 1
                    name = f"{base}{i}"
        f = Func(name, [], [])
        f.ready, f.has_group = False, False
        sc.funcs[name] = f
        return f

    def all_func_names(self):
        t = set()

        def rec(s):
            t.update(s.funcs)
            for c in s.children:
                rec(c)
        rec(self.root)
        return t

    def fill_func(self, f, sc, outer_vars, targets, types=None):
        ch, cfg = self.ch, self.cfg
        fs = Scope(sc, "func")
        for _ in range(self.many(*cfg.params, cfg.params[1] + 6) if cfg.params[1] else 0):
            v = self.mkvar(fs, self.vartype(), arg=True)
            v.func, v.scope = f, fs
            f.params.append(v)
        f.rets = [self.vartype() for _ in range(self.many(*cfg.rets, cfg.rets[1] + 5) if cfg.rets[1] else 0)]
        f.ret_hi = [255 if t.is_int and t.size == 1 else ch.choice([1 << 16, 1 << 20, U64]) for t in f.rets]
        f.ret_ln = [(t.size, t.size) if t.size else (0, 64) for t in f.rets]
        f.has_group = False
        f.has_itxn = False
        saved, self.effect = self.effect, False
        fr = Frame(fs, list(outer_vars) + f.params, f, nest=1, targets=targets, allow_for_=False)
        body = []
        if f.params and ch.bool(0.5):
            body.append(self.observe_var(fr))
        body += self.stmts(fr, *cfg.body)
        if ch.bool(0.3):
            body.append(If([(self.cond(fr), ch.bool(0.2), [self.ret_stmt(fr, f)])], None))
            self.features.add("early_return")
        if ch.bool(0.3):
            body += self.stmts(fr, 0, 2)
        body += self.dump(fr)
        body.append(self.ret_stmt(fr, f))
        f.body = body
        f.pure = not self.effect
        self.effect = saved or self.effect
        f.ready = True
        return f

    def ret_stmt(self, fr, f):
        return Return([self.typed(fr, self.cfg.depth - 1, t, h, l[1]) for t, h, l in zip(f.rets, f.ret_hi, f.ret_ln)])

    # ---- blocks
    def block_names(self, sc, n):
        ch = self.ch
        out = []
        for _ in range(n):
            taken = set()
            s = sc
            while s:
                taken |= set(s.blocks)
                s = s.parent
            nm = None
            if ch.bool(self.cfg.shadow) and sc.parent and sc.parent.blocks:
                cand = [x for x in sorted(sc.parent.blocks) if x not in sc.blocks]
                nm = ch.choice(cand) if cand else None
            if nm is None:
                base = ch.choice(["main", "setup", "fail", "done", "loop", "stage", "b", "Blk", "0x"][: 9 if ch.bool(0.3) else 6])
                if base == "0x":
                    base = "X_9"
                nm, i = base, 0
                while nm in taken:
                    i += 1
                    nm = f"{base}{i}"
            b = Block(nm)
            sc.blocks[nm] = b
            out.append(b)
        return out

    def fill_block(self, b, sc, outer_vars, targets, depth):
        """targets: blocks this block may jump to (forward)"""
        ch, cfg = self.ch, self.cfg
        bs = Scope(sc, "block")
        fr = Frame(bs, outer_vars, None, nest=1, targets=list(targets))
        body = []
        if self.hops:
            body += self.hop_guard()
        own = self.new_func(bs) if ch.bool(0.4) else None
        for _ in range(ch.int(0, 2)):
            v, s = self.decl(fr)
            v.func = None
            body.append(s)
        kids = self.block_names(bs, ch.int(0, 1) if depth < cfg.block_depth else 0)
        vis = self.visible_targets(list(targets), kids)
        funcs = []
        if own:
            self.fill_func(own, bs, fr.vars, ())
            funcs.append(own)
        for i, k in enumerate(kids):
            self.fill_block(k, bs, fr.vars, self.visible_targets(vis, kids[i + 1:], kids[:i + 1]), depth + 1)
        if self.hops and ch.bool(0.5) and b.name not in [k.name for k in kids]:
            vis = vis + [b]
        fr.targets = vis
        body += self.stmts(fr, *cfg.body) + self.dump(fr)
        body.append(self.exit_stmt(fr))
        b.body = body
        b.after = ch.shuffle(funcs + kids)

    def visible_targets(self, outer, add, hide=()):
        names = {x.name for x in add} | {x.name for x in hide}
        return [o for o in outer if o.name not in names] + list(add)

    def hop_guard(self):
        h = self.hops
        return [Assign([h], Bin("+", self.var_e(h), Lit(1))),
                If([(Bin(">", self.var_e(h), Lit(4)), False, [Exit(Lit(self.ch.int(0, 9)))])], None)]

    def exit_stmt(self, fr):
        ch = self.ch
        k = ch.weighted([(1.5 if fr.targets else 3, "exit"), (4 if fr.targets else 0, "jump"), (3 if fr.targets else 0, "switch")])
        self.features.add("end_" + k)
        if k == "exit":
            return Exit(self.int_e(fr, 2))
        if k == "jump":
            return Jump(ch.choice(fr.targets))
        return self.switch_stmt(fr)

    # ---- program
    def struct(self, i):
        ch = self.ch
        n = self.many(1, 5, 20)
        fields, names = [], set()
        for _ in range(n):
            nm = ch.choice(["id", "price", "name", "owner", "round", "end_x", "b", "aa", "flag", "z9", "end"] if ch.bool(0.2) else
                           ["id", "price", "name", "owner", "round", "aa", "flag"])
            while nm in names:
                nm += "_x"
            names.add(nm)
            k = ch.weighted([(4, "int"), (2, "uint8"), (4, "bytes"), (1, "uint64"), (0.7, "array"), (1 if self.structs else 0, "struct")])
            if k == "struct":
                t = ch.choice(self.structs).ty
            elif k == "bytes":
                t = bytes_ty(ch.choice([1, 2, 10, 32, 33]) if not self.cfg.big_struct or ch.bool(0.6) else ch.choice([100, 200, 254, 255, 256, 300, 500]))
            else:
                t = {"int": INT, "uint8": UINT8, "uint64": UINT64, "array": array_ty(self.sized())}[k]
            fields.append((nm, t))
        return Struct(["Item", "Order", "Pool", "Account"][i % 4] + (str(i // 4) if i >= 4 else ""), fields)

    def const(self, i):
        ch = self.ch
        nm = ch.choice(["FOO", "BAR", "MAX_N", "K1", "ZZ"]) + (f"_{i}" if i else "")
        if ch.bool(0.6):
            v = ch.choice([0, 1, 2, 3, 5, 10, 255, 256, 1000, 1 << 32, U64])
            c = ConstD(nm, INT, v, str(v))
        elif ch.bool():
            e = self.blit()
            c = ConstD(nm, BYTES, e.v, e.text)
        else:
            b = ch.bytes(1, 6)
            c = ConstD(nm, BYTES, b, "0x" + (b.hex() if ch.bool() else b.hex().upper()))
        return c

    def program(self):
        ch, cfg, p = self.ch, self.cfg, self.prog
        if cfg.pragma and ch.bool(0.8):
            p.pragma = ch.choice([8, 8, 9, 10])
        for i in range(ch.int(*cfg.structs)):
            self.structs.append(self.struct(i))
        p.structs = self.structs
        for i in range(ch.int(*cfg.consts)):
            c = self.const(i)
            if c.name not in [x.name for x in self.consts]:
                self.consts.append(c)
                p.body.append(c)
        fr = Frame(self.root)
        self.hops = None
        nb = self.many(*cfg.blocks, cfg.blocks[1] + 10) if cfg.blocks[1] else 0
        if nb and ch.bool(cfg.backjump):
            self.hops, s = self.decl(fr, INT, I(Lit(0), 0, 0), assignable=False)
            self.hops.hi = 100
            p.body.append(s)
        for _ in range(ch.int(*cfg.prelude)):
            v, s = self.decl(fr)
            v.func = None
            p.body.append(s)
        prelude = list(fr.vars)
        # the later declared functions may call the earlier ones
        blocks = self.block_names(self.root, nb)
        funcs = []
        for _ in range(self.many(*cfg.funcs, cfg.funcs[1] + 10) if cfg.funcs[1] else 0):
            f = self.new_func(self.root)
            self.fill_func(f, self.root, prelude, ())
            funcs.append(f)
            if cfg.router and ch.bool(0.85):
                self.make_public(f)
        self.public = [f for f in funcs if f.public]
        for i in range(len(blocks)):
            tg = blocks[i + 1:] + (blocks[:i] if self.hops and ch.bool(0.5) else [])
            self.fill_block(blocks[i], self.root, prelude, tg, 1)
        self.budget += cfg.budget // 2
        fr.targets = blocks
        p.body += self.stmts(fr, *cfg.main) + self.dump(fr)
        if ch.bool(cfg.router):
            p.body.append(self.router(fr, funcs, prelude))
        else:
            p.body.append(self.exit_stmt(fr))
        p.after = ch.shuffle(blocks + funcs)
        return p

    OCS = ["OptIn", "CloseOut", "ClearState", "UpdateApplication", "DeleteApplication", "CreateApplication", "NoOp"]

    def make_public(self, f):
        ch = self.ch
        f.public = True
        f.oc = ch.choice(self.OCS) if ch.bool(0.5) else None
        ps = f"OnCompletion={f.oc}" if f.oc else ""
        if ch.bool(0.15):
            ps = ps.replace("=", ch.choice([" = ", "= ", " ="]))
        f.decos = [f"@public({ps})"]
        if ch.bool(0.15):
            f.decos.insert(ch.int(0, 1), ch.choice(["@view()", "@note(x=1)", "@abi(OnCompletion=OptIn)"]))

    def router(self, fr, funcs, prelude):
        ch = self.ch
        vis = {f.name for f in self.callable(fr)}
        pub = [f for f in funcs if f.public and f.name in vis]
        if not pub or not ch.bool(0.97):
            return self.exit_stmt(fr)
        self.features.add("router")
        rs = ch.shuffle(pub)
        if len(rs) > 1 and ch.bool(0.3):
            rs = rs[:-1]
        return Router(rs)


RESERVED = {"end", "if", "elif", "else", "while", "for", "func", "block", "switch", "jump", "return", "break",
            "teal", "struct", "router", "inner_group", "inner_txn", "const", "exit", "assert", "not", "in", "int",
            "bytes", "uint8", "addr", "bigint", "uint64", "_"} | set(avm.OPS) - {"b", "err", "load", "store"} | {"push", "pop", "bzero"}


def program(ch, cfg):
    g = Gen(ch, cfg)
    return g.program(), g
