"""C08: differential testing of standard library calls on boundary values."""
import base64
from vlib import avm, diff, ref
from vlib.avm import U64
from vlib.ref import *
PROPERTY = "C08"
QUICK, THOROUGH = 7000, 250000
RULE = "Case = nested standard library calls over application arguments, logged directly and through a variable of the result " \
       "type, and 8 vectors of boundary values (numbers around 2^8k, byte strings around every size in the program). Status, " \
       "exit value and logs are compared with the documented contracts. Non-trivial: at least one run completes."

SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 1000]
STRUCTS = [Struct("Pair", [("a", INT), ("b", INT)]), Struct("Mix", [("f", UINT8), ("owner", ADDR), ("z", bytes_ty(3))]),
           Struct("Tiny", [("x", UINT8)])]


class MStd(Std):
    """a standard library call with several results"""

    def __init__(self, name, arg, tys):
        super().__init__(name, [arg], ANY)
        self.tys = self.rets = tys

    def src(self):
        return f"{self.name}({self.args[0].src()}, {', '.join(t.name for t in self.tys)})"

    def ev_all(self, rt):
        vals = self.args[0].ev_all(rt)
        for v, t in zip(vals, self.tys):
            if self.name == "EnsureType":
                if t.is_int != isinstance(v, int) or t.is_int and v.bit_length() > 8 * t.size or \
                        t.is_bytes and t.size and len(v) != t.size:
                    raise AvmFail("EnsureType")
        return vals


class Gen:
    def __init__(self, ch):
        self.ch = ch
        self.sizes = set()
        self.p = ref.Program()
        self.names = set()

    def size(self):
        n = self.ch.choice(SIZES[:9]) if self.ch.bool(0.5) else self.ch.choice(SIZES)
        self.sizes.add(n)
        return n

    def sized(self):
        ch = self.ch
        k = ch.weighted([(5, "bytes"), (1, "addr"), (1, "array"), (1.5, "struct")])
        if k == "bytes":
            return bytes_ty(self.size())
        if k == "array":
            return array_ty(self.size())
        t = ADDR if k == "addr" else ch.choice(STRUCTS).ty
        self.sizes.add(t.size)
        return t

    def bty(self):
        return self.ch.choice([BYTES, BIGINT]) if self.ch.bool(0.3) else self.sized()

    def sizearg(self, n):
        """a constant n"""
        ch = self.ch
        k = ch.weighted([(5, "lit"), (1, "sizeof"), (1, "const")])
        if k == "sizeof":
            return Std("SizeOf", [], INT, bytes_ty(n))
        if k == "const":
            c = ConstD("N%d" % n, INT, n, str(n))
            if c.name not in self.names:
                self.names.add(c.name)
                self.p.body.insert(0, c)
            return ConstE(c)
        return Lit(n)

    def i(self, d):
        """an expression of an int type"""
        ch = self.ch
        if d <= 0:
            k = ch.int(0, 4)
            if k < 3:
                return VarE(ch.choice(self.ints))
            return Lit(ch.choice([0, 1, 255, 256, U64])) if k == 3 else Std("SizeOf", [], INT, self.sized())
        k = ch.weighted([(3, "convert"), (3, "cast"), (2, "ensure"), (2, "from"), (1, "castany"), (1, "ensureany"), (0.5, "len"), (0.5, "+")])
        t = ch.choice([INT, UINT64, UINT8, UINT8])
        if k == "convert":
            return Std("Convert", [self.b(d - 1)], t, t)
        if k == "cast":
            return Std("Cast", [self.lie(self.i(d - 1), t)], t, t)
        if k == "castany":
            return Std("Cast", [self.any(d - 1, True)], t, t)
        if k == "ensure":
            return Std("EnsureType", [self.i(d - 1)], t, t)
        if k == "ensureany":
            return Std("EnsureType", [self.any(d - 1, True)], t, t)
        if k == "from":
            return Std("FromBytes", [self.b(d - 1)], INT, t)
        if k == "len":
            return Call("len", [], [self.b(d - 1)])
        return Bin("%", self.i(d - 1), Lit(ch.choice([1 << 8, 1 << 16, 1 << 32])))

    def lie(self, e, t=None):
        """sometimes an unchecked claim about the type of a value that is checked next"""
        if not self.ch.bool(0.15):
            return e
        if e.ty.is_int:
            t = t if t and t.is_int and self.ch.bool() else self.ch.choice([UINT8, UINT8, UINT64])
        else:
            t = t if t and t.is_bytes and self.ch.bool() else self.bty()
        return Std("UncheckedCast", [e], t, t)

    def any(self, d, isint):
        x, y = (self.i(d), self.i(d)) if isint else (self.b(d), self.b(d))
        return Call("select", [], [x, y, VarE(self.ch.choice(self.ints))])

    def b(self, d):
        """an expression of a bytes type"""
        ch = self.ch
        if d <= 0:
            k = ch.int(0, 5)
            if k < 4:
                return VarE(ch.choice(self.bts))
            if k == 4:
                return BLit(ch.choice([b"a", b"abcdefgh", b"zz9", b"x" * 33, b"", b" ", b"0x00", b"//"]))
            return Std("bzero", [self.sizearg(self.size())], BYTES)
        k = ch.weighted([(3, "convert"), (3, "cast"), (2, "ensure"), (3, "tobytes"), (2, "pad"), (1.5, "concat"), (1, "addr"), (1, "event"),
                         (1, "from"), (1, "castany"), (1, "ensureany"), (1, "bzero")])
        if k == "convert":
            t = self.bty()
            return Std("Convert", [self.lie(self.i(d - 1))], t, t)
        if k == "cast":
            t = self.bty()
            return Std("Cast", [self.lie(self.b(d - 1), t)], t, t)
        if k == "castany":
            t = self.bty()
            return Std("Cast", [self.any(d - 1, False)], t, t)
        if k == "ensure":
            t = self.bty()
            return Std("EnsureType", [self.b(d - 1)], t, t)
        if k == "ensureany":
            t = self.bty()
            return Std("EnsureType", [self.any(d - 1, False)], t, t)
        if k == "tobytes":
            n = self.size()
            e = self.lie(self.i(d - 1)) if ch.bool(0.6) else self.big(d - 1)
            return Std("ToBytes", [e], bytes_ty(n), self.sizearg(n))
        if k == "pad":
            n = self.size()
            return Std(ch.choice(["Rpad", "Lpad"]), [self.lie(self.b(d - 1))], bytes_ty(n), self.sizearg(n))
        if k == "concat":
            return Std("Concat", [self.b(d - 1) for _ in range(ch.int(1, 5))], BYTES)
        if k == "addr":
            pk = ch.choice([bytes(32), b"\xff" * 32, ch.rbytes(32)])
            return AddrE(pk)
        if k == "event":
            sig = ch.choice(["Swapped(uint64,uint64)", "x()", "a_b(address,(uint8,byte[32])[])", "Transfer(address,address,uint256)", "", " a( uint64, string ) ",
                             "a//b(string)", "long" * 40 + "()"])
            n = ch.int(0, 3) if ch.bool(0.9) else ch.int(4, 9)
            return Std("ARC28Event", [self.b(d - 1 if n < 4 else 0) for _ in range(n)], BYTES, BLit(sig.encode()))
        if k == "from":
            t = ch.choice([BYTES, BIGINT])
            return Std("FromBytes", [self.b(d - 1)], t, t)
        e = Std("bzero", [self.i(d - 1)], BYTES)
        return e

    def big(self, d):
        e = VarE(self.bigv)
        if d > 0 and self.ch.bool(0.3):
            return Std("Cast", [self.b(d - 1)], BIGINT, BIGINT)
        return e


class AddrE(E):
    def __init__(self, pk):
        self.pk, self.ty = pk, BYTES
        self.text = base64.b32encode(pk + avm.sha512_256(pk)[-4:]).decode().rstrip("=")

    def src(self):
        return f'Address("{self.text}")'

    def ev(self, rt):
        rt.tick("Address")
        return self.pk


def arg(i):
    return Field("Txn", "ApplicationArgs", idx=Lit(i))


def gen(ch):
    g = Gen(ch)
    p = g.p
    used = ch.bool(0.7)
    p.structs = STRUCTS if used else []
    if not used:
        g.sized = lambda: bytes_ty(g.size())
    n = g.size()
    x, y = Var("x", INT), Var("y", ch.choice([INT, UINT64]))
    small = Var("small", UINT8)
    b, c, s, big = Var("b", BYTES), Var("c", BYTES), Var("s", bytes_ty(n)), Var("big", BIGINT)
    g.ints, g.bts, g.bigv = [x, y, x, y, small], [b, c, b, c, s, big], big
    body = [Decl(x, Call("btoi", [], [arg(0)])), Decl(y, Call("btoi", [], [arg(1)])), Decl(b, arg(2)), Decl(c, arg(3)),
            Decl(s, Std("Cast", [arg(4)], s.ty, s.ty)), Decl(big, arg(5)),
            Decl(small, Std("Cast", [Call("btoi", [], [arg(6)])], UINT8, UINT8))]
    k = ch.weighted([(5, "i"), (7, "b"), (1, "multi"), (0.6, "unchecked"), (0.3, "error")])
    d = ch.weighted([(6, 1), (3, 2), (1, 3)])

    def log(e):
        return CallS(Call("log", [], [Call("itob", [], [e]) if e.ty.is_int else e]))
    body.append(log(VarE(x)))
    if k in "ib":
        e = g.i(d) if k == "i" else g.b(d)
        body.append(log(e))
        if ch.bool(0.5):
            t = e.ty if e.ty.name != "literal" else INT
            v = Var("res", t)
            body += [Decl(v, e), log(VarE(v))]
    elif k == "multi":
        # addw: carry, low  (first value = top of the stack)
        r, q = Var("r", ch.choice([INT, UINT64])), Var("q", INT)
        nm = ch.choice(["EnsureType", "UncheckedCast"])
        tys = [ch.choice([INT, UINT64, UINT8]), ch.choice([INT, UINT64, UINT8])]
        op = ch.choice(["addw", "mulw", "get"])
        e = Call("app_global_get_ex", [], [g.i(0), BLit(b"k")]) if op == "get" else Call(op, [], [g.i(0), g.i(0)])
        if op == "get":
            tys = [UINT8, ch.choice([INT, UINT64])]
        body += [Decl(r), Decl(q), Assign([r, q], MStd(nm, e, tys)), log(VarE(r)), log(VarE(q))]
    elif k == "unchecked":
        t = ch.choice([UINT8, INT])
        body.append(log(Std("UncheckedCast", [g.i(d - 1)], t, t)))
        t = g.bty()
        body.append(log(Std("UncheckedCast", [g.b(d - 1)], t, t)))
        v = Var("res", t)
        body += [Decl(v, Std("UncheckedCast", [g.b(d - 1)], t, t)), log(VarE(v))]
    else:
        body.append(If([(Bin(ch.choice(["<", "==", ">"]), g.i(0), g.i(0)), False, [ErrorS()])], None))
    body.append(Exit(Lit(1)))
    p.body += body
    sizes = sorted(g.sizes | {1, 8, 32, 64})
    nums = sorted({0, 1, 255, 256, U64, U64 - 1} | {(1 << 8 * q) + o for q in sizes if q < 8 for o in (-1, 0)} | {q + o for q in sizes for o in (-1, 0, 1)})

    def num():
        return (ch.choice(nums) if ch.bool(0.8) else ch.int(0, U64)).to_bytes(8, "big")

    def text():
        m = max(0, ch.choice(sizes) + ch.choice([-1, 0, 0, 1])) if ch.bool(0.6) else ch.choice([0, 1, 2, 7, 8, 9])
        m = min(m, 4000)
        r = ch.rbytes(m)
        z = ch.choice([0, 0, 0, 1, m - 1, m]) if m else 0
        return bytes(z) + r[z:] if not ch.bool(0.1) else b"\xff" * m
    ctxs = []
    for _ in range(8):
        a = [num(), num(), text(), text(), ch.rbytes(n), text(), bytes([ch.choice([0, 1, 127, 128, 255])])]
        ctxs.append(avm.Ctx(seed=ch.int(0, 99), args=a))
    # an outcome the documentation leaves open drops that vector only
    runs, steps = [], {}
    for c in ctxs:
        try:
            rs, st = diff.reference_runs(p, [c])
        except diff.Skip:
            continue
        runs += rs
        for kk, v in st.items():
            steps[kk] = steps.get(kk, 0) + v
    if not runs:
        raise diff.Skip("no vector is decided")
    return {"src": p.source(), "runs": runs, "feat": [k], "steps": steps}


show = diff.show


def check(case):
    info = diff.check(case)
    info["counts"]["failing_runs"] = info["counts"]["runs"] - info["counts"]["completed_runs"]
    return info
