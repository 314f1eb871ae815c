"""Type-level mutations of generated programs: any of them may or may not break the typing."""
from . import avm, gen as G
from .ref import *
from .ref import lit_int_ty, TYCH


def listify(p):
    """make the AST's tuples mutable"""
    for s in all_stmts(p):
        if isinstance(s, If):
            s.arms = [list(a) for a in s.arms]
        elif isinstance(s, Switch):
            s.opts = [list(o) for o in s.opts]
        elif isinstance(s, InnerTxn):
            s.fields = [list(f) for f in s.fields]


def body_stmts(body):
    for s in body:
        yield s
        for b in s.bodies():
            yield from body_stmts(b)


def containers(items):
    for x in items:
        if isinstance(x, (Func, Block)):
            yield x
        if isinstance(x, Block):
            yield from containers(x.after)


def all_stmts(p):
    yield from body_stmts(p.body)
    for c in containers(p.after):
        yield from body_stmts(c.body)


def placed(p):
    """(stmt, enclosing container or None)"""
    for s in body_stmts(p.body):
        yield s, None
    for c in containers(p.after):
        for s in body_stmts(c.body):
            yield s, c


class Slot:
    """a place that holds an expression"""

    def __init__(self, box, key, role, where):
        self.box, self.key, self.role, self.where = box, key, role, where

    def get(self):
        return self.box[self.key] if isinstance(self.box, list) else getattr(self.box, self.key)

    def set(self, e):
        if isinstance(self.box, list):
            self.box[self.key] = e
        else:
            setattr(self.box, self.key, e)


def stmt_slots(s):
    if isinstance(s, (Decl, Assign, Assert, Exit, FieldSet)):
        if s.e is not None:
            yield s, "e", "expr"
    elif isinstance(s, CallS):
        yield s, "e", "call"
    elif isinstance(s, If):
        for a in s.arms:
            yield a, 0, "cond"
    elif isinstance(s, While):
        yield s, "cond", "cond"
    elif isinstance(s, For):
        yield s, "a", "bound"
        yield s, "b", "bound"
    elif isinstance(s, Switch):
        yield s, "e", "expr"
        for o in s.opts:
            yield o, 0, "option"
    elif isinstance(s, Return):
        for i in range(len(s.es)):
            yield s.es, i, "expr"
    elif isinstance(s, BoxD):
        yield s, "key", "expr"
    elif isinstance(s, InnerTxn):
        for f in s.fields:
            yield f, 2, "txnfield"
    elif isinstance(s, Push):
        for i in range(len(s.args)):
            yield s.args, i, "expr"


def expr_slots(e):
    if isinstance(e, Un):
        yield e, "a", "expr"
    elif isinstance(e, Bin):
        yield e, "a", "expr"
        yield e, "b", "expr"
    elif isinstance(e, (Call, UCall, Std)):
        for i in range(len(e.args)):
            yield e.args, i, "stdarg" if isinstance(e, Std) else "expr"
    elif isinstance(e, Field):
        if e.gi is not None:
            yield e, "gi", "group"
        if e.idx is not None:
            yield e, "idx", "expr"


def slots(p, fixed=()):
    out = []

    def rec(box, key, role, where):
        sl = Slot(box, key, role, where)
        out.append(sl)
        e = sl.get()
        for b, k, r in expr_slots(e.e if isinstance(e, Grp) else e):
            rec(b, k, r, where)
    for s, c in placed(p):
        if s in fixed:
            continue
        for b, k, r in stmt_slots(s):
            rec(b, k, r, (s, c))
    return out


PRELUDE = [("qi", "INT"), ("qu", "UINT64"), ("qs", "UINT8"), ("qb", "BYTES"), ("q1", 1), ("q8", 8), ("qx", 32),
           ("qg", "BIGINT"), ("qr", "ARR8"), ("qa", "ADDR")]


def prelude(g, p, ch):
    """one variable of every type, certainly assigned, visible everywhere"""
    out, vs = [], {}
    for n, t in PRELUDE:
        ty = bytes_ty(t) if isinstance(t, int) else array_ty(8) if t == "ARR8" else globals()[t]
        v = Var(n, ty)
        vs[n] = v
        if ty.is_int:
            e = Lit(ch.choice([1, 0, 2, 200, 255]))
        elif ty.size:
            e = Std("bzero", [Lit(ty.size)], ty)
        else:
            e = BLit(b"ab")
        out.append(Decl(v, e))
    for i, st in enumerate(g.structs):
        v = Var(f"qt{i}", st.ty)
        vs[v.name] = v
        out.append(Decl(v, Std("bzero", [Lit(st.size)], bytes_ty(st.size))))
    return out, vs


class Mutator:
    """any: whether values of unknown type may be brought in; calls: user calls may be brought in"""

    def __init__(self, ch, p, g, vs, fixed, any_=True):
        self.ch, self.p, self.g, self.vs, self.fixed, self.any_ = ch, p, g, vs, set(fixed), any_

    # ---- the pool of expressions
    def simple(self, t):
        """a leaf of about the kind t: 'int' or 'bytes'"""
        ch = self.ch
        names = [n for n, v in self.vs.items() if v.ty.is_int == (t == "int")]
        if ch.bool(0.6):
            return VarE(self.vs[ch.choice(names)])
        return self.lit() if t == "int" else self.blit()

    def lit(self):
        return Lit(self.ch.choice([0, 1, 2, 3, 255, 256, 65535, 65536, (1 << 32), G.U64, 1 << 63]))

    def blit(self):
        n = self.ch.choice([1, 2, 3, 8, 31, 32, 33, 9, 0])
        return BLit(b"x" * n)

    def pool(self, role, where):
        ch = self.ch
        fn = where[1] if isinstance(where[1], Func) else None
        opts = [(6, "var"), (3, "lit"), (3, "blit"), (1 if self.g.consts else 0, "const")]
        if role not in ("bound", "group"):
            opts += [(2, "bin"), (1, "un"), (2, "op"), (3, "std"), (2, "field"), (1, "enum"),
                     (2 if self.g.structs else 0, "fref"), (2, "multi"), (1, "none")]
            if self.any_:
                opts.append((2, "any"))
            funcs = [f for f in self.g.root.funcs.values()] if not fn else []
            opts.append((3 if funcs else 0, "ucall"))
        if role == "call":
            opts = [(3, "op"), (2, "std"), (2, "multi"), (3, "none"), (4 if not fn and self.g.root.funcs else 0, "ucall"),
                    (1 if self.any_ else 0, "any")]
        k = ch.weighted(opts)
        if k == "var":
            return VarE(self.vs[ch.choice(sorted(self.vs))])
        if k == "lit":
            return self.lit()
        if k == "blit":
            return self.blit()
        if k == "const":
            return ConstE(ch.choice(self.g.consts))
        if k == "bin":
            op = ch.choice(["+", "==", "&&", "<", "|", "!=", "b+", "b==", "b|", "b<"])
            t = "bytes" if op[0] == "b" or op in ("==", "!=") and ch.bool(0.3) else "int"
            return Bin(op, self.simple(t), self.simple(t))
        if k == "un":
            op = ch.choice(["!", "~", "b~"])
            return Un(op, self.simple("bytes" if op == "b~" else "int"))
        if k == "op":
            op = ch.choice(["itob", "len", "btoi", "sha256", "concat", "add_", "extract3", "bitlen", "sqrt", "getbyte", "substring3"])
            if op == "add_":
                op = "shl"
            return Call(op, [], [self.simple({"U": "int", "B": "bytes"}.get(c, "int")) for c in avm.OPS[op].get("Args", "")])
        if k == "any":
            if ch.bool():
                return Call("app_global_get", [], [BLit(b"ka")])
            t = ch.choice(["int", "bytes"])
            return Call("select", [], [self.simple(t), self.simple(t), self.simple("int")])
        if k == "multi":
            op = ch.choice(["addw", "divmodw", "app_global_get_ex", "mulw", "expw"])
            return Call(op, [], [self.simple({"U": "int", "B": "bytes"}.get(c, "int")) for c in avm.OPS[op].get("Args", "")])
        if k == "none":
            if ch.bool():
                return Call("log", [], [self.simple("bytes")])
            return Call("app_global_put", [], [BLit(b"ia"), self.simple(ch.choice(["int", "bytes"]))])
        if k == "enum":
            return EnumE(ch.choice(["NoOp", "Pay", "OptIn"]))
        if k == "field":
            return ch.choice([lambda: Field("Txn", "Sender"), lambda: Field("Txn", "Fee"), lambda: Field("Global", "Round"),
                              lambda: Field("Global", "ZeroAddress"), lambda: Field("Txn", "Accounts", idx=Lit(0)),
                              lambda: Field("Gtxn", "Amount", rel="+0"), lambda: Field("Txn", "Note")])()
        if k == "fref":
            n = ch.choice(sorted(x for x in self.vs if x.startswith("qt")))
            v = self.vs[n]
            return FieldRef(v, ch.choice([f for f, _ in v.ty.struct.fields]))
        if k == "std":
            return self.std()
        if k == "ucall":
            f = ch.choice(sorted(self.g.root.funcs.values(), key=lambda f: f.name))
            return UCall(f, [self.of_type(p_.ty) for p_ in f.params])
        raise AssertionError(k)

    def of_type(self, ty):
        from .ref import can_hold
        cand = [VarE(v) for n, v in sorted(self.vs.items()) if can_hold(ty, v.ty)]
        if not cand:
            return Std("bzero", [Lit(ty.size)], bytes_ty(ty.size)) if ty.size and ty.is_bytes else self.simple("int")
        return self.ch.choice(cand)

    def std(self):
        ch = self.ch
        k = ch.choice(["Cast", "EnsureType", "Convert", "ToBytes", "FromBytes", "Rpad", "Lpad", "bzero", "Concat", "SizeOf", "UncheckedCast", "ARC28Event"])
        types = [INT, UINT8, BYTES, BIGINT, bytes_ty(8), bytes_ty(32), array_ty(8)] + [s.ty for s in self.g.structs]
        a = self.simple(ch.choice(["int", "bytes"]))
        if k in ("Cast", "EnsureType", "Convert", "FromBytes", "UncheckedCast"):
            t = ch.choice(types)
            if k == "UncheckedCast" and not self.any_:
                k = "Cast"
            return Std(k, [a], t, t)
        if k in ("ToBytes", "Rpad", "Lpad"):
            n = ch.choice([1, 8, 32, 40])
            return Std(k, [a], bytes_ty(n), Lit(n))
        if k == "bzero":
            n = ch.choice([1, 8, 32])
            return Std(k, [Lit(n) if ch.bool(0.7) else a], bytes_ty(n))
        if k == "SizeOf":
            return Std(k, [], INT, ch.choice([t for t in types if t.size]))
        if k == "ARC28Event":
            return Std(k, [a], BYTES, BLit(b"e(byte[])"))
        return Std(k, [a, self.simple("bytes")], BYTES)

    # ---- mutations
    def mutate(self):
        ch = self.ch
        k = ch.weighted([(12, "slot"), (2, "vartype"), (1.5, "param"), (1.5, "rets"), (2, "arity"), (1, "retarity"),
                         (1, "targets"), (0.7, "const"), (0.7, "struct"), (0.7, "swap"), (0.7, "imms"), (1, "field"), (1.5, "samearg")])
        ok = getattr(self, "m_" + k)()
        if not ok:
            self.m_slot()
            k = "slot"
        return k

    def m_slot(self):
        ss = slots(self.p, self.fixed)
        s = self.ch.choice(ss)
        e = self.pool(s.role, s.where)
        s.set(e)
        return True

    def types(self):
        return [INT, UINT64, UINT8, BYTES, bytes_ty(1), bytes_ty(8), bytes_ty(32), BIGINT, ADDR, array_ty(8)] + [s.ty for s in self.g.structs]

    def m_vartype(self):
        ds = [s for s in all_stmts(self.p) if isinstance(s, Decl) and s not in self.fixed and not s.var.ty.struct]
        if not ds:
            return False
        d = self.ch.choice(ds)
        d.var.ty = self.ch.choice(self.types())
        return not self.uses_fields(d.var)

    def uses_fields(self, v):
        return False

    def funcs(self):
        return [c for c in containers(self.p.after) if isinstance(c, Func)]

    def m_param(self):
        ps = [v for f in self.funcs() for v in f.params if not v.ty.struct]
        if not ps:
            return False
        self.ch.choice(ps).ty = self.ch.choice(self.types())
        return True

    def m_rets(self):
        fs = [f for f in self.funcs() if f.rets]
        if not fs:
            return False
        f = self.ch.choice(fs)
        f.rets[self.ch.int(0, len(f.rets) - 1)] = self.ch.choice(self.types())
        return True

    def m_arity(self):
        calls = []
        for s in slots(self.p, self.fixed):
            e = s.get()
            if isinstance(e, (Call, UCall)) or isinstance(e, Std) and e.name not in ("SizeOf", "Address", "bzero"):
                calls.append(e)
        if not calls:
            return False
        e = self.ch.choice(calls)
        if e.args and self.ch.bool():
            if isinstance(e, Std):
                if e.name not in ("Concat", "ARC28Event"):
                    return False
            del e.args[self.ch.int(0, len(e.args) - 1)]
        else:
            if isinstance(e, Std) and e.name not in ("Concat", "ARC28Event"):
                return False
            e.args.insert(self.ch.int(0, len(e.args)), self.simple(self.ch.choice(["int", "bytes"])))
        return True

    def m_retarity(self):
        rs = [s for s in all_stmts(self.p) if isinstance(s, Return)]
        if not rs:
            return False
        r = self.ch.choice(rs)
        if r.es and self.ch.bool():
            del r.es[self.ch.int(0, len(r.es) - 1)]
        else:
            r.es.insert(self.ch.int(0, len(r.es)), self.simple(self.ch.choice(["int", "bytes"])))
        return True

    def m_targets(self):
        a = [s for s in all_stmts(self.p) if isinstance(s, Assign)]
        if not a:
            return False
        s = self.ch.choice(a)
        q = self.ch.choice(["drop", "add", "change", "blank"])
        if q == "drop" and len(s.targets) > 1:
            del s.targets[self.ch.int(0, len(s.targets) - 1)]
        elif q == "blank":
            s.targets[self.ch.int(0, len(s.targets) - 1)] = None
        else:
            v = self.vs[self.ch.choice(sorted(self.vs))]
            if v in s.targets:
                v = None
            if q == "change":
                s.targets[self.ch.int(0, len(s.targets) - 1)] = v
            else:
                s.targets.insert(self.ch.int(0, len(s.targets)), v)
        return True

    def m_const(self):
        cs = [s for s in all_stmts(self.p) if isinstance(s, ConstD)]
        if not cs:
            return False
        c = self.ch.choice(cs)
        c.decl = self.ch.choice(["int", "bytes"])
        return True

    def m_struct(self):
        if not self.g.structs:
            return False
        st = self.ch.choice(self.g.structs)
        i = self.ch.int(0, len(st.fields) - 1)
        t = self.ch.choice([INT, UINT8, bytes_ty(1), bytes_ty(8), bytes_ty(32), array_ty(8)])
        st.fields[i] = (st.fields[i][0], t)
        for s in self.g.structs:       # sizes of the structs that contain it change as well
            off = 0
            for j, (f, t) in enumerate(s.fields):
                s.offsets[f] = (off, t)
                off += t.size
            s.size = off
            s.ty.size = off
            s.boxty.size = off
        return True

    def m_swap(self):
        ss = [s for s in slots(self.p, self.fixed) if s.role == "expr"]
        if len(ss) < 2:
            return False
        es = [s.get() for s in ss]
        i = self.ch.int(0, len(ss) - 1)
        for s in ss:
            e = s.get()
            if isinstance(e, (Call, UCall)) and len(e.args) >= 2 and self.ch.bool(0.3):
                e.args.reverse()
                return True
        return False

    def m_samearg(self):
        """The same expression twice among the arguments of one call."""
        cs = [e for e in (s.get() for s in slots(self.p, self.fixed))
              if isinstance(e, (Call, UCall)) and len(e.args) >= 2 or isinstance(e, Std) and e.name == "Concat" and len(e.args) >= 2]
        us = [e for e in cs if isinstance(e, UCall)]
        if us and self.ch.bool(0.7):
            cs = us
        if not cs:
            return False
        e = self.ch.choice(cs)
        i = self.ch.int(0, len(e.args) - 1)
        j = self.ch.int(0, len(e.args) - 2)
        j += j >= i
        e.args[j] = e.args[i]
        return True

    def m_imms(self):
        cs = [e for e in (s.get() for s in slots(self.p, self.fixed)) if isinstance(e, Call) and e.imms]
        if not cs:
            return False
        e = self.ch.choice(cs)
        if self.ch.bool():
            del e.imms[self.ch.int(0, len(e.imms) - 1)]
        else:
            e.imms.append(Lit(self.ch.int(0, 3)))
        return True

    def m_field(self):
        cs = [e for e in (s.get() for s in slots(self.p, self.fixed)) if isinstance(e, FieldRef)]
        cs += [s for s in all_stmts(self.p) if isinstance(s, FieldSet)]
        if not cs:
            return False
        e = self.ch.choice(cs)
        names = [f for st in self.g.structs for f, _ in st.fields]
        e.f = self.ch.choice(names + ["nope", e.f + "x", e.f[:-1] or "q"])
        return True
