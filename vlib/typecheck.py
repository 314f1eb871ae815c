"""An independent type checker over the reference AST: accept, reject or open."""
from . import avm
from .ref import *
from .ref import TYCH, BYTE_RESULT


class Bad(Exception):
    pass


class Open(Exception):
    """the documentation does not settle it"""


def kind(t):
    if t is None or isinstance(t, list):
        raise Bad("not a single value")
    return "any" if t.kind == "any" else "int" if t.is_int else "bytes"


def hold(dst, src, what):
    kind(src)
    if not can_hold(dst, src):
        raise Bad(f"{what}: {dst} can not hold {src}")


def want(t, k, what):
    if kind(t) not in (k, "any"):
        raise Bad(f"{what}: expected {k}, got {t}")


def op_types(op):
    return [TYCH[c] for c in avm.OPS[op].get("Args", "")]


def op_rets(op):
    return [TYCH[c] for c in reversed(avm.OPS[op].get("Returns", ""))]


def one(rets):
    return rets[0] if len(rets) == 1 else None if not rets else list(rets)


def opcall(op, ts):
    args = op_types(op)
    if len(args) != len(ts):
        raise Bad(f"{op}: {len(ts)} arguments")
    for a, t in zip(args, ts):
        if a.kind == "any":
            kind(t)
        else:
            want(t, "int" if a.is_int else "bytes", op)


def ty_of(e):
    if isinstance(e, Lit):
        return lit_int_ty(e.v)
    if isinstance(e, BLit):
        return bytes_ty(len(e.v)) if e.v else BYTES
    if isinstance(e, VarE):
        return e.var.ty
    if isinstance(e, ConstE):
        return e.c.ty
    if isinstance(e, EnumE):
        return INT
    if isinstance(e, Grp):
        return ty_of(e.e)
    if isinstance(e, Un):
        opcall(e.op, [ty_of(e.a)])
        return BYTES if e.op == "b~" else INT
    if isinstance(e, Bin):
        ta, tb = ty_of(e.a), ty_of(e.b)
        opcall(e.op, [ta, tb])
        if e.op in ("==", "!=") and "any" not in (kind(ta), kind(tb)) and kind(ta) != kind(tb):
            raise Bad("comparison of int and bytes")
        return BYTES if e.op in BYTE_RESULT else INT
    if isinstance(e, UCall):
        ts = [ty_of(a) for a in e.args]
        if len(ts) != len(e.func.params):
            raise Bad(f"{e.func.name}: {len(ts)} arguments")
        for p, t in zip(e.func.params, ts):
            hold(p.ty, t, e.func.name)
        return one(e.func.rets)
    if isinstance(e, Call):
        if len(e.imms) != e.nimms:
            raise Bad(f"{e.op}: {len(e.imms)} immediates")
        opcall(e.op, [ty_of(a) for a in e.args])
        return one(op_rets(e.op))
    if isinstance(e, Field):
        if isinstance(e.gi, Lit) and e.gi.v >= 16:
            raise Bad("group index")
        for x in (e.gi, e.idx):
            if x is not None and e.rel is None or x is e.idx and x is not None:
                want(ty_of(x), "int", "index")
        t = {"U": INT, "B": BYTES}[avm.FIELD_TYPES["global" if e.ns == "Global" else "txn"][e.field]]
        return bytes_ty(32) if e.field == "Sender" and e.ns != "Global" else t
    if isinstance(e, FieldRef):
        st = e.var.ty.struct
        if e.var.ty.kind not in ("struct", "box") or e.f not in st.offsets:
            raise Bad("no such field")
        return st.offsets[e.f][1]
    if isinstance(e, PopE):
        return ANY
    if isinstance(e, Std):
        return std(e)
    raise Open(type(e).__name__)


def std(e):
    n, x = e.name, e.extra
    if n == "SizeOf":
        return INT
    if n in ("Address", "Error"):
        return BYTES if n == "Address" else None
    arity = {"Concat": (1, 99), "ARC28Event": (0, 98)}.get(n, (1, 1))
    if not arity[0] <= len(e.args) <= arity[1]:
        raise Bad(f"{n}: arity")
    ts = [ty_of(a) for a in e.args]
    size = None
    if n in ("Rpad", "Lpad", "ToBytes"):
        if isinstance(x, Lit):
            size = x.v
        elif isinstance(x, ConstE) and x.c.ty.is_int:
            size = x.c.value
        elif isinstance(x, Std) and x.name == "SizeOf":
            size = x.extra.size
        else:
            raise Bad(f"{n}: size is not constant")
    if n in ("Concat", "ARC28Event"):
        for t in ts:
            want(t, "bytes", n)
        return BYTES
    t = ts[0]
    if n == "UncheckedCast":
        if t is None or isinstance(t, list):
            raise Bad("UncheckedCast of several values")
        return x
    k = kind(t)
    if n == "bzero":
        want(t, "int", n)
        a = e.args[0]
        v = a.v if isinstance(a, Lit) else a.c.value if isinstance(a, ConstE) else a.extra.size if isinstance(a, Std) and a.name == "SizeOf" else None
        return bytes_ty(v) if v else BYTES
    if n == "Cast":
        if k != "any" and k != kind(x):
            raise Bad("Cast between int and bytes")
        return x
    if n == "EnsureType":
        if k != "any" and k != kind(x):
            raise Bad("EnsureType")
        return x
    if k == "any":
        raise Open(n + " of an unknown value")
    if n == "Convert":
        if k == kind(x):
            raise Bad("Convert within a kind")
        return x
    if n == "ToBytes":
        if not (t.is_int or t.kind == "bigint"):
            raise Bad("ToBytes of bytes")
        if size == 0:
            raise Bad("ToBytes to nothing")
        return bytes_ty(size)
    if n == "FromBytes":
        if k != "bytes":
            raise Bad("FromBytes of an int")
        if x.is_int:
            return INT
        hold(x, t, n)
        return x
    if n in ("Rpad", "Lpad"):
        if k != "bytes":
            raise Bad(n)
        return bytes_ty(size)
    raise Open(n)


def stmt(s, fn):
    if isinstance(s, Decl):
        if s.e:
            hold(s.var.ty, ty_of(s.e), s.src())
    elif isinstance(s, Assign):
        t = ty_of(s.e)
        ts = t if isinstance(t, list) else [] if t is None else [t]
        if len(ts) != len(s.targets):
            raise Bad("number of names")
        for v, t in zip(s.targets, ts):
            if v:
                hold(v.ty, t, s.src())
    elif isinstance(s, CallS):
        if ty_of(s.e) is not None:
            raise Bad("unused value")
    elif isinstance(s, (Assert, Exit)):
        want(ty_of(s.e), "int", type(s).__name__)
    elif isinstance(s, If):
        for c, _, _ in s.arms:
            want(ty_of(c), "int", "condition")
    elif isinstance(s, While):
        want(ty_of(s.cond), "int", "condition")
    elif isinstance(s, For):
        want(ty_of(s.a), "int", "range")
        want(ty_of(s.b), "int", "range")
    elif isinstance(s, Switch):
        t = kind(ty_of(s.e))
        for v, _ in s.opts:
            k = kind(ty_of(v))
            if "any" not in (t, k) and t != k:
                raise Bad("switch option")
    elif isinstance(s, Return):
        if len(s.es) != len(fn.rets):
            raise Bad("number of return values")
        for t, e in zip(fn.rets, s.es):
            hold(t, ty_of(e), "return")
    elif isinstance(s, FieldSet):
        st = s.var.ty.struct
        if s.var.ty.kind not in ("struct", "box") or s.f not in st.offsets:
            raise Bad("no such field")
        hold(st.offsets[s.f][1], ty_of(s.e), s.src())
    elif isinstance(s, BoxD):
        hold(BYTES, ty_of(s.key), "box key")
    elif isinstance(s, InnerTxn):
        for n, i, e in s.fields:
            t = ty_of(e)
            if i is not None:
                kind(t)
                continue
            if isinstance(e, EnumE) and n in ("TypeEnum", "OnCompletion"):
                continue
            want(t, "int" if avm.FIELD_TYPES["txn"][n] == "U" else "bytes", n)
    elif isinstance(s, Push):
        for e in s.args:
            if isinstance(ty_of(e), list):
                raise Open("push of several values")
            kind(ty_of(e))
    elif isinstance(s, ConstD):
        lit = lit_int_ty(s.value) if isinstance(s.value, int) else bytes_ty(len(s.value)) if s.value else BYTES
        dst = {"int": INT, "bytes": BYTES, "bigint": BIGINT, "addr": ADDR}[s.decl]
        hold(dst, lit, "const")
    for b in s.bodies():
        for x in b:
            stmt(x, fn)


def containers(items):
    """the program's functions and blocks, outermost first"""
    for x in items:
        if isinstance(x, (Func, Block)):
            yield x
        if isinstance(x, Block):
            yield from containers(x.after)


def verdict(p):
    """(True, None) | (False, why); raises Open"""
    err = None
    todo = [(s, None) for s in p.body]
    for c in containers(p.after):
        todo += [(s, c if isinstance(c, Func) else None) for s in c.body]
    for s, fn in todo:
        try:
            stmt(s, fn)
        except Bad as e:
            err = err or str(e)
    return (err is None), err
