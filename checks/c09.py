"""C09: acceptance decided by an independent type model, on programs with type-level mutations."""
from vlib import gen as G, typecheck as T
from vlib.ref import *
from vlib.mutate import Mutator, listify, prelude
from vlib.tl import Rejected, Skip, Violation, compile_program, inspect
PROPERTY = "C09"
QUICK, THOROUGH = 4500, 150000
RULE = "Case = a generated program whose types were changed at 0-3 random places (an expression exchanged for one of random type, " \
       "a declared, parameter, field or return type, a number of arguments, values or names), with the verdict of an independent " \
       "type checker; the compiler must agree. Non-trivial: at least one mutation was applied."

STM = dict(decl=5, assign=5, multi=3, call=3, assert_=2, if_=3, while_=2, for_=2, for__=0.5, exit_=1, log=3, gput=1,
           itxn=1.5, group=0.3, fieldset=3, box=1, jump=1, switch=1.5, push=0.3, breakx=0.5, error=0.1)
CFGS = [G.Cfg(main=(1, 5), body=(1, 2), prelude=(0, 2), nest=2, depth=2, funcs=(0, 3), blocks=(0, 1), ucall=3, frefs=2, std=3,
              structs=(0, 2), consts=(0, 2), comments=0.0, budget=25, strange_names=0.05, stmts=STM),
        G.Cfg(main=(1, 3), body=(1, 2), prelude=(0, 1), nest=1, depth=2, funcs=(0, 1), blocks=(0, 1), std=5, structs=(1, 2),
              consts=(0, 1), comments=0.0, budget=12, strange_names=0.0, stmts=STM)]


def pair(ch):
    """one value of a random type held by something of another type"""
    p = Program()
    p.pragma = 8
    sizes = [ch.choice([1, 2, 3, 8, 16, 32]) for _ in range(3)]
    p.structs = [Struct(n, [(f"f{i}", t) for i, t in enumerate(ts)]) for n, ts in
                 (("One", [INT]), ("Two", [INT, ch.choice([INT, UINT8])]), ("Tri", [bytes_ty(sizes[0]), UINT8, array_ty(sizes[1])]),
                  ("Four", [bytes_ty(32)]), ("Five", [bytes_ty(sizes[2])]))]
    near = ch.choice([1, 2, 7, 8, 9, 16, 31, 32, 33, sum(sizes[:2]) + 1])
    types = [INT, UINT64, UINT8, BYTES, BIGINT, ADDR, bytes_ty(near), bytes_ty(8), bytes_ty(32), array_ty(near), array_ty(8)] + [s.ty for s in p.structs]
    dst = ch.choice(types)
    src = ch.choice([t for t in types if t.is_int == dst.is_int] if ch.bool(0.85) else types)
    if ch.bool(0.3):
        src = dst

    def value(t):
        if t.is_int:
            return Lit(ch.choice([0, 1, 200, 255]))
        return Std("UncheckedCast", [BLit(b"ab")], t, t) if t.size == 0 else Std("bzero", [Lit(t.size)], bytes_ty(t.size)) if ch.bool() else Std("Cast", [Std("bzero", [Lit(t.size)], bytes_ty(t.size))], t, t)
    v = Var("src", src)
    p.body.append(Decl(v, value(src)))
    e, funcs = VarE(v), []
    k = ch.choice(["var", "call", "field", "cast", "lit", "box"])
    if k == "call":
        f = Func("get", [], [src])
        f.body = [Return([value(src)])]
        funcs.append(f)
        e = UCall(f, [])
    elif k == "field" and src.size:
        st = Struct("Six", [("aa", UINT8), ("bb", src)])
        p.structs.append(st)
        w = Var("whole", st.ty)
        p.body.append(Decl(w, Std("bzero", [Lit(st.size)], bytes_ty(st.size))))
        e = FieldRef(w, "bb")
    elif k == "cast" and src.is_bytes:
        e = Std(ch.choice(["Cast", "UncheckedCast"]), [VarE(v)], src, src)
    elif k == "lit":
        e = Lit(ch.choice([0, 1, 255, 256, 1 << 32])) if src.is_int else BLit(b"x" * ch.choice([near, 1, 8, 32, 0]))
    elif k == "box" and src.kind == "struct":
        b = Var("stored", src.struct.boxty)
        p.body.append(BoxD(b, "Open", BLit(b"key")))
        e = FieldRef(b, src.struct.fields[0][0]) if ch.bool() else VarE(b)
    q = ch.choice(["decl", "assign", "multi", "arg", "ret", "field", "twice"])
    d = Var("dst", dst)
    if q == "decl":
        p.body.append(Decl(d, e))
    elif q in ("assign", "twice"):
        p.body += [Decl(d, value(dst) if ch.bool() else None), Assign([d], e)]
        if q == "twice":
            p.body.append(Assign([d], VarE(d)))
    elif q == "multi":
        f = Func("two", [], [src, INT] if ch.bool() else [INT, src])
        f.body = [Return([value(t) for t in f.rets])]
        funcs.append(f)
        n = Var("num", INT)
        p.body += [Decl(d), Decl(n), Assign([d, n] if f.rets[0] is src else [n, d], UCall(f, []))]
    elif q == "arg":
        a = [Var("x", dst), Var("y", INT)][::ch.choice([1, -1])]
        f = Func("take", a, [])
        f.body = [Return([])]
        funcs.append(f)
        p.body.append(CallS(UCall(f, [e if x.name == "x" else Lit(1) for x in a])))
    elif q == "ret":
        f = Func("give", [Var("y", src)], [dst, INT][:ch.int(1, 2)])
        f.body = [Return([VarE(f.params[0]), Lit(1)][:len(f.rets)])]
        funcs.append(f)
    elif q == "field":
        st = Struct("Seven", [("cc", dst if dst.size else bytes_ty(near)), ("dd", INT)])
        p.structs.append(st)
        w = Var("other", st.ty)
        p.body += [Decl(w, Std("bzero", [Lit(st.size)], bytes_ty(st.size))), FieldSet(w, "cc", e)]
    p.body.append(Exit(Lit(1)))
    p.after = funcs
    return p, [f"{q} of {dst.kind}", f"from {k}"]


def program(ch):
    """a program with type errors, maybe -> (program, kinds)"""
    if ch.bool(0.4):
        return pair(ch)
    p, g = G.program(ch, ch.choice(CFGS))
    out, vs = prelude(g, p, ch)
    n = next((i for i, s in enumerate(p.body) if not isinstance(s, T.ConstD)), len(p.body))
    p.body[n:n] = out
    listify(p)
    m = Mutator(ch, p, g, vs, out)
    return p, ["mutation " + m.mutate() for _ in range(ch.weighted([(0.5, 0), (6, 1), (3, 2), (1, 3)]))]


def gen(ch):
    return judged(*program(ch))


def judged(p, kinds):
    try:
        ok, why = T.verdict(p)
    except T.Open as e:
        raise Skip(f"open: {e}") from None
    return {"src": p.source(), "accept": ok, "why": why, "kinds": kinds}


def show(case):
    return case


def check(case):
    src = case["src"]
    try:
        compile_program(src)
        got, err = True, None
    except Rejected as e:
        got, err = False, str(e)
    if got != case["accept"]:
        if got:
            raise Violation("accepted", f"an ill-typed program is accepted ({case['why']})")
        raise Violation("rejected", f"a well-typed program is rejected: {err}")
    return {"nontrivial": bool(case["kinds"]), "key": src,
            "tags": ["accept" if got else "reject"] + case["kinds"]}
