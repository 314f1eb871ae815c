"""C17: structure and scoping, two-sided: each generated program keeps every rule or breaks exactly one."""
from vlib import anyprog, gen as G
from vlib.mutate import containers
from vlib.ref import *
from vlib.tl import Rejected, Skip, Violation, compile_program
PROPERTY = "C17"
QUICK, THOROUGH = 4800, 200000
RULE = "Case = a generated program of all features in which one statement, definition or name is inserted, removed or replaced at a random " \
       "place so that exactly one structural or scoping rule is broken (must be rejected), or so that all rules still hold (must be accepted). " \
       "Non-trivial: the program has at least 4 lines and the change is not at its first statement."
ASSUMES = ["the rules as listed in DESIGN.md; redeclaring any visible variable breaks them, declarations in if-branches belong to the enclosing scope"]


class Raw(S):
    def __init__(self, *rows):
        self.rows = rows            # (extra indent, text)

    def lines(self, ind=0):
        return [(ind + r[0], r[1], self) if isinstance(r, tuple) else (ind, r, self) for r in self.rows]


class Point:
    """a place between statements: body[i] is what follows"""

    def __init__(self, body, i, cont, path, scopes, later, own):
        self.body, self.i, self.cont, self.path = body, i, cont, path
        self.visible = {}
        for s in scopes:
            self.visible.update(s)
        self.scopes, self.later, self.own = scopes, later, own

    @property
    def func(self):
        return self.cont if isinstance(self.cont, Func) else None

    @property
    def in_while(self):
        return any(isinstance(s, While) for s in self.path)

    @property
    def top(self):
        """directly in a container"""
        return not self.path


def declared(s):
    return {s.var.name: s.var} if isinstance(s, (Decl, BoxD)) else {}


def walk(p):
    """all points of the program, with the names visible there"""
    out, all_names = [], set()

    def body(b, cont, path, scopes):
        # names of this scope that are declared only later in this body
        for i in range(len(b) + 1):
            last = not path and i == len(b)
            if not last:
                out.append(Point(b, i, cont, path, [dict(s) for s in scopes], scopes, scopes[-1]))
            if i < len(b):
                s = b[i]
                for n, v in declared(s).items():
                    scopes[-1][n] = v
                    all_names.add(n)
                if isinstance(s, While):
                    body(s.body, cont, path + [s], scopes + [{}])
                elif isinstance(s, For):
                    if s.var:
                        all_names.add(s.var.name)
                    body(s.body, cont, path + [s], scopes + [{s.var.name: s.var} if s.var else {}])
                else:
                    for k in s.bodies():
                        body(k, cont, path + [s], scopes)

    def container(c, b, after, scopes):
        body(b, c, [], scopes)
        for x in after:
            if isinstance(x, Block):
                container(x, x.body, x.after, scopes + [{}])
        for x in after:
            if isinstance(x, Func):
                all_names.update(v.name for v in x.params)
                body(x.body, x, [], scopes + [{v.name: v for v in x.params}])

    container(None, p.body, p.after, [{}])
    return out, all_names


def parents(p):
    """(list, index, thing, enclosing Block or None, visible blocks, visible functions) of every block and function"""
    out = []

    def rec(after, cont, blocks, funcs):
        bl = dict(blocks)
        bl.update({x.name: x for x in after if isinstance(x, Block)})
        fn = dict(funcs)
        fn.update({x.name: x for x in after if isinstance(x, Func)})
        for i, x in enumerate(after):
            if isinstance(x, (Block, Func)):
                out.append((after, i, x, cont, bl, fn))
            if isinstance(x, Block):
                rec(x.after, x, bl, fn)

    rec(p.after, None, {}, {})
    return out


def plain(ty):
    if ty.is_int:
        return "7"
    return f"bzero({ty.size})" if ty.size else '"q"'


def ret_text(f):
    return "return" + (" " + ", ".join(plain(t) for t in f.rets) if f.rets else "")


def rets_plain(f):
    return not f.rets or all(t.kind != "bigint" for t in f.rets)


def visible(p, pt):
    """(blocks, functions) visible at the point"""
    if pt.cont is None:
        return ({x.name: x for x in p.after if isinstance(x, Block)}, {x.name: x for x in p.after if isinstance(x, Func)})
    for after, i, x, cont, bl, fn in parents(p):
        if x is pt.cont:
            if isinstance(x, Block):
                bl = dict(bl)
                bl.update({y.name: y for y in x.after if isinstance(y, Block)})
                fn = dict(fn)
                fn.update({y.name: y for y in x.after if isinstance(y, Func)})
            return bl, fn
    raise AssertionError()


LOG = Raw('log("zz")')
GARBAGE_NAMES = ["zz", "zz9", "zzA", "z_z"]


def insert(pt, s):
    pt.body.insert(pt.i, s)


def mutate(ch, p, g):
    """-> (rule, expect) or None when the rule does not apply to this program"""
    pts, names = walk(p)
    inner = [x for x in pts if not (x.cont is None and x.i == 0 and x.top)]
    pt = ch.choice(inner or pts)
    conts = [c for c in containers(p.after)]
    funcs = [c for c in conts if isinstance(c, Func)]
    blocks = [c for c in conts if isinstance(c, Block)]
    zz = ch.choice(GARBAGE_NAMES)
    st = p.structs[0].name if p.structs else None
    rule = ch.choice(RULES)

    if rule == "struct not first":
        if pt.cont is None and pt.top and not any(not isinstance(s, Comment) for s in p.body[:pt.i]):
            return None
        insert(pt, Raw("struct Zz:", (1, "a: int"), "end"))
        return rule, "reject"
    if rule == "struct after the end":
        p.after.append(Raw("struct Zz:", (1, "a: int"), "end"))
        return rule, "reject"
    if rule == "definition before exit":
        d = ch.choice([["block zzb:", (1, "exit(1)"), "end"], ["func zzf():", (1, "return"), "end"], ["@public()", "func zzf():", (1, "return"), "end"],
                       ["func zzf(a: int) int:", (1, "return a"), "end"]])
        insert(pt, Raw(*d))
        kind = "function in function" if pt.func and d[0][0] != "b" else rule
        return kind, "reject"
    if rule == "no exit before definitions":
        cs = ([p] if p.after else []) + [b for b in blocks if b.after]
        cs = [c for c in cs if any(isinstance(x, (Func, Block)) for x in c.after)]
        if not cs:
            return None
        ch.choice(cs).body[-1] = LOG
        return rule, "reject"
    if rule == "block without exit":
        if not blocks:
            return None
        b = ch.choice(blocks)
        if ch.bool() and not isinstance(b.body[-1], (Switch, Jump, Router)):
            b.body[-1] = Raw("if 1:", (1, "exit(1)"), "end")
        else:
            b.body[-1] = LOG
        return rule, "reject"
    if rule == "statement after exit":
        c = ch.choice([p] + blocks)
        s = ch.choice([LOG, Raw("int zzv = 1"), Raw("exit(1)"), Raw("if 1:", (1, 'log("zz")'), "end"), Raw("assert(1)"), Raw("teal:", (1, "int 1"), (1, "pop"), "end")])
        k = ch.int(0, 1)
        if k and c.after:
            c.after.insert(ch.int(0, len(c.after)), s)
        else:
            c.body.append(s)
        return rule, "reject"
    if rule == "function without return":
        if not funcs:
            return None
        f = ch.choice(funcs)
        k = ch.int(0, 4)
        r = (1, ret_text(f))
        if k == 4:
            # a return, but inside the last statement
            l = (1, 'log("zz")')
            f.body[-1] = Raw(*ch.choice([["if 1:", l, "else:", r, "end"], ["if 1:", r, "else:", l, "end"], ["if 1:", r, "else:", r, "end"], ["while 1:", r, "end"],
                                         ["if 0:", l, "elif 1:", r, "else:", l, r, "end"], ["for zzi in 0:2:", r, "end"], ["while not 0:", l, r, "end"], ["teal:", (1, "retsub"), "end"],
                                         ["if 0:", r, "elif 1:", r, "end"], ["if 1:", l, "else:", (1, "if 0:"), (2, ret_text(f)), (1, "else:"), (2, ret_text(f)), (1, "end"), "end"]]))
        elif k == 0:
            f.body[-1] = LOG
        elif k == 1:
            f.body.append(ch.choice([LOG, Raw("int zzv = 1"), Raw("exit(1)"), Raw("assert(1)")]))
        elif k == 2:
            f.body[-1] = Raw("if 1:", (1, ret_text(f)), "end")
        else:
            f.body[-1] = Raw("exit(1)")
        return rule, "reject"
    if rule == "empty function":
        p.after.append(Raw("func zzf():", "end"))
        return rule, "reject"
    if rule == "return outside function":
        if pt.func:
            return None
        insert(pt, Raw(ch.choice(["return", "return 1", 'return "a"', "return 1, 2"])))
        return rule, "reject"
    if rule == "wrong number of returns":
        if not pt.func or not rets_plain(pt.func):
            return None
        f = pt.func
        vals = [plain(t) for t in f.rets]
        if ch.bool() and vals:
            vals.pop(ch.int(0, len(vals) - 1))
        else:
            vals.insert(ch.int(0, len(vals)), ch.choice(["1", '"a"', "itob(1)", "1 + 2"]))
        insert(pt, Raw("return" + (" " + ", ".join(vals) if vals else "")))
        return rule, "reject"
    if rule == "break outside while":
        if pt.in_while:
            return None
        insert(pt, Raw("break") if ch.bool() else Raw("if 1:", (1, "break"), "end"))
        return rule, "reject"
    if rule == "redeclared variable":
        if not pt.visible:
            return None
        n = ch.choice(sorted(pt.visible))
        k = ch.int(0, 4)
        rows = [f"int {n} = 1"], [f"bytes {n}"], [f"for {n} in 0:1:", (1, 'log("zz")'), "end"], [f'box<{st}> {n} = Box("zz")'], [f"{st} {n}"]
        if k > 2 and not st:
            return None
        insert(pt, Raw(*rows[k]))
        return rule, "reject"
    if rule == "redeclared parameter":
        fs = [f for f in funcs if f.params]
        if not fs:
            return None
        f = ch.choice(fs)
        if ch.bool(0.7):
            q = [x for x in pts if x.cont is f]
            insert(ch.choice(q), Raw(ch.choice(["int {} = 1", "bytes {}"]).format(ch.choice(f.params).name)))
        else:
            f.params.insert(ch.int(0, len(f.params)), ch.choice(f.params))
        return rule, "reject"
    if rule == "undeclared":
        rows = [[f"log(itob({zz}))"], [f"{zz} = 1"], [f"{zz}()"], [f"int zzq = {zz}()"], ["log(itob(QZQ))"], ["log(QZQ)"], ["Zzs zzq = bzero(8)"],
                ['box<Zzs> zzq = Box("a")'], [f"{zz}.a = 1"], [f"log({zz}.a)"], [f"assert({zz})"], [f"if {zz}:", (1, 'log("a")'), "end"],
                [f"while {zz}:", (1, 'log("a")'), "end"], [f"for i9 in {zz}:3:", (1, 'log("a")'), "end"], [f"for i9 in 0:{zz}:", (1, 'log("a")'), "end"],
                [f"if 1:", (1, 'log("a")'), f"elif {zz}:", (1, 'log("a")'), "end"], [f"_, {zz} = addw(1, 2)"], [f"inner_txn:", (1, f"Fee: {zz}"), "end"],
                ["inner_txn:", (1, "Zz: 1"), "end"], [f"log(Txn.Zz)"], [f"int zzq = Gtxn[{zz}].Fee"], [f"int zzq = 1 + {zz}"], ["zzt zzq = 1"], [f"exit({zz})"],
                [f"push({zz})"], [f"Error({zz})"], [f"log(concat(\"a\", itob({zz})))"], ["log(SizeOf(Zzs))"], [f"int zzq = Txn.ApplicationArgs[{zz}]"], [f"zzq, _ = {zz}(1)"],
                [f'assert({zz}, "msg")'], [f"box<{zz}> q = Box(\"a\")"], [f"int zzq = !{zz}"], ["app_global_put(QZQ, 1)"], ["zz_op(1)"], [f"for _ in 0:{zz}:", (1, 'log("a")'), "end"]]
        r = ch.choice(rows)
        if r[0].startswith("exit") and pt.func is None and pt.top:
            return None
        insert(pt, Raw(*r))
        return rule, "reject"
    if rule == "undeclared in a definition":
        k = ch.int(0, 5)
        if k == 0:
            p.body[-1] = Raw(f"switch {zz}:", (1, "else: zzb"), "end")
            p.after.append(Raw("block zzb:", (1, "exit(1)"), "end"))
        elif k == 1:
            p.after.append(Raw("func zzf(a: Zzs):", (1, "return"), "end"))
        elif k == 2:
            p.after.append(Raw("func zzf() Zzs:", (1, "return bzero(8)"), "end"))
        elif k == 3:
            p.after.append(Raw("func zzf() int:", (1, f"return {zz}"), "end"))
        elif k == 4:
            p.body.insert(0, Raw("struct Zza:", (1, "a: Zzs"), "end"))
        else:
            p.body[-1] = Raw(f"exit({zz})")
        return rule, "reject"
    if rule == "out of scope variable":
        chain = set(pt.visible)
        for s in pt.scopes:
            chain |= set(s)
        chain |= chain_names(p, pt)
        bad = sorted(names - chain)
        if not bad:
            return None
        n = ch.choice(bad)
        insert(pt, Raw(ch.choice(["log(itob({}))", "log({})", "{} = 1", '{} = "a"', "assert({})", "int zzq = 1 + {}", "log({}.a)", "{}.a = 1"]).format(n)))
        return rule, "reject"
    if rule == "used before its declaration":
        # in the same body, nothing of that name visible before
        cands = []
        for x in pts:
            for j in range(x.i, len(x.body)):
                for n in declared(x.body[j]):
                    if n not in x.visible:
                        cands.append((x, n))
        if not cands:
            return None
        x, n = ch.choice(cands)
        insert(x, Raw(ch.choice(["log(itob({}))", "log({})", "{} = 1", "assert({})"]).format(n)))
        return rule, "reject"
    if rule == "loop variable after the loop":
        cands = [(x, s.var.name) for x in pts for s in [x.body[x.i - 1] if x.i else None] if isinstance(s, For) and s.var]
        cands += [(x, n) for x in pts for s in [x.body[x.i - 1] if x.i else None] if isinstance(s, (While, For)) for d in s.body for n in declared(d)]
        cands = [(x, n) for x, n in cands if n not in x.visible]
        if not cands:
            return None
        x, n = ch.choice(cands)
        insert(x, Raw(ch.choice(["log(itob({}))", "log({})", "{} = 1"]).format(n)))
        return rule, "reject"
    if rule == "function not visible":
        bl, fn = visible(p, pt)
        bad = [f for f in funcs if f.name not in fn]
        if not bad:
            return None
        f = ch.choice(bad)
        call = f"{f.name}({', '.join(plain(v.ty) for v in f.params)})"
        if len(f.rets) == 1:
            call = f"{'int' if f.rets[0].is_int else 'bytes'} zzq = {call}"
        elif f.rets:
            call = ", ".join("_" for _ in f.rets) + " = " + call
        insert(pt, Raw(call))
        return rule, "reject"
    if rule == "target not visible":
        c = ch.choice([p] + blocks)
        q = Point(c.body, len(c.body) - 1, None if c is p else c, [], [], [], {})
        bl, fn = visible(p, q)
        bad = [b.name for b in blocks if b.name not in bl] + [zz]
        n = ch.choice(bad) if ch.bool() else bad[0]
        k = ch.int(0, 3)
        if k == 0:
            c.body[-1] = Raw(f"jump {n}")
        elif k == 1:
            c.body[-1] = Raw("switch 1:", (1, f"1: {n}"), "end")
        elif k == 2:
            c.body[-1] = Raw("switch 1:", (1, f"1: {sorted(bl)[0] if bl else n}"), (1, f"else: {n}"), "end")
        else:
            insert(pt, Raw("jump zz_" + n)) if not (pt.top and not pt.func) else insert(pt, Raw("if 1:", (1, "jump zz_" + n), "end"))
        return rule, "reject"
    if rule == "jump to a function":
        if not funcs:
            return None
        f = ch.choice(funcs).name
        if f in {b.name for b in blocks}:
            return None
        c = ch.choice([p] + blocks)
        c.body[-1] = Raw(f"jump {f}")
        return rule, "reject"
    if rule == "route":
        if not isinstance(p.body[-1], Router):
            return None
        r = p.body[-1]
        k = ch.int(0, 3)
        f = ch.choice(r.routes)
        if k == 0:
            f.public = f.oc = f.decos = None
        elif k == 1:
            r.routes[ch.int(0, len(r.routes) - 1)] = Func(zz, [], [])
        elif k == 2:
            p.after.append(Raw("func zzf():", (1, "return"), "end"))
            r.routes.append(Func("zzf", [], []))
        else:
            f.decos = [ch.choice(["@zz()", "@publi()", "@public_()"])]
            f.public = False
        return rule, "reject"
    if rule == "unbalanced":
        lines = p.lines()
        k = ch.int(0, 5)
        ends = [i for i, l in enumerate(lines) if l[1] == "end" and lines[i - 1][1] != "teal:" and not isinstance(lines[i - 1][2], tuple)]
        i = ch.int(1, len(lines))
        if k == 0:
            if not ends:
                return None
            lines.pop(ch.choice(ends))
        elif k == 1:
            lines.append((0, "end", None))
        elif k == 2:
            lines = lines[:-1] if lines[-1][1] == "end" else lines + [(0, "if 1:", None)]
        elif k == 3:
            insert(pt, Raw(ch.choice(["else:", "elif 1:"]))) if not any(isinstance(s, If) for s in pt.path[-1:]) else insert(pt, Raw("while 1:", (1, "else:"), (1, 'log("a")'), "end"))
            lines = p.lines()
        elif k == 4:
            insert(pt, Raw("if 1:", (1, 'log("a")'), "else:", (1, 'log("a")'), ch.choice(["else:", "elif 1:"]), (1, 'log("a")'), "end"))
            lines = p.lines()
        else:
            insert(pt, Raw(ch.choice(["inner_txn:", "switch 1:", "struct Zz:", "router:"]), (1, "if 1:"), (2, 'log("a")'), (1, "end"), "end"))
            lines = p.lines()
        return rule, "reject", "\n".join("    " * i + t for i, t, _ in lines)
    if rule == "duplicate block":
        x = [y for y in parents(p) if isinstance(y[2], Block)]
        if not x:
            return None
        after, i, b, cont, bl, fn = ch.choice(x)
        after.insert(ch.int(0, len(after)), Raw(f"block {b.name}:", (1, "exit(1)"), "end"))
        return rule, "reject"

    # ---------------------------------------------------------------- valid programs
    if rule == "valid":
        return rule, "accept"
    if rule == "valid break":
        pt = next((x for x in ch.shuffle(pts) if x.in_while), None)
        if not pt:
            return None
        insert(pt, Raw("break") if ch.bool() else Raw("if 1:", (1, 'log("a")'), "else:", (1, "if 0:", ), (2, "break"), (1, "end"), "end"))
        return rule, "accept"
    if rule == "valid return":
        pt = next((x for x in ch.shuffle(pts) if x.func and rets_plain(x.func)), None)
        if not pt:
            return None
        t = ret_text(pt.func)
        insert(pt, Raw(t) if ch.bool() else Raw("while 0:", (1, "if 1:"), (2, t), (1, "end"), "end"))
        return rule, "accept"
    if rule == "valid definition":
        c = ch.choice([p] + blocks)
        d = ch.choice([["block zzb:", (1, "exit(1)"), "end"], ["func zzf():", (1, "return"), "end"], ["@public()", "func zzf():", (1, "return"), "end"],
                       ["func zzf(zza: int) int:", (1, "return zza"), "end"], ["block zzb:", (1, "int zzv = 1"), (1, "if zzv:"), (2, "jump zzc"), (1, "end"), (1, "jump zzb"),
                                                                              (1, "block zzc:"), (2, "exit(zzf())"), (1, "end"), (1, "func zzf() int:"),
                                                                              (2, "return zzv"), (1, "end"), "end"]])
        c.after.insert(ch.int(0, len(c.after)), Raw(*d))
        return rule, "accept"
    if rule == "valid disjoint names":
        a, b = ch.choice(pts), ch.choice(pts)
        rows = ["while 0:", (1, "int zzv = 1"), (1, "zzv = zzv + 1"), "end"], ["for zzv in 0:2:", (1, "log(itob(zzv))"), "end"], \
            ["while 0:", (1, 'bytes zzv = "a"'), (1, "log(zzv)"), "end"]
        x, y = ch.choice(rows), ch.choice(rows)
        if a.body is b.body and a.i < b.i:
            a, b = b, a
        insert(a, Raw(*x))
        insert(b, Raw(*y))
        return rule, "accept"
    if rule == "valid statement":
        rows = [['log("zz")'], ["int zzq = 1"], ["if 1:", (1, "int zzq = 1"), "end"], ["while 0:", (1, "break"), "end"], ["for zzi in 0:2:", (1, "log(itob(zzi))"), "end"],
                ["inner_txn:", (1, "Fee: 0"), "end"], ["teal:", (1, "int 1"), (1, "pop"), "end"], ["# comment"], [""], ["const int QZQ = 1"], ["if 1:", (1, "exit(1)"), "end"],
                ["assert(1, \"zz\")"], ["int zzq", "bytes zzr", "zzq, zzr = app_global_get_ex(0, \"a\")"][:1], ["if 0:", (1, 'log("a")'), "elif 1:", (1, 'log("b")'), "else:", (1, 'log("c")'), "end"]]
        if not isinstance(pt.body, list):
            return None
        insert(pt, Raw(*ch.choice(rows)))
        return rule, "accept"
    if rule == "valid use":
        vs = [(n, v) for n, v in sorted(pt.visible.items()) if v.ty.kind in ("int", "bytes") and (v.ty.is_int or v.ty.is_bytes)]
        if not vs:
            return None
        n, v = ch.choice(vs)
        if ch.bool():
            insert(pt, Raw(f"log(itob({n}))" if v.ty.is_int else f"log({n})"))
        else:
            insert(pt, Raw(f"{n} = {n}"))
        return rule, "accept"
    if rule == "valid call":
        bl, fn = visible(p, pt)
        fs = [f for f in fn.values() if f is not pt.func]
        if not fs:
            return None
        f = ch.choice(fs)
        if any(v.ty.kind in ("box", "bigint", "struct") for v in f.params):
            return None
        call = f"{f.name}({', '.join(plain(v.ty) for v in f.params)})"
        if f.rets:
            call = ", ".join("_" for _ in f.rets) + " = " + call if len(f.rets) > 1 else "_ = " + call
        insert(pt, Raw(call))
        return rule, "accept"
    if rule == "valid jump":
        if pt.func:
            return None
        bl, fn = visible(p, pt)
        if not bl:
            return None
        n = ch.choice(sorted(bl))
        insert(pt, Raw("if 1:", (1, f"jump {n}"), "end"))
        return rule, "accept"
    if rule == "valid struct":
        p.body.insert(0, Raw("struct Zzs:", (1, "a: int"), (1, "b: bytes[4]"), "end"))
        pts2, _ = walk(p)
        insert(ch.choice(pts2[1:] or pts2[:1]), Raw("Zzs zzq = bzero(12)", "zzq.a = 1", "log(zzq.b)")) if len(pts2) > 1 else None
        return rule, "accept"
    if rule == "valid comments":
        for _ in range(ch.int(1, 4)):
            insert(ch.choice(walk(p)[0][1 if p.pragma is None else 0:] or pts), Raw(ch.choice(["# c", "", "# end", "# if x:"])))
        for c in [p] + blocks:
            if ch.bool(0.3):
                c.after.insert(ch.int(0, len(c.after)), Raw(ch.choice(["# c", "", "# end"])))
        for f in funcs:
            if ch.bool(0.3):
                f.body.append(Raw(ch.choice(["# c", ""])))
        return rule, "accept"
    raise AssertionError(rule)


def chain_names(p, pt):
    """every variable declared anywhere in the scopes around the point"""
    out = set()
    for s in pt.later:
        out |= set(s)
    return out


RULES = ["valid", "valid break", "valid return", "valid definition", "valid disjoint names", "valid statement", "valid use", "valid call", "valid jump", "valid struct",
         "valid comments",
         "struct not first", "struct after the end", "definition before exit", "definition before exit", "no exit before definitions", "block without exit", "statement after exit",
         "function without return", "function without return", "empty function", "return outside function", "return outside function", "wrong number of returns",
         "wrong number of returns", "break outside while", "break outside while", "redeclared variable", "redeclared variable", "redeclared parameter", "undeclared", "undeclared",
         "undeclared", "undeclared", "undeclared in a definition", "out of scope variable", "out of scope variable", "used before its declaration",
         "loop variable after the loop", "function not visible", "target not visible", "jump to a function", "route", "route", "unbalanced", "unbalanced", "duplicate block"]


def gen(ch):
    p, g = anyprog.program(ch)
    for _ in range(5):
        r = mutate(ch, p, g)
        if r is not None:
            break
    else:
        raise Skip("rule does not apply")
    return {"src": r[2] if len(r) > 2 else p.source(), "rule": r[0], "expect": r[1]}


def check(case):
    src = case["src"]
    try:
        compile_program(src)
        got = "accept"
    except Rejected as e:
        got = "reject"
        why = str(e)
    if got != case["expect"]:
        raise Violation(case["rule"], "a program that breaks the rule is accepted" if got == "accept" else f"a valid program is rejected: {why}")
    return {"nontrivial": src.count("\n") >= 3, "key": src, "tags": [case["rule"], case["expect"]], "counts": {"lines": src.count("\n") + 1}}


def show(case):
    return case
