"""C18: opcodes, fields and signatures against generated language specifications."""
import contextlib, io, json, os, re, resource, shutil, signal, sys, tempfile, traceback
from vlib import avm
from vlib.tl import REPO, Skip, Violation, tealish  # noqa: F401  (its dependencies are loaded once, before forking)
PROPERTY = "C18"
QUICK, THOROUGH = 1500, 120000
RULE = "Case = a language specification made from the packaged one by removing, adding, renaming and changing opcodes (arguments, results, immediates, fields) or no local one at all, " \
       "and 3-10 programs that call opcodes, operators and fields of either, correctly or with one thing wrong (count, type, immediate, number or type of " \
       "names, unknown opcode); a fresh import in a directory with that specification must accept exactly the correct ones, emit each opcode with its immediates on its " \
       "arguments, give results in its order, print true signatures and report precisely the opcodes that differ. Non-trivial: the specification differs from the " \
       "packaged one or a program is to be rejected."
ASSUMES = ["opcodes that the generator never changes (log, itob, pushint, load, store ...) are as in the packaged specification"]

CORE = {"log", "itob", "pushint", "pushbytes", "load", "store", "pop", "return", "itxn_begin", "itxn_submit", "callsub", "retsub", "b", "bz", "bnz", "err", "txn", "global", "txna", "itxn_field", "==",
        "assert", "bzero", "int", "byte", "addr", "gtxn", "itxn", "gtxns", "gtxna", "itxna", "concat", "btoi", "dup", "swap", "gtxnsa", "txnas", "gtxnas", "itxnas", "gitxna"}
# not calls in Tealish, or of no fixed arity
NOCALL = {"return", "assert", "bzero", "push", "b", "exit", "intcblock", "method", "dup", "dup2", "swap", "select", "cover", "uncover", "dig", "bury", "dupn", "popn", "proto", "frame_dig",
          "frame_bury", "retsub", "callsub", "pop", "err", "store", "load", "stores", "loads", "args", "match", "switch"}
OPS1, OPS2 = ["!", "~", "b~"], ["+", "-", "*", "/", "%", ">=", "<=", "<", ">", "!=", "==", "&&", "||", "|", "&", "^", "b+", "b-", "b/", "b*", "b%", "b==", "b!=", "b>=", "b<=", "b>", "b<", "b|", "b&", "b^"]
PACKAGED = None


def packaged():
    global PACKAGED
    if PACKAGED is None:
        with open(os.path.join(REPO, "tealish", "langspec.json")) as f:
            PACKAGED = json.load(f)
    return PACKAGED


def edit(spec, edits):
    ops = [dict(o) for o in spec["Ops"]]
    for e in edits:
        at = {o["Name"]: i for i, o in enumerate(ops)}
        if e[0] == "add":
            if e[1]["Name"] not in at:
                ops.insert(e[2] % (len(ops) + 1), e[1])
        elif e[1] not in at:
            continue
        elif e[0] == "remove":
            ops.pop(at[e[1]])
        elif e[0] == "rename":
            if e[2] not in at:
                ops[at[e[1]]] = dict(ops[at[e[1]]], Name=e[2])
        elif e[0] == "set":
            o = dict(ops[at[e[1]]], **e[2])
            ops[at[e[1]]] = {k: v for k, v in o.items() if v is not None}
        elif e[0] == "field":
            # [.., op, name, type or None]
            o = dict(ops[at[e[1]]])
            if not o.get("ArgEnum") or not o.get("ArgEnumTypes"):
                continue
            f = dict(zip(o["ArgEnum"], o["ArgEnumTypes"]))
            f.pop(e[2], None)
            if e[3]:
                f[e[2]] = e[3]
            o["ArgEnum"], o["ArgEnumTypes"] = list(f), "".join(f.values())
            ops[at[e[1]]] = o
    return dict(spec, Ops=ops)


# ------------------------------------------------------------------ what a definition says

class Def:
    def __init__(self, o):
        self.name, self.args, self.rets = o["Name"], o.get("Args") or "", (o.get("Returns") or "")[::-1]
        self.nimm, note = o["Size"] - 1, o.get("ImmediateNote") or ""
        self.notes = re.findall(r"\{(.*?)\}", note)
        self.enum = dict(zip(o.get("ArgEnum") or [], o.get("ArgEnumTypes") or "U" * 99)) if o.get("ArgEnum") else {}
        self.callable = self.nimm >= 0 and "branch offset" not in note
        self.imms = []
        for n in self.notes if len(self.notes) == self.nimm else []:
            if self.enum and "field" in n and "array" not in n:
                self.imms.append("field")
            else:
                self.imms.append("int8" if "{int8" in "{" + n else "uint8" if "uint8" in n else "int")
        self.clear = len(self.imms) == self.nimm

    def sig(self):
        t = {"U": "int", "B": "bytes", ".": "any"}
        if self.name in OPS2:
            return ["A", self.name, "B"]
        if self.name in OPS1:
            return [self.name, "A"]
        return ["field" if k == "field" else "int" for k in self.imms] + [t[a] for a in self.args] + ["->"] + [t[a] for a in self.rets]


def defs(spec):
    d = {o["Name"]: Def(o) for o in spec["Ops"]}
    d["method"] = Def({"Name": "method", "Size": 2, "Returns": "B"})
    return d


# ------------------------------------------------------------------ generators

FIELDS = ["AssetX", "NewField", "Foo", "Zzz", "RoundOf", "Price2", "KeyReg", "A1b", "Fee", "Of_x", "Bar", "Qux9"]
STEMS = ["foo", "bar_x", "q9", "new_op", "zz", "ec_add", "intx", "log2", "itobb", "txn_foo", "b_x", "assert_all", "iff", "structs", "end_", "sha256x", "vrf", "pushx", "func_x", "x", "b64", "box_foo", "aB",
         "returns", "breaks", "inx", "notx", "e1", "json_foo"]


def types(ch, lo, hi):
    return "".join(ch.weighted([(3, "U"), (3, "B"), (1, ".")]) for _ in range(ch.int(lo, hi)))


def opdef(ch, name):
    o = {"Opcode": ch.int(200, 255), "Name": name}
    a, r = types(ch, 0, ch.weighted([(4, 3), (1.5, 8)])), types(ch, 0, ch.weighted([(1, 0), (3, 1), (3, 2), (1, 4)]))
    if a or ch.bool(0.2):
        o["Args"] = a
    if r or ch.bool(0.2):
        o["Returns"] = r
    n = ch.weighted([(5, 0), (3, 1), (2, 2), (1, 3)])
    o["Size"] = 1 + n
    notes = [ch.choice(["{uint8 start}", "{uint8 count}", "{int8 slot}", "{uint8 transaction field array index}", "{uint8 i}"]) for _ in range(n)]
    if n and ch.bool(0.5):
        notes[ch.int(0, n - 1)] = ch.choice(["{uint8 new field index}", "{uint8 transaction field index}"])
        if ch.bool(0.9):
            o["ArgEnum"] = sorted({ch.choice(FIELDS) for _ in range(ch.int(1, 4))})
            if ch.bool(0.8):
                o["ArgEnumTypes"] = "".join(ch.choice("UB") for _ in o["ArgEnum"])
    if notes:
        o["ImmediateNote"] = " ".join(notes)
    if ch.bool(0.1):
        o["Size"], o["ImmediateNote"] = (0, "{varuint length} {bytes}") if ch.bool() else (3, "{int16 branch offset, big-endian}")
        o.pop("ArgEnum", None)
        o.pop("ArgEnumTypes", None)
    if ch.bool(0.7):
        o.update(Doc="does é", Groups=["Arithmetic"])
    return o


def edits(ch):
    base = packaged()
    names = [o["Name"] for o in base["Ops"] if o["Name"] not in CORE]
    calls = [n for n in names if re.fullmatch(r"[a-z]\w*", n)]
    out, used = [], set()
    for _ in range(ch.weighted([(1, 0), (4, 3), (4, 7), (1, 20)])):
        k = ch.weighted([(3, "remove"), (5, "add"), (1, "rename"), (3, "set"), (2, "field"), (1, "enum")])
        if k == "remove":
            out.append(["remove", ch.choice(names)])
        elif k == "add":
            s = ch.choice(STEMS)
            s = s if s not in used else s + str(len(used))
            used.add(s)
            out.append(["add", opdef(ch, s), ch.int(0, 180)])
        elif k == "rename":
            out.append(["rename", ch.choice(calls), ch.choice(STEMS) + "_r"])
        elif k == "set":
            n = ch.choice(names)
            o = next(o for o in base["Ops"] if o["Name"] == n)
            if n in OPS1 or n in OPS2:
                if n in ("==", "!="):
                    continue
                t = ch.choice("UB")
                v = {"Args": t * len(o["Args"]) if ch.bool(0.7) else "".join(ch.choice("UB.") for _ in o["Args"]), "Returns": ch.choice("UB")}
            else:
                d = opdef(ch, n)
                v = {x: d.get(x) for x in (["Args"] if ch.bool() else ["Returns"] if ch.bool() else ["Args", "Returns"])} if ch.bool(0.7) else \
                    {x: d.get(x) for x in ("Args", "Returns", "Size", "ImmediateNote", "ArgEnum", "ArgEnumTypes")}
            out.append(["set", n, v])
        elif k == "field":
            o = ch.choice(["txn", "global", "itxn_field"])
            e = next(x for x in base["Ops"] if x["Name"] == o)["ArgEnum"]
            out.append(["field", o, ch.choice([f for f in e if f != "Sender"]) if ch.bool() else ch.choice(FIELDS), ch.choice(["U", "B", None, None])])
        else:
            o = ch.choice(["asset_holding_get", "asset_params_get", "app_params_get", "acct_params_get"])
            e = next(x for x in base["Ops"] if x["Name"] == o)["ArgEnum"]
            out.append(["field", o, ch.choice(e) if ch.bool() else ch.choice(FIELDS), ch.choice(["U", "B", None])])
    return out


class P:
    """one program; self.ok: it is correct"""

    def __init__(self, ch, d, d0):
        self.ch, self.d, self.d0 = ch, d, d0
        self.head, self.body, self.tail, self.ev, self.n = [], [], [], [], 0
        self.ok, self.vals, self.open = True, {}, False
        self.usable = [x for x in d.values() if x.callable and x.clear and x.name not in NOCALL and re.fullmatch(r"[a-z][A-Za-z_0-9]*", x.name)]
        self.wrong = None

    def fresh(self):
        self.n += 1
        return f"v{self.n}"

    # expressions: (text, type, events, term)
    def lit(self, t):
        ch = self.ch
        if t == ".":
            t = ch.choice("UB")
        if t == "U":
            n = ch.int(0, 1000)
            return str(n), "U", [], ["int", n]
        s = ch.choice(["", "a", "bc", "#", "//", "x y"])
        return f'"{s}"', "B", [], ["bytes", s.encode().hex()]

    def var(self, t):
        t = self.ch.choice("UB") if t == "." else t
        v, e = self.fresh(), self.lit(t)
        self.body.append(f"{'int' if t == 'U' else 'bytes'} {v} = {e[0]}")
        return v, t, [], e[3]

    def expr(self, t, depth=2):
        ch = self.ch
        k = ch.weighted([(4, "lit"), (2, "var"), (3 if depth else 0, "call"), (1.5 if depth else 0, "op")])
        if k == "call":
            c = [x for x in self.usable if len(x.rets) == 1 and (x.rets == t or t == "." or x.rets == ".") and len(x.args) < 5]
            if c:
                return self.call(ch.choice(c), depth - 1)
        if k == "op":
            c = [self.d[x] for x in OPS1 + OPS2 if x in self.d and (t == "." or self.d[x].rets in (t, "."))]
            if c:
                return self.operator(ch.choice(c), depth - 1)
        return self.lit(t) if k != "var" else self.var(t)

    def operator(self, x, depth=1, wrong=None):
        ch, args = self.ch, []
        for i, a in enumerate(x.args):
            if x.name in ("==", "!="):
                a = args[0][1] if i else ch.choice("UB")
                args.append(self.lit(a))
            elif wrong == "type" and i == self.bad:
                args.append(self.lit("B" if a == "U" else "U"))
            else:
                args.append(self.expr(a, depth))
        ps = [f"({e[0]})" if re.search(r"[ !~]", re.sub(r'"[^"]*"|\([^()]*\)', "", e[0])) else e[0] for e in args]
        # a group holds a binary expression only
        if any(p.startswith("(") and p[1] in "!~" or p.startswith("(b~") for p in ps):
            args = [e if wrong == "type" and i == self.bad else self.lit(a if a != "." else e[1]) for i, (a, e) in enumerate(zip(x.args, args))]
            ps = [e[0] for e in args]
        text = f"{x.name}{ps[0]}" if len(ps) == 1 else f"{ps[0]} {x.name} {ps[1]}"
        ev = sum((e[2] for e in args), [])
        term = [x.name, [], [e[3] for e in args], 0]
        return text, x.rets, ev + [term[:3]], term

    def imm(self, x, i):
        ch, k = self.ch, x.imms[i]
        if k == "field":
            f = ch.choice(sorted(x.enum))
            return f, f
        n = ch.choice([0, 1, 2, 127, 100]) if k == "int8" else ch.choice([0, 1, 255, 254, 128, 7])
        if ch.bool(0.15):
            c = f"KK{len(self.head)}"
            self.head.append(f"const int {c} = {n}")
            return c, str(n)
        return str(n), str(n)

    def call(self, x, depth=2, wrong=None):
        """a call of x, with one thing wrong"""
        ch = self.ch
        imms = [self.imm(x, i) for i in range(x.nimm)]
        args = [self.expr(a, depth) if not (wrong == "type" and i == self.bad) else self.misfit(a) for i, a in enumerate(x.args)]
        texts = [t for t, _ in imms] + [e[0] for e in args]
        if wrong == "count":
            if texts and ch.bool():
                texts.pop(ch.int(0, len(texts) - 1))
            else:
                texts.insert(ch.int(0, len(texts)), self.lit(".")[0])
        elif wrong == "imm":
            i = ch.int(0, x.nimm - 1)
            if x.imms[i] == "field":
                texts[i] = ch.choice(["NoSuch", "Nope", "3", '"Foo"'])
            else:
                texts[i] = ch.choice([str({"int8": 128, "uint8": 256}[x.imms[i]]), "1000", '"a"', "v0", "1 + 2", "NoSuch", "Fee1"])
                if texts[i] == "v0":
                    self.body.append("int v0 = 1")
        ev = sum((e[2] for e in args), [])
        term = [x.name, [v for _, v in imms], [e[3] for e in args], 0]
        return f"{x.name}({', '.join(texts)})", x.rets, ev + [term[:3]], term

    def misfit(self, a):
        """an expression that is no value of a type a argument"""
        ch = self.ch
        k = ch.choice(["kind", "kind", "none", "many"])
        c = [x for x in self.usable if (not x.rets if k == "none" else len(x.rets) > 1) and len(x.args) < 4]
        if k != "kind" and c or a == ".":
            if not c:
                self.ok = True
                raise Skip("no misfit")
            return self.call(ch.choice(c), 0)
        return self.lit("B" if a == "U" else "U")

    def sink(self, v, t, term):
        if t == "U":
            self.body.append(f"log(itob({v}))")
            self.ev += [["itob", [], [term]], ["log", [], [["itob", [], [term], 0]]]]
        else:
            self.body.append(f"log({v})")
            self.ev.append(["log", [], [term]])

    def use(self, e, x):
        """statement(s) that take the results of e; a wrong number or type of names if self.wrong says so"""
        ch, (text, rets, ev, term) = self.ch, e
        w = self.wrong
        self.ev += ev
        tys = [t if t != "." else ch.choice("UB") for t in rets]
        terms = [term[:3] + [k] for k in range(len(rets))]
        if w == "names":
            k = ch.choice([n for n in (0, 1, 2, len(rets) - 1, len(rets) + 1) if n >= 0 and n != len(rets)])
            tys = [tys[i] if i < len(tys) else ch.choice("UB") for i in range(k)]
        elif w == "vartype":
            i = self.bad % len(rets)
            i = next(j % len(rets) for j in range(i, i + len(rets)) if rets[j % len(rets)] != ".")
            tys[i] = "B" if rets[i] == "U" else "U"
        if not tys:
            self.body.append(text)
            return
        vs = [self.fresh() for _ in tys]
        ts = ["int" if t == "U" else "bytes" for t in tys]
        if len(tys) == 1 and ch.bool(0.6):
            self.body.append(f"{ts[0]} {vs[0]} = {text}")
        elif len(tys) == 1 and not w and ch.bool(0.4):
            # used in place
            return self.sink(text if " " not in re.sub(r'"[^"]*"|\(.*\)', "", text) and text[0] not in "!~" or tys[0] == "B" else text, tys[0], terms[0])
        else:
            if len(tys) > 1 and ch.bool(0.2) and w is None:
                vs[ch.int(0, len(tys) - 1)] = "_"
            self.body += [f"{t} {v}" for t, v in zip(ts, vs) if v != "_"]
            self.body.append(f"{', '.join(vs)} = {text}")
        for v, t, term in list(zip(vs, tys, terms)):
            if v != "_":
                self.sink(v, t, term)

    def statement(self):
        ch = self.ch
        nf = any(self.d[o].enum != self.d0[o].enum for o in ("txn", "global"))
        k = ch.weighted([(8, "call"), (2, "oper"), (2, "gone"), (7 if nf else 2, "field"), (1, "inner"), (1, "func"), (0.7, "uncallable"), (0.3, "method")])
        new = [x for x in self.usable if x.name not in self.d0 or vars(self.d0[x.name]) != vars(x)]
        x = ch.choice(new) if new and ch.bool(0.75) else ch.choice(self.usable)
        w = self.wrong
        if k == "call":
            if w == "type":
                c = [i for i, a in enumerate(x.args)]
                long = [y for y in self.usable if len(y.args) >= 5]
                if long and ch.bool(0.4):
                    x = ch.choice(long)
                    c = list(range(len(x.args)))
                if not c:
                    raise Skip("no argument")
                self.bad = c[-1] if ch.bool(0.4) else ch.choice(c)
            elif w == "imm" and not x.nimm or w == "vartype" and not x.rets.replace(".", ""):
                raise Skip("nothing to be wrong")
            self.bad = getattr(self, "bad", ch.int(0, 9))
            self.use(self.call(x, 2, w), x)
        elif k == "oper":
            c = [self.d[n] for n in OPS1 + OPS2 if n in self.d]
            ck = [y for y in c if y.name in self.d0 and vars(self.d0[y.name]) != vars(y)]
            x = ch.choice(ck) if ck and ch.bool(0.7) else ch.choice(c)
            self.bad = 0
            if w == "type":
                bad = [i for i, a in enumerate(x.args) if a != "."]
                if not bad:
                    raise Skip("nothing to be wrong")
                self.bad = ch.choice(bad)
            elif w in ("count", "imm") or w == "vartype" and x.rets == ".":
                raise Skip("nothing to be wrong")
            self.use(self.operator(x, 1, w), x)
        elif k == "gone":
            # opcodes that the other specification has
            c = [y for n, y in self.d0.items() if n not in self.d and n not in NOCALL]
            x = ch.choice(c) if c else None
            if x is None:
                x = Def({"Name": "no_such_op", "Size": 1, "Args": "U", "Returns": "U"})
            w = self.wrong = "gone"
            if f"func {x.name}(a: int) int:" in self.tail:
                raise Skip("a function of that name")
            if x.name in OPS1 + OPS2:
                self.use(self.operator(x, 0), x)
            elif not x.callable or not x.clear:
                raise Skip("not callable")
            else:
                self.use(self.call(x, 0), x)
        elif k == "field":
            self.field()
        elif k == "inner":
            t = self.d["itxn_field"].enum
            gone = [f for f in self.d0["itxn_field"].enum if f not in t]
            new = [f for f in t if f not in self.d0["itxn_field"].enum or self.d0["itxn_field"].enum[f] != t[f]]
            arr = set(self.d["txna"].enum)
            f = ch.choice(new) if new and ch.bool(0.7) else ch.choice([f for f in sorted(t) if f not in arr])
            if f in arr:
                raise Skip("array field")
            if w:
                w = self.wrong = "inner"
            if w and (gone and ch.bool(0.7)):
                f = ch.choice(gone)
                if f in arr:
                    raise Skip("array field")
                e = self.lit(".")
            else:
                e = self.lit(("B" if t[f] == "U" else "U") if w else t[f])
            self.body += ["inner_txn:", f"    {f}: {e[0]}", "end"]
            self.ev += [["itxn_begin", [], []], ["itxn_field", [f], [e[3]]], ["itxn_submit", [], []]]
        elif k == "func":
            # a user function whose name is an opcode of either specification
            c = [n for n in sorted(set(self.d) | set(self.d0)) if re.fullmatch(r"[a-z][a-z_0-9]*", n) and n not in NOCALL and n not in CORE and (n not in self.d or self.d[n].clear and self.d[n].callable)]
            c = [n for n in c if (n in self.d) != (n in self.d0)] or c
            n = ch.choice(c)
            if w:
                raise Skip("nothing to be wrong")
            self.tail += [f"func {n}(a: int) int:", "    return a", "end"]
            if n in self.d:
                x = self.d[n]
                self.use(self.call(x, 1), x)
            else:
                e = self.lit("U")
                self.body.append(f"int vf = {n}({e[0]})")
                self.ev.append(["callsub", [n], [e[3]]])
                self.sink("vf", "U", ["callsub", [n], [e[3]], 0])
        elif k == "uncallable":
            c = [y for y in self.d.values() if not y.callable and re.fullmatch(r"[a-z]\w*", y.name) and y.name not in NOCALL]
            x = ch.choice(c)
            self.wrong = "uncallable"
            self.body.append(ch.choice(["{}(1)", "{}()", "int q = {}(1)", "bytes q = {}(\"a\")", "{}(1, 2)", "log({}(\"a\"))"]).format(x.name))
        elif k == "method":
            if w:
                raise Skip("nothing to be wrong")
            self.body.append('log(method("f()void"))')
            self.ev += [["method", ['"f()void"'], []], ["log", [], [["method", ['"f()void"'], [], 0]]]]

    def field(self):
        ch, w = self.ch, self.wrong
        differ = [o for o in ("txn", "global") if self.d[o].enum != self.d0[o].enum]
        ns = ch.choice(["Txn", "Txn", "Global", "Global", "Itxn", "Gtxn[0]", "Gtxn[v0]"] if len(differ) != 1 or ch.bool(0.3) else ["Txn", "Itxn", "Gtxn[0]", "Gtxn[v0]"] if differ == ["txn"] else ["Global"])
        op = "global" if ns == "Global" else "txn"
        e, e0, arr = self.d[op].enum, self.d0[op].enum, set(self.d["txna"].enum)
        if w:
            w = self.wrong = "field"
            gone = [f for f in e0 if f not in e]
            gone = gone if gone and ch.bool(0.8) else ["NoSuch", "Nope3"] + gone
            if ch.bool():
                f, t, ty = ch.choice(gone), None, ch.choice(["int", "bytes"])
            else:
                f = ch.choice(sorted(e))
                t = "B" if f == "Sender" else e[f]
                ty = "bytes" if t == "U" else "int"
        else:
            new = [f for f in e if e0.get(f) != e[f]]
            f = ch.choice(new) if new and ch.bool(0.7) else ch.choice(sorted(e))
            t = "B" if f == "Sender" else e[f]
            ty = "int" if t == "U" else "bytes"
        idx = []
        if op == "txn" and f in arr:
            idx = [str(ch.int(0, 3))]
        if ns == "Gtxn[v0]":
            self.body.append("int v0 = 2")
        v = self.fresh()
        self.body.append(f"{ty} {v} = {ns}.{f}" + (f"[{idx[0]}]" if idx else ""))
        a = "a" if idx else ""
        args = []
        if ns == "Gtxn[v0]":
            ins, imms, args = f"gtxns{a}", [f] + idx, [["int", 2]]
        elif ns == "Gtxn[0]":
            ins, imms = f"gtxn{a}", ["0", f] + idx
        else:
            ins, imms = ns.lower() + a, [f] + idx
        term = [ins, imms, args]
        self.ev.append(term)
        self.sink(v, t or "U", term + [0])


def gen(ch):
    mode = ch.weighted([(8, "local"), (1, "none"), (0.5, "above"), (0.5, "below"), (0.3, "packaged")])
    eds = edits(ch) if mode != "packaged" else []
    d0 = defs(packaged())
    local = defs(edit(packaged(), eds))
    d, other = (local, d0) if mode in ("local", "packaged") else (d0, local)
    progs = []
    for _ in range(ch.int(3, 10)):
        p = P(ch, d, other)
        p.wrong = ch.choice(["count", "type", "imm", "names", "vartype"]) if ch.bool(0.4) else None
        p.bad = ch.int(0, 9)
        try:
            for _ in range(1 if p.wrong else ch.int(1, 3)):
                p.statement()
                if p.wrong:
                    break
        except Skip:
            continue
        src = "\n".join(["#pragma version 8"] + p.head + p.body + ["exit(1)"] + p.tail)
        if len(set(re.findall(r"^(?:int|bytes) v0", src, re.M))) and len(re.findall(r"^int v0", src, re.M)) > 1 or len(re.findall(r"^int vf", src, re.M)) > 1 \
           or len(p.tail) != len(set(p.tail)) + 2 * (len(p.tail) // 3 - 1) * bool(p.tail):
            continue
        progs.append({"src": src, "wrong": p.wrong, "ev": p.ev})
    eds2 = edits(ch) if ch.bool(0.3) else None
    return {"mode": mode, "edits": eds, "edits2": eds2, "progs": progs}


# ------------------------------------------------------------------ the fresh import

def fresh(case, base):
    for m in [m for m in sys.modules if m.split(".")[0] == "tealish"]:
        del sys.modules[m]
    here = os.path.join(base, "w")
    os.makedirs(os.path.join(here, "sub"))
    spec = edit(packaged(), case["edits"])
    where = {"local": here, "packaged": here, "above": base, "below": os.path.join(here, "sub")}.get(case["mode"])
    if where:
        with open(os.path.join(where, "langspec.json"), "w") as f:
            json.dump(spec, f)
    os.chdir(here)
    before = sorted(os.listdir(here))
    import tealish
    from tealish import cli, langspec as ls
    from tealish.errors import CompileError, ParseError
    out = {"progs": []}
    for p in case["progs"]:
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                out["progs"].append(["ok", tealish.compile_program(p["src"])[0]])
        except (CompileError, ParseError) as e:
            out["progs"].append(["rejected", str(e)])
        except Exception as e:
            out["progs"].append(["crash", f"{type(e).__name__}: {e}"])
    active = ls.get_active_langspec()
    out["sigs"] = {n: o.sig for n, o in active.ops.items()}
    out["packaged"] = active.is_packaged
    pk, loc = ls.packaged_lang_spec, ls.LangSpec(spec)
    out["compare"] = [list(x) for x in ls.compare_langspecs(pk, loc)]
    out["reverse"] = [list(x) for x in ls.compare_langspecs(loc, pk)]
    out["self"] = [list(x) for x in ls.compare_langspecs(loc, loc)]
    out["new"] = [list(loc.new_ops(pk)), list(pk.new_ops(loc))]
    out["local"] = list(ls.get_new_local_ops())
    out["local2"] = list(ls.get_new_local_ops(loc))
    if case["edits2"] is not None:
        b = ls.LangSpec(edit(packaged(), case["edits2"]))
        out["other"] = [list(x) for x in ls.compare_langspecs(loc, b)]
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        try:
            cli.cli.main(args=["langspec", "diff"], prog_name="tealish")
        except SystemExit as e:
            out["exit"] = e.code
    out["diff"] = text.getvalue()
    out["files"] = sorted(os.listdir(here)) == before
    return out


def run(case):
    base = tempfile.mkdtemp(prefix="c18_")
    try:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                os.close(rd)
                resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                try:
                    r = {"ok": fresh(case, base)}
                except BaseException:
                    r = {"error": traceback.format_exc()}
                with os.fdopen(wr, "w") as f:
                    f.write(json.dumps(r))
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as f:
            text = f.read()
        os.waitpid(pid, 0)
        return json.loads(text) if text else {"error": "the process ended"}
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ------------------------------------------------------------------ the oracle

def events(teal, d):
    """what the TEAL does, in terms of the definitions: [name, immediates, argument terms]"""
    stack, slots, ev, macros = [], {}, [], {}

    def pop():
        if not stack:
            raise Violation("stack", "an instruction finds too few values")
        return stack.pop()
    for line in teal:
        if line.strip().startswith("#pragma"):
            continue
        for t in avm.tokenize(line):
            if t[0] == "#define":
                macros[t[1]] = t[2:]
                continue
            t = [y for x in t for y in macros.get(x, [x])]
            op, imm = t[0], t[1:]
            if op.endswith(":") and len(t) == 1:
                continue
            if op == "pushint":
                stack.append(["int", int(imm[0])])
            elif op == "pushbytes":
                stack.append(["bytes", avm.parse_bytes(imm).hex()])
            elif op == "store":
                slots[imm[0]] = pop()
            elif op == "load":
                stack.append(slots.get(imm[0], ["int", 0]))
            elif op == "pop":
                pop()
            elif op == "return":
                if stack != [["int", 1]]:
                    raise Violation("stack", f"{stack} is on the stack at the end")
                return ev
            elif op == "callsub":
                n = re.sub(r".*__func__|^func__|^main__", "", imm[0])
                n = n[6:] if n.startswith("func__") else n
                e = ["callsub", [n], [pop()]]
                ev.append(e)
                stack.append(e + [0])
            elif op not in d:
                raise Violation("emitted", f"{op} is emitted, which the specification does not define")
            else:
                x = d[op]
                args = [pop() for _ in x.args][::-1]
                e = [op, imm, args]
                ev.append(e)
                stack += [e + [k] for k in range(len(x.rets))][::-1]
    raise Violation("end", "the program does not end")


def parse_sig(name, s):
    if name in OPS2 or name in OPS1:
        return re.findall(r"A|B|[^AB ]+", s) if name not in ("b~",) else [s[:-1], s[-1]]
    m = re.fullmatch(re.escape(name) + r"\((.*?)\)(?: -> (.*))?", s)
    if not m:
        return None
    return [a.split(":")[-1].strip() for a in m.group(1).split(",") if a] + ["->"] + [r.strip() for r in (m.group(2) or "").split(",") if r.strip()]


def check(case):
    r = run(case)
    if "error" in r:
        raise Violation("error", r["error"][-500:])
    r = r["ok"]
    spec = edit(packaged(), case["edits"])
    d0, dl = defs(packaged()), defs(spec)
    local = case["mode"] in ("local", "packaged")
    d = dl if local else d0
    if r["packaged"] == local:
        raise Violation("active", f"mode {case['mode']}: the active specification is {'the packaged' if r['packaged'] else 'a local'} one")
    tags = {"mode " + case["mode"]}
    for p, (kind, res) in zip(case["progs"], r["progs"]):
        what = f"\n{p['src']}\n"
        if kind == "crash":
            raise Violation("crash", res + what)
        if p["wrong"]:
            tags.add("wrong " + p["wrong"])
            if kind == "ok":
                raise Violation("accepted", f"although it has {p['wrong']} wrong:{what}{res}")
            continue
        if kind != "ok":
            raise Violation("rejected", f"{res}:{what}")
        tags.add("right")
        got = events(res, d)
        if got != p["ev"]:
            i = next((i for i, (a, b) in enumerate(zip(got + [None] * 99, p["ev"] + [None] * 99)) if a != b), 0)
            raise Violation("meaning", f"step {i} is {got[i:i + 1]}, the calls say {p['ev'][i:i + 1]}:{what}{res}")
    for n, s in r["sigs"].items():
        x = d.get(n)
        if x is None:
            raise Violation("ops", f"the active specification has {n}")
        if not x.clear or n == "method":
            continue
        if parse_sig(n, s) != x.sig():
            raise Violation("signature", f"{s!r} is the signature of {n}: {x.sig()}")
    if set(r["sigs"]) != set(d):
        raise Violation("ops", f"{sorted(set(d) - set(r['sigs']))} are missing")
    gone, new = sorted(set(d0) - set(dl)), sorted(set(dl) - set(d0))
    pairs = [("compare_langspecs", r["compare"], [gone, new]), ("compare_langspecs (reverse)", r["reverse"], [new, gone]), ("compare_langspecs (same)", r["self"], [[], []]),
             ("new_ops", r["new"], [new, gone]), ("get_new_local_ops", [r["local"], r["local2"]], [new if local else [], new])]
    if case["edits2"] is not None:
        d2 = defs(edit(packaged(), case["edits2"]))
        pairs.append(("compare_langspecs (two)", r["other"], [sorted(set(dl) - set(d2)), sorted(set(d2) - set(dl))]))
    for name, got, want in pairs:
        if [sorted(x) for x in got] != want:
            raise Violation("diff", f"{name} gives {got}, the specifications say {want}")
    lines = [l for l in r["diff"].split("\n") if l and not l.startswith("New ops @ ")]
    want = sorted(new if local else [])
    if r.get("exit", 0) != 0 or sorted(lines) != sorted(r["sigs"].get(n) for n in want):
        raise Violation("diff", f"langspec diff prints {r['diff']!r}, new are {want}")
    if not r["files"]:
        raise Violation("files", "langspec diff changes files")
    return {"nontrivial": bool(case["edits"]) or any(p["wrong"] for p in case["progs"]), "tags": sorted(tags), "key": json.dumps(case, sort_keys=True),
            "counts": {"programs": len(case["progs"])}}


def show(case):
    return {"mode": case["mode"], "edits": case["edits"], "progs": [[p["wrong"], p["src"]] for p in case["progs"][:4]]}
