"""C21: source maps: histories of build / update / serialise / query against a model of plain dictionaries."""
import json
from vlib import avm, diff
from vlib.tl import Skip, Violation, call, compile_ok, tealish
from tealish.utils import TealishMap
PROPERTY = "C21"
QUICK, THOROUGH = 6000, 900000
RULE = "Case = a history of 1-10 operations over up to 5 source maps: built from generated dictionaries (any subset of the parts, int or JSON keys, line 0 " \
       "and pc 0 included) or from the compilation of a generated program with marked lines and assert messages, updated once or more with generated assembler " \
       "source maps (encoded here), serialised to JSON and read back, copied; after each operation, and again at the end on every map, all " \
       "lookups are compared with a model of three dictionaries for every known key and for unknown ones. Non-trivial: some lookup composes two " \
       "parts of a map (pc to Tealish line or to message) and one operation besides building took place."
ASSUMES = ["algosdk's SourceMap decodes assembler source maps", "vlib/avm.py's assembler says which TEAL lines hold instructions"]

CH = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
TEXTS = ["bad", "", "a b", "[x], y", "}],", "],", 'quote "q"', "back\\slash", "tab\t", "é€😀", "0", "null", "a\nb", "{}", "100%", "\u2028", "12", " lead", "trail "]


def vlq(n):
    v = (-n << 1 | 1) if n < 0 else n << 1
    s = ""
    while True:
        d, v = v & 31, v >> 5
        s += CH[d | (32 if v else 0)]
        if not v:
            return s


def encode(lines, fill, extra):
    """assembler source map (lines counted from 0) of [line of pc 0, ...]"""
    out, last = [], 0
    for i, l in enumerate(lines):
        if l == last and (fill + i) % 3:
            out.append("")
        else:
            out.append(vlq(0) + vlq(0) + vlq(l - last) + vlq(0))
        last = l
    return {"version": 3, "sources": ["x.teal"] if extra else [], "names": [], "mappings": ";".join(out), **({"file": "x"} if extra else {})}


def line(ch):
    return ch.weighted([(3, ch.int(1, 6)), (2, ch.int(1, 40)), (1.5, 0), (0.5, ch.int(1, 5000))])


def parts(ch):
    n = ch.weighted([(1, 0), (4, ch.int(1, 5)), (4, ch.int(1, 20)), (0.3, 300)])
    pc = [[ch.weighted([(3, i), (1, ch.int(0, 500))]), line(ch)] for i in range(n)]
    n = ch.weighted([(1, 0), (4, ch.int(1, 6)), (4, ch.int(1, 30)), (0.3, 300)])
    tt = [[ch.weighted([(3, i + 1), (1, line(ch))]), line(ch)] for i in range(n)]
    er = [[line(ch), ch.choice(TEXTS)] for _ in range(ch.int(0, 6))]
    return {"pc_teal": list(map(list, dict(pc).items())), "teal_tealish": list(map(list, dict(tt).items())), "errors": list(map(list, dict(er).items())),
            "omit": [k for k in ("pc_teal", "teal_tealish", "errors") if ch.bool(0.12)], "keys": ch.choice(["int", "str"])}


class Prog:
    """a program in which marked lines are known"""

    def __init__(self, ch):
        self.ch, self.lines, self.marks, self.msgs, self.n = ch, ["#pragma version 8"], [], [], 0
        self.funcs = []
        for _ in range(ch.int(0, 2)):
            self.filler()
        self.body(0, ch.int(1, 5))
        self.lines.append("exit(1)")
        for f in range(self.ch.int(0, 2)):
            self.lines.append(f"func f{f}(p: int):")
            self.body(1, ch.int(1, 3))
            self.lines += ["    return", "end"]

    def filler(self):
        self.lines.append(self.ch.choice(["", "# comment", "    ", "# tl:3:"]))

    def body(self, d, n):
        ch, pad = self.ch, "    " * d
        for _ in range(n):
            k = ch.weighted([(3, "log"), (3, "assert"), (1, "plain"), (1, "if"), (1, "for"), (1, "while"), (1, "teal"), (1, "fill"), (0.7, "itxn")])
            self.n += 1
            if k in ("if", "for", "while") and d > 2:
                k = "log"
            if k == "log":
                t = f"mark{self.n}"
                self.lines.append(f'{pad}log("{t}")')
                self.marks.append([len(self.lines), f'"{t}" '])
            elif k == "assert":
                m = ch.choice(["msg", "bad value", "[x], y", "a: b", "it's", "100%", "x, y", "(z)", "# no comment", "// none", "é", "1"])
                m += f" {self.n}" if ch.bool(0.6) else ""
                self.lines.append(f'{pad}assert({3000 + self.n} == 5, "{m}")')
                self.msgs.append([len(self.lines), m])
                self.marks.append([len(self.lines), f"pushint {3000 + self.n} ", "assert"])
            elif k == "plain":
                self.lines.append(f"{pad}assert({1000 + self.n})")
                self.marks.append([len(self.lines), f"pushint {1000 + self.n} ", "assert"])
            elif k == "if":
                self.lines.append(f"{pad}if {1000 + self.n} == 3:")
                self.body(d + 1, ch.int(1, 2))
                if ch.bool():
                    self.lines.append(f"{pad}else:")
                    self.body(d + 1, ch.int(1, 2))
                self.lines.append(pad + "end")
            elif k == "for":
                self.lines.append(f"{pad}for i{self.n} in 0:3:")
                self.body(d + 1, ch.int(1, 2))
                self.lines.append(pad + "end")
            elif k == "while":
                self.lines.append(f"{pad}while {1000 + self.n} == 3:")
                self.body(d + 1, ch.int(1, 2))
                self.lines.append(pad + "end")
            elif k == "teal":
                self.lines += [f"{pad}teal:", f"{pad}    pushint {5000 + self.n}", f"{pad}    pop", pad + "end"]
                self.marks.append([len(self.lines) - 2, f"pushint {5000 + self.n} "])
            elif k == "itxn":
                self.lines += [f"{pad}inner_txn:", f"{pad}    TypeEnum: Pay", f"{pad}    Amount: {7000 + self.n}", pad + "end"]
                self.marks.append([len(self.lines) - 1, f"pushint {7000 + self.n} "])
            else:
                self.filler()


def gen(ch):
    steps, handles, progs = [], [], {}
    for k in range(ch.int(1, 10)):
        op = "make" if not handles else ch.weighted([(2, "make"), (2, "compile"), (3, "update"), (3, "json"), (1, "copy"), (1, "query"), (0.3, "empty")])
        if op == "make" and ch.bool(0.4):
            op = "compile"
        if op in ("make", "compile", "empty"):
            h = ch.int(0, 4) if handles and ch.bool(0.2) else len(handles) % 5
            if op == "make":
                steps.append(["make", h, parts(ch)])
                progs.pop(h, None)
            elif op == "empty":
                steps.append(["empty", h, ch.choice(["none", "no", "dict"])])
                progs.pop(h, None)
            else:
                p = Prog(ch)
                steps.append(["compile", h, "\n".join(p.lines), p.marks, p.msgs])
                progs[h] = p
            if h not in handles:
                handles.append(h)
        elif op == "update":
            h = ch.choice(handles)
            kind = "asm" if h in progs and ch.bool(0.8) else "random"
            if kind == "asm":
                sizes = [ch.int(1, 10) for _ in range(ch.int(1, 7))]
                steps.append(["assemble", h, sizes, ch.int(0, 3), ch.choice(["dict", "obj"]), ch.int(0, 2), ch.bool()])
            else:
                ls, l = [], 0
                for _ in range(ch.weighted([(1, 1), (4, ch.int(1, 10)), (3, ch.int(10, 60)), (0.2, 2000)])):
                    l = ch.weighted([(4, l), (3, l + 1), (1, line(ch)), (1, l + ch.int(0, 20)), (0.5, max(0, l - ch.int(1, 10)))])
                    ls.append(l)
                steps.append(["update", h, ls, ch.choice(["dict", "obj"]), ch.int(0, 2), ch.bool()])
        elif op in ("json", "copy"):
            a, b = ch.choice(handles), ch.int(0, 4)
            if b not in handles:
                handles.append(b)
            steps.append([op, a, b, ch.choice(["plain", "indent", "sorted", "compact"])])
            if a in progs:
                progs[b] = progs[a]
            else:
                progs.pop(b, None)
        else:
            steps.append(["query", ch.choice(handles)])
    return {"steps": steps}


class Model:
    def __init__(self, pc=None, tt=None, er=None, teal=None):
        self.pc, self.tt, self.er, self.teal = pc or {}, tt or {}, er or {}, teal

    def copy(self):
        return Model(dict(self.pc), dict(self.tt), dict(self.er), self.teal)


def same(what, got, want):
    if got != want or type(got) is not type(want):
        raise Violation(what.split("(")[0], f"{what} gives {got!r}, the map's content says {want!r}")


def query(m, d):
    return call(lookups, m, d, what="a lookup")


def lookups(m, d):
    """all lookups against the model"""
    composed = 0
    pcs = set(d.pc) | {0, -1, max(d.pc, default=0) + 1, 10**6}
    for pc in sorted(pcs):
        t = d.pc.get(pc)
        l = d.tt.get(t) if t is not None else None
        composed += l is not None
        same(f"get_teal_line_for_pc({pc})", m.get_teal_line_for_pc(pc), t)
        same(f"get_tealish_line_for_pc({pc})", m.get_tealish_line_for_pc(pc), l)
        same(f"get_error_for_pc({pc})", m.get_error_for_pc(pc), d.er.get(l) if l is not None else None)
    rev = {}
    for t, l in d.tt.items():
        rev.setdefault(l, []).append(t)
    for t in sorted(set(d.tt) | set(d.pc.values()) | {0, -1, max(d.tt, default=0) + 1, 10**6}):
        same(f"get_tealish_line_for_teal({t})", m.get_tealish_line_for_teal(t), d.tt.get(t))
    for l in sorted(set(rev) | set(d.er) | {0, -1, max(rev, default=0) + 1, 10**6}):
        got = m.get_teal_lines_for_tealish(l)
        same(f"get_teal_lines_for_tealish({l})", sorted(got), sorted(rev.get(l, [])))
    return composed


def compiled(st):
    _, h, src, marks, msgs = st
    teal, m = compile_ok(src)
    if sorted(m.teal_tealish) != list(range(1, len(teal) + 1)):
        raise Violation("keys", f"the map of {len(teal)} TEAL lines has entries for {sorted(m.teal_tealish)}")
    last = len(src.split("\n"))
    for l in m.teal_tealish.values():
        if not 0 <= l <= last:
            raise Violation("range", f"line {l} of a source of {last} lines")
    for n, *texts in marks:
        mine = m.get_teal_lines_for_tealish(n)
        for t in texts:
            at = [i for i, x in enumerate(teal, 1) if t in avm_text(x)] if t != "assert" else [i for i in mine if "assert" in avm_text(teal[i - 1])]
            if not at:
                raise Violation("mark", f"no TEAL line for {t!r} of line {n}")
            for i in at:
                same(f"get_tealish_line_for_teal({i})", m.get_tealish_line_for_teal(i), n)
                if i not in mine:
                    raise Violation("get_teal_lines_for_tealish", f"({n}) gives {mine}, without line {i}")
    d = Model({}, dict(m.teal_tealish), {n: t for n, t in msgs}, teal)
    return m, d


def avm_text(l):
    """the instructions of a TEAL line, in one text"""
    return " ".join(" ".join(t) for t in avm.tokenize(l)) + " "


def check(case):
    maps, comp, ops, tags = {}, 0, 0, set()
    for st in case["steps"]:
        op, h = st[0], st[1]
        tags.add(op)
        if op not in ("make", "compile", "empty", "query"):
            ops += 1
        if op not in ("make", "compile", "empty") and h not in maps:
            raise Skip("no map")
        if op == "make":
            p = st[2]
            d = Model(*[dict((k, v) for k, v in p[x]) if x not in p["omit"] else {} for x in ("pc_teal", "teal_tealish", "errors")])
            arg = {k: dict((str(a), b) if p["keys"] == "str" else (a, b) for a, b in p[k]) for k in ("pc_teal", "teal_tealish", "errors") if k not in p["omit"]}
            before = json.dumps(arg)
            m = call(TealishMap, arg)
            comp += query(m, d)
            if json.dumps(arg) != before:
                raise Violation("input", "building a map changes the dictionary it is built from")
            maps[h] = (m, d)
        elif op == "empty":
            maps[h] = (call(TealishMap) if st[2] == "no" else call(TealishMap, None if st[2] == "none" else {}), Model())
        elif op == "compile":
            maps[h] = compiled(st)
        elif op in ("update", "assemble"):
            m, d = maps[h]
            if op == "update":
                lines, form, fill, extra = st[2:]
            else:
                if d.teal is None:
                    raise Skip("not compiled")
                sizes, lead, form, fill, extra = st[2:]
                lines = [0] * lead
                for i, ins in enumerate(diff.assemble(d.teal).ins):
                    lines += [ins.line - 1] * sizes[i % len(sizes)]
                if not lines:
                    raise Skip("no instruction")
            sm = encode(lines, fill, extra)
            before = json.dumps(sm)
            call(m.update_from_teal_sourcemap, sm if form == "dict" else tealish_sourcemap(sm))
            if json.dumps(sm) != before:
                raise Violation("input", "updating a map changes the assembler's map")
            d.pc = {pc: l + 1 for pc, l in enumerate(lines)}
        elif op in ("json", "copy"):
            m, d = maps[h]
            if op == "json":
                style = {"plain": {}, "indent": {"indent": 1}, "sorted": {"sort_keys": True}, "compact": {"separators": (",", ":")}}[st[3]]
                try:
                    text = json.dumps(m.as_dict(), **style)
                except (TypeError, ValueError) as e:
                    raise Violation("json", f"the map cannot be serialised: {e}") from None
                m2 = call(TealishMap, json.loads(text))
            else:
                m2 = call(TealishMap, call(m.as_dict))
            maps[st[2]] = (m2, d.copy())
            comp += query(m2, maps[st[2]][1])
        if h in maps:
            comp += query(*maps[h])
    for m, d in maps.values():
        comp += query(m, d)
    return {"nontrivial": comp > 0 and ops > 0, "tags": sorted(tags), "key": json.dumps(case["steps"]), "counts": {"composed lookups": comp}}


def tealish_sourcemap(d):
    from algosdk.source_map import SourceMap
    return SourceMap(d)
