"""C16: minified and stripped TEAL against the original, instruction by instruction."""
import re
from vlib import anyprog, avm, tl
from vlib.diff import execute, outcome
from vlib.tl import Skip, Violation, compile_ok
PROPERTY = "C16"
QUICK, THOROUGH = 9000, 400000
RULE = "Case = TEAL compiled from a generated program, or generated TEAL with arbitrary label names, runs of labels, several instructions per " \
       "line, comments and literals that look like comments or labels; minified, stripped, and both in either order, it must assemble to the " \
       "same instructions with the same branch targets (else its runs are compared), and the minifier's map must give the input line of " \
       "every output line. Non-trivial: the text is changed and has a branch or a literal."
ASSUMES = ["vlib/avm.py models the assembler's tokens, labels and literals"]
LABELS = ["l1", "l10", "l11", "l1_end", "l1_end2", "l", "b", "bz", "int", "byte", "load", "log", "Sender", "Fee", "main", "L1", "e", "x__y", "x", "y", "x__y__z", "retsub",
          "a.b", "a-b", "a$", "a?", "l1!", "switch", "match", "end", "err", "z9", "A", "_", "_x", "l2", "l20", "FOO2", "then", "l1.x", "x+y", "a/b", "a*b"]
TEXTS = ['a', '', '//', ' // ', 'a//b', '//a', ';', 'a;b', 'l1', ' l1 ', 'b l1', 'l1:', '\\"', '\\"//', '\\\\', '\\\\\\" //', 'é', '#', "'", '\\x2f\\x2f', 'http://x', '\\n', '  two  ', '\t',
         'l1; b l1 //', '(', ':', 'x: //']


def label(ch):
    return ch.choice(LABELS) if ch.bool(0.85) else "".join(ch.choice("lab1_xe.") for _ in range(ch.int(1, 4)))


def synthetic(ch):
    names = []
    for _ in range(ch.int(1, 7)):
        n = label(ch)
        if re.match("[A-Za-z_]", n) and n not in names:
            names.append(n)
    names = names or ["l1"]
    out = ["#pragma version 8"] if ch.bool(0.5) else []
    todo = list(names)
    groups = ch.int(1, 6)

    def comment():
        return ch.choice(["", "", "", " // c", "  //", "// x", " // \"", " // b l1", "\t// l1:", " // a // b"])

    def lit():
        return '"' + "".join(ch.choice(TEXTS) for _ in range(ch.int(0, 2))) + '"'

    def target():
        return ch.choice(todo) if todo else None

    def stmts():
        k = ch.int(0, 11)
        t = target()
        if k == 0:
            return ["byte " + lit(), "log"]
        if k == 1:
            return ["pushbytes " + lit(), "log"]
        if k == 2 and t:
            return ["txn Fee", ch.choice(["bz ", "bnz "]) + t]
        if k == 3 and t:
            return ["b " + t]
        if k == 4 and t:
            return ["callsub " + t]
        if k == 5 and t:
            return ["txn NumAppArgs", ch.choice(["switch "]) + " ".join(target() for _ in range(ch.int(1, 4)))]
        if k == 6 and t:
            n = ch.int(1, 3)
            return ["byte " + lit() for _ in range(n)] + ["byte " + lit(), "match " + " ".join(target() for _ in range(n))]
        if k == 7:
            return ["txn " + ch.choice(["Sender", "Note"]), "log"]
        if k == 8:
            return ["int " + ch.choice(["1", "0x10", "NoOp", "pay", "77"]), "itob", "log"]
        if k == 9:
            return ["byte " + ch.choice(["0x2f2f", "base64 QUJD", "base32(MFRGG)", "b64(QUJD)", "base64 //8=", "b64 QQ//", "base64(//8=)", "base64 ab//b+l1"]), "log"]
        if k == 10:
            return ["retsub"]
        return ["load 1", "store 2"]

    def emit(ss):
        ind = ch.choice(["", "", "    ", "  ", "\t"])
        if ch.bool(0.3):
            # strings end a token: keep them apart from what follows
            out.append(ind + ch.choice(["; ", " ; ", "; "]).join(ss) + (ch.choice(["", ";"])) + (" " + c if (c := comment()) else ""))
        else:
            for s in ss:
                c = comment()
                out.append(ind + s.replace(" ", ch.choice([" ", " ", "  ", "\t"]), 1) + (" " + c if c else ""))

    for g in range(groups):
        for _ in range(ch.int(0, 3)):
            emit(stmts())
            if ch.bool(0.15):
                out.append(ch.choice(["", "  ", "// only a comment", "   // b l1", "// l1:"]))
        for _ in range(ch.int(0, 4) if g < groups - 1 else len(todo)):
            if not todo:
                break
            n = todo.pop(ch.int(0, len(todo) - 1))
            tail = ch.weighted([(6, ""), (1, " // note"), (1, "// note"), (1, " "), (2, "ins")])
            if tail == "ins":
                tail = " " + ch.choice(["int 1; pop", "byte " + lit() + "; log", "txn Fee; pop // x"])
            out.append(ch.choice(["", "    "]) + n + ":" + tail)
            if ch.bool(0.2):
                out.append(ch.choice(["", "// between", "   "]))
    emit(["int 1", "return"])
    return out


def gen(ch):
    if ch.bool(0.25):
        p, g = anyprog.program(ch, raw=ch.bool(0.7))
        if ch.bool(0.4):
            anyprog.rename(ch, p, g)
        return {"source": p.source(), "kind": "program"}
    return {"teal": synthetic(ch), "kind": "teal"}


def plain(a):
    """instructions, with targets as positions"""
    return [(i.op, list(i.imms), [a.labels[x] for x in i.labels]) for i in a.ins], a.version


def same(orig, lines, what):
    """assembled text that does what orig does"""
    try:
        b = avm.assemble(lines)
    except avm.AsmError as e:
        raise Violation("assembler " + what, f"the {what} TEAL does not assemble: {e}") from None
    x, y = plain(orig), plain(b)
    if x == y:
        return b, True
    for seed in range(6):
        ctx = avm.Ctx(seed=seed)
        r, s = execute(orig, ctx, fuel=20000), execute(b, ctx, fuel=20000)
        if r.status == "loop" or s.status == "loop":
            if r.status != s.status:
                raise Violation("behaviour " + what, f"the {what} TEAL {s.status}s, the original {r.status}s")
            continue
        if outcome(r) != outcome(s):
            raise Violation("behaviour " + what, f"the {what} TEAL gives {str(outcome(s))[:300]}, the original {str(outcome(r))[:300]}")
    for i, (p, q) in enumerate(zip(x[0], y[0])):
        if p != q:
            if p[0] == q[0] and p[1] == q[1] and orig.ins[i].labels:
                # a branch to another place: never what the original does
                raise Violation("branch " + what, f"instruction {i} {p[0]} {orig.ins[i].labels} goes to {q[2]} instead of {p[2]}")
            if p[0] == q[0] and p[1] != q[1]:
                raise Violation("literal " + what, f"instruction {i} {p[0]} has {q[1]} instead of {p[1]}")
    return b, False


def check(case):
    if "source" in case:
        try:
            teal, _ = tl.compile_program(case["source"])
        except tl.Rejected:
            return {"nontrivial": False, "key": case["source"], "tags": ["rejected"]}
    else:
        teal = list(case["teal"])
    try:
        orig = avm.assemble(teal)
    except avm.AsmError as e:
        raise Skip("the input does not assemble: " + str(e)[:20]) from None
    keep = list(teal)
    mini, mp = tl.call(tl.tealish.utils.minify_teal, teal, what="minify_teal")
    strip = tl.call(tl.tealish.utils.strip_comments, teal, what="strip_comments")
    if teal != keep:
        raise Violation("input changed", "the lines given are modified")
    b, exact = same(orig, mini, "minified")
    if not isinstance(strip, list):
        raise Violation("result", "strip_comments gives no list of lines")
    _, e2 = same(orig, strip, "stripped")
    for l in strip:
        if any(t == "//" for t in re.findall(r'"(?:\\.|[^"\\])*"|\b(?:base64|b64)[\s(]\s*[^\s;]+|//', l)):
            raise Violation("comment", f"a comment is left in {l!r}")
    m2, mp2 = tl.call(tl.tealish.utils.minify_teal, strip, what="minify_teal")
    same(orig, m2, "stripped and minified")
    same(orig, tl.call(tl.tealish.utils.strip_comments, mini, what="strip_comments"), "minified and stripped")
    for lines, src, mm in ((mini, teal, mp), (m2, strip, mp2)):
        last = 0
        for n, l in enumerate(lines, 1):
            at = mm.get(n)
            if at is None or not last < at <= len(src):
                raise Violation("map", f"output line {n} {l!r} is mapped to {at} (the line before: {last})")
            last = at
            if not related(l, src[at - 1]):
                raise Violation("map", f"output line {n} {l!r} is mapped to line {at} {src[at - 1]!r}")
    if exact:
        for i, ins in enumerate(b.ins):
            if mp[ins.line] != orig.ins[i].line:
                raise Violation("map", f"instruction {ins.op} of output line {ins.line} comes from line {orig.ins[i].line}, not {mp[ins.line]}")
    text = "\n".join(teal)
    nt = (mini != teal or strip != teal) and (any(i.labels for i in orig.ins) or '"' in text)
    merged = len(orig.labels) - len(b.labels)
    return {"nontrivial": nt, "key": text, "tags": [case["kind"], "exact" if exact and e2 else "compared by running"] + (["merged labels"] if merged else []),
            "counts": {"lines": len(teal), "merged": merged, "branches": sum(1 for i in orig.ins if i.labels)}}


def related(out, src):
    """the output line is the input line up to layout, comments and label operands"""
    a, b = avm.tokenize(out), avm.tokenize(src)
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            k = 1 if y[0].endswith(":") else 0
            if len(x) != len(y) or x[:k + 1] != y[:k + 1] or y[k] not in avm.LABEL_OPS:
                return False
    return True


def show(case):
    return {k: (v if isinstance(v, str) else "\n".join(v))[:700] for k, v in case.items()}
