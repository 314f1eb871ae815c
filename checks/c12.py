"""C12: formatting as a round trip, over generated layouts."""
import re
from vlib import anyprog, avm, gen as G, noise as N
from vlib.tl import Rejected, Violation, compile_program, reformat
PROPERTY = "C12"
QUICK, THOROUGH = 800, 50000
RULE = "Case = a program of all features, the same program with other indentation, spacing, trailing blanks and trailing comments, and " \
       "with comment and blank lines added; formatting must keep every line, be stable, give equal text for equal programs and the formatted " \
       "text must compile to the same instructions. Non-trivial: the layout differs and at least 5 lines of code are formatted."

COMMENTS = ["# note", "#x", "#", "# if x:", "# end", "#  spaced", '# "quote', "# 'q", "# a # b // c", "#end", "# block b:", "# tl:3: x", "# é", "#\tx", "# pragma version 8", "# define A 1", "#!", "# \\", "# func f():", "#  ", "# ---", "#====", "# -"]


def add_lines(ch, src):
    """comment and blank lines, not inside struct, inner_txn, switch, router and teal bodies"""
    out, inside, kinds = [], False, set()
    lines = src.split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if not inside and not re.match(r"(elif\b|else\b|@|func\b)", s) and not (i and lines[i - 1].strip().startswith("@")):
            if i == 0 and s.startswith("#pragma"):
                pass
            elif ch.bool(0.2 if s == "end" else 0.12):
                out.append(" " * ch.choice([0, 4, 1]) + ch.choice(COMMENTS))
                kinds.add("comment line")
            elif ch.bool(0.08):
                out.append(ch.choice(["", "", "  "]))
                kinds.add("blank line")
        if re.match(r"(struct \w+|inner_txn|switch .*|router|teal):$", s):
            inside = True
        elif s == "end":
            inside = False
        out.append(l)
    return "\n".join(out), kinds


def gen(ch):
    p, g = anyprog.program(ch)
    src = p.source()
    if ch.bool(0.4):
        anyprog.rename(ch, p, g)
        src = p.source()
    more, kinds = add_lines(ch, src) if ch.bool(0.6) else (src, set())
    noisy, k2 = N.noise(ch, more)
    return {"src": src, "more": more, "noisy": noisy, "kinds": sorted(kinds | k2)}


def code(teal):
    """the instructions, without comments"""
    return [t for l in teal for t in avm.tokenize(l)]


def ok(fn, src, what):
    try:
        return fn(src)
    except Rejected as e:
        raise Violation("rejected " + what, str(e)) from None


def diffline(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"line {i + 1}: {x!r} / {y!r}"
    return f"{len(a)} / {len(b)} lines: {(a + b)[min(len(a), len(b))]!r}"


def check(case):
    src = case["src"]
    try:
        teal, _ = compile_program(src)
    except Rejected:
        return {"nontrivial": False, "key": src, "tags": ["rejected"]}
    want = code(teal)
    f = ok(reformat, src, "by the formatter")
    g = ok(reformat, case["noisy"], "by the formatter, with other layout")
    ft, _ = ok(compile_program, f, "after formatting")
    if code(ft) != want:
        raise Violation("meaning", f"the formatted program compiles differently: {diffline(want, code(ft))}")
    if reformat(f) != f:
        raise Violation("unstable", f"formatting again changes {diffline(f.split(chr(10)), reformat(f).split(chr(10)))}")
    if N.squeezed(f) != N.squeezed(src):
        raise Violation("lines", f"formatting changes {diffline(N.squeezed(src), N.squeezed(f))}")
    nt, _ = ok(compile_program, case["noisy"], "with other layout")
    if code(nt) != want:
        raise Violation("layout", f"layout changes the instructions: {diffline(want, code(nt))}")
    if case["more"] == src:
        if g != f:
            raise Violation("influence", f"layout influences the formatted text: {diffline(f.split(chr(10)), g.split(chr(10)))}")
    else:
        if N.squeezed(g) != N.squeezed(case["more"]):
            raise Violation("comments", f"formatting changes {diffline(N.squeezed(case['more']), N.squeezed(g))}")
        if reformat(case["more"]) != g:
            raise Violation("influence", "layout influences the formatted text")
        if reformat(g) != g:
            raise Violation("unstable", "formatting again changes the text")
        gt, _ = ok(compile_program, g, "after formatting")
        if code(gt) != want:
            raise Violation("meaning", f"the formatted program compiles differently: {diffline(want, code(gt))}")
    n = len(N.squeezed(src))
    return {"nontrivial": n >= 5 and case["noisy"] != src, "key": case["noisy"], "tags": case["kinds"], "counts": {"lines": n}}


def show(case):
    return {"noisy": case["noisy"]}
