"""C13: the line map, decided by editing one line: only its own TEAL may change."""
import re
from vlib import anyprog, avm, gen as G
from vlib.mutate import containers
from vlib.ref import *
from vlib.tl import Rejected, Skip, Violation, compile_program
PROPERTY = "C13"
QUICK, THOROUGH = 700, 40000
RULE = "Case = a program of all features with comments and assert messages, and up to 6 variants in each of which one line of the source is " \
       "edited or blank lines are inserted; the map must be total, only TEAL mapped to the edited line may differ, everything else must keep " \
       "text and (shifted) line, and comments and messages must be those written. Non-trivial: at least 3 edits were decided."


def plain(ty):
    """source of a value of the type"""
    if ty.is_int:
        return "7"
    return f"bzero({ty.size})" if ty.size else '"q"'


def variants(p, lines):
    """(line number, kind, new text, line numbers whose TEAL may change)"""
    out, funcs = [], {}
    for f in containers(p.after):
        if isinstance(f, Func):
            for s in body_all(f.body):
                if isinstance(s, Return):
                    funcs[id(s)] = f
    head = None
    for n, (ind, text, o) in enumerate(lines, 1):
        pad = "    " * ind
        if isinstance(o, Switch) and text.startswith("switch "):
            head = n
            k = sum(1 for x in lines if x[2] is o) - 1
            out.append((n, "switch", f"{pad}switch {'7' if o.opts[0][0].ty.is_int else chr(34) + 'q' + chr(34)}:", list(range(n, n + k + 1))))
        elif isinstance(o, Switch):
            i = n - head - 1
            above = o.els is not None and o.at is not None and i >= o.at
            i -= above
            if i < len(o.opts) and not text.startswith("else:"):
                v, b = o.opts[i]
                if v.ty.kind != "any":
                    out.append((n, "option", f"{pad}{'7' if v.ty.is_int else chr(34) + 'q' + chr(34)}: {b.name}", [n]))
        elif isinstance(o, (Assign, CallS, Assert, FieldSet, Push, ErrorS, Comment)):
            out.append((n, type(o).__name__, "", [n]))
        elif isinstance(o, Decl) and o.e is not None:
            out.append((n, "Decl", f"{pad}{o.var.ty.name} {o.var.name}", [n]))
        elif isinstance(o, Exit):
            out.append((n, "Exit", f"{pad}exit(7)", [n]))
        elif isinstance(o, Jump):
            out.append((n, "Jump", f"{pad}exit(7)", [n]))
        elif isinstance(o, Break):
            out.append((n, "Break", f"{pad}log(\"q\")", [n]))
        elif isinstance(o, Return) and id(o) in funcs:
            f = funcs[id(o)]
            if f.rets:
                out.append((n, "Return", pad + "return " + ", ".join(plain(t) for t in f.rets), [n]))
        elif isinstance(o, BoxD):
            new = "" if o.method == "Open" else "Open"
            out.append((n, "Box", f'{pad}{o.var.ty.name} {o.var.name} = {new}Box("q")', [n]))
        elif isinstance(o, (If, While)) or isinstance(o, Arm) and o.i > 0:
            m = re.match(r"(if|elif|while) (not )?", text)
            out.append((n, m.group(1), f"{pad}{m.group()}7:", [n]))
        elif isinstance(o, For):
            out.append((n, "for", f"{pad}for {o.var.name if o.var else '_'} in {7 if o.a.src() != '7' else 6}:{o.b.src()}:", [n]))
        elif isinstance(o, FieldLine):
            out.append((n, "field", f"{pad}Fee: 7", [n]))
        elif isinstance(o, tuple):
            out.append((n, "raw", f"{pad}pushint 77777", [n]))
        elif o is None and re.fullmatch(r"#define .*", text):
            pass
    return out


def body_all(b):
    for s in b:
        yield s
        for x in s.bodies():
            yield from body_all(x)


def gen(ch):
    p, g = anyprog.program(ch)
    lines = p.lines()
    vs = variants(p, lines)
    texts = ["    " * i + t for i, t, _ in lines]
    asserts = {str(n): o.msg for n, (_, t, o) in enumerate(lines, 1) if isinstance(o, Assert) and o.msg}
    comments = {str(n): t for n, (_, t, o) in enumerate(lines, 1) if isinstance(o, Comment)}
    branch = {}                                   # elif/else line -> lines its label may be mapped to
    for n, (_, t, o) in enumerate(lines, 1):
        if isinstance(o, Arm):
            branch[str(n)] = next(i for i, x in enumerate(lines, 1) if x[2] is o.stmt)
    starts = [n for n, (i, t, o) in enumerate(lines, 1) if not isinstance(o, (FieldLine, tuple, Arm))
              and not (o is None) and not (isinstance(o, (Switch, Router)) and not re.match(r"switch |router:", t))
              and not (isinstance(o, Func) and n > 1 and lines[n - 2][2] is o) and n > 1]
    shift = sorted(ch.sample(starts, ch.int(1, 3))) if starts else []
    return {"lines": texts, "edits": ch.sample(vs, 5), "asserts": asserts, "comments": comments, "branch": branch, "shift": shift}


def run(lines):
    t, m = compile_program("\n".join(lines))
    return t, {int(k): int(v) for k, v in m.teal_tealish.items()}, {int(k): v for k, v in m.errors.items()}


def rest(teal, mp, drop):
    """lines of other statements; the comment quoting a dropped line may be placed with the line it branches from"""
    quotes = tuple(f"// tl:{n}:" for n in drop)
    return [(mp[i], l) for i, l in enumerate(teal, 1) if mp[i] not in drop and not l.strip().startswith(quotes)]


def first_diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return f"{x} / {y}"
    return f"{(a + b)[min(len(a), len(b))]}"


def check(case):
    lines = case["lines"]
    try:
        teal, mp, errs = run(lines)
    except Rejected as e:
        raise Violation("rejected", str(e)) from None
    if sorted(mp) != list(range(1, len(teal) + 1)):
        miss = sorted(set(range(1, len(teal) + 1)) ^ set(mp))
        raise Violation("total", f"the map has no (or too many) entries for TEAL lines {miss[:5]} of {len(teal)}")
    own = len(teal)
    if any(l.strip() == "inner_group:" for l in lines):       # support routines at the end belong to no statement
        while own and mp[own] == 0:
            own -= 1
    bad = [k for k, v in mp.items() if k <= own and not (1 <= v <= len(lines) and lines[v - 1].strip())]
    if bad:
        raise Violation("range", f"TEAL line {bad[0]} {teal[bad[0] - 1]!r} is mapped to line {mp[bad[0]]}, which has no code")
    want = {int(k): v for k, v in case["asserts"].items()}
    if errs != want:
        raise Violation("messages", f"messages {errs}, written {want}")
    seen = []
    for i, l in enumerate(teal, 1):
        m = re.match(r"\s*// tl:(\d+): (.*)$", l)
        if m:
            n = int(m.group(1))
            if not 1 <= n <= len(lines) or re.sub(r"(?: \[slot \d+\])?$", "", m.group(2)) not in (lines[n - 1].strip(), re.sub(r"(?: \[slot \d+\])$", "", lines[n - 1].strip())):
                raise Violation("quote", f"TEAL comment {l.strip()!r}, but line {n} is {lines[min(n, len(lines)) - 1].strip()!r}")
            if mp[i] not in (n, case["branch"].get(str(n))):
                raise Violation("quote map", f"TEAL comment {l.strip()!r} is mapped to line {mp[i]}")
            seen.append(n)
    for n, t in case["comments"].items():
        at = [i for i, v in mp.items() if v == int(n)]
        if len(at) != 1 or teal[at[0] - 1].strip() != "//" + t.strip()[1:].rstrip() and teal[at[0] - 1].strip() != ("//" + t[1:]).strip():
            raise Violation("comment", f"comment {t!r} of line {n} appears as {[teal[i - 1] for i in at]}")
        # it stands between the code of the lines around it
        i = at[0]
        before = [mp[k] for k in range(1, i)]
        after = [mp[k] for k in range(i + 1, len(teal) + 1)]
        loops = {mp[k] for k in range(1, len(teal) + 1)}
        if before and int(n) + 1 in before and int(n) + 1 in loops and str(int(n) + 1) not in case["branch"]:
            raise Violation("comment place", f"comment of line {n} comes after code of line {int(n) + 1}")
        if int(n) - 1 not in before and int(n) - 1 in after and lines[int(n) - 2].strip() != "end":
            raise Violation("comment place", f"comment of line {n} comes before all code of line {int(n) - 1}")
    done, tags = 0, []
    for n, kind, text, may in case["edits"]:
        new = list(lines)
        new[n - 1] = text
        try:
            t2, m2, e2 = run(new)
        except Rejected:
            tags.append("edit rejected " + kind)
            continue
        done += 1
        tags.append("edit " + kind)
        if sorted(m2) != list(range(1, len(t2) + 1)):
            raise Violation("total", f"with line {n} as {text!r} the map does not cover the TEAL")
        a, b = rest(teal, mp, may), rest(t2, m2, may)
        if a != b:
            raise Violation("edit", f"editing line {n} ({lines[n - 1].strip()!r} -> {text.strip()!r}) changes TEAL mapped elsewhere: {first_diff(a, b)}")
        if not any(v in may for v in mp.values()):
            raise Violation("lost", f"nothing is mapped to line {n} {lines[n - 1].strip()!r}")
        if not text and any(v == n and t2[k - 1].strip() for k, v in m2.items()):
            raise Violation("blank", f"TEAL is mapped to line {n}, which is blank")
        w2 = {k: v for k, v in want.items() if k != n}
        if e2 != w2:
            raise Violation("messages", f"messages {e2}, written {w2}")
    if case["shift"]:
        new, pos = [], {0: 0}
        for i, l in enumerate(lines, 1):
            if i in case["shift"]:
                new += [""] * (1 + i % 3)
            new.append(l)
            pos[i] = len(new)
        try:
            t2, m2, e2 = run(new)
        except Rejected:
            tags.append("edit rejected shift")
        else:
            done += 1
            a = [(pos[mp[i]], re.sub(r"^(\s*// tl:)(\d+):", lambda m: m.group(1) + str(pos[int(m.group(2))]) + ":", l)) for i, l in enumerate(teal, 1)]
            b = [(m2[i], l) for i, l in enumerate(t2, 1) if l.strip() or not m2[i]]
            if a != b:
                raise Violation("shift", f"inserting blank lines before {case['shift']}: {first_diff(a, b)}")
            if e2 != {pos[k]: v for k, v in want.items()}:
                raise Violation("messages", f"after inserting blank lines: {e2}")
    return {"nontrivial": done >= 3, "key": "\n".join(lines), "tags": tags, "counts": {"edits": done, "teal_lines": len(teal), "comments": len(case["comments"]),
                                                                                        "messages": len(want)}}


def show(case):
    return {"src": "\n".join(case["lines"]), "edits": case["edits"]}
