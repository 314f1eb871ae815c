"""C15: histories of compiler calls against the results of fresh processes."""
import re

from vlib import anyprog, textgen as T
from vlib.tl import Violation
from vlib.zygote import Zygote
PROPERTY = "C15"
QUICK, THOROUGH = 400, 40000
RULE = "Case = 2-4 sources (related programs sharing names, mutants, programs with declarations removed, fields reordered or literals changed) and a history of 4-16 operations on " \
       "them in one process: compile, reformat, inspect, and interleaved compiler objects (parse, process, compile, reformat, repeated), some " \
       "results being overwritten by the caller; each result must equal that of the same operation alone in a fresh process, and the fresh " \
       "results must not depend on the hash seed. Non-trivial: at least 2 distinct sources are accepted and 4 operations give results."
ASSUMES = ["each fork of a process that only imported tealish is a fresh process"]


def cut_decl(ch, src):
    """the source without some of its declarations"""
    ls = src.split("\n")
    out, skip, kind = [], False, ch.choice(["struct", "const", "func", "var"])
    for l in ls:
        s = l.strip()
        if kind == "struct" and s.startswith("struct "):
            skip = True
        if kind == "func" and s.startswith("func ") and ch.bool(0.6):
            skip = True
            out = out[:-1] if out and out[-1].strip().startswith("@") else out
        if skip:
            if l == "end":
                skip = False
            continue
        if kind == "const" and s.startswith("const "):
            continue
        if kind == "var" and l and not l.startswith(" ") and " = " in s and s.split(" ")[0] in ("int", "bytes") and ch.bool(0.5):
            continue
        out.append(l)
    return "\n".join(out)


def reorder(ch, src):
    """the same program with the fields of its structs in another order, its constants with each other's values, its functions in another order"""
    ls = src.split("\n")
    kinds = ["struct"] * 3 + ["const", "func"]
    k = ch.choice([k for k in kinds if any(l.startswith(k + " ") for l in ls)] or ["const"])
    if k == "const":
        at = [i for i, l in enumerate(ls) if l.startswith("const ")]
        for ty in ("int", "bytes"):
            js = [i for i in at if ls[i].startswith(f"const {ty} ")]
            for i, v in zip(js, ch.shuffle([ls[i].split(" = ", 1)[1] for i in js])):
                ls[i] = ls[i].split(" = ", 1)[0] + " = " + v
        return "\n".join(ls)
    spans, start = [], None
    for i, l in enumerate(ls):
        if l.startswith(k + " "):
            start = i
        elif l == "end" and start is not None:
            spans.append((start, i))
            start = None
    if k == "struct":
        how = ch.choice(["lines", "names", "types"])
        for a, b in spans:
            fs = [l.strip() for l in ls[a + 1:b]]
            if any(": " not in f for f in fs):
                continue
            names, types = [f.split(": ")[0] for f in fs], [f.split(": ")[1] for f in fs]
            if how == "lines":
                fs = ch.shuffle(fs)
            elif how == "names":
                fs = [f"{n}: {t}" for n, t in zip(ch.shuffle(names), types)]
            else:
                fs = [f"{n}: {t}" for n, t in zip(names, ch.shuffle(types))]
            ls[a + 1:b] = ["    " + f for f in fs]
        return "\n".join(ls)
    # undecorated functions that follow one another
    spans = [(a, b) for a, b in spans if not ls[a - 1].startswith("@")]
    if not spans:
        return src
    parts = [ls[a:b + 1] for a, b in spans]
    gone = {i for a, b in spans for i in range(a, b + 1)}
    return "\n".join([l for i, l in enumerate(ls) if i not in gone] + [l for p in ch.shuffle(parts) for l in p])


def variant(ch, src):
    """the same program with other literals: what was learned from the one is wrong for the other"""
    if ch.bool(0.4):
        return reorder(ch, src)
    out = []
    for l in src.split("\n"):
        if ch.bool(0.7):
            l = re.sub(r'(?<![\w."\[])\d+(?![\w"])', lambda m: str(int(m[0]) + 1) if int(m[0]) < 200 else m[0], l)
            l = re.sub(r'= "([a-z0-9])', lambda m: '= "%s' % chr(ord(m[1]) % 7 + 104), l)
        out.append(l)
    return "\n".join(out)


def gen(ch):
    srcs = []
    for _ in range(ch.int(2, 4)):
        k = ch.weighted([(6, "new"), (3, "mutant"), (3, "cut"), (3, "variant"), (1, "nest"), (1, "lines")])
        if k == "mutant" and srcs:
            src = T.mutate(ch, ch.choice(srcs), srcs[0])[0]
        elif k == "cut" and srcs:
            src = cut_decl(ch, ch.choice(srcs))
        elif k == "variant" and srcs:
            src = variant(ch, ch.choice(srcs))
        elif k == "nest":
            src = T.NEST[ch.choice(sorted(T.NEST))](ch.choice([2, 5, 20, 60]))
        elif k == "lines":
            src = "\n".join(T.random_lines(ch) + ["exit(1)"])
        else:
            src = anyprog.program(ch, cfgs=T.SMALL)[0].source()
        srcs.append(src)
    ops, objs = [], 0
    if ch.bool(0.4):
        # several compiler objects used in turns
        objs = ch.int(2, 4)
        use = [ch.int(0, len(srcs) - 1) for _ in range(objs)] if ch.bool(0.5) else [i % len(srcs) for i in range(objs)]
        ops += [["new", s, i] for i, s in enumerate(use)]
        for k in ("parse", "process", "ocompile"):
            if k == "ocompile" or ch.bool(0.7):
                ops += [[k, i, False] for i in ch.shuffle(range(objs))]
    for _ in range(ch.int(4, 16) if not objs else ch.int(2, 6)):
        k = ch.weighted([(3, "compile"), (2, "reformat"), (1, "inspect"), (2, "new")] + ([(2, "parse"), (1.5, "process"), (3, "ocompile"), (2, "oreformat"), (0.5, "lines")]
                                                                                          if objs else []))
        if k == "new":
            ops.append([k, ch.int(0, len(srcs) - 1), objs])
            objs += 1
        elif k in ("compile", "reformat", "inspect"):
            ops.append([k, ch.int(0, len(srcs) - 1), ch.bool(0.3)])
        else:
            ops.append([k, ch.int(0, objs - 1), ch.bool(0.2)])
    ops += [["lines", k, False] for k in range(objs)]
    return {"srcs": srcs, "ops": ops, "hashseed": ch.int(1, 3), "hashsrc": ch.int(0, 3)}


FRESH = {}


def zygote(seed):
    if seed not in FRESH:
        FRESH[seed] = Zygote(seed)
    return FRESH[seed]


def check(case):
    srcs, ops = case["srcs"], case["ops"]
    z0, z1 = zygote(0), zygote(case["hashseed"])
    fresh = {}
    for s in range(len(srcs)):
        for k in ("compile", "reformat", "inspect"):
            fresh[s, k] = z0.ask(srcs, [[k, s]])[0]
    for s in range(len(srcs)):
        for k in ("compile", "reformat") if s == case["hashsrc"] % len(srcs) else ():
            r = z1.ask(srcs, [[k, s]])[0]
            if r != fresh[s, k]:
                raise Violation("hash seed", f"{k} of source {s} differs between two fresh processes: {diff(fresh[s, k], r)}")
        a, b = fresh[s, "compile"], fresh[s, "inspect"]
        if a[0] != b[0] or a[0] == "error" and a != b:
            raise Violation("apis", f"source {s}: compile gives {diff(a, b)} (inspect)")
    got = z0.ask(srcs, ops)
    if len(got) != len(ops):
        raise Violation("crash", f"the process of the history ended: {got[:1]}")
    obj, n = {}, 0
    for (op, i, *rest), r in zip(ops, got):
        if r[0] == "dead":
            continue
        if op == "new":
            obj[rest[0]] = i
            continue
        s = obj[i] if op in ("parse", "process", "ocompile", "oreformat", "lines") else i
        if op == "lines":
            if r != ["ok", True]:
                raise Violation("lines changed", f"the lines of source {s} were modified")
            continue
        want = fresh[s, {"ocompile": "compile", "oreformat": "reformat", "parse": "compile", "process": "reformat"}.get(op, op)]
        if op in ("parse", "process"):
            if r[0] == "ok":
                continue
        n += 1
        if r != want:
            raise Violation("history", f"operation {[op, i]} on source {s} gives, after {ops.index([op, i, *rest])} others, {diff(want, r)}")
    acc = {x for x in range(len(srcs)) if fresh[x, "compile"][0] == "ok"}
    tags = [fresh[x, "compile"][0] for x in range(len(srcs))] + [o[0] for o in ops]
    return {"nontrivial": len({srcs[x] for x in acc}) >= 2 and n >= 4, "key": [srcs, ops], "tags": tags, "counts": {"results": n, "sources": len(srcs)}}


def diff(a, b):
    if a[0] != b[0] or a[0] != "ok":
        return f"{str(a)[:300]} (fresh) / {str(b)[:300]}"
    x, y = a[1], b[1]
    if isinstance(x, list) and isinstance(y, list):
        for i, (p, q) in enumerate(zip(x[0], y[0])):
            if p != q:
                return f"TEAL line {i + 1}: {p!r} / {q!r}"
        return f"{len(x[0])} / {len(y[0])} lines, maps {'equal' if x[1] == y[1] else 'differ'}"
    return f"{str(x)[:300]} / {str(y)[:300]}"


def show(case):
    return {"srcs": [s[:400] for s in case["srcs"]], "ops": case["ops"]}
