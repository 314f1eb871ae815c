"""C22: differential testing of raw TEAL, push and pop; raw lines stay verbatim."""
from vlib import diff, gen as G
from vlib.tl import Violation, compile_ok
PROPERTY = "C22"
QUICK, THOROUGH = 1600, 60000
RULE = diff.BASE + "a push, pop or teal block is executed. One case in five instead puts arbitrary or real, often repeated, raw lines into teal " \
                   "blocks and requires them back verbatim, once and in order."

STM = dict(decl=3, assign=2, multi=0.3, call=3, assert_=0.3, if_=3, while_=1, for_=1, for__=0, exit_=0.3, log=3, gput=0.3,
           fieldset=0.3, jump=0.4, switch=0.4, push=12, breakx=0.3, error=0.0)
K = dict(std=0.5, world=0.5, structs=(0, 1), consts=(0, 1), unsafe=0.003, balanced=0.6, outer_assign=0.6, hazard=0.4)
CFGS = [G.Cfg(depth=2, main=(2, 6), body=(1, 4), prelude=(1, 3), funcs=(0, 3), params=(0, 2), rets=(0, 2), blocks=(0, 2), nest=3, stmts=STM, **K)]

TOKENS = ["int", "byte", "addw", "loads", "stores", "proto 1 1", "frame_dig -1", "swap", "b l0_end", "1", "0x00", "ec_add BN254g1", "TMPL_X",
          '"a b"', '"//"', '";"', '"#"', ";", "end_", "end :", "x=1", "if", "exit(1)", "func f():", "struct", "é", "$", "==", "b64", "base64", "(", ")", "vrf_verify VrfAlgorand",
          "match a b", "return", "intcblock 0 1", "itxn_field Fee", "endx", "teal", "push(1)", "pop()", "'x'", "\\"]
RAW_COMMENTS = ["// note", "//", "// int 1", "//; err", "// x // y"]
COMMENTS = ["# note", "#end", "# push(1)", "#", "# int 1"]


REAL = ["return", "err", "retsub", "pop", "dup", "swap", "int 1", "int 0", "pushint 1", 'byte "a"', "load 0", "store 0", "store 255", "assert", "log", "+", "==", "!", "dup2", "dig 1", "cover 2", "b main",
        "bz l0_end", "callsub f", "txn Fee", "txna ApplicationArgs 0", "global Round", "itxn_begin", "itxn_submit", "concat", "len", "itob", "extract 0 8", "pop; pop", "int 1; return", "nop", "bnz x"]


def raw_line(ch):
    if ch.bool(0.4):
        return ch.choice(REAL)
    n = ch.int(1, 5)
    sep = ch.choice([" ", " ", "  ", "\t"])
    s = sep.join(ch.choice(TOKENS) for _ in range(n)).strip()
    return s if s and s != "end" and not s.endswith(":") and not s.startswith("#") and not s.startswith("//") else "nop"


def gen(ch):
    if not ch.bool(0.2):
        return diff.make_case(ch, ch.choice(CFGS), 2)
    lines, raws, tails = [], [], []

    def block(ind):
        i1 = " " * ind
        lines.append(i1 + "teal:")
        for _ in range(ch.int(1, 6)):
            if ch.bool(0.15):
                lines.append(i1 + "    " + ch.choice(COMMENTS))
                continue
            r = raws[-1] if raws and ch.bool(0.15) else ch.choice(raws) if raws and ch.bool(0.2) else raw_line(ch) if ch.bool(0.85) else ch.choice(RAW_COMMENTS)
            raws.append(r)
            tail = ch.choice(["", "", "", " // c", " // int 1", "  "])
            tails.append(tail)
            lines.append((i1 + ch.choice(["    ", "", "  ", "\t"]), r, tail))
        lines.append(i1 + "end")

    infunc = ch.bool(0.3)
    for i in range(ch.int(1, 3)):
        k = ch.int(0, 4)
        if k == 0:
            lines.append("if Txn.Fee:")
            block(4)
            lines.append("end")
        elif k == 1:
            lines.append("for i%d in 0:3:" % i)
            block(4)
            lines.append("end")
        elif k == 2:
            lines.append("push(%d)" % i)
            block(0)
        else:
            block(0)
    lines.append("exit(1)")
    if infunc:
        lines.append("func f():")
        block(4)
        lines += ["    return", "end"]
        lines.insert(0, "f()")
    src, marked, n = [], [], 0
    for x in lines:
        if isinstance(x, tuple):
            src.append("".join(x))
            marked.append(x[0] + f"rawmark{n}" + x[2])
            n += 1
        else:
            src.append(x)
            marked.append(x)
    return {"src_lines": src, "marked": marked, "raws": [r + t for r, t in zip(raws, tails)]}


def show(case):
    return case if "raws" in case else diff.show(case)


def norm(line):
    """the line, with one space before its comment"""
    q, i = False, 0
    while i < len(line):
        c = line[i]
        if q and c == "\\":
            i += 1
        elif c == '"':
            q = not q
        elif not q and line[i:i + 2] == "//":
            return (line[:i].strip() + " " + line[i:].strip()).strip()
        i += 1
    return line.strip()


def check(case):
    if "raws" in case:
        # the same program with a unique marker in place of each raw line
        teal, mark = ([t for t in map(norm, compile_ok("\n".join(case[k]) + "\n")[0]) if t] for k in ("src_lines", "marked"))
        raws = [norm(r) for r in case["raws"]]
        seen = [m.split()[0] for m in mark if m.startswith("rawmark")]
        if seen != [f"rawmark{i}" for i in range(len(raws))]:
            raise Violation("verbatim", f"raw lines rawmark0.. are emitted as {seen}")
        want = [raws[int(m.split()[0][7:])] if m.startswith("rawmark") else m for m in mark]
        if want != teal:
            raise Violation("verbatim", f"raw lines {raws}: expected {want}, emitted {teal}")
        return {"nontrivial": len(raws) > 1, "tags": ["raw"], "key": case["src_lines"]}
    st = case["steps"]
    return diff.check(case, lambda c: st.get("push", 0) + st.get("pop", 0) + st.get("teal", 0) > 0)
