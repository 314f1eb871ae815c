"""C11: whatever is accepted must pass an independent assembler-checker."""
import re
from vlib import anyprog, avm, gen as G
from vlib.ref import *
from vlib.tl import Rejected, Violation, compile_program
PROPERTY = "C11"
QUICK, THOROUGH = 4000, 250000
RULE = "Case = a program of all features (no raw TEAL), with odd names of functions, blocks, variables and constants, or calls of random " \
       "opcodes and transaction fields with random immediates; if it is accepted, its TEAL must pass an independent assembler-checker and " \
       "start with the source's pragma. Non-trivial: it is accepted."


def imm(ch, op):
    spec = avm.OPS[op]
    k = ch.int(0, 9)
    if k < 4 and spec.get("ArgEnum"):
        return ch.choice(spec["ArgEnum"])
    if k < 7:
        return str(ch.choice([0, 1, 2, 3, 7, 15, 16, 127, 128, 254, 255, 256, 257, 65535, 65536, 1 << 32, 1 << 64]))
    return ch.choice(["FOO", "BAR", "NoOp", "Pay", "Amount", "AssetBalance", "Sender", "Accounts", "StdEncoding", "JSONString", "Nope", '"ab"', "-1",
                      "x", "1 + 1", "itob(1)", "0x05", "Txn.Fee", "00", "007"])


def arg(ch, t):
    if t == "." and ch.bool():
        t = "U"
    return ch.choice(["x", "1", "Txn.Fee", "x + 1", "FOO"]) if t == "U" else ch.choice(["y", '"ab"', "Txn.Sender", "itob(x)", "BAR"])


def op_call(ch):
    op = ch.choice(sorted(o for o in avm.OPS if re.fullmatch(r"[a-z]\w*", o)))
    spec = avm.OPS[op]
    n = max(0, spec["Size"] - 1) if spec["Size"] else ch.int(0, 3)
    if ch.bool(0.1):
        n = max(0, n + ch.choice([-1, 1]))
    args = [imm(ch, op) for _ in range(n)] + [arg(ch, t) for t in spec.get("Args", "")]
    if ch.bool(0.05) and args:
        args.pop()
    return op, spec.get("Returns", ""), f"{op}({', '.join(args)})"


def field(ch):
    ns = ch.choice(["Txn", "Gtxn", "Itxn", "Global"])
    pool = avm.OPS["global" if ns == "Global" else "txn"]["ArgEnum"]
    f = ch.choice(pool) if ch.bool(0.9) else ch.choice(["Nope", "GroupSize", "Sender", "Accounts", "Logs"])
    s = ns
    if ns == "Gtxn":
        s += "[" + ch.choice(["0", "1", "15", "16", "255", "256", "x", "x + 1", "+0", "+1", "-1", "+15", "-16", "+99", "FOO", "BAZ", "Pay", "BIG", "00",
                              "300 - 1", "NoOp"]) + "]"
    s += "." + f
    if ch.bool(0.7 if f in avm.ARRAY_FIELDS else 0.05):
        s += "[" + ch.choice(["0", "1", "255", "256", "x", "x + 1", "FOO", "BIG", "NoOp", "65536", "itob(x)", "00"]) + "]"
    return s


def ops_program(ch):
    out = ["#pragma version %d" % ch.choice([6, 7, 8, 9, 10])] if ch.bool(0.7) else []
    out += ["const int FOO = 3", 'const bytes BAR = "ab"', "const int BAZ = 16", "const int BIG = 300", "const bytes HEX = 0x00ff", "int x = 1", 'bytes y = "abcdefgh"']
    for i in range(ch.int(1, 2)):
        if ch.bool(0.75):
            op, rets, call = op_call(ch)
        else:
            rets, call = ".", field(ch)
        if len(rets) == 0:
            out.append(call)
        elif len(rets) == 1 and ch.bool(0.5):
            out.append(f"assert(({call} == {call}) == 1)" if ch.bool(0.3) else f"{'int' if rets == 'U' else 'bytes' if rets == 'B' else ch.choice(['int', 'bytes'])} z{i} = {call}")
        else:
            out.append(", ".join("_" for _ in rets) + " = " + call)
    tail = ch.int(0, 5)
    if tail == 0:
        out += ["inner_txn:", "    TypeEnum: " + ch.choice(["Pay", "Axfer", "1", "FOO", "NoOp", "\"pay\"", "x"]),
                "    " + ch.choice(avm.OPS["itxn_field"]["ArgEnum"]) + ch.choice(["", "[0]", "[1]", "[x]", "[300]"]) + ": " + arg(ch, "."), "end"]
    elif tail == 1:
        out += [f"switch x:", "    FOO: bl", "    BIG: bl", ch.choice(["    else: bl", "    NoOp: bl"]), "end", "block bl:", "    exit(1)", "end"]
        return "\n".join(out)
    elif tail == 2:
        out += ["for i in FOO:BIG:", "    log(BAR)", "end"]
    out.append("exit(" + ch.choice(["1", "FOO", "NoOp", "BIG", "x", "BAZ + FOO"]) + ")")
    return "\n".join(out)


def gen(ch):
    k = ch.weighted([(4, "program"), (4, "renamed"), (4, "ops")])
    if k == "ops":
        return {"src": ops_program(ch), "kind": k}
    p, g = anyprog.program(ch, raw=False)
    if k == "renamed":
        anyprog.rename(ch, p, g)
    return {"src": p.source(), "kind": k}


def check(case):
    src = case["src"]
    try:
        teal, _ = compile_program(src)
    except Rejected as e:
        if case["kind"] == "program":
            raise Violation("rejected", str(e))
        return {"nontrivial": False, "key": src, "tags": [case["kind"], "rejected"]}
    if not isinstance(teal, list) or any(not isinstance(l, str) or "\n" in l for l in teal):
        raise Violation("lines", "the result is not a list of single lines")
    try:
        a = avm.assemble(teal)
    except avm.AsmError as e:
        raise Violation("assembler", f"{e}") from None
    m = re.match(r"#pragma version (\d+)", src)
    if m and (not teal or teal[0].strip() != m.group()):
        raise Violation("pragma", f"first line is {teal[:1]}")
    return {"nontrivial": True, "key": src, "tags": [case["kind"], "accepted"], "counts": {"instructions": len(a.ins), "labels": len(a.labels)}}


def show(case):
    return case
