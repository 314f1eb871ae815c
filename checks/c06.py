"""C06: differential testing of inner transactions and groups."""
from vlib import diff, gen as G
from vlib.tl import Rejected, Violation, compile_program
PROPERTY = "C06"
QUICK, THOROUGH = 1400, 60000
RULE = diff.BASE + "at least 2 inner transactions are built; or it is one inner_txn with elements of array fields, whose indices say the order " \
                   "(accepted) or not (rejected)."

STM = dict(decl=2, assign=2, multi=0.3, call=7, assert_=0.3, if_=4, while_=1.5, for_=2.5, for__=0.4, exit_=0.4, log=2, gput=0.3,
           fieldset=0.3, jump=0.6, switch=0.6, push=0.2, breakx=0.6, error=0.0, itxn=9, group=6)
K = dict(depth=1, std=0.5, world=0.5, structs=(0, 1), consts=(0, 2), unsafe=0.003, balanced=0.8)
CFGS = [G.Cfg(main=(2, 6), body=(1, 3), prelude=(1, 3), funcs=(1, 3), params=(0, 2), rets=(0, 1), blocks=(0, 2), nest=3, ucall=4, stmts=STM, **K),
        G.Cfg(main=(2, 4), body=(1, 3), prelude=(1, 2), funcs=(1, 4), params=(0, 1), rets=(0, 0), blocks=(0, 1), nest=4,
              stmts=dict(STM, group=9, call=10), **K),
        G.Cfg(main=(2, 5), body=(1, 4), prelude=(1, 3), funcs=(0, 1), blocks=(0, 3), nest=3, backjump=0.7, stmts=dict(STM, group=0), **K)]


def indices(ch):
    """elements of array fields: each index has to be the number of the field's elements before it"""
    out, count, good = [], {}, True
    long = ch.bool(0.3)  # one long array
    for _ in range(ch.int(9, 16) if long else ch.int(1, 5)):
        f = ch.weighted([(3, "ApplicationArgs"), (2, "Accounts"), (1, "Applications"), (1, "Assets"), (2, "Fee")])
        if long and ch.bool(0.95):
            f = "ApplicationArgs"
        if f == "Fee":
            out.append("Fee: 7")
            continue
        n = count.get(f, 0)
        i = n if ch.bool(0.97 if long else 0.7) else ch.choice([0, 1, 2, 3, 9, 10, n + 1, max(0, n - 1), n % 10])
        good = good and i == n
        count[f] = n + 1
        out.append(f"{f}[{i}]: " + ch.choice(["1", "Txn.Fee"] if f in ("Applications", "Assets") else ["Txn.Sender", "Global.ZeroAddress"]))
    pad = ch.choice(["", "    "])
    src = ["#pragma version 8", "inner_txn:", "    TypeEnum: Appl"] + ["    " + x for x in out] + ["end", "exit(1)"]
    if ch.bool(0.3):
        src = src[:1] + ["inner_group:"] + [pad + x for x in src[1:-1]] + ["end", "exit(1)"]
    return {"src": "\n".join(src), "good": good}


def gen(ch):
    if ch.bool(0.05):
        return indices(ch)
    return diff.make_case(ch, ch.choice(CFGS), 4)


def show(case):
    return case if "good" in case else diff.show(case)


def check(case):
    if "good" in case:
        try:
            compile_program(case["src"])
        except Rejected as e:
            if case["good"]:
                raise Violation("rejected", f"array fields are written in order but rejected: {e}")
        else:
            if not case["good"]:
                raise Violation("index", "an array field is accepted at an index that is not its place")
        return {"tags": ["array index " + ("right" if case["good"] else "wrong")], "key": case["src"]}
    return diff.check(case, lambda c: c["steps"].get("inner_txn", 0) >= 2)
