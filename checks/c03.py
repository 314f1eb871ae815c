"""C03: differential testing of storage: many variables over scopes, calls, loops and blocks,
and programs around the limit of 256 scratch slots."""
from vlib import avm, diff, gen as G, ref
from vlib.tl import Rejected, Violation, compile_program
PROPERTY = "C03"
QUICK, THOROUGH = 1400, 60000
RULE = diff.BASE + "it has at least 5 variables in at least two scopes, or it is a program of 150-320 variables around the limit."

STM = dict(decl=8, assign=7, multi=2, call=5, assert_=0.3, if_=2, while_=2, for_=3, for__=0.3, exit_=0.2, log=3, gput=0.3,
           fieldset=1, jump=0.5, switch=0.5, push=0.3, breakx=0.3, error=0.0, itxn=0.4, group=0.4, box=0.5)
K = dict(depth=1, std=0.3, world=0.3, structs=(0, 1), consts=(0, 0), unsafe=0.0, balanced=0.5, dump=0.5, reuse=0.6, params=(0, 4))
CFGS = [G.Cfg(main=(2, 6), body=(1, 4), prelude=(2, 6), funcs=(1, 4), blocks=(0, 2), nest=3, shadow=0.4, ucall=6, stmts=STM, **K),
        G.Cfg(main=(1, 3), body=(1, 4), prelude=(1, 4), funcs=(0, 2), blocks=(1, 4), nest=3, shadow=0.4, backjump=0.5,
              block_depth=3, ucall=4, stmts=STM, **K),
        G.Cfg(main=(2, 4), body=(1, 3), prelude=(1, 3), funcs=(3, 6), blocks=(0, 1), nest=2, ucall=10, stmts=dict(STM, call=8), **K)]


def huge(ch):
    """n variables spread over the main program, functions, blocks and loops; every value is checked"""
    n = ch.choice([ch.int(150, 320), ch.int(190, 210), ch.int(250, 262)])
    shape = ch.choice(["main", "func", "block", "loop", "mixed"])
    parts = {"main": n, "func": 0, "block": 0, "loop": 0}
    if shape == "mixed":
        for k in ("func", "block", "loop"):
            parts[k] = ch.int(0, n // 4)
        parts["main"] = n - sum(parts.values()) + n
    elif shape != "main":
        parts[shape] = ch.int(1, n - 1)
        parts["main"] = n - parts[shape]
    src, log = [], []

    def group(k, ind, pre):
        pad = "    " * ind
        for i in range(parts[k]):
            src.append(f"{pad}int {pre}{i} = {i * 7 + len(pre)}")
        return [(f"{pre}{i}", i * 7 + len(pre)) for i in range(parts[k])]

    def dump(vs, ind):
        pad = "    " * ind
        for i in range(0, len(vs), 40):
            c = vs[i:i + 40]
            src.append(pad + "log(itob(" + _sum([v for v, _ in c]) + "))")
            log.append(["log", "0x" + sum(x for _, x in c).to_bytes(8, "big").hex()])

    group_flag = ch.bool(0.2)
    if group_flag:
        src += ["inner_group:", "    inner_txn:", "        TypeEnum: Pay", "    end", "end"]
        log += [["itxn", [[["TypeEnum", 1]]]]]
    mv = group("main", 0, "m")
    if parts["loop"]:
        src += ["for q in 1:2:"]
        lv = group("loop", 1, "loopv")
        dump(lv, 1)
        src.append("end")
    if parts["func"]:
        src.append("fn()")
        fv = [(f"ff{i}", i * 7 + 2) for i in range(parts["func"])]
        for i in range(0, len(fv), 40):
            log.append(["log", "0x" + sum(x for _, x in fv[i:i + 40]).to_bytes(8, "big").hex()])
    dump(mv, 0)
    if parts["block"]:
        src.append("jump bl")
        src.append("block bl:")
        bv = group("block", 1, "bb")
        dump(bv, 1)
        dump(mv, 1)
        src += ["    exit(3)", "end"]
    else:
        src.append("exit(3)")
    if parts["func"]:
        src.append("func fn():")
        saved = list(log)
        fv = group("func", 1, "ff")
        dump(fv, 1)
        del log[len(saved):]
        src += ["    return", "end"]
    total = n + bool(parts["loop"]) + group_flag
    return {"huge": True, "src": "\n".join(src), "runs": [{"ctx": avm.Ctx(seed=1).to_json(), "want": ["return", 3, log]}],
            "must_accept": total <= 190, "must_reject": parts["main"] > 256, "feat": ["huge " + shape]}


def _sum(names):
    e = names[0]
    for x in names[1:]:
        e = f"({e}) + {x}" if " " in e else f"{e} + {x}"
    return e


def gen(ch):
    if ch.bool(0.04):
        return huge(ch)
    return diff.make_case(ch, ch.choice(CFGS), 2)


show = diff.show


def check(case):
    if case.get("huge"):
        try:
            teal, _ = compile_program(case["src"])
        except Rejected as e:
            if case["must_accept"]:
                raise Violation("rejected", f"needs at most 190 slots but is rejected: {e}")
            return {"tags": ["rejected over limit"], "key": case["src"]}
        if case["must_reject"]:
            raise Violation("limit", "more than 256 variables in one scope are accepted")
        diff.check_runs(case, teal)
        return {"tags": case["feat"] + ["accepted near limit"], "key": case["src"]}
    return diff.check(case, lambda c: nvars(c["src"]) >= 5)


def nvars(src):
    import re
    return len(re.findall(r"^\s*(?:int|bytes|uint8|uint64|bigint|bytes\[\d+\]|uint8\[\d+\]|[A-Z]\w+|for) \w+(?: =| in|$)", src, re.M))
