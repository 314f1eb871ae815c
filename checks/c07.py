"""C07: differential testing of routers over application-argument vectors."""
from vlib import avm, diff, gen as G
from vlib.ref import EnumE
from vlib.tl import Skip
PROPERTY = "C07"
QUICK, THOROUGH = 1500, 60000
RULE = diff.BASE + "a router dispatches to a method (counted per run: dispatched, method unknown, wrong on-completion, " \
                   "argument that does not fit)."

STM = dict(decl=3, assign=3, multi=0.5, call=2, assert_=0.5, if_=1.5, while_=0.3, for_=0.3, for__=0, exit_=0.2, log=3, gput=1.5,
           fieldset=1, jump=0.3, switch=0.3, push=0, breakx=0.3, error=0.0, router_=0.6)
K = dict(std=0.7, world=0.6, structs=(0, 2), consts=(0, 1), unsafe=0.005, shadow=0.0, router=0.9, params=(0, 4), rets=(0, 4), pragma=False,
         backjump=0.1)
CFGS = [G.Cfg(depth=2, main=(0, 3), body=(0, 3), prelude=(0, 3), funcs=(2, 5), blocks=(0, 1), nest=2, stmts=STM, **K),
        G.Cfg(depth=1, main=(0, 1), body=(0, 2), prelude=(0, 1), funcs=(3, 9), blocks=(0, 0), nest=1, stmts=STM, **K)]


def arg(ch, v, bad):
    t = v.ty
    if t.is_int:
        hi = v.hi if not ch.bool(0.1) else (1 << 8 * t.size) - 1
        if bad:
            k = ch.int(0, 3)
            if k == 0:
                return bytes([1] + [0] * t.size)               # one more than fits
            if k == 1:
                return ch.rbytes(9)
            if k == 2:
                return b"\xff" * (t.size + 1)
            return ch.rbytes(33)
        x = ch.choice([0, 1, hi, hi // 2, ch.int(0, hi)])
        n = ch.choice([8, 8, max(1, (x.bit_length() + 7) // 8)]) if ch.bool(0.9) else (8 if x else 0)
        return x.to_bytes(max(n, (x.bit_length() + 7) // 8), "big")
    if t.size:
        n = t.size if not bad else ch.choice([0, t.size - 1, t.size + 1, 2 * t.size, t.size + 256])
        return ch.rbytes(n)
    return ch.rbytes(ch.choice([0, 1, 2, 8, min(40, v.ln[1]), ch.int(0, max(0, v.ln[1]))]))


def gen(ch):
    p, g = G.program(ch, ch.choice(CFGS))
    routes = g.public
    if not routes:
        raise Skip("no routes")
    allf = sorted(g.all_func_names())
    ctxs, kinds = [], {}
    for i in range(6):
        base = diff.contexts(ch, g, 1)[0]
        f = ch.choice(routes)
        k = ch.weighted([(6, "good"), (1, "oc"), (1, "badarg"), (0.6, "missing"), (0.5, "extra"), (0.7, "name"), (0.3, "none"), (0.5, "create")])
        kinds[k] = kinds.get(k, 0) + 1
        oc, app = (EnumE.VALUES[f.oc or "NoOp"], 7) if f.oc != "CreateApplication" else (ch.int(0, 5), 0)
        nm = f.name.encode()
        if k == "name":
            nm = ch.choice([nm.upper(), nm + b"1", nm[:-1], b"", nm + b"\0", b" " + nm, f"route_{f.name}".encode(), ch.choice(allf).encode()])
        args = [nm] + [arg(ch, v, False) for v in f.params]
        if k == "oc":
            oc, app = ch.int(0, 5), ch.choice([7, 7, 0])
        elif k == "create":
            app = 0
        elif k == "badarg" and f.params:
            j = ch.int(0, len(f.params) - 1)
            args[j + 1] = arg(ch, f.params[j], True)
        elif k == "missing":
            args = args[:ch.int(1, len(args))]
        elif k == "extra":
            args.append(ch.rbytes(ch.int(0, 9)))
        elif k == "none":
            args = []
        base.args, base.oc, base.app_id = args, oc, app
        ctxs.append(base)
    runs, steps = diff.reference_runs(p, ctxs)
    return {"src": p.source(), "runs": runs, "feat": sorted(g.features), "steps": steps, "kinds": kinds}


show = diff.show


def check(case):
    info = diff.check(case, lambda c: c["steps"].get("route", 0) > 0)
    info["counts"].update({"run_" + k: v for k, v in case["kinds"].items()})
    info["counts"]["dispatched"] = case["steps"].get("route", 0)
    return info
