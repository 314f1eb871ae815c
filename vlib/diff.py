"""Differential checks: the emitted TEAL on the AVM model against the reference interpreter.

case = {"src": text, "runs": [{"ctx": .., "want": [status, value, trace]}], "feat": [..]}
A failing run is compared by its status only: the AVM discards the effects of a failed call.
"""
from . import avm, gen, ref
from .tl import Skip, Violation, compile_ok


def outcome(r):
    if r.status == "fail":
        return ["fail"]
    boxes = sorted([k.hex(), v.hex()] for k, v in r.boxes.items())
    return avm.jsonable([r.status, r.value, r.trace]) + ([boxes] if boxes else [])


def reference_runs(prog, ctxs):
    """(runs, steps)"""
    runs, steps = [], {}
    for ctx in ctxs:
        try:
            r, rt = prog.run(ctx)
        except ref.Unspecified as e:
            raise Skip(f"unspecified {e}") from None
        except avm.OutOfFuel:
            raise Skip("reference out of fuel") from None
        if r.fault and r.fault != "AvmFail":
            raise Skip("reference type fault")
        if r.status == "end":
            raise Skip("reference falls off the end")
        runs.append({"ctx": ctx.to_json(), "want": outcome(r)})
        for k, v in rt.steps.items():
            steps[k] = steps.get(k, 0) + v
    return runs, steps


def contexts(ch, g, n):
    """transaction contexts with the boxes the program expects, and variations of those"""
    out = []
    for i in range(n):
        boxes = {}
        for k, st in sorted(g.pre.items(), key=lambda x: x[0]):
            boxes[k] = ch.rbytes(st.size)
        if i and (g.pre or g.created):
            keys = sorted(g.pre) + sorted(g.created)
            k = ch.choice(keys)
            q = ch.weighted([(2, "none"), (2, "drop"), (2, "size"), (1, "exists")])
            if q == "drop":
                boxes.pop(k, None)
            elif q == "size":
                n0 = (g.pre.get(k) or g.created.get(k)).size
                boxes[k] = ch.rbytes(max(0, n0 + ch.choice([-1, 1, 8])))
            elif q == "exists":
                boxes[k] = ch.rbytes((g.pre.get(k) or g.created.get(k)).size)
        out.append(avm.Ctx(seed=ch.int(0, 9999), boxes=boxes))
    return out


def make_case(ch, cfg, nctx=2):
    return make_case_g(ch, cfg, nctx)[0]


def make_case_g(ch, cfg, nctx=2):
    p, g = gen.program(ch, cfg)
    ctxs = contexts(ch, g, nctx)
    runs, steps = reference_runs(p, ctxs)
    return {"src": p.source(), "runs": runs, "feat": sorted(g.features), "steps": steps}, g


def assemble(teal):
    try:
        return avm.assemble(teal)
    except avm.AsmError as e:
        raise Violation("assembler", f"the emitted TEAL does not assemble: {e}") from None


def execute(asm, ctx, fuel=400000, hook=None):
    try:
        return avm.run(asm, ctx, fuel=fuel, hook=hook)
    except avm.OutOfFuel:
        return avm.Result("loop", None, [])


def check_runs(case, teal):
    asm = assemble(teal)
    n = 0
    for run in case["runs"]:
        r = execute(asm, avm.Ctx.from_json(run["ctx"]))
        got = outcome(r)
        if got != run["want"]:
            raise Violation(classify(got, run["want"]),
                            f"context {run['ctx']}: source means {short(run['want'])}, TEAL does {short(got)} {r.detail}")
        if got[0] != "fail":
            n += 1
    return n


def classify(got, want):
    return f"{want[0]}->{got[0]}" if got[0] != want[0] else "trace" if got[2:] != want[2:] else "value"


def short(o):
    s = str(o)
    return s if len(s) < 900 else s[:900] + "..."


def check(case, rule=None):
    teal, _ = compile_ok(case["src"])
    n = check_runs(case, teal)
    trace = sum(len(r["want"][2]) for r in case["runs"] if len(r["want"]) > 2)
    nt = n > 0 and trace > 0 and (rule is None or rule(case))
    return {"nontrivial": nt, "tags": list(case.get("feat", ())) + ["step:" + k for k in case.get("steps", {})],
            "key": case["src"], "counts": {"runs": len(case["runs"]), "completed_runs": n, "effects_compared": trace}}


def show(case):
    return {"src": case["src"], "run": case["runs"][0]}


BASE = "Case = a generated well-typed program plus transaction contexts; the emitted TEAL is assembled and run and its " \
       "exit status, value and ordered effects are compared with an independent interpreter of the source. Non-trivial: at " \
       "least one run completes, at least one effect is compared and "
