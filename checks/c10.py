"""C10: accepted programs run under a monitor of operand types, stack depth and variable sizes."""
import re
from vlib import avm, diff, gen as G, typecheck as T
from vlib.mutate import Mutator, listify, placed, prelude, slots
from vlib.ref import *
from vlib.tl import Rejected, Skip, Violation, compile_program
PROPERTY = "C10"
QUICK, THOROUGH = 2600, 120000
RULE = "Case = a generated program, usually with one type-level mutation, instrumented in the source to log every variable after each " \
       "assignment, with transaction contexts; its TEAL runs on the AVM model, which faults on operand types and underflow, and depth at " \
       "calls, returns and exit and the size of every logged variable are checked. Non-trivial: accepted, and a run logs a variable and completes."

STM = dict(decl=5, assign=5, multi=3, call=4, assert_=1, if_=3, while_=2, for_=2, for__=0, exit_=1, log=2, gput=1,
           itxn=1, group=0.5, fieldset=3, box=1.5, jump=1, switch=1, push=0, breakx=1, error=0.1)
K = dict(comments=0.0, anys=False, strange_names=0.05, unsafe=0.01)
CFGS = [G.Cfg(main=(1, 5), body=(1, 3), prelude=(0, 2), nest=3, depth=2, funcs=(0, 3), blocks=(0, 2), ucall=4, frefs=2, std=4,
              structs=(0, 2), consts=(0, 2), budget=25, stmts=STM, **K),
        G.Cfg(main=(1, 3), body=(1, 2), prelude=(0, 1), nest=1, depth=2, funcs=(0, 2), blocks=(0, 1), std=6, structs=(1, 2),
              consts=(0, 1), budget=12, stmts=STM, **K)]


def unknown(p):
    """does the program use a value of unknown type, or a known finding (see DESIGN.md)?"""
    for s in slots(p):
        e = s.get()
        if isinstance(e, Std) and e.name == "UncheckedCast":
            return "unchecked cast"
        try:
            t = T.ty_of(e)
        except (T.Bad, T.Open):
            continue
        for x in t if isinstance(t, list) else [t]:
            if x is not None and x.kind == "any":
                return "unknown type"
    for s, _ in placed(p):
        if isinstance(s, InnerTxn):
            for n, i, e in s.fields:
                if i is not None:
                    try:
                        t = T.ty_of(e)
                        if t is None or isinstance(t, list) or t.is_int != (avm.FIELD_TYPES["txn"][n] == "U"):
                            return "array field (known finding)"
                    except (T.Bad, T.Open):
                        return "array field (known finding)"
    return None


def early_read(p):
    """can a function be called by a declaration (a mutated one) before a variable that functions use is assigned?"""
    cs = list(T.containers(p.after))
    funcs = [c for c in cs if isinstance(c, Func)]
    src = lambda s: "\n".join(t for _, t, _ in s.lines())
    text = "\n".join(src(s) for c in funcs for s in c.body)
    call = re.compile(r"\b(" + "|".join(map(re.escape, [c.name for c in funcs])) + r")\(")
    for body in [p.body] + [c.body for c in cs if isinstance(c, Block)]:
        called = False
        for s in body:
            called = called or bool(funcs and call.search(src(s)))
            if called and isinstance(s, Decl) and re.search(rf"\b{s.var.name}\b", text):
                return True
    return False


def unassigned(p):
    """is the first use of a variable declared without a value anything but an assignment (one of its targets, before)?"""
    src = lambda s: "\n".join(t for _, t, _ in s.lines())

    def body(b):
        for i, s in enumerate(b):
            if any(body(k) for k in s.bodies()):
                return True
            if isinstance(s, Decl) and s.e is None and not s.var.ty.is_int:
                name = rf"\b{s.var.name}\b"
                for t in b[i + 1:]:
                    if isinstance(t, Assign) and any(v is not None and v.name == s.var.name for v in t.targets) and not re.search(name, t.e.src()):
                        break
                    if re.search(name, src(t)):
                        return True
        return False
    return any(body(b) for b in [p.body] + [c.body for c in T.containers(p.after)])


class Raw(S):
    def __init__(self, text):
        self.text = text

    def src(self):
        return self.text


def instrument(p):
    tags = {}

    def probe(v, e=None):
        ty = v.ty if e is None else e.ty
        x = (v.name if e is None else e.src())
        if ty.kind == "box":
            return []
        t = f"~T{len(tags)}~"
        tags[t] = [x, ty.name, ty.is_int, ty.size]
        return [Raw(f'log(concat("{t}", {f"itob({x})" if ty.is_int else x}))')]

    def body(b):
        out = []
        for s in b:
            out.append(s)
            for k in s.bodies():
                k[:] = body(k)
            if isinstance(s, Decl) and s.e is not None:
                out += probe(s.var)
            elif isinstance(s, Assign):
                for v in s.targets:
                    out += probe(v) if v else []
            elif isinstance(s, FieldSet):
                if s.var.ty.struct and s.f in s.var.ty.struct.offsets:
                    out += probe(s.var, FieldRef(s.var, s.f))
                    out += probe(s.var)
            elif isinstance(s, For) and s.var:
                s.body[:0] = probe(s.var)
        return out
    p.body = body(p.body)
    for c in T.containers(p.after):
        c.body = body(c.body)
        if isinstance(c, Func):
            c.body[:0] = [x for v in c.params for x in probe(v)]
    return tags


def gen(ch):
    p, g = G.program(ch, ch.choice(CFGS))
    out, vs = prelude(g, p, ch)
    n = next((i for i, s in enumerate(p.body) if not isinstance(s, ConstD)), len(p.body))
    p.body[n:n] = out
    listify(p)
    m = Mutator(ch, p, g, vs, out, any_=False)
    kinds = [m.mutate() for _ in range(ch.weighted([(3, 0), (5, 1), (1, 2)]))]
    why = unknown(p) or (early_read(p) or unassigned(p)) and "variable read before assignment"
    if why:
        raise Skip(why)
    tags = instrument(p)
    return {"src": p.source(), "tags": tags, "kinds": kinds, "ctxs": [c.to_json() for c in diff.contexts(ch, g, 2)]}


def show(case):
    return {"src": case["src"], "kinds": case["kinds"]}


class Monitor:
    def __init__(self):
        self.frames, self.delta, self.bad = [], {}, None

    def __call__(self, pc, ins, stack, scratch, calls):
        op = ins.op
        if op == "callsub":
            self.frames.append((ins.labels[0], len(stack)))
        elif op == "retsub" and self.frames:
            lbl, n = self.frames.pop()
            d = len(stack) - n
            if self.delta.setdefault(lbl, d) != d:
                raise Violation("depth", f"{lbl} changes the stack by {d} and by {self.delta[lbl]} values")
        elif op == "return" and not self.frames and len(stack) != 1:      # in a call, the caller's operands are below
            raise Violation("depth", f"{len(stack) - 1} values are left on the stack at exit: {stack[:6]}")


def check(case):
    src = case["src"]
    try:
        teal, _ = compile_program(src)
    except Rejected:
        return {"nontrivial": False, "key": src, "tags": ["rejected"] + ["mutation " + k for k in case["kinds"]]}
    asm = diff.assemble(teal)
    done = logged = faults = 0
    for c in case["ctxs"]:
        r = diff.execute(asm, avm.Ctx.from_json(c), fuel=60000, hook=Monitor())
        if r.fault in ("AvmTypeFault", "AvmUnderflow"):
            raise Violation(r.fault, f"{r.detail}")
        if r.status == "end":
            raise Violation("end", "the run falls off the end of the program")
        done += r.status == "return"
        faults += r.status == "fail"
        n = 0
        for ev in r.trace:
            if ev[0] != "log":
                continue
            m = re.match(rb"~T\d+~", ev[1])
            if not m:
                continue
            tag = case["tags"].get(m.group().decode())
            if not tag:
                continue
            n += 1
            name, ty, is_int, size = tag
            v = ev[1][m.end():]
            if is_int and int.from_bytes(v, "big") >> (8 * size):
                raise Violation("size", f"{name} of type {ty} holds {int.from_bytes(v, 'big')}")
            if not is_int and size and len(v) != size:
                raise Violation("size", f"{name} of type {ty} holds {len(v)} bytes")
        logged += n if r.status == "return" else 0
    return {"nontrivial": bool(done and logged), "key": src, "tags": ["accepted"] + ["mutation " + k for k in case["kinds"]],
            "counts": {"completed_runs": done, "failed_runs": faults, "values_checked": logged}}
