"""C05: differential testing of struct and box fields over generated layouts, and the reported layout."""
from vlib import diff, gen as G
from vlib.tl import Violation, inspect
PROPERTY = "C05"
QUICK, THOROUGH = 2200, 60000
RULE = diff.BASE + "at least 2 field writes, field reads or box references are executed.  The layout of every struct reported " \
    "by inspect is compared with the running sum of the field sizes."

STM = dict(decl=5, assign=2, multi=0.3, call=2, assert_=0.3, if_=1, while_=0.7, for_=1, for__=0, exit_=0.1, log=4, gput=0.2,
           fieldset=12, jump=0.3, switch=0.3, push=0, breakx=0.2, error=0.0, box=5)
K = dict(std=1, world=0.5, consts=(0, 0), unsafe=0.004, balanced=0.5, dump=0.6, frefs=4)
CFGS = [G.Cfg(depth=2, main=(3, 8), prelude=(1, 4), body=(1, 3), structs=(1, 3), funcs=(0, 2), blocks=(0, 1), nest=2, stmts=STM, **K),
        G.Cfg(depth=2, main=(3, 7), prelude=(1, 3), body=(1, 3), structs=(1, 4), big_struct=True, funcs=(0, 1), blocks=(0, 0), nest=2,
              stmts=dict(STM, box=7), **K),
        G.Cfg(depth=1, main=(4, 9), prelude=(1, 3), structs=(2, 4), big_struct=True, funcs=(0, 0), blocks=(0, 0), nest=1,
              stmts=dict(STM, box=4), **K)]


def gen(ch):
    c, g = diff.make_case_g(ch, ch.choice(CFGS), 3)
    c["layout"] = {s.name: {"size": s.size, "fields": {f: {"size": t.size, "offset": s.offsets[f][0], "type": t.name}
                                                         for f, t in s.fields}} for s in g.structs}
    return c


show = diff.show


def check(case):
    got = inspect(case["src"]).get("structs", {})
    want = case["layout"]
    if sorted(got) != sorted(want):
        raise Violation("layout", f"structs {sorted(want)} reported as {sorted(got)}")
    for n in want:
        if got[n]["size"] != want[n]["size"]:
            raise Violation("layout", f"{n} has size {want[n]['size']}, reported {got[n]['size']}")
        if list(got[n]["fields"]) != list(want[n]["fields"]):
            raise Violation("layout", f"fields of {n}: {list(want[n]['fields'])} reported as {list(got[n]['fields'])}")
        for f, w in want[n]["fields"].items():
            g = got[n]["fields"][f]
            if (g["size"], g["offset"]) != (w["size"], w["offset"]):
                raise Violation("layout", f"{n}.{f}: {w} reported as {g}")
            if w["type"] in ("int", "bytes", "uint8") and g["type"] != w["type"]:
                raise Violation("layout", f"{n}.{f}: {w} reported as {g}")
    st = case["steps"]
    return diff.check(case, lambda c: st.get("fieldset", 0) + st.get("box", 0) + st.get("fieldref", 0) >= 2)
