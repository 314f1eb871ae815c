"""C04: differential testing of calls, returns and multi-value assignments."""
from vlib import diff, gen as G
PROPERTY = "C04"
QUICK, THOROUGH = 1800, 60000
RULE = diff.BASE + "at least 3 calls of user functions or multi-result assignments are executed."

STM = dict(decl=4, assign=4, multi=7, call=6, assert_=0.5, if_=2, while_=0.7, for_=0.7, for__=0, exit_=0.5, log=7, gput=1,
           fieldset=0.5, jump=0.3, switch=0.3, push=0, breakx=0.3, error=0.1)
CFGS = [G.Cfg(depth=3, main=(3, 6), prelude=(1, 3), funcs=(2, 5), params=(0, 5), rets=(0, 4), blocks=(0, 1), nest=2, ucall=8,
              std=0.5, world=0.5, structs=(0, 1), consts=(0, 1), unsafe=0.0, stmts=STM),
        G.Cfg(depth=2, main=(2, 4), prelude=(1, 2), funcs=(2, 4), params=(1, 5), rets=(1, 1), blocks=(0, 0), nest=2, ucall=14,
              std=0.5, world=0.3, structs=(0, 1), consts=(0, 0), unsafe=0.0, stmts=STM),
        G.Cfg(depth=2, main=(2, 4), prelude=(1, 2), funcs=(2, 4), params=(0, 3), rets=(2, 5), blocks=(0, 2), nest=2, ucall=6,
              std=0.5, world=1, structs=(0, 0), consts=(0, 0), shadow=0.5, unsafe=0.0, stmts=dict(STM, multi=12))]


def gen(ch):
    return diff.make_case(ch, ch.choice(CFGS), 2)


show = diff.show


def check(case):
    return diff.check(case, lambda c: c["steps"].get("call", 0) + ("multi" in c["feat"]) >= 3)
