"""C02: differential testing of control flow."""
from vlib import diff, gen as G
PROPERTY = "C02"
QUICK, THOROUGH = 1100, 60000
RULE = diff.BASE + "at least 3 control statements are executed. Conditions include literals and constants, `for` bounds changed in the body, `else` at any place of a switch."

STM = dict(decl=2, assign=4, multi=0.2, call=2, assert_=1.5, if_=8, while_=4, for_=4, for__=2, exit_=2, log=7, gput=0.5,
           fieldset=0, jump=3, switch=4, push=0, breakx=5, error=0.7)
CFGS = [G.Cfg(depth=1, main=(3, 7), body=(1, 4), prelude=(2, 4), funcs=(0, 2), blocks=(0, 3), nest=4, std=0, world=0.5,
              structs=(0, 0), consts=(0, 1), strange_names=0.1, shadow=0.2, backjump=0.6, stmts=STM, unsafe=0.005, balanced=0.8, marks=0.7),
        G.Cfg(depth=1, main=(1, 3), body=(1, 3), prelude=(1, 3), funcs=(0, 1), blocks=(2, 5), nest=3, std=0, world=0.5,
              structs=(0, 0), consts=(0, 0), shadow=0.4, backjump=0.7, block_depth=3, stmts=dict(STM, jump=5, switch=6), unsafe=0.005, balanced=0.8, marks=0.7),
        G.Cfg(depth=1, main=(1, 2), body=(2, 4), prelude=(1, 2), funcs=(1, 3), blocks=(0, 1), nest=5, std=0, world=0.2,
              structs=(0, 0), consts=(0, 0), stmts=dict(STM, exit_=1, error=0.3), unsafe=0.0, balanced=0.8, marks=0.7)]
FLOW = ("if", "else", "while", "for", "for_", "break", "jump", "switch", "exit", "assert", "block")


def gen(ch):
    return diff.make_case(ch, ch.choice(CFGS), 5)


show = diff.show


def check(case):
    return diff.check(case, lambda c: sum(c["steps"].get(k, 0) for k in FLOW) >= 3)
