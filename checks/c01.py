"""C01: differential testing of expressions in every position."""
from vlib import diff, gen
PROPERTY = "C01"
QUICK, THOROUGH = 6000, 400000
RULE = diff.BASE + "the source has at least 8 operators, calls or field accesses."

STM = dict(decl=4, assign=3, multi=2, call=1, assert_=2, if_=1.5, while_=0.5, for_=0.5, for__=0, exit_=0.5, log=9, gput=1,
           fieldset=1.5, jump=0.3, switch=0.7, push=0.3, breakx=0.2, error=0.2, itxn=0.3)
CFGS = [gen.Cfg(depth=4, main=(2, 5), prelude=(1, 4), funcs=(0, 1), blocks=(0, 1), nest=2, world=3, stmts=STM),
        gen.Cfg(depth=5, main=(1, 3), prelude=(1, 3), funcs=(0, 0), blocks=(0, 0), nest=1, world=2, stmts=STM),
        gen.Cfg(depth=3, main=(2, 6), prelude=(2, 4), funcs=(0, 2), blocks=(0, 1), nest=2, world=3, unsafe=0.06, stmts=STM)]


def gen_(ch):
    return diff.make_case(ch, ch.choice(CFGS), 2)


gen = gen_
show = diff.show


def ops(case):
    s = case["src"]
    return sum(s.count(t) for t in (" + ", " - ", " * ", " / ", " % ", "(", "[", " < ", " > ", "==", "&&", "||", " b")) >= 8


def check(case):
    return diff.check(case, ops)
