"""Programs over every feature, for the checks that do not execute the source."""
from . import gen as G
from .mutate import containers, all_stmts
from .ref import *

STM = dict(decl=5, assign=4, multi=2, call=2, assert_=2, if_=3, while_=1.5, for_=1.5, for__=1, exit_=1, log=3, gput=1, itxn=2, group=1,
           fieldset=2, box=1.5, error=0.5, jump=1.5, switch=1.5, push=1, breakx=1, router_=0.4)
BASE = dict(comments=0.15, strange_names=0.25, budget=40)
CFGS = [G.Cfg(main=(1, 6), prelude=(0, 3), body=(1, 3), funcs=(0, 3), blocks=(0, 3), structs=(0, 2), consts=(0, 3), depth=2, nest=3,
              shadow=0.3, stmts=STM, **BASE),
        G.Cfg(main=(0, 3), prelude=(0, 2), body=(0, 2), funcs=(0, 2), blocks=(0, 1), structs=(0, 1), consts=(0, 2), depth=1, nest=2,
              stmts=STM, **BASE),
        G.Cfg(main=(0, 3), prelude=(0, 2), body=(0, 2), funcs=(1, 4), blocks=(0, 1), structs=(0, 2), consts=(0, 1), depth=1, nest=2,
              router=0.9, stmts=STM, **BASE)]


def program(ch, raw=True, cfgs=None):
    cfg = ch.choice(cfgs or CFGS)
    if not raw:
        c2 = G.Cfg()
        c2.__dict__.update(cfg.__dict__)
        c2.stmts = dict(cfg.stmts, push=0)
        cfg = c2
    return G.program(ch, cfg)


FN = ["log2", "main", "l0", "l1_end", "l0_end", "if1", "x_end", "b", "bz", "callsub", "load", "sqrt_", "itob_", "a_", "func", "__a", "a__b", "pushint",
      "func_x", "block", "int_", "main_x", "route_x", "router", "route_f", "switch1", "e1", "abc123", "aBC", "f_end", "err_", "returns"]
BN = FN + ["Main", "L0", "Z", "A1", "Txn", "End", "x-y", "l0_while", "l2_for", "l1_case"]
VN = ["x", "end_", "b", "l0", "sender", "log_", "txn_", "err", "p0", "load", "aB9_", "xX", "int_", "in_", "not_"]
CN = ["FOO", "NOOP", "PAY", "A1", "AB", "B_", "TEAL", "X1Y2", "ZZ9", "TXN", "OK", "ERR", "INT", "BYTE"]
SN = ["Foo", "Txn1", "Item", "A1", "Pay", "NoOp", "Int", "Global1", "Itxn", "Box", "Log", "Sender", "AB", "FOO"]


def rename(ch, p, g):
    """give some names other, odd names (the result may well be rejected)"""
    fs = [c for c in containers(p.after) if isinstance(c, Func)]
    bs = [c for c in containers(p.after) if isinstance(c, Block)]
    vs = [s.var for s in all_stmts(p) if isinstance(s, Decl)] + [v for f in fs for v in f.params]
    pools = [(x, FN) for x in fs] + [(x, BN) for x in bs] + [(x, VN) for x in vs] + [(x, CN) for x in g.consts]
    n = 0
    for _ in range(ch.int(1, 3)):
        if not pools:
            break
        x, pool = ch.choice(pools)
        nm = ch.choice(pool)
        if isinstance(x, Func) and ch.bool(0.2) and bs:
            nm = ch.choice(bs).name
        if isinstance(x, Block) and ch.bool(0.3) and (bs or fs):
            nm = ch.choice(bs + fs).name
            if ch.bool(0.3):
                nm = nm + "__" + ch.choice(bs + fs).name
        x.name = nm
        n += 1
    return n
