"""C14: text fuzzing: every text gives a result or a ParseError/CompileError, in time, without side effects."""
import os
import random
import resource
import signal
import sys
import tempfile
from checks import c09
from vlib import anyprog, textgen as T, tl
from vlib.harness import on_timer, Hang
from vlib.tl import CompileError, ParseError, Violation, silence, tealish
PROPERTY = "C14"
QUICK, THOROUGH = 4000, 400000
RULE = "Case = a source text: a generated program with 1-4 mutations of tokens, lines or characters (kept or cut off anywhere), type errors put into a program, lines of a loose " \
       "grammar with arbitrary words, arbitrary Unicode, or a shape nested or repeated up to 1000 times; compile, reformat, inspect and the " \
       "compiler object must each return or raise ParseError/CompileError within 5 s + 10 ms per line + 0.5 ms per character of CPU time, print " \
       "nothing and leave environment, working directory and the given lines alone. Non-trivial: the text has at least 10 characters."
ASSUMES = ["CPU time of the process; the factor allowed is about 10 times what is needed"]
SIZES = [1, 2, 5, 10, 20, 30, 40, 60, 100, 200, 300, 400, 700, 1000]


def gen(ch):
    k = ch.weighted([(8, "mutant"), (3, "lines"), (1, "text"), (1, "nest"), (1, "mixed nest"), (3, "ill-typed")])
    kinds = []
    if k == "mutant":
        src = anyprog.program(ch, cfgs=T.SMALL)[0].source()
        src, kinds = T.mutate(ch, src, src)
    elif k == "ill-typed":
        p, kinds = c09.program(ch)
        src = p.source()
    elif k == "lines":
        ls = T.random_lines(ch)
        if ch.bool(0.5):
            ls = ["int x = 1", 'bytes y = "ab"'] + ls + ["exit(1)"]
        if ch.bool(0.2):
            ls += ["func foo(a: int) int:", "return a", "end"]
        src = "\n".join(ls)
    elif k == "text":
        src = T.random_text(ch)
    else:
        name = ch.choice(sorted(T.NEST))
        src = T.NEST[name](ch.choice(SIZES))
        kinds = [name]
        if k == "mixed nest":
            o = ch.choice(sorted(T.NEST))
            src2 = T.NEST[o](ch.choice(SIZES[:9]))
            kinds.append(o)
            j = ch.int(0, len(src))
            src = ch.choice([src + "\n" + src2, src[:j] + src2 + src[j:], src[:j] + src2, src2 + src[j:]])
    if ch.bool(0.03):
        src = src.replace("\n", "\r\n")
    return {"src": src, "kind": k, "kinds": kinds}


def state():
    return (os.getcwd(), sorted(os.listdir(".")), dict(os.environ), sys.getrecursionlimit(), list(sys.path), random.getstate(),
            resource.getrlimit(resource.RLIMIT_STACK), signal.getsignal(signal.SIGINT))


def objects(src):
    lines = src.split("\n")
    c = tealish.TealishCompiler(lines)
    try:
        c.compile()
    finally:
        if lines != src.split("\n"):
            raise Violation("lines changed", "the source lines given to TealishCompiler are changed")
    return c.get_map(), c.get_structs()


APIS = [("compile", lambda s: tealish.compile_program(s)), ("reformat", lambda s: tealish.reformat_program(s)),
        ("inspect", lambda s: tealish.inspect_program(s)), ("TealishCompiler", objects)]


def check(case):
    home = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            return decide(case)
        finally:
            os.chdir(home)


def decide(case):
    src = case["src"]
    limit = 5 + 0.01 * src.count("\n") + 0.0005 * len(src)
    before = state()
    oks = {}
    for name, fn in APIS:
        signal.signal(signal.SIGVTALRM, on_timer)
        signal.setitimer(signal.ITIMER_VIRTUAL, limit)
        try:
            with silence() as o:
                fn(src)
            oks[name] = "ok"
        except (ParseError, CompileError) as e:
            oks[name] = type(e).__name__
        except Violation:
            raise
        except Hang:
            raise Violation("hang", f"{name} gives no result within {limit:.1f} s of CPU time") from None
        except (Exception, SystemExit) as e:
            raise Violation("crash " + type(e).__name__, f"{name} raised {type(e).__name__}: {str(e)[:200]}") from None
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if o.getvalue():
            raise Violation("output", f"{name} prints {o.getvalue()[:80]!r}")
    after = state()
    if before != after:
        what = [n for n, a, b in zip(("cwd", "files", "environ", "recursion limit", "sys.path", "random state", "stack limit", "signals"), before, after) if a != b]
        raise Violation("side effect", f"changed: {what}")
    tag = "accepted" if oks["compile"] == "ok" else oks["compile"]
    return {"nontrivial": len(src) >= 10, "key": src, "tags": [case["kind"], tag, case["kind"] + " " + tag] + [k for k in case["kinds"]],
            "counts": {"chars": len(src)}}


def fixed():
    return [{"src": s, "kind": "fixed", "kinds": []} for s in
            ["", "\n", "\n\n\n", " ", "\t", "\x00", "end", "}", "#", "#pragma", '"', "exit(1)", "exit(1", "exit(1)\n", "teal:", "teal:\nend", "struct Foo:", "struct Foo:\nend",
             "func f():\nend", "block b:", "block b:\nend", "router:", "router:\nend", "inner_txn:\nend\nexit(1)", "inner_group:\nend\nexit(1)", "switch 1:\nend", "if 1:\nend\nexit(1)",
             "while 1:\nend\nexit(1)", "@public()", "@public()\nfunc f():", "\ufeffexit(1)", "const int A = 1", "box<Foo> x = Box(\"a\")"]]


def show(case):
    return {"src": case["src"][:800], "kind": case["kind"], "kinds": case["kinds"]}
