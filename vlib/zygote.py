"""A pristine process that has imported tealish and runs every request in a fork of itself.

Request: {"srcs": [text], "ops": [[op, ...]]} -> list of results, in order of ops:
["ok", value] or ["error", type, message] or ["crash", type, message]"""
import gc
import json
import os
import re
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def clear(x):
    """what a caller may do to the objects it was given"""
    if isinstance(x, dict):
        for v in x.values():
            clear(v)
        x.clear()
    elif isinstance(x, list):
        for v in x:
            clear(v)
        x.clear()


def run(req):
    from . import tl
    t = tl.tealish
    srcs, objs, dead, failed, out = req["srcs"], {}, set(), set(), []

    def plain(x):
        return json.loads(json.dumps(x))

    def mapping(m):
        return {"pc": m.pc_teal, "lines": m.teal_tealish, "errors": m.errors, "reverse": m.tealish_teal}

    for op, i, *rest in req["ops"]:
        harm = bool(rest and rest[0])
        try:
            with tl.silence():
                if op == "compile":
                    teal, m = t.compile_program(srcs[i])
                    v = plain([teal, mapping(m)])
                    if harm:
                        clear([teal, m.teal_tealish, m.errors, m.tealish_teal])
                elif op == "reformat":
                    v = t.reformat_program(srcs[i])
                elif op == "inspect":
                    r = t.inspect_program(srcs[i])
                    v = plain(r)
                    if harm:
                        clear(r)
                elif op == "new":
                    lines = srcs[i].split("\n")
                    objs[rest[0]] = (t.TealishCompiler(lines), lines, i)
                    v = None
                else:
                    if i in dead or i in failed and op in ("parse", "process"):
                        out.append(["dead"])
                        continue
                    c, lines, s = objs[i]
                    if op == "parse":
                        if not c.nodes:
                            c.parse()
                        v = None
                    elif op == "process":
                        if not c.nodes:
                            c.parse()
                        if not c.processed:
                            c.process()
                        v = None
                    elif op == "ocompile":
                        teal = c.compile()
                        m = c.get_map()
                        v = plain([teal, mapping(m)])
                        if harm:
                            clear([teal, m.teal_tealish, m.errors, m.tealish_teal])
                    elif op == "oreformat":
                        v = c.reformat().strip() + "\n"
                    elif op == "lines":
                        v = lines == srcs[s].split("\n")
            out.append(["ok", v])
        except (tl.ParseError, tl.CompileError) as e:
            out.append(["error", type(e).__name__, re.sub(r"0x[0-9a-f]{8,}", "0x..", str(e))])
            if op in ("parse", "process"):
                dead.add(i)             # only compile() and reformat() can be repeated after that
            elif op in ("ocompile", "oreformat"):
                failed.add(i)
        except Exception as e:
            out.append(["crash", type(e).__name__, str(e)[:300]])
    return out


def serve():
    import resource
    from . import tl  # noqa: F401  imported before forking
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        pid = os.fork()
        if pid == 0:
            resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
            try:
                r = run(json.loads(line))
            except BaseException as e:
                r = [["crash", type(e).__name__, str(e)[:300]]]
            sys.stdout.write(json.dumps(r) + "\n")
            sys.stdout.flush()
            os._exit(0)
        if os.waitpid(pid, 0)[1]:
            sys.stdout.write(json.dumps([["crash", "process", "ended"]]) + "\n")
            sys.stdout.flush()


class Zygote:
    def __init__(self, hashseed):
        self.p = subprocess.Popen([sys.executable, "-B", "-m", "vlib.zygote"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONPATH=ROOT), cwd=ROOT, text=True)

    def ask(self, srcs, ops):
        self.p.stdin.write(json.dumps({"srcs": srcs, "ops": ops}) + "\n")
        self.p.stdin.flush()
        return json.loads(self.p.stdout.readline())


if __name__ == "__main__":
    serve()
