"""C19: the command line tool: sequences of commands and faults against a model of the file system."""
import base64, contextlib, ctypes, gc, hashlib, io, json, os, re, resource, shutil, signal, sys, tempfile, threading, traceback
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from vlib import anyprog, noise, textgen
from vlib.tl import Rejected, Skip, Violation, compile_program, inspect, reformat, tealish
from tealish import cli as cli_module
from checks.c21 import encode, line as map_line
PROPERTY = "C19"
QUICK, THOROUGH = 1500, 90000
RULE = "Case = a directory tree of generated sources (valid, invalid, not UTF-8, CRLF, any names, symbolic links to sources) and outputs from before, and 2-9 steps: edits, faults (unreadable " \
       "or read-only files, directories in the way of outputs, failing, lying or missing assemblers behind a stub goal or a loopback algod) and compile, " \
       "build, format, inspect, stats, langspec diff and fetch commands on files and directories, given in all path styles; after each, exit status, output and every byte of the tree " \
       "are compared with a model that has the API's results. Non-trivial: at least two commands, one of which succeeded in writing or had to fail."
ASSUMES = ["the API's own results (compile_program, reformat_program, inspect_program), which the other properties are about",
           "the stubs stand for goal and algod: any bytecode and source map may come back"]

NOBODY = 65534
SPEC = None


def spec():
    global SPEC
    if SPEC is None:
        with open(os.path.join(os.path.dirname(tealish.__file__), "langspec.json")) as f:
            SPEC = json.load(f)
    return SPEC


# ------------------------------------------------------------------ sources

MSG = ["bad", "[x], y", "}],", "a: b", "it's", "100%", "é", "x, y", "a  b"]
LOGS = ["a", "é", "日本", "a b", "a;b", "x # y", "//", "\u2028", "\x85", "FAILME", "\\n", "\\x00\\xff", "'"]


def source(ch):
    k = ch.weighted([(8, "small"), (2, "program"), (2, "mutant"), (2, "bad"), (0.7, "odd"), (1, "messy")])
    if k == "program":
        src = "\n".join("    " * l[0] + l[1] for l in anyprog.program(ch, cfgs=textgen.SMALL)[0].lines())
    else:
        src = small(ch)
        if k == "mutant":
            src = textgen.mutate(ch, src)[0]
        elif k == "bad":
            src += ch.choice(["\nlog(nope)", "\nif 1:", "\nint x = \"a\"", "\n???", "\nend", "\nexit(18446744073709551616)", "\nlog(1, 2)", "\nstruct A:\n    a: int", "\nlog(\"\\q\")"])
            src = src.replace("exit(1)\n", "", 1) if ch.bool() else src
        elif k == "odd":
            src = ch.choice(["", "\n", "\n\n\n", "   ", "#pragma version 8", "# only a comment", "exit(1)\n\n\n", "\ufeff#pragma version 8\nexit(1)", "exit(1)\rexit(2)", "exit(1)\x0c"])
        elif k == "messy":
            src = re.sub(r"(?m)^ *", lambda m: " " * ch.int(0, 5), src)
            src = src.replace("\n", ch.choice(["\n\n", "\n", " \n", "\t\n"]))
    if ch.bool(0.4):
        src += "\n"
    if ch.bool(0.12):
        src = src.replace("\n", "\r\n")
    return src


def small(ch):
    out = []
    if ch.bool(0.8):
        out.append(f"#pragma version {ch.int(5, 8)}")
    if ch.bool(0.3):
        out.append("# a comment")
    if ch.bool(0.5):
        for s in range(ch.int(1, 2)):
            out += [f"struct St{s}:"] + [f"    f{i}: {ch.choice(['int', 'bytes[4]', 'uint8', 'bytes[32]', 'addr'])}" for i in range(ch.int(1, 3))] + ["end"]
    for i in range(ch.int(0, 4)):
        k = ch.int(0, 6)
        if k == 0:
            out.append(f'assert({i} < 5, "{ch.choice(MSG)}")')
        elif k < 3:
            out.append(f'log("{ch.choice(LOGS)}")')
        elif k == 3:
            out += [f"if {i} == 2:", '    log("q")', "end"]
        elif k == 4:
            out += ["", f"int x{i} = {i} + 3"]
        elif k == 5:
            out.append(f"bytes y{i} = itob({i})  # note")
        else:
            out += ["// x" if ch.bool(0.1) else "# x"]
    out.append("exit(1)")
    return "\n".join(out)


NAMES = ["a.tl", "b.tl", "c.tl", "a.b.tl", "main.tl", "a.tl.tl", "sp ace.tl", "é.tl", "noext", "x.TL", ".tl", "tl", "a.teal", "tl.tl", "end.tl", "-dash.tl", "d.tl.txt", "a", "%s.tl", "$x.tl", "*.tl",
         "[a].tl", "..tl", "0.tl", "A.tl", "Main.tl", "MAIN.tl"]
DIRS = ["", "", "", "d", "d/sub", "sp d", "d.x", "build", "-d"]
# not UTF-8, in places where another encoding would do no harm, too
RAW = ["\udcff\udcfe", "exit(1)\udcc3", "\udc80", '# \udcff\nexit(1)\n', 'log("\udce9")\nexit(1)', 'assert(1, "\udcc3(")\nexit(1)', "exit(1)  # \udcf0\udc9f\n"]


def gen(ch):
    files = {}
    for _ in range(ch.int(1, 5)):
        d, n = ch.choice(DIRS), ch.choice(NAMES) if ch.bool(0.6) else ch.choice(NAMES[:4])
        files[os.path.join(d, n)] = ch.choice(RAW) if ch.bool(0.04) else source(ch)
    names = sorted(files)
    dirs = sorted({""} | {os.path.dirname(n) for n in names} | ({"d"} if any(n.startswith("d/") for n in names) else set()))
    for n in names:
        if ch.bool(0.2):
            out = outputs(n)[ch.int(0, 2)]
            files.setdefault(out, ch.choice(["old", "", "old output\n" * 20000 if ch.bool(0.1) else "x\n"]))
    links = {}
    if ch.bool(0.2):
        # a source that is a symbolic link to another
        t = ch.choice(names)
        n = os.path.join(ch.choice(["", "d", "ln", "ln/x"]), ch.choice(["link.tl", "l.tl", "a.tl", "lnk"]))
        if "build" not in t.split("/") and n not in files and not any(f.startswith(n + "/") for f in files):
            links[n] = t
            names, dirs = sorted(names + [n, n]), sorted(set(dirs) | {os.path.dirname(n)})
    fixed = set(links) | set(links.values())
    steps = []
    for _ in range(ch.int(2, 9)):
        k = ch.weighted([(4, "compile"), (5, "build"), (4, "format"), (1.5, "inspect"), (1.5, "stats"), (0.5, "diff"), (0.5, "fetch"), (2, "write"), (0.5, "rm"),
                         (0.5, "rmbuild"), (0.7, "fault"), (0.5, "chmod")])
        n = ch.choice(names)
        if k in ("rm", "chmod") and n in fixed:
            k = "compile"
        if k == "write":
            n = n if ch.bool(0.8) else os.path.join(ch.choice(dirs), ch.choice(NAMES[:6]))
            names = sorted(set(names) | {n})
            steps.append(["write", n, ch.choice(RAW) if ch.bool(0.04) else source(ch)])
        elif k == "rm":
            steps.append(["rm", n])
        elif k == "rmbuild":
            steps.append(["rmbuild", os.path.dirname(n)])
        elif k == "fault":
            w = ch.int(0, 3)
            # something else is where an output belongs
            steps.append(["mkfile", os.path.join(os.path.dirname(n), "build")] if w == 0 else ["mkdir", outputs(n)[w - 1]])
        elif k == "chmod":
            steps.append(["chmod", n, ch.choice([0, 0o444, 0o644])])
        elif k == "fetch" or k == "diff":
            steps.append([k, ch.choice(["ok", "ok", "ok", "404", "junk", "nourl" if k == "diff" else "closed", "noops"]), ch.int(0, 3), ch.int(0, 3), ch.bool(0.2)])
        else:
            isdir = ch.bool(0.35) if k in ("compile", "build", "stats") else ch.bool(0.02)
            t = ch.choice(dirs) if isdir else "missing.tl" if ch.bool(0.03) else n
            st = [k, t, ch.choice(["rel", "rel", "rel", "abs", "dot", "slash", "up"]), ch.choice(dirs) if ch.bool(0.3) else "", ch.bool(0.3)]
            if k == "build":
                ls, l = [], 0
                for _ in range(ch.int(1, 40)):
                    l = ch.weighted([(4, l), (5, l + 1), (1, map_line(ch)), (1, max(0, l - ch.int(0, 9)))])
                    ls.append(l)
                how = ch.weighted([(5, "goal"), (5, "algod"), (0.4, "sandbox"), (0.4, "nogoal"), (0.4, "closed"), (0.4, "goalfail"), (0.3, "goalnomap"), (0.3, "goalbadmap"),
                                   (0.4, "algod400"), (0.3, "algod500"), (0.3, "algodjunk"), (0.3, "algodnomap"), (0.2, "algodbadmap"), (0.3, "algodbad64")])
                st += [how, ls, ch.int(0, 2), "".join(ch.choice("\x00\x01\n\r\x80\xffa") for _ in range(ch.int(0, 9))), ch.choice(["", "tok", "a" * 64])]
            elif k == "inspect":
                st.append(ch.bool(0.2))
            steps.append(st)
    return {"files": files, "links": links, "steps": steps}


def outputs(n):
    d, b = os.path.split(n)
    b = b[:-3] if b.endswith(".tl") else b
    return [os.path.join(d, "build", b + x) for x in (".teal", ".teal.tok", ".map.json")]


# ------------------------------------------------------------------ algod and langspec server

class Server:
    def __init__(self):
        outer = self
        self.conf, self.seen = {}, []

        class H(BaseHTTPRequestHandler):
            def reply(self, code, body):
                self.send_response(code)
                self.send_header("Content-Length", str(len(body)))
                self.send_header("Connection", "close")
                self.end_headers()
                self.wfile.write(body)

            def do_POST(self):
                body = self.rfile.read(int(self.headers.get("Content-Length", 0)))
                step = self.path.split("/")[1]
                outer.seen.append((int(step) if step.isdigit() else -1, self.path, self.headers.get("X-Algo-API-Token"), body))
                c = outer.conf.get(step, {})
                m = c.get("mode")
                if m == "algod400" or b"FAILME" in body:
                    return self.reply(400, json.dumps({"message": "1: no such op ZZ"}).encode())
                if m == "algod500":
                    return self.reply(500, b"oops")
                if m == "algodjunk":
                    return self.reply(200, b"<html>")
                r = {"hash": "X", "result": base64.b64encode(bytecode(body, c["tail"])).decode(), "sourcemap": c["map"]}
                if m == "algodnomap":
                    del r["sourcemap"]
                elif m == "algodbadmap":
                    r["sourcemap"] = {"version": 2, "sources": [], "names": [], "mappings": ""}
                elif m == "algodbad64":
                    r["result"] = "A"
                self.reply(200, json.dumps(r).encode())

            def do_GET(self):
                c = outer.conf.get(self.path.split("/")[1], {})
                m = c.get("mode")
                if m == "404":
                    return self.reply(404, b"{}")
                self.reply(200, b"not json" if m == "junk" else c.get("body", b"{}"))

            def log_message(self, *a):
                pass

        class S(ThreadingHTTPServer):
            daemon_threads = True

            def handle_error(self, *a):
                pass

        self.s = S(("127.0.0.1", 0), H)
        self.port = self.s.server_address[1]
        threading.Thread(target=self.s.serve_forever, kwargs={"poll_interval": 5}, daemon=True).start()


SERVER = None


def server():
    global SERVER
    if SERVER is None or SERVER[0] != os.getpid():
        SERVER = (os.getpid(), Server())
        gc.collect()
        gc.freeze()
    return SERVER[1]


def bytecode(teal, tail):
    return b"TOK" + hashlib.sha256(teal).digest() + tail.encode("latin-1")


GOAL = """#!/bin/sh
# stands for goal clerk compile - --map -o FILE
conf=%s
mode=$(cat $conf/mode)
cat > $conf/in
[ "$mode" = goalfail ] && { echo "1: no such op"; exit 1; }
[ "$1 $2" = "clerk compile" ] || exit 3
shift 2
map=
while [ $# -gt 0 ]; do
  case "$1" in
    -) stdin=1 ;;
    -m|--map) map=1 ;;
    -o|--outfile) shift; out=$1 ;;
    *) exit 4 ;;
  esac
  shift
done
[ "$stdin" = 1 ] || exit 5
grep -q FAILME $conf/in && { echo "1: FAILME"; exit 1; }
{ printf TOK; cat $conf/in; cat $conf/tail; } > "$out"
[ -n "$map" ] && [ "$mode" != goalnomap ] && cat $conf/map > "$out.map"
exit 0
"""


# ------------------------------------------------------------------ the child

def snapshot(root, links=()):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in ds:
            out[os.path.relpath(os.path.join(d, n), root)] = None
        for n in fs:
            p = os.path.join(d, n)
            if os.path.islink(p) and os.path.relpath(p, root) not in links:
                out[os.path.relpath(p, root)] = "link " + os.readlink(p)
                continue
            m = os.stat(p).st_mode & 0o777
            if not m & 0o400:
                os.chmod(p, 0o400)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read().decode("latin-1")
            if not m & 0o400:
                os.chmod(p, m)
    return out


def put(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(text.encode("utf-8", "surrogateescape"))


def argument(root, st):
    """the path argument as it is given in the directory st[3]"""
    _, rel, style, cwd = st[:4]
    p, here = os.path.join(root, rel) if rel else root, os.path.join(root, cwd) if cwd else root
    r = os.path.relpath(p, here)
    if style == "abs":
        return p
    if style == "dot":
        return "./" + r
    if style == "slash":
        return ("./" + r if r.startswith("-") else r) + ("/" if os.path.isdir(p) else "")
    if style == "up" and here != root:
        return os.path.join("..", os.path.basename(here), r)
    return "./" + r if r.startswith("-") else r


def invoke(argv, cwd, stdin=""):
    out, err = io.TextIOWrapper(io.BytesIO(), "utf-8", errors="surrogateescape"), io.TextIOWrapper(io.BytesIO(), "utf-8", errors="surrogateescape")
    sys.stdin = io.TextIOWrapper(io.BytesIO(stdin.encode("utf-8", "surrogateescape")), "utf-8")
    os.chdir(cwd)
    code, crash = 0, None
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = out, err
    try:
        cli_module.cli.main(args=argv, prog_name="tealish")
    except SystemExit as x:
        code = x.code if isinstance(x.code, int) else 0 if x.code is None else 1
    except BaseException as x:
        code, crash = 1, f"{type(x).__name__}: {x}"
        traceback.print_exc()
    finally:
        sys.stdout, sys.stderr = o, e
    out.flush()
    err.flush()
    os.chdir("/")
    return {"code": code, "crash": crash, "out": out.buffer.getvalue().decode("latin-1"), "err": err.buffer.getvalue().decode("latin-1")}


def child(case, root, conf, port):
    """runs the steps; yields what is there before the first and after each"""
    res = []
    for n, t in case["files"].items():
        try:
            put(os.path.join(root, n), t)
        except (NotADirectoryError, FileExistsError, IsADirectoryError):
            pass
    links = case.get("links", {})
    for n, t in links.items():
        n, t = os.path.join(root, n), os.path.join(root, t)
        if os.path.isfile(t) and not os.path.exists(n):
            os.makedirs(os.path.dirname(n), exist_ok=True)
            os.symlink(os.path.relpath(t, os.path.dirname(n)) if len(n) % 2 else t, n)
    res.append(snapshot(root, links))
    for i, st in enumerate(case["steps"]):
        k, p = st[0], os.path.join(root, st[1])
        r = {}
        try:
            if k == "write":
                if os.path.exists(p):
                    os.chmod(p, 0o644)
                put(p, st[2])
            elif k == "rm":
                os.unlink(p)
            elif k == "rmbuild":
                shutil.rmtree(os.path.join(p, "build"))
            elif k == "mkfile":
                if os.path.isdir(p):
                    shutil.rmtree(p)
                put(p, "in the way")
            elif k == "mkdir":
                if os.path.isfile(p):
                    os.unlink(p)
                os.makedirs(p, exist_ok=True)
            elif k == "chmod":
                os.chmod(p, st[2])
            elif k in ("diff", "fetch"):
                url = f"http://127.0.0.1:{1 if st[1] == 'closed' else port}/{i}/langspec.json"
                if st[1] == "nourl":
                    r = invoke(["langspec", "diff", ""], root)
                else:
                    r = invoke((["-q"] if st[4] else []) + ["langspec", k, url], root)
            else:
                cwd = os.path.join(root, st[3])
                if not os.path.isdir(cwd):
                    cwd, st = root, st[:3] + [""] + st[4:]
                arg = argument(root, st)
                argv = (["--quiet" if i % 2 else "-q"] if st[4] else []) + [k]
                stdin = ""
                if k == "build":
                    how, lines, fill, tail, token = st[5:]
                    os.environ["PATH"] = "/nonexistent" if how == "nogoal" else conf + ":/usr/bin:/bin"
                    if "goal" in how:
                        for n, v in (("mode", how), ("tail", tail), ("map", "{" if how == "goalbadmap" else json.dumps(encode(lines, fill, True)))):
                            with open(os.path.join(conf, n), "wb") as f:
                                f.write(v.encode("latin-1"))
                        with contextlib.suppress(FileNotFoundError):
                            os.unlink(os.path.join(conf, "in"))
                        argv.append("--goal")
                    elif how == "sandbox":
                        argv.append("--sandbox")
                    else:
                        url = f"http://127.0.0.1:{1 if how == 'closed' else port}/{i}" + ("#" + token if token else "")
                        argv += (["--algod"] if fill else []) + ["--algod-url", url]
                if k == "inspect" and st[5] and os.path.isfile(p) and os.access(p, os.R_OK):
                    with open(p, encoding="utf-8", errors="surrogateescape", newline="") as f:
                        stdin = f.read()
                    arg = "-"
                r = invoke(argv + [arg], cwd, stdin)
                r["cwd"] = os.path.relpath(cwd, root)
        except (FileNotFoundError, NotADirectoryError, IsADirectoryError, FileExistsError) as e:
            r = {"skipped": str(e)}
        r["tree"] = snapshot(root, links)
        res.append(r)
    return res


def sandboxed(case):
    s = server()
    s.conf, s.seen = {}, []
    for i, st in enumerate(case["steps"]):
        if st[0] == "build":
            s.conf[str(i)] = {"mode": st[5], "map": encode(st[6], st[7], False), "tail": st[8]}
        elif st[0] in ("diff", "fetch"):
            s.conf[str(i)] = {"mode": st[1], "body": json.dumps(new_spec(st)[0]).encode()}
    base = tempfile.mkdtemp(prefix="c19_")
    try:
        os.chmod(base, 0o755)
        root, conf, tmp = (os.path.join(base, x) for x in ("tree", "stub", "tmp"))
        for d in (root, conf, tmp):
            os.mkdir(d)
            os.chown(d, NOBODY, NOBODY)
        with open(os.path.join(conf, "goal"), "w") as f:
            f.write(GOAL % conf)
        os.chmod(os.path.join(conf, "goal"), 0o755)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                os.close(rd)
                # the code under test runs as a user who owns nothing but the scratch directory
                if os.getuid() == 0:
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
                resource.setrlimit(resource.RLIMIT_CPU, (60, 60))
                resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 28, 1 << 28))
                os.umask(0o022)
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 0)
                os.dup2(null, 1)
                os.dup2(null, 2)
                # no process may be left behind
                os.close(s.s.fileno())
                ctypes.CDLL(None).prctl(1, 9)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(60)
                for v in list(os.environ):
                    if v.lower().endswith("_proxy"):
                        del os.environ[v]
                os.environ.update(NO_PROXY="*", TMPDIR=tmp, HOME=tmp)
                tempfile.tempdir = None
                try:
                    r = {"ok": child(case, root, conf, s.port)}
                except BaseException:
                    r = {"error": traceback.format_exc()}
                with os.fdopen(wr, "w") as f:
                    f.write(json.dumps(r))
                code = 0
            finally:
                os._exit(code)
        os.close(wr)
        with os.fdopen(rd) as f:
            text = f.read()
        os.waitpid(pid, 0)
        return json.loads(text) if text else {"error": "the process ended"}, list(s.seen)
    finally:
        shutil.rmtree(base, ignore_errors=True)


# ------------------------------------------------------------------ the model

def text_of(b):
    """what reading the file as text gives, or None"""
    try:
        return b.encode("latin-1").decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")
    except UnicodeDecodeError:
        return None


class Api:
    def __init__(self):
        self.memo = {}

    def get(self, what, text):
        """("ok", value) or ("rejected", message)"""
        if (what, text) not in self.memo:
            try:
                v = ("ok", {"compile": compile_program, "format": reformat, "inspect": inspect}[what](text))
            except Rejected as e:
                v = ("rejected", str(e).split(": ", 1)[1])
            except Violation as e:
                raise Skip("the API crashes") from e
            self.memo[what, text] = v
        return self.memo[what, text]


def latin(s):
    return s.encode("utf-8").decode("latin-1")


def scrub(s):
    return re.sub(r"0x[0-9a-f]{6,}", "0x", s)


def new_spec(st):
    """(spec served, names of the ops that are new)"""
    base, new = spec(), []
    if st[1] == "noops":
        return dict(base, Ops=list(base["Ops"])), new
    ops = [o for i, o in enumerate(base["Ops"]) if not (st[3] and i % 37 == st[3] and o["Name"] not in ("txn", "global", "txna", "itxn_field"))]
    for i in range(st[2]):
        new.append(f"zz{i}")
        ops.insert((i * 50) % len(ops), {"Opcode": 250 + i, "Name": f"zz{i}", "Args": "BU"[:i], "Returns": "U", "Size": 1, "Doc": "é", "DocExtra": "", "Groups": []})
    return dict(base, Ops=ops), new


class State:
    def __init__(self, tree, links):
        self.tree, self.mode, self.links = dict(tree), {}, links

    def isdir(self, p):
        return p in ("", ".") or p in self.tree and self.tree[p] is None

    def isfile(self, p):
        return self.tree.get(p) is not None

    def under(self, d):
        return [n for n in self.tree if os.path.dirname(n) == d]


def check(case):
    res, seen = sandboxed(case)
    if "error" in res:
        raise Violation("error", res["error"][-600:])
    res, api = res["ok"], Api()
    fs, tags, done, interesting = State(res[0], case.get("links", {})), set(), 0, False
    for i, (st, r) in enumerate(zip(case["steps"], res[1:])):
        what = f"step {i} {st[:6] if st[0] != 'write' else st[:2]}"
        k = st[0]
        if k in ("write", "rm", "rmbuild", "mkfile", "mkdir", "chmod"):
            if k == "chmod" and "skipped" not in r:
                fs.mode[st[1]] = st[2]
            if k in ("write", "rm", "mkfile", "mkdir"):
                fs.mode.pop(st[1], None)
            if k in ("rmbuild", "mkfile"):
                fs.mode = {n: m for n, m in fs.mode.items() if not n.startswith(os.path.join(st[1], "build" if k == "rmbuild" else "") + "/")}
            fs.tree = dict(r["tree"])
            continue
        if "skipped" in r:
            raise Skip("step")
        done += 1
        tags.add(k if k != "build" else f"build {st[5]}")
        want, fail = command(fs, st, r, api, [x for x in seen if x[0] == i], i, what)
        if fail:
            tags.add(k + " fails")
            if r["code"] == 0:
                raise Violation("exit", f"{what}: exit status 0, but {fail}")
        elif r["code"] != 0:
            raise Violation("exit", f"{what}: exit status {r['code']}: {(r['crash'] or r['err'])[-300:]}")
        interesting |= bool(fail) or any(fs.tree.get(n) not in w for n, w in want.items() if isinstance(w, list))
        compare(fs, r["tree"], want, what)
        fs.tree = dict(r["tree"])
    return {"nontrivial": done >= 2 and interesting, "tags": sorted(tags), "key": json.dumps(case, sort_keys=True), "counts": {"commands": done}}


def compare(fs, got, want, what):
    """want: {path: [allowed contents]}, None among them: the file may be absent, DIR: a directory may be there; all else is as before"""
    for n in sorted(set(fs.tree) | set(got) | set(want)):
        g = got.get(n, "absent") if n in got else "absent"
        if n in want:
            if want[n] == "dir":
                if n in got and (got[n] is None or got[n] == fs.tree.get(n)):
                    continue
                if n not in got and n not in fs.tree:
                    continue
            elif n not in got:
                if "absent" in want[n] and n not in fs.tree:
                    continue
            elif any(w(g) if callable(w) else w == g for w in want[n]):
                continue
            raise Violation("file", f"{what}: {n!r} is {show_file(got, n)}, should be {[w if not callable(w) else 'the map' for w in want[n]] if want[n] != 'dir' else 'a directory'}"[:1500])
        if n not in fs.tree:
            raise Violation("created", f"{what}: {n!r} appears ({show_file(got, n)})")
        if n not in got:
            raise Violation("removed", f"{what}: {n!r} is gone")
        if g != fs.tree[n]:
            raise Violation("changed", f"{what}: {n!r} was {fs.tree[n]!r}, is {g!r}"[:1500])


def show_file(t, n):
    return "absent" if n not in t else "a directory" if t[n] is None else repr(t[n])[:700]


def readable(fs, n):
    return fs.mode.get(n, 0o644) & 0o400


def command(fs, st, r, api, seen, i, what):
    k = st[0]
    out = r["out"]
    said = out + r["err"]
    if k in ("diff", "fetch"):
        s, new = new_spec(st)
        if st[1] == "nourl":
            if out:
                raise Violation("output", f"{what}: there is no local specification, it prints {out!r}")
            return {}, None
        if st[1] in ("404", "junk", "closed"):
            return {}, "the specification cannot be fetched"
        got = [l.split("(")[0] for l in out.split("\n") if l and not l.startswith("New ops @")]
        if k == "diff" and got != new:
            raise Violation("output", f"{what}: {out!r} is printed, the new ops are {new}")
        if k == "fetch":
            if got != new:
                raise Violation("output", f"{what}: {out!r} is printed, the new ops are {new}")

            def is_spec(t):
                try:
                    return json.loads(t) == json.loads(json.dumps(s))
                except ValueError:
                    return False
            return {"langspec.json": [is_spec]}, None
        return {}, None
    t = st[1]
    if not fs.isdir(t) and not fs.isfile(t):
        return {}, f"{t} does not exist"
    if k in ("compile", "build"):
        return compiled(fs, st, r, api, seen, what)
    if k == "stats":
        return stats(fs, st, r, what)
    if fs.isdir(t):
        return {}, f"{t} is a directory"
    if not readable(fs, t) or k == "format" and not fs.mode.get(t, 0o644) & 0o200:
        return {}, f"{t} cannot be opened"
    text = text_of(fs.tree[t])
    if text is None:
        return {}, f"{t} is not UTF-8"
    kind, v = api.get(k, text)
    if kind == "rejected":
        if scrub(latin(v)) not in scrub(said):
            raise Violation("message", f"{what}: {said!r} does not tell the error {v!r}")
        if k == "inspect" and out:
            raise Violation("output", f"{what}: fails, but prints {out!r}")
        return {}, "the program is rejected"
    if k == "format":
        same = [n for n in (*fs.links, *fs.links.values()) if n != t and n in fs.tree] if t in fs.links or t in fs.links.values() else []
        # the text is written to the file or in its place
        return {t: [latin(v)], **{n: [latin(v), fs.tree[n]] for n in same}}, None
    try:
        j = json.loads(out)
    except ValueError:
        raise Violation("output", f"{what}: the output is not JSON: {out[:300]!r}") from None
    if j != json.loads(json.dumps(v)):
        raise Violation("output", f"{what}: prints {j}, the API gives {v}")
    return {}, None


def compiled(fs, st, r, api, seen, what):
    k, t = st[0], st[1]
    said = r["out"] + r["err"]
    if fs.isdir(t):
        todo = [n for n in fs.under(t) if n.endswith(".tl")]
        if any(fs.isdir(n) for n in todo):
            raise Skip("a directory that is named like a source")
    else:
        todo = [t]
    want, fails = {}, []
    bd = os.path.join(os.path.dirname(todo[0]), "build") if todo else None
    if todo:
        want[bd] = "dir"
        if fs.isfile(bd):
            return {}, "build is not a directory"
    for n in todo:
        o = outputs(n)
        if not readable(fs, n):
            fails.append((n, "unreadable", None))
            continue
        text = text_of(fs.tree[n])
        if text is None:
            fails.append((n, "not UTF-8", None))
            continue
        kind, v = api.get("compile", text)
        if kind == "rejected":
            fails.append((n, "rejected", v))
            continue
        teal, m = v
        full = latin("\n".join(teal) + "\n")
        blocked = [x for x in o if fs.isdir(x) or fs.isfile(x) and not fs.mode.get(x, 0o644) & 0o200]
        if o[0] in blocked:
            fails.append((n, "output", None))
            continue
        want[o[0]] = [full]
        if k == "build":
            how, lines, fill, tail = st[5:9]
            bad = how not in ("goal", "algod") or "FAILME" in full
            if how in ("algodbad64",):
                bad = True
            if bad:
                fails.append((n, "assembler", "no such op ZZ" if how in ("algod400",) or how == "algod" else None))
                continue
            if how == "goal":
                code = "TOK" + full + tail
            else:
                code = bytecode(full.encode("latin-1"), tail).decode("latin-1")
            if o[1] in blocked or o[2] in blocked:
                fails.append((n, "output", None))
                if o[1] not in blocked:
                    want[o[1]] = [code, fs.tree.get(o[1], "absent")]
                elif o[2] not in blocked:
                    want[o[2]] = [mapping(lines, m), fs.tree.get(o[2], "absent")]
                continue
            want[o[1]] = [code]
            want[o[2]] = [mapping(lines, m)]
    names = [x for n in todo for x in outputs(n)]
    # a directory can have sources whose outputs have the same name only by way of build itself
    if bd and any(n in want for n in todo) or len(names) != len(set(names)):
        raise Skip("outputs collide with sources")
    if k == "build" and st[5].startswith("algod"):
        token = st[9]
        for _, path, tok, body in seen:
            if tok != token and (tok or token):
                raise Violation("token", f"{what}: algod is sent the token {tok!r}")
            b = body.decode("latin-1")
            if not any(isinstance(w, list) and b in w for w in want.values()):
                raise Violation("assembled", f"{what}: algod is sent {b!r}"[:600])
    if fails:
        if len(todo) > 1:
            # the order of files is open: some may not have been reached
            for n, w in want.items():
                if isinstance(w, list):
                    w.append(fs.tree[n] if n in fs.tree else "absent")
        msgs = [m for _, _, m in fails]
        if r["code"] != 0 and all(msgs) and not any(scrub(latin(m)) in scrub(said) for m in msgs):
            raise Violation("message", f"{what}: {said!r} tells none of {msgs}")
        return want, f"{fails[0][0]}: {fails[0][1]}"
    if st[4] and r["out"]:
        raise Violation("quiet", f"{what}: prints {r['out']!r}")
    return want, None


def mapping(lines, m):
    def same(text):
        try:
            d = json.loads(text)
            got = [{int(a): b for a, b in d[x].items()} for x in ("pc_teal", "teal_tealish", "errors")]
        except (ValueError, KeyError, AttributeError):
            return False
        return got == [{pc: l + 1 for pc, l in enumerate(lines)}, m.teal_tealish, m.errors]
    return same


def stats(fs, st, r, what):
    t = st[1]
    if fs.isdir(t):
        sub = [d for d in fs.under(t) if fs.isdir(d)]
        if t in ("", "."):
            sub = [d for d in fs.tree if fs.isdir(d) and "/" not in d]
        todo = [n for n in fs.under(t) if n.endswith(".tl")] + [n for d in sub for n in fs.under(d) if n.endswith(".tl")]
        todo += [n for d in sub if fs.isdir(os.path.join(d, "build")) for n in fs.under(os.path.join(d, "build")) if n.endswith(".teal")]
        if any(fs.isdir(n) for n in todo):
            raise Skip("a directory that is named like a source")
    else:
        todo = [t]
    want = []
    for n in todo:
        text = text_of(fs.tree[n]) if readable(fs, n) else None
        if text is None:
            return {}, f"{n} cannot be read"
        ls = [l.strip() for l in text.split("\n")]
        want.append((n, sum(1 for l in ls if l and l != "end" and not l.startswith(("#", "//")))))
    got = []
    for l in r["out"].encode("latin-1").decode("utf-8", "surrogateescape").split("\n"):
        m = re.fullmatch(r"(.*): (\d+) lines", l)
        if not m:
            if l:
                raise Violation("output", f"{what}: prints {l!r}")
            continue
        p = m.group(1)
        if os.path.isabs(p):
            p = p.split("/tree", 1)[1].lstrip("/")
        else:
            p = os.path.normpath(os.path.join("/" + r["cwd"], p)).lstrip("/")
        got.append((p, int(m.group(2))))
    if sorted(got) != sorted(want):
        raise Violation("output", f"{what}: prints {sorted(got)}, the sources have {sorted(want)}")
    return {}, None
