"""Mutation testing of the machinery: mutants.py gen OUT.json | run IN.json OUT.json [fraction] [checks]

gen: small edits of every kind to /repo's tealish/*.py, kept when the repository's tests still pass.
run: which check reports each of them first (checks at the given fraction of their quick size).  Work is done in
copies under /tmp."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


class Gen(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out, self.stack = text, [], []
        self.starts = [0]
        for l in text.encode().split(b"\n"):
            self.starts.append(self.starts[-1] + len(l) + 1)
        self.raw = text.encode()

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new, kind):
        a, b = self.span(n)
        self.out.append({"a": a, "b": b, "new": new, "old": self.raw[a:b].decode(), "line": n.lineno, "kind": kind, "where": ".".join(self.stack)})

    def scoped(self, n):
        self.stack.append(n.name)
        for c in n.body:
            self.visit(c)
        self.stack.pop()
    visit_FunctionDef = visit_ClassDef = scoped

    def generic_visit(self, n):
        super().generic_visit(n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            self.put(n, f"{self.src(n.left)} {CMP[type(n.ops[0])]} {self.src(n.comparators[0])}", "cmp")

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        j = " or " if isinstance(n.op, ast.And) else " and "
        vs = [f"({self.src(v)})" for v in n.values]
        self.put(n, "(" + j.join(vs) + ")", "boolop")
        o = " and " if isinstance(n.op, ast.And) else " or "
        for i in range(len(vs)):
            self.put(n, "(" + o.join(vs[:i] + vs[i + 1:]) + ")", "operand")

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not):
            self.put(n, f"({self.src(n.operand)})", "not")

    def visit_If(self, n):
        self.generic_visit(n)
        self.put(n.test, "True", "if")
        self.put(n.test, "False", "if")

    def visit_IfExp(self, n):
        self.generic_visit(n)
        self.put(n, f"({self.src(n.body)})", "ifexp")
        self.put(n, f"({self.src(n.orelse)})", "ifexp")

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.put(n, str(not n.value), "const")
        elif isinstance(n.value, int):
            self.put(n, str(n.value + 1), "const")
            if n.value:
                self.put(n, str(n.value - 1), "const")

    def visit_BinOp(self, n):
        self.generic_visit(n)
        o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.FloorDiv: "*", ast.Mod: "//", ast.Pow: "*", ast.LShift: ">>"}.get(type(n.op))
        if o and not isinstance(n.left, (ast.JoinedStr, ast.List)) and not isinstance(n.right, (ast.JoinedStr, ast.List)):
            self.put(n, f"{self.src(n.left)} {o} {self.src(n.right)}", "binop")
        self.put(n, f"({self.src(n.left)})", "binop")
        self.put(n, f"({self.src(n.right)})", "binop")

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        self.generic_visit(n)
        self.put(n, "pass", "delete")

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        self.put(n, "pass", "delete")

    def visit_Assign(self, n):
        self.generic_visit(n)
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.put(n, "pass", "delete")

    def visit_Raise(self, n):
        self.put(n, "pass", "delete")

    def visit_Break(self, n):
        self.put(n, "continue", "jump")
        self.put(n, "pass", "delete")

    def visit_Continue(self, n):
        self.put(n, "break", "jump")
        self.put(n, "pass", "delete")

    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is not None and not isinstance(n.value, ast.Constant):
            self.put(n, "return None", "return")

    def visit_Call(self, n):
        self.generic_visit(n)
        if len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred) and not isinstance(n.args[1], ast.Starred):
            a, b = n.args[:2]
            s, e = self.span(a)[0], self.span(b)[1]
            self.out.append({"a": s, "b": e, "new": self.src(b) + self.raw[self.span(a)[1]:self.span(b)[0]].decode() + self.src(a), "old": self.raw[s:e].decode(), "line": n.lineno,
                             "kind": "swap", "where": ".".join(self.stack)})
        f = n.func
        if isinstance(f, ast.Name) and f.id in ("sorted", "reversed", "list", "dict", "set", "max", "min", "int", "str", "tuple", "len", "copy") and n.args:
            self.put(n, {"max": "min", "min": "max"}.get(f.id, "") + "(" + self.src(n.args[0]) + ")" if f.id not in ("max", "min") else self.src(n).replace(f.id, {"max": "min", "min": "max"}[f.id], 1), "unwrap")
        if isinstance(f, ast.Attribute) and f.attr in ("strip", "lstrip", "rstrip", "lower", "upper", "copy", "replace", "format", "items", "splitlines", "encode"):
            self.put(n, self.src(f.value), "unwrap")
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1 and not isinstance(k.value, ast.Constant):
                self.put(k, f"{k.arg}=None", "kwarg")

    def visit_Slice(self, n):
        if n.step is not None:
            self.put(n, ":", "slice")
        if n.lower is not None and n.upper is not None:
            self.put(n, self.src(n.lower) + ":", "slice")
            self.put(n, ":" + self.src(n.upper), "slice")
        self.generic_visit(n)

    def visit_comprehension(self, n):
        self.generic_visit(n)
        for i in n.ifs:
            self.put(i, "True", "filter")

    def visit_JoinedStr(self, n):
        pass


def mutants(path):
    text = open(path).read()
    g = Gen(text)
    g.visit(ast.parse(text))
    out = []
    for m in g.out:
        new = (g.raw[:m["a"]] + m["new"].encode() + g.raw[m["b"]:]).decode()
        try:
            compile(new, path, "exec")
        except (SyntaxError, ValueError):
            continue
        if new != text:
            out.append(m)
    return out


def apply(d, m):
    p = os.path.join(d, "tealish", m["file"])
    raw = open(p, "rb").read()
    open(p, "wb").write(raw[:m["a"]] + m["new"].encode() + raw[m["b"]:])


def tests(args):
    base, m = args
    d = tempfile.mkdtemp(prefix="mut")
    try:
        w = os.path.join(d, "r")
        shutil.copytree(base, w)
        apply(w, m)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=w)
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-o", "python_files=test*.py", "tests"], cwd=w, env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        return m if r.returncode == 0 else None
    finally:
        shutil.rmtree(d)


def base(d):
    w = os.path.join(d, "base")
    os.makedirs(w)
    subprocess.run(f"git -C /repo archive HEAD | tar x -C {w}", shell=True, check=True)
    return w


def gen(out):
    d = tempfile.mkdtemp(prefix="mutbase")
    try:
        w = base(d)
        ms = []
        for f in sorted(os.listdir(os.path.join(w, "tealish"))):
            if f.endswith(".py"):
                ms += [dict(m, file=f) for m in mutants(os.path.join(w, "tealish", f))]
        print(len(ms), "mutants", flush=True)
        with ThreadPoolExecutor(8) as ex:
            keep = [m for m in ex.map(tests, [(w, m) for m in ms]) if m]
        print(len(keep), "pass the tests")
        json.dump(keep, open(out, "w"), indent=0)
    finally:
        shutil.rmtree(d)


def run(inp, out, frac=0.2, only=None):
    import importlib
    sys.path.insert(0, ROOT)
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    order = [c["property"] for c in man["checks"]]
    if only:
        order = only
    ms = json.load(open(inp))
    random.shuffle(ms)
    res = json.load(open(out)) if os.path.exists(out) else {}
    d = tempfile.mkdtemp(prefix="mutrun")
    w = base(d)
    v = os.path.join(d, "v")
    shutil.copytree(ROOT, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    quick = {c: importlib.import_module("checks." + c.lower()).QUICK for c in order}
    last = {}
    try:
        for m in ms:
            key = f"{m['file']}:{m['line']}:{m['kind']}:{m['a']}:{m['new']}"
            if key in res:
                continue
            r = os.path.join(d, "r")
            shutil.copytree(w, r)
            apply(r, m)
            near = last.get((m["file"], m["where"]), [])
            caught = None
            for c in near + [c for c in order if c not in near]:
                p = subprocess.run(["./run.py", c, "--seed", "1", "--n", str(max(8, int(quick[c] * frac)))], cwd=v, env=dict(os.environ, VERIF_REPO=r, VERIF_SHRINK="0"), capture_output=True, text=True)
                if p.returncode:
                    caught = c if "VIOLATION" in p.stdout else c + "?"
                    msg = (p.stdout if "VIOLATION" in p.stdout else p.stderr)[-3000:][:300]
                    last[m["file"], m["where"]] = [c] + [x for x in near if x != c]
                    break
            res[key] = {"caught": caught, "m": m, "msg": msg if caught else ""}
            print(m["file"], m["line"], m["where"], m["kind"], repr(m["old"][:60]), "->", repr(m["new"][:60]), "::", caught, flush=True)
            shutil.rmtree(r)
            json.dump(res, open(out, "w"), indent=0)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    random.seed(1)
    if sys.argv[1] == "gen":
        gen(sys.argv[2])
    else:
        run(sys.argv[2], sys.argv[3], float(sys.argv[4]) if len(sys.argv) > 4 else 0.2, sys.argv[5].split(",") if len(sys.argv) > 5 else None)
