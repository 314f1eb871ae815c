"""Plants the bugs described in a Python file: plant.py DEFS [ids]

DEFS defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].  Each is tried in a scratch
copy of /repo: it has to build, pass the stable tests, make its demo fail (which passes without it) and change
lines of the original repository only.  Kept ones are written to seeded/<id>/."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "ab5ec1f"
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def tests(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=d)
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "python_files=test*.py", "tests"], d, env=env)
    return r.returncode == 0, r.stdout[-600:]


def original(d, path, old):
    """are all the lines the edit touches as the pinned commit had them"""
    mine = []
    text = open(os.path.join(d, path)).read()
    a = text[:text.index(old)].count("\n") + 1
    b = a + old.rstrip("\n").count("\n")
    out = sh(["git", "blame", "-s", "-L", f"{a},{b}", f"{BASE}..HEAD", "--", path], d).stdout
    for l in out.splitlines():
        if not l.startswith("^"):
            mine.append(l)
    return mine, b - a + 1


def main(argv):
    bugs = runpy.run_path(argv[0])["BUGS"]
    only = argv[1:]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        d = tempfile.mkdtemp(prefix="plant")
        try:
            work = os.path.join(d, "repo")
            shutil.copytree("/repo", work, symlinks=True)
            touched = []
            for path, old, new in b["edits"]:
                p = os.path.join(work, path)
                text = open(p).read()
                if text.count(old) != 1:
                    print(b["id"], "edit matches", text.count(old), "times:", old[:60])
                    break
                mine, n = original("/repo", path, old)
                touched.append((mine, n))
                open(p, "w").write(text.replace(old, new))
            else:
                diff = sh(["git", "diff"], work).stdout
                removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
                fixed = [m for mine, _ in touched for m in mine if any(r.strip() and m.endswith(r) for r in removed)]
                if fixed or not removed:
                    print(b["id"], "CHANGES FIXED LINES" if fixed else "removes no line", fixed)
                    continue
                o = os.path.join(d, "seed")
                os.makedirs(o)
                open(os.path.join(o, "patch.diff"), "w").write(diff)
                open(os.path.join(o, "demo.sh"), "w").write(DEMO_SH)
                os.chmod(os.path.join(o, "demo.sh"), 0o755)
                open(os.path.join(o, "demo.py"), "w").write(b["demo"].lstrip("\n"))
                if "avm" in b["demo"]:
                    text = open(os.path.join(ROOT, "vlib", "avm.py")).read()
                    open(os.path.join(o, "avm.py"), "w").write(text.replace('HERE, "..", "data"', "HERE"))
                    shutil.copy(os.path.join(ROOT, "data", "langspec_snapshot.json"), o)
                json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(o, "meta.json"), "w"), indent=1)
                ok, out = tests(work)
                if not ok:
                    print(b["id"], "TESTS FAIL", out)
                    continue
                good = sh(["bash", os.path.join(o, "demo.sh")], "/repo")
                bad = sh(["bash", os.path.join(o, "demo.sh")], work)
                if good.returncode or not bad.returncode:
                    print(b["id"], "DEMO", good.returncode, good.stderr[-500:], bad.returncode, bad.stdout[-200:])
                    continue
                final = os.path.join(ROOT, "seeded", b["id"])
                shutil.rmtree(final, ignore_errors=True)
                shutil.copytree(o, final)
                print(b["id"], "kept;", (bad.stderr.strip().splitlines() or ["-"])[-1][:150])
        finally:
            shutil.rmtree(d)


main(sys.argv[1:])
