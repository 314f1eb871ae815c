"""Runs checks against the planted bugs, each applied to a scratch copy of /repo: catch.py [id ...] [--all] [--jobs N]

Default: the check of the bug's own property; --all: every check."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "--all" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
checks = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
for i in ids:
    s = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(os.path.join(s, "meta.json")))["property"]
    d = tempfile.mkdtemp(prefix="catch")
    try:
        shutil.copytree("/repo", os.path.join(d, "repo"), symlinks=True)
        shutil.copytree(ROOT, os.path.join(d, "verif"), ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        r = subprocess.run(["git", "apply", os.path.join(s, "patch.diff")], cwd=os.path.join(d, "repo"), capture_output=True, text=True)
        if r.returncode:
            print(i, "does not apply", r.stderr)
            continue
        for c in checks if every else [prop]:
            t = time.time()
            env = dict(os.environ, VERIF_REPO=os.path.join(d, "repo"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            r = subprocess.run(["/opt/venv/bin/python", "run.py", c], cwd=os.path.join(d, "verif"), env=env, capture_output=True, text=True)
            lines = (r.stdout or r.stderr).strip().splitlines() or ["-"]
            verdict = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR")
            print(f"{i:28} {c} {verdict} {time.time() - t:.0f}s {lines[0][:140] if r.returncode else ''}", flush=True)
    finally:
        shutil.rmtree(d)
