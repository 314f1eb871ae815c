"""Takes back each repair of known_findings.json in a scratch copy of /repo and runs its check, which has to report it:
unfix.py [commit ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for line in json.load(open(os.path.join(ROOT, "known_findings.json")))["fixed"]:
    prop, commit = line.split()[1].split("=")[1], line.split()[2]
    if sys.argv[1:] and commit not in sys.argv[1:]:
        continue
    d = tempfile.mkdtemp(prefix="unfix")
    try:
        shutil.copytree("/repo", os.path.join(d, "repo"), symlinks=True)
        r = subprocess.run(["git", "revert", "-n", commit], cwd=os.path.join(d, "repo"), capture_output=True, text=True)
        if r.returncode:
            print(f"{commit} {prop} CONFLICT", flush=True)
            continue
        shutil.copytree(ROOT, os.path.join(d, "verif"), ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "run.py", prop], cwd=os.path.join(d, "verif"), capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=os.path.join(d, "repo"), VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
        v = [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith("KNOWN")]
        print(f"{commit} {prop} {({0: 'MISSED', 1: 'caught'}).get(r.returncode, 'ERROR')} {time.time() - t:.0f}s {line[30:90]} | {v[0][:120] if v else ''}", flush=True)
    finally:
        shutil.rmtree(d)
