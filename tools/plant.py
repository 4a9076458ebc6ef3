#!/usr/bin/env python3
"""plant.py ID  -- confirm a planted bug in a scratch copy: tests pass, the demo tells the trees apart; then run its check.

seeded/ID/edit.json (not kept) = [[file, old, new], ...] makes patch.diff if it doesn't exist yet."""
import json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bid = sys.argv[1]
nocheck = "--nocheck" in sys.argv
d = os.path.join(V, "seeded", bid)
W = "/tmp/plant_" + bid
shutil.rmtree(W, ignore_errors=True)
shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns("__pycache__"))
patch = os.path.join(d, "patch.diff")
edit = os.path.join(d, "edit.json")
if os.path.exists(edit):
    for f, old, new in json.load(open(edit)):
        p = os.path.join(W, "src/tight_binding_redweasel", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(patch, "w").write(subprocess.run(["git", "-C", W, "diff"], capture_output=True, text=True).stdout)
    os.remove(edit)
else:
    subprocess.run(["git", "-C", W, "apply", patch], check=True)
env = dict(os.environ, PYTHONPATH=W + "/src", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
env["PATH"] = "/opt/venv/bin:" + env["PATH"]
ok = True
if "--notests" not in sys.argv:
    r = subprocess.run("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 tests", shell=True, cwd=W, env=env, capture_output=True, text=True)
    print("tests:", r.stdout.strip().splitlines()[-1])
r = subprocess.run(["bash", d + "/demo.sh"], cwd=W, env=env, capture_output=True, text=True)
print("demo with bug:", r.returncode, (r.stdout + r.stderr).strip()[-300:])
r2 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", env=dict(env, PYTHONPATH="/repo/src"), capture_output=True, text=True)
print("demo on /repo:", r2.returncode, (r2.stdout + r2.stderr).strip()[-300:])
prop = json.load(open(d + "/meta.json"))["property"]
if not nocheck:
    r = subprocess.run([V + "/check.sh", prop], env=dict(os.environ, VERIF_REPO_SRC=W + "/src", VERIF_SEED="1"), capture_output=True, text=True)
    print("check:", r.returncode, r.stdout.strip()[-600:])
shutil.rmtree(W)
