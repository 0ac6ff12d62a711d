#!/usr/bin/env python3
"""Development tool: confirms a planted bug of seeded/ in a scratch copy, and runs the check of its property against the copy.

plant.py new ID PROPERTY FILE   (reads old text, a line '====', new text from stdin; writes patch.diff)
plant.py try ID [--no-tests]    (demo on both trees, stable tests with the patch, check of the property)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", NPY_DISABLE_CPU_FEATURES="X86_V4 AVX512_ICL AVX512_SPR")


def copy():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    subprocess.run(["cp", "-a", "/repo/.", d + "/repo"], check=True)
    return d, d + "/repo"


def new(i, prop, file):
    old, nw = sys.stdin.read().split("====\n")
    d, r = copy()
    try:
        p = os.path.join(r, file)
        s = open(p).read()
        assert s.count(old) == 1, f"found {s.count(old)} times"
        open(p, "w").write(s.replace(old, nw))
        diff = subprocess.run(["git", "diff"], cwd=r, capture_output=True, text=True, check=True).stdout
        mine = [x[1:].strip() for x in subprocess.run(["git", "diff", "-U0", "06142d0", "HEAD"], cwd=r, capture_output=True, text=True).stdout.splitlines() if x.startswith("+")]
        for x in diff.splitlines():
            if x.startswith("-") and not x.startswith("---") and x[1:].strip() in mine and len(x.strip()) > 8:
                print("WARNING: changes a line of a fix:", x)
    finally:
        shutil.rmtree(d)
    os.makedirs(os.path.join(HERE, "seeded", i), exist_ok=True)
    open(os.path.join(HERE, "seeded", i, "patch.diff"), "w").write(diff)
    print(diff)


def attempt(i, tests=True):
    s = os.path.join(HERE, "seeded", i)
    meta = json.load(open(s + "/meta.json"))
    d, r = copy()
    try:
        demo = os.path.join(d, "demo")
        shutil.copytree(s, demo)
        env = dict(ENV, PYTHONPATH=r + "/src")
        a = subprocess.run(["bash", demo + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True, timeout=300)
        subprocess.run(["git", "apply", s + "/patch.diff"], cwd=r, check=True)
        b = subprocess.run(["bash", demo + "/demo.sh"], cwd=r, env=env, capture_output=True, text=True, timeout=300)
        print(f"{i}: demo unchanged {a.returncode}, with the patch {b.returncode}", (a.stdout + a.stderr)[-300:] if a.returncode else "", (b.stdout + b.stderr)[-200:].replace("\n", " | "))
        if tests:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--randomly-seed=1", "--randomly-dont-reorganize", "--timeout=180"],
                               cwd=r, env=env, capture_output=True, text=True)
            print(f"{i}: tests", t.stdout.strip().splitlines()[-1])
        c = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), meta["property"], "--repo", r], env=dict(os.environ, VERIF_SEED="1"), capture_output=True, text=True)
        print(f"{i}: check {meta['property']} exit {c.returncode}\n   " + "\n   ".join(x[:230] for x in c.stdout.strip().splitlines()[-9:]), c.stderr[-500:])
    finally:
        shutil.rmtree(d)


if sys.argv[1] == "new":
    new(*sys.argv[2:5])
else:
    for i in sys.argv[2:]:
        if not i.startswith("-"):
            attempt(i, "--no-tests" not in sys.argv)
