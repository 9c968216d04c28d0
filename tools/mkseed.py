"""python3 tools/mkseed.py ID PROPERTY FILE <<spec   (dev tool)
builds /verif/seeded/ID from tools/seeds.py and checks it in a scratch copy:
build, stable tests, demo passes before and fails after"""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, property, edits, demo, needs, breaks, py="/opt/venv/bin/python"):
    SEEDS[id] = (property, edits, demo, needs, breaks, py)


exec(open(os.path.join(HERE, "tools", "seeds.py")).read())


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def make(id):
    prop, edits, demo, needs, breaks, py = SEEDS[id]
    d = os.path.join(HERE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    patch = ""
    byfile = {}
    for f, old, new in edits:
        s = byfile.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        byfile[f] = s.replace(old, new)
    for f, s in byfile.items():
        a = open("/repo/" + f).read()
        patch += f"diff --git a/{f} b/{f}\n" + "".join(difflib.unified_diff(a.splitlines(True), s.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(patch)
    if py == "python3-vt":  # modules that need a newer python; the project's dependencies are in its venv
        demo = 'import sys\nsys.path.append("/opt/venv/lib/pypy3.9/site-packages")\n' + demo
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write(f'#!/bin/bash\n# cwd: /repo\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec {py} "$D/demo.py"\n')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # run in place on /repo and undo (build and tests are tied to /repo)
    assert not sh("git status --porcelain", "/repo").stdout.strip()
    r0 = sh(f"bash {d}/demo.sh", "/repo")
    r = sh(f"git apply {d}/patch.diff", "/repo")
    assert r.returncode == 0, r.stderr
    try:
        r1 = sh(f"bash {d}/demo.sh", "/repo")
        b = sh("bash /opt/vp/build.sh", "/repo")
        sh("bash /opt/vp/test.sh /tmp/seed_t.json", "/repo")
        t = json.load(open("/tmp/seed_t.json"))
        stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        passed = set(t.get("passed", [])) if isinstance(t.get("passed"), list) else {k for k, v in t.items() if v == "passed"}
        c = sh(f"python3-vt check.py {prop} --tier quick", HERE)
    finally:
        sh("git checkout -- .", "/repo")
        sh("bash /opt/vp/build.sh", "/repo")
    ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and stable <= passed
    print(id, prop, "OK" if ok else "BAD", "demo", r0.returncode, r1.returncode, "build", b.returncode, "tests", stable <= passed,
          "check", c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l])
    if not ok:
        print(r0.stderr[-1500:], r1.stdout[-500:], b.stderr[-500:])


for i in sys.argv[1:] or SEEDS:
    make(i)
