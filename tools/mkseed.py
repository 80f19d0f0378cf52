#!/usr/bin/env python3
"""Builds planted bugs from a specification: mkseed.py SPEC.py [ID...]

SPEC.py defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=python source)].  Each is
made and tried in a scratch copy of /repo, kept under /verif/seeded/<id>/ only if it passes the stable tests and its
demonstration tells the two trees apart, and then the property's check is run against it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(s):
    wt = "/tmp/seedwt_%s" % s["id"]
    if os.path.exists(wt):
        shutil.rmtree(wt)
    shutil.copytree("/repo", wt, symlinks=True)
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(s["demo"].lstrip("\n"))
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        f.write("\n")
    try:
        r = sh("bash %s/demo.sh" % d, cwd=wt, timeout=300)
        if r.returncode:
            return "demo fails on the unchanged tree:\n" + r.stdout[-1500:]
        for fn, old, new in s["edits"]:
            p = os.path.join(wt, fn)
            t = open(p).read()
            if t.count(old) != 1:
                return "edit of %s matches %d times" % (fn, t.count(old))
            open(p, "w").write(t.replace(old, new))
        r = sh("git diff > %s/patch.diff" % d, cwd=wt)
        r = sh("bash %s/demo.sh" % d, cwd=wt, timeout=300)
        if r.returncode == 0:
            return "demo passes on the changed tree"
        demo = r.stdout.strip().splitlines()[-1:]
    finally:
        shutil.rmtree(wt)
    assert sh("git -C /repo status --porcelain").stdout == ""
    try:
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode:
            return "does not apply: " + r.stdout
        sh("bash /opt/vp/test.sh /tmp/seed_o.json")
        b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open("/tmp/seed_o.json"))
        broken = set(b["stable"]) - set(o["passed"])
        if broken:
            return "breaks tests: %s" % sorted(broken)[:3]
        r = sh("./run %s" % s["property"], cwd=V)
        hit = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        msg = [x for x in r.stdout.splitlines() if x.startswith("   ")][-1:]
        return "%s (rc %d) %s | demo: %s" % ("CAUGHT" if r.returncode == 1 and hit else "MISSED", r.returncode,
                                             msg[0].strip()[:150] if msg and hit else "", [x[:200] for x in demo])
    finally:
        sh("git -C /repo checkout -- .")


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    for s in seeds:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
            continue
        try:
            r = one(s)
        except subprocess.TimeoutExpired:
            r = "demo takes too long"
        print(s["id"], r, flush=True)


main()
