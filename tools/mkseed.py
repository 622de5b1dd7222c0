#!/usr/bin/env python3
"""mkseed.py DIR...: confirms planted bugs and stores them in /verif/seeded.

DIR (named like the seed) holds edit.py (edits the tree in its cwd), demo.cpp or demo.sh, meta.json. /repo must be clean."""
import json
import os
import shutil
import subprocess
import sys

R = "/repo"
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, cwd=R, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def restore():
    sh("git checkout -- .")
    sh("bash /opt/vp/build.sh")


base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for d in sys.argv[1:]:
    d = os.path.abspath(d)
    sid = os.path.basename(d)
    assert not sh("git status --porcelain").stdout.strip(), "repo not clean"
    st = os.path.join("/tmp/seedstage", sid)
    shutil.rmtree(st, ignore_errors=True)
    os.makedirs(st)
    for f in os.listdir(d):
        if f not in ("edit.py", "note"):
            shutil.copy(os.path.join(d, f), st)
    if os.path.exists(os.path.join(st, "demo.cpp")):
        if not os.path.exists(os.path.join(st, "demo.sh")):
            shutil.copy(os.path.join(LIB, "demo.sh"), st)
        shutil.copy(os.path.join(LIB, "demo.hpp"), st)
    demo = "bash %s/demo.sh" % st
    try:
        p = sh("python3 %s/edit.py" % d)
        if p.returncode:
            print(sid, "EDIT FAILED", p.stdout)
            continue
        diff = sh("git diff").stdout
        # removed lines must be original ones
        orig = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        files = [l[6:] for l in diff.splitlines() if l.startswith("+++ b/")]
        old = set()
        for f in files:
            old |= set(sh("git show a01e583:%s" % f).stdout.splitlines())
        n = sum(1 for l in orig if l in old and l.strip())
        if not n:
            print(sid, "CHANGES NO ORIGINAL LINE")
            continue
        open(os.path.join(st, "patch.diff"), "w").write(diff)
        p = sh("bash /opt/vp/build.sh")
        if p.returncode:
            print(sid, "BUILD FAILED", p.stdout[-2000:])
            continue
        p1 = sh(demo, timeout=300)
        if p1.returncode == 0 or p1.returncode == 3:
            print(sid, "DEMO DOESN'T FAIL", p1.returncode, p1.stdout[-1500:])
            continue
        sh("bash /opt/vp/test.sh /tmp/seedtest.json")
        got = json.load(open("/tmp/seedtest.json"))
        missing = sorted(base - set(got["passed"]))
        if missing:
            print(sid, "TESTS FAIL", len(missing), missing[:4])
            continue
    finally:
        restore()
    p2 = sh(demo, timeout=300)
    if p2.returncode != 0:
        print(sid, "DEMO FAILS ON CLEAN TREE", p2.returncode, p2.stdout[-1500:])
        continue
    dst = os.path.join("/verif/seeded", sid)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(st, dst)
    print(sid, "OK   demo says:", p1.stdout.strip()[-200:])
