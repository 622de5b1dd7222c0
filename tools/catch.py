#!/usr/bin/env python3
"""catch.py [ID...]: applies every planted bug to /repo in turn, runs the quick check of its property, undoes it."""
import json, os, subprocess, sys, time
S = "/verif/seeded"
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    pid = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    subprocess.run(["git", "-C", "/repo", "apply", os.path.join(S, i, "patch.diff")], check=True)
    try:
        t = time.time()
        p = subprocess.run(["python3", "/verif/run.py", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + pid)]
        k = [l for l in p.stdout.splitlines() if "FAILURE" in l or "kind=" in l][:1]
        print(i, pid, "CAUGHT" if p.returncode == 1 and v else "MISSED (exit %d)" % p.returncode, "%.0f s" % (time.time() - t), k, flush=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)
