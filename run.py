#!/usr/bin/env python3
"""Runs the check of one property:  run.py <ID> [--tier quick|thorough] [--seed N] [--mult X]

Builds what it needs from /repo's working tree, runs every part of the check, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1: 'VIOLATION property=<ID> replay=<path>'. Exit 2: the check could not run.
"""
import argparse
import glob
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build  # noqa: E402
from checks import CHECKS  # noqa: E402


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def run_part(pid, part, idx, tier, seed, mult):
    """-> (result dict, replay path or None, text)"""
    outdir = os.path.join(VERIF, "build", "out")
    repdir = os.path.join(VERIF, "replays")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(repdir, exist_ok=True)
    out = os.path.join(outdir, "%s-%d-%d.json" % (pid, idx, os.getpid()))
    replay = os.path.join(repdir, "%s-%s.json" % (pid, part["prop"].replace("/", "_")))
    for p in (out, replay):
        if os.path.exists(p):
            os.remove(p)
    cmd = build.command(part["harness"])
    cmd += ["--prop", part["prop"], "--seed", str(seed), "--tier", tier, "--out", out, "--replay-out", replay, "--mult", str(mult),
            "--max-seconds", str(part.get("max_s", {}).get(tier, 240 if tier == "quick" else 1500))]
    if "jobs" in part:
        cmd += ["--jobs", str(part["jobs"])]
    if "case_timeout" in part:
        cmd += ["--case-timeout", str(part["case_timeout"])]
    env = dict(os.environ)
    env.update(build.environment(part["harness"]))
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, cwd=VERIF)
    if not os.path.exists(out):
        raise RuntimeError("harness gave no result (exit %d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-3000:]))
    with open(out) as f:
        res = json.load(f)
    os.remove(out)
    if p.returncode not in (0, 1):
        raise RuntimeError("harness error (exit %d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout[-3000:]))
    return res, (replay if p.returncode == 1 else None), p.stdout


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--mult", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    chk = CHECKS[a.id]
    if a.replay:
        with open(a.replay) as f:
            prop = json.load(f)["prop"]
        part = [p for p in chk["parts"] if p["prop"] == prop][0]
        env = dict(os.environ)
        env.update(build.environment(part["harness"]))
        return subprocess.call(build.command(part["harness"]) + ["--replay", a.replay, "--prop", prop], env=env)
    try:
        build.build_many(sorted({p["harness"] for p in chk["parts"]}))
    except build.BuildError as e:
        print("BUILD FAILED\n%s" % e)
        return 2
    build_s = time.time() - t0
    ev = {"evaluations": 0, "distinct_nontrivial": 0, "rule": [], "samples": [], "labels": {}, "parts": []}
    violations = 0
    for i, part in enumerate(chk["parts"]):
        try:
            res, replay, text = run_part(a.id, part, i, a.tier, a.seed, a.mult)
        except RuntimeError as e:
            print(e)
            return 2
        ev["evaluations"] += res["evaluations"]
        ev["distinct_nontrivial"] += res["distinct_nontrivial"]
        ev["rule"].append("%s: %s" % (part["prop"], res["rule"]))
        ev["samples"] += [{"part": part["prop"], "case": s} for s in res["samples"]]
        for k, v in res["labels"].items():
            ev["labels"][k] = ev["labels"].get(k, 0) + v
        ev["parts"].append({k: res[k] for k in ("prop", "evaluations", "requested", "discarded", "nontrivial", "distinct_nontrivial", "search_s", "unconfirmed")})
        print("%s: %s %d cases (%d distinct non-trivial, %d discarded) in %.1f s" % (a.id, part["prop"], res["evaluations"],
              res["distinct_nontrivial"], res["discarded"], res["search_s"]))
        if replay:
            violations += 1
            print(text[-6000:])
            print("VIOLATION property=%s replay=%s" % (a.id, replay))
            break
    if not violations:
        for k in known_findings():
            if k["property"] != a.id:
                continue
            cmd = build.command(k["harness"]) + ["--known", k["id"]]
            env = dict(os.environ)
            env.update(build.environment(k["harness"]))
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", env=env, timeout=300)
            if "STILL-FAILS" in p.stdout:
                print("KNOWN-FINDING: property=%s %s" % (a.id, k["what"]))
            else:
                print("note: known finding %s no longer fails (%s)" % (k["id"], p.stdout.strip()[:300]))
    for d in glob.glob(os.path.join(VERIF, "build", "out", "hsmlog.*")):
        shutil.rmtree(d, ignore_errors=True)
    ev["rule"] = "; ".join(ev["rule"])
    ev["seconds_building"] = round(build_s, 1)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
        json.dump({"property": a.id, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": ev, "violations": violations,
                   "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2)}, f, indent=1)
    return 1 if violations else 0


if __name__ == "__main__":
    sys.exit(main())
