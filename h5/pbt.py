"""Choice-sequence based property testing (same protocol as src/pbt.hpp): generation, replay and shrinking."""
import argparse
import hashlib
import json
import multiprocessing
import os
import sys
import time
import traceback

MASK = (1 << 64) - 1


def splitmix(s):
    s = (s + 0x9E3779B97F4A7C15) & MASK
    z = s
    z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
    z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
    return s, z ^ (z >> 31)


class Src:
    """Source of choices; 0 is always the simplest one."""

    def __init__(self, seed=0, replay=None):
        self.state, self.replay, self.choices = seed & MASK, replay, []

    def below(self, n):
        if n <= 1:
            return 0
        if self.replay is not None:
            i = len(self.choices)
            v = self.replay[i] % n if i < len(self.replay) else 0
        else:
            self.state, z = splitmix(self.state)
            v = z % n
        self.choices.append(v)
        return v

    def range(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def chance(self, pct):
        return self.below(100) >= 100 - pct

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, w):
        v = self.below(sum(w))
        for i, x in enumerate(w):
            if v < x:
                return i
            v -= x
        return 0


class Failure(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, "%s: %s" % (kind, msg))
        self.kind, self.msg = kind, msg


class Discard(Exception):
    pass


class Prop:
    """build(src) -> case with .describe(), .nontrivial, .labels, .key; check(cases, workdir) -> list of None or Failure"""
    batch = 16
    rule = ""
    quick = 1000
    thorough = 20000

    def build(self, src):
        raise NotImplementedError

    def check(self, cases, workdir):
        raise NotImplementedError


def _worker(args):
    prop, seeds, workdir, deadline = args
    out = dict(evaluations=0, discarded=0, nontrivial=0, keys=set(), labels={}, samples=[], fail=None)
    for lo in range(0, len(seeds), prop.batch):
        if time.time() > deadline:
            break
        part, srcs = [], []
        for s in seeds[lo:lo + prop.batch]:
            src = Src(s)
            try:
                part.append(prop.build(src))
                srcs.append(src)
            except Discard:
                out["discarded"] += 1
                out["evaluations"] += 1
        res = prop.check(part, workdir)
        for c, src, r in zip(part, srcs, res):
            out["evaluations"] += 1
            if c.nontrivial:
                out["nontrivial"] += 1
                out["keys"].add(hashlib.sha256(c.key.encode()).hexdigest()[:16])
            for k in c.labels:
                out["labels"][k] = out["labels"].get(k, 0) + c.labels[k]
            if len(out["samples"]) < 2 and c.nontrivial and r is None:
                out["samples"].append(c.describe()[:2500])
            if r is not None and out["fail"] is None:
                out["fail"] = (list(src.choices), r.kind, r.msg)
        if out["fail"]:
            break
    return out


def run_one(prop, choices, workdir):
    src = Src(replay=choices)
    try:
        c = prop.build(src)
    except Discard:
        return None, None, src.choices
    return c, prop.check([c], workdir)[0], src.choices


def shrink(prop, choices, kind, workdir, deadline):
    best, runs = list(choices), 0

    def attempt(cands):
        """several candidates at once; -> the first one which still fails"""
        nonlocal runs
        cases, kept = [], []
        for c in cands:
            src = Src(replay=c)
            try:
                cases.append(prop.build(src))
                kept.append(src.choices)
            except Discard:
                pass
        if not cases:
            return None
        runs += len(cases)
        for ch, r in zip(kept, prop.check(cases, workdir)):
            if r is not None and r.kind == kind and (len(ch), ch) < (len(best), best):
                return ch
        return None
    progress = True
    while progress and time.time() < deadline:
        progress = False
        for size in (32, 16, 8, 4, 2, 1):
            i = 0
            while i < len(best) and time.time() < deadline:
                cands = []
                for k in range(8):
                    if i + k * size < len(best):
                        cands.append(best[:i + k * size] + best[i + (k + 1) * size:])
                r = attempt(cands)
                if r is not None:
                    best, progress = r, True
                else:
                    i += size * 8
        i = 0
        while i < len(best) and time.time() < deadline:
            cands = []
            for k in range(i, min(i + 8, len(best))):
                if best[k]:
                    cands.append(best[:k] + [0] + best[k + 1:])
                    if best[k] > 1:
                        cands.append(best[:k] + [best[k] // 2] + best[k + 1:])
                        cands.append(best[:k] + [best[k] - 1] + best[k + 1:])
            r = attempt(cands)
            if r is not None:
                best, progress = r, True
            else:
                i += 8
    return best, runs


def main(props, workroot):
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cases", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--out")
    ap.add_argument("--replay")
    ap.add_argument("--replay-out")
    ap.add_argument("--max-seconds", type=float, default=600)
    ap.add_argument("--mult", type=float, default=1.0)
    ap.add_argument("--case-timeout", type=int, default=0)
    ap.add_argument("--known")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        prop = props[a.prop or rep["prop"]]
        c, r, _ = run_one(prop, rep["choices"], os.path.join(workroot, "replay%d" % os.getpid()))
        if c is not None:
            print(c.describe())
        print("REPLAY FAILS kind=%s\n%s" % (r.kind, r.msg) if r is not None else "REPLAY PASSES")
        return 1 if r is not None else 0
    prop = props[a.prop]
    cases = a.cases or max(1, int((prop.thorough if a.tier == "thorough" else prop.quick) * a.mult))
    t0 = time.time()
    seeds = []
    h = int(hashlib.sha256(a.prop.encode()).hexdigest()[:15], 16)
    for i in range(cases):
        seeds.append(splitmix((a.seed * 0x9E3779B97F4A7C15 + h + i * 0xD1342543DE82EF95) & MASK)[1])
    chunk = max(prop.batch, min(prop.batch * 4, cases // a.jobs + 1))
    jobs = [(prop, seeds[i:i + chunk], os.path.join(workroot, "w%d-%d" % (os.getpid(), k)), t0 + a.max_seconds)
            for k, i in enumerate(range(0, cases, chunk))]
    tot = dict(evaluations=0, discarded=0, nontrivial=0, keys=set(), labels={}, samples=[])
    fail = None
    with multiprocessing.Pool(a.jobs) as pool:
        for out in pool.imap(_worker, jobs):
            for k in ("evaluations", "discarded", "nontrivial"):
                tot[k] += out[k]
            tot["keys"] |= out["keys"]
            for k, v in out["labels"].items():
                tot["labels"][k] = tot["labels"].get(k, 0) + v
            tot["samples"] += out["samples"]
            if out["fail"]:
                fail = out["fail"]
                pool.terminate()
                break
    search_s = time.time() - t0
    confirmed, kind = 0, ""
    if fail:
        choices, kind, msg = fail
        wd = os.path.join(workroot, "s%d" % os.getpid())
        best, runs = shrink(prop, choices, kind, wd, time.time() + 60)
        c, r, _ = run_one(prop, best, wd)
        if r is None:
            best = choices
            c, r, _ = run_one(prop, best, wd)
        if r is not None:
            c, r2, _ = run_one(prop, best, wd)
            confirmed = 1 if r2 is not None else 0
        desc = c.describe() if c is not None else ""
        if r is not None:
            kind, msg = r.kind, r.msg
        if a.replay_out:
            with open(a.replay_out, "w") as f:
                json.dump({"prop": a.prop, "harness": "h5", "seed": a.seed, "kind": kind, "message": msg, "description": desc, "choices": best}, f, indent=1)
        print("FAILURE prop=%s kind=%s shrink_runs=%d choices=%d confirmed=%d\n%s\n%s" % (a.prop, kind, runs, len(best), confirmed, desc, msg))
    res = {"prop": a.prop, "evaluations": tot["evaluations"], "requested": cases, "discarded": tot["discarded"], "nontrivial": tot["nontrivial"],
           "distinct_nontrivial": len(tot["keys"]), "rule": prop.rule, "search_s": round(search_s, 2), "unconfirmed": 1 if fail and not confirmed else 0,
           "failed": 1 if fail else 0, "confirmed": confirmed, "kind": kind, "labels": tot["labels"], "samples": tot["samples"][:3]}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f)
    else:
        print(json.dumps(res)[:3000])
    return 1 if fail and confirmed else 0
