"""Co-process of the h1log harness: reads a path per line, loads it as hsmdebugger does, prints one canonical line per record."""
import sys

import yaml

Loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)


def hx(s):
    return s.encode("utf-8", "surrogatepass").hex()


def scalar(v):
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "b:%d" % v
    if isinstance(v, int):
        return "i:%d" % v
    if isinstance(v, float):
        return "f:%r" % v
    if isinstance(v, str):
        return "s:" + hx(v)
    return "?:" + hx(repr(v))


def seq(v):
    if v is None:
        return ""
    if not isinstance(v, list):
        return "notalist " + scalar(v)
    return ",".join(scalar(x) for x in v)


for line in sys.stdin:
    path = line.rstrip("\n")
    out = []
    try:
        with open(path, encoding="utf-8", newline="") as f:
            doc = yaml.load(f, Loader)
        if doc is None:
            doc = []
        if not isinstance(doc, list):
            out.append("ERROR not a sequence of records")
            doc = []
        for r in doc:
            if not isinstance(r, dict):
                out.append("ERROR record is not a mapping")
                continue
            ts = r.get("timestamp")
            if not (isinstance(ts, str) and len(ts) == 23):
                out.append("ERROR timestamp %r" % (ts,))
            missing = [k for k in ("active_states", "action", "from_state", "target_state", "event", "status", "args") if k not in r]
            if missing:
                out.append("ERROR missing keys %r" % (missing,))
                continue
            out.append("|".join(["%s" % r["action"], seq(r["active_states"]), scalar(r["from_state"]), scalar(r["target_state"]), scalar(r["event"]),
                                 scalar(r["status"]), seq(r["args"])]))
    except Exception as e:  # noqa: BLE001
        out.append("ERROR " + " ".join(str(e).split())[:300])
    sys.stdout.write("\n".join(out + ["END", ""]))
    sys.stdout.flush()
