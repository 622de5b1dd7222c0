"""tools/hsmdebugger: every frame shows exactly what its log entry says (C30)."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

import chart as C
import pbt
from pbt import Failure

HERE = os.path.dirname(os.path.abspath(__file__))
COLORS = ["38EB4B", "EB8421"]


# ---------------------------------------------------------------------------------------------------------------- logs
def yaml_str(s):
    return '"' + "".join("\\" + c if c in '"\\' else "\\x%02x" % ord(c) if ord(c) < 32 or ord(c) == 127 else c for c in s) + '"'


def gen_value(src):
    k = src.weighted([30, 20, 15, 35])
    if k == 0:
        v = src.pick([0, 1, -5, 42, 65536])
        return str(v), v
    if k == 1:
        b = src.chance(50)
        return ("true" if b else "false"), b
    if k == 2:
        return "1.500000", 1.5
    s = src.pick(["a", "", "test argument", "x: y", "- z", "it's", 'say "x"', "a\\b", "#1", "null", "7", "two words", "[*]", "tab\there"])
    return yaml_str(s), s


class Entry:
    def __init__(self, action, frm="", target="", event="", failed=False, args=None):
        self.action, self.frm, self.target, self.event, self.failed, self.args, self.active, self.time = action, frm, target, event, failed, args or [], [], ""

    def yaml(self):
        return ("\n-\n  timestamp: %s\n  active_states:%s\n  action: %s\n  from_state: %s\n  target_state: %s\n  event: %s\n  status: %s\n  args:%s" % (
            yaml_str(self.time), "".join("\n    - " + yaml_str(s) for s in self.active), self.action, yaml_str(self.frm), yaml_str(self.target), yaml_str(self.event),
            "failed" if self.failed else "", "".join("\n    - " + t for t, _ in self.args)))

    def values(self):
        return [v for _, v in self.args]

    def argtext(self):
        return str(self.values()) if self.args else ""


def configuration(src, ch):
    """some set of active states: with ancestors, every region of a parallel state"""
    out = []

    def enter(s):
        out.append(s.id)
        if s.kind == "parallel":
            for c in s.children:
                if c.kind != "history":
                    enter(c)
        elif s.children:
            enter(src.pick([c for c in s.children if c.kind != "history"]))
    if src.chance(5):
        return []
    enter(src.pick([s for s in ch.root if s.kind != "history"]))
    if len(out) > 1 and src.chance(20):
        out.pop(src.below(len(out)))
    return sorted(out)


def gen_log(src, ch, n):
    states = [s for s in ch.all() if s.kind != "history"]
    trs = [(s, t) for s in states for t in s.transitions]
    hist = [s for s in ch.all() if s.kind == "history"]
    entries = [(s, c, e) for s in states for c, e, _ in s.initial] + [(s, c, None) for s in states if s.kind == "parallel" for c in s.children if c.kind != "history"]
    log = []

    def args():
        return [gen_value(src) for _ in range(src.range(1, 3))] if src.chance(40) else []
    for i in range(n):
        k = src.weighted([8, 35, 10 if hist else 0, 20 if entries else 0, 25, 12])
        e = None
        if k == 1 and trs:
            s, t = src.pick(trs)
            e = Entry("transition", s.id, t.target.id, t.event, False, args())
        elif k == 2:
            h = src.pick(hist)
            t = src.pick([c for c in h.parent.all() if c is not h.parent and c.kind not in ("history",)])
            if h.hist_default and src.chance(60):
                t = h.hist_default[0]
            e = Entry("transition", h.id, t.id, src.pick(C.EVENTS), False, args())
        elif k == 3:
            p, c, ev = src.pick(entries)
            e = Entry("transition_entrypoint", p.id, c.id, ev or src.pick(C.EVENTS), False, args())
        elif k == 4:
            cb = [(s, f) for s in states for f in ("onentry", "onexit", "onstate") if getattr(s, f)]
            if cb:
                s, f = src.pick(cb)
                if f == "onexit":
                    e = Entry("callback_exit", s.id, "", "", src.chance(35))
                elif f == "onentry":
                    e = Entry("callback_enter", "", s.id, "", src.chance(35), args())
                else:
                    e = Entry("callback_state", "", s.id, "", False, args())
        elif k == 5:
            ac = [(s, f) for s in states for f in ("entry", "exit") if getattr(s, f + "_actions")]
            if ac:
                s, f = src.pick(ac)
                e = Entry("onenter_actions" if f == "entry" else "onexit_actions", "", s.id)
        if e is None:
            e = Entry("idle")
        e.active = configuration(src, ch) if not log or src.chance(60) else log[-1].active
        if e.action.startswith("callback") and src.chance(50):
            sid = e.frm or e.target
            if sid not in e.active:
                e.active = sorted(e.active + [sid])
        e.time = "2024-05-%02d 10:%02d:%02d.%03d" % (1 + i % 28, src.below(60), i % 60, src.below(1000))
        log.append(e)
    return log


# ---------------------------------------------------------------------------------------------------------------- what a frame has to look like
class Look(dict):
    """what is highlighted. active/blocked/outlined: {state: colour}; notes: {state: text}; edges: sorted [(edge, colour, note)]; bold: sorted [(state, text)]; optional: things which may or may not be there"""


def edge_key(s, t, ch):
    """the same form as parse_frame gives"""
    where, name = s.parent.id if s.parent else "", t.target.id
    if t.target.kind == "history":
        where, name = t.target.parent.id, "[H*]" if t.target.hist == "deep" else "[H]"
    elif t.target.kind == "final":
        where, name = t.target.parent.id if t.target.parent else "", "[*]"
    label = [t.event] + (["[%s is %s]" % (t.cond[0], "true" if t.cond[1] else "false")] if t.cond else []) + (["<%s>" % t.cb] if t.cb else [])
    return (where if name[0] == "[" else "", s.id, name, tuple(label))


def expected_look(ch, e, colors):
    by = {s.id: s for s in ch.all()}
    lk = Look(active={}, blocked={}, outlined={}, notes={}, edges=[], bold=[])
    opt_notes = set()
    opt_edge_note = set()
    for a in e.active:
        s = by[a]
        if not s.children and s.kind not in ("history", "final"):
            lk["active"][a] = colors[0]
    args = e.argtext()
    if e.action in ("transition", "transition_entrypoint"):
        t = by[e.target]
        frm = by.get(e.frm)
        if t.kind not in ("history", "final") and not (e.action == "transition" and e.frm == e.target):
            lk["outlined"][e.target] = colors[0]
        if e.action == "transition":
            if frm.kind == "history":
                d = frm.hist_default
                if d and d[0] is t:
                    lk["edges"].append(((frm.parent.id, "[H*]" if frm.hist == "deep" else "[H]", t.id, (d[1],) + (("<%s>" % d[2],) if d[2] else ())), colors[0], args))
            else:
                for tr in frm.transitions:
                    if tr.target is t and tr.event == e.event:
                        k = edge_key(frm, tr, ch)
                        lk["edges"].append((k, colors[0], args))
                        if t.kind == "history":
                            opt_edge_note.add(k)
        else:
            if frm.kind == "parallel":
                lk["edges"].append(((frm.id, "[*]", t.id, ()), colors[0], args))
            for c, ev, cond in frm.initial:
                if c is t and (ev is None or ev == e.event):
                    lk["edges"].append(((frm.id, "[*]", t.id, ((ev,) if ev else ()) + (("[%s is %s]" % (cond[0], "true" if cond[1] else "false"),) if cond else ())), colors[0], args))
    elif e.action != "idle":
        s = by[e.frm or e.target]
        if not s.children and s.kind not in ("history", "final"):
            if e.action == "callback_enter":
                lk["bold"] += [(s.id, "<on entry>"), (s.id, "- " + s.onentry)]
            elif e.action == "callback_exit":
                lk["bold"] += [(s.id, "<on exit>"), (s.id, "- " + s.onexit)]
            elif e.action == "callback_state":
                lk["bold"] += [(s.id, s.onstate)]
            elif e.action == "onenter_actions":
                lk["bold"] += [(s.id, "<on entry>")] + [(s.id, "- %s %s" % (a[0], a[2])) for a in s.entry_actions]
            else:
                lk["bold"] += [(s.id, "<on exit>")] + [(s.id, "- %s %s" % (a[0], a[2])) for a in s.exit_actions]
            if e.failed:
                lk["active"].pop(s.id, None)
                lk["blocked"][s.id] = colors[1]
                lk["notes"][s.id] = "Transition blocked %s() returned FALSE" % (s.onentry if e.action == "callback_enter" else s.onexit) + (" Arguments " + args if args else "")
            elif args and e.action in ("callback_enter", "callback_state"):
                lk["notes"][s.id] = "Arguments " + args
                if s.id not in e.active:
                    opt_notes.add(s.id)
    lk["edges"].sort()
    lk["bold"].sort()
    return lk, opt_notes, opt_edge_note


def parse_frame(text, colors):
    """-> (diagram without highlighting, Look)"""
    lk = Look(active={}, blocked={}, outlined={}, notes={}, edges=[], bold=[])
    base, stack = [], []
    lines = text.splitlines()
    i = 0
    last_edge = None
    while i < len(lines):
        raw = lines[i]
        line = raw.strip()
        i += 1
        m = re.match(r'^state "\*\*(\w+)\*\*" as (\w+) #(\w+)$', line)
        if m:
            if m.group(1) != m.group(2):
                raise ValueError("renamed state: " + line)
            kind = "active" if m.group(3) == colors[0] else "blocked" if m.group(3) == colors[1] else None
            if kind is None or m.group(2) in lk["active"] or m.group(2) in lk["blocked"]:
                raise ValueError("wrong colour or coloured twice: " + line)
            lk[kind][m.group(2)] = m.group(3)
            last_edge = None
            continue
        m = re.match(r"^state (\w+) ##\[dotted\](\w+)$", line)
        if m:
            if m.group(1) in lk["outlined"]:
                raise ValueError("outlined twice: " + line)
            lk["outlined"][m.group(1)] = m.group(2)
            continue
        m = re.match(r"^note left of (\w+) : (.*)$", line)
        if m:
            if m.group(1) in lk["notes"]:
                raise ValueError("two notes: " + line)
            lk["notes"][m.group(1)] = " ".join(m.group(2).replace("**", "").replace("\\n", " ").split(" ")).replace("  ", " ")
            continue
        if line == "note on link":
            body = []
            while i < len(lines) and lines[i].strip() != "end note":
                body.append(lines[i].strip())
                i += 1
            if i == len(lines) or last_edge is None:
                raise ValueError("note on link without edge or end")
            i += 1
            body = [x.strip() for x in body if x.strip()]
            if body[:1] != ["**Arguments:**"] or len(body) != 2:
                raise ValueError("note on link: %s" % body)
            if last_edge[0] is None:
                raise ValueError("arguments on an edge which isn't highlighted: " + lines[i - 6])
            lk["edges"][last_edge[0]][2] = body[1]
            last_edge = None
            continue
        m = re.match(r"^(\[\*\]|\[H\*?\]|\w+) -(\[#(\w+),bold\])?-> (\[\*\]|\[H\*?\]|\w+)(?: ?:(.*))?$", line)
        if m:
            a, b, rest = m.group(1), m.group(4), (m.group(5) or "").strip()
            parts = [x.strip() for x in rest.split("\\n")] if rest else []
            bold = [x.startswith("**") and x.endswith("**") and len(x) > 4 for x in parts]
            plain = [x[2:-2] if y else x for x, y in zip(parts, bold)]
            if m.group(2):
                if a == "[*]":
                    r = re.match(r"^(\w+)?\s*(\[\w+ is \w+\])?$", rest)
                    if not r:
                        raise ValueError("entry: " + line)
                    label = tuple(x for x in r.groups() if x)
                    plain = parts
                else:
                    label = tuple(plain)
                    if not all(bold):
                        raise ValueError("highlighted edge with a label which isn't bold: " + line)
                lk["edges"].append([((stack[-1] if stack else "") if "[" in a + b else "", a, b, label), m.group(3), ""])
                last_edge = [len(lk["edges"]) - 1]
            else:
                if any(bold):
                    raise ValueError("bold label of an edge which isn't highlighted: " + line)
                last_edge = [None]
            base.append("%s --> %s%s" % (a, b, ": " + "\\n".join(plain) if plain else ""))
            continue
        m = re.match(r"^(\w+) : (\*\*)(.*)\*\*$", line)
        if m:
            lk["bold"].append([m.group(1), m.group(3)])
            base.append("%s : %s" % (m.group(1), m.group(3)))
            continue
        m = re.match(r"^state \w+ \{$", line)
        if m:
            stack.append(line.split(" ")[1])
        elif line == "}":
            stack.pop()
        base.append(raw)
    lk["edges"] = sorted((tuple(x) for x in lk["edges"]))
    return "\n".join(base) + "\n", lk


def bold_key(sid, text, parse_text):
    r = parse_text(["<on entry>", text] if text.startswith("- ") else [text])
    if text.startswith("- "):
        x = r[1][0] if r[1] else text
        return (sid, "- " + (x if isinstance(x, str) else "%s %s" % (x[0], x[1:])))
    return (sid, text)


def judge_frame(diagram, parse_text, ch, e, colors, text):
    """-> None or Failure"""
    try:
        base, lk = parse_frame(text, colors)
    except (ValueError, IndexError) as x:
        return Failure("syntax", "%s\nentry: %s\n%s" % (x, e.yaml(), text))
    holder = type("X", (), {})()
    holder.ch, holder.ident = ch, None
    f = diagram.judge(holder, base)
    if f:
        return Failure("diagram", "without highlighting: %s\nentry: %s" % (f.msg, e.yaml()))
    ex, opt_notes, opt_edge_note = expected_look(ch, e, colors)
    lk["bold"] = sorted(bold_key(a, b, parse_text) for a, b in lk["bold"])
    for n in opt_notes:
        if n not in lk["notes"]:
            ex["notes"].pop(n, None)
    if opt_edge_note:
        lk["edges"] = sorted((k, c, "" if k in opt_edge_note else n) for k, c, n in lk["edges"])
        ex["edges"] = sorted((k, c, "" if k in opt_edge_note else n) for k, c, n in ex["edges"])
    for k in ("active", "blocked", "outlined", "notes", "edges", "bold"):
        if ex[k] != lk[k]:
            return Failure("highlight", "%s\nexpected: %s\nframe:    %s\nentry: %s\n%s" % (k, ex[k], lk[k], e.yaml(), text))
    return None


# ---------------------------------------------------------------------------------------------------------------- sessions
class Session(pbt.Prop):
    rule = "distinct sessions which look at frames of at least two kinds"
    quick, thorough, batch = 9000, 300000, 24

    def __init__(self, app, gen, diagram, parse_text, write_files):
        self.app, self.gen, self.diagram, self.parse_text, self.write_files = app, gen, diagram, parse_text, write_files

    def build(self, src):
        charts, logs, files = [], [], {}
        for k in range(src.weighted([75, 25]) + 1):
            ch = C.gen_chart(src, {"maxstates": 9})
            charts.append(ch)
            files["hsm%d.scxml" % k] = C.Writer(ch).document()
            for j in range(src.weighted([60, 30, 10]) + 1):
                n = src.weighted([4, 20, 20, 15, 10, 10, 5, 5, 5])
                if src.chance(10):
                    n += src.below(20)
                log = gen_log(src, ch, n)
                if src.chance(4):
                    log = None
                logs.append((k, "log%d_%d.hsmlog" % (k, j), log))
                files[logs[-1][1]] = "- action: [idle\n  x: : y\n" if log is None else src.pick(["", "---", "---\n"]) + "".join(e.yaml() for e in log) + ("\n" if src.chance(50) else "")
        if src.chance(10):
            files["bad.scxml"] = src.pick(["<html/>", "", files["hsm0.scxml"][:len(files["hsm0.scxml"]) // 2], C.Writer(charts[0]).root_open("nowhere") + "</scxml>",
                                           C.Writer(charts[0]).document().replace(' id="', ' id="a b', 1)])
        missing = src.chance(3)
        modes = []
        slow = src.chance(50)
        for _ in range(30):
            modes.append("missing" if missing else ["fast", "slow", "late"][src.weighted([50, 40, 10])] if slow else "fast")
        settings = {}
        if src.chance(20):
            settings["style/active_state"], settings["style/blocked_transition"] = "00AA11", "BB2200"
        if src.chance(15):
            settings["common/load_last_hsm"] = src.pick(["false", "true"])
        nrec = src.weighted([60, 20, 20])
        if nrec:
            for i in range(1, src.range(1, 10) + 1 if nrec == 1 else 11):
                settings["recent_logs/item%d" % i] = "/nowhere/old%d.hsmlog" % i
        if nrec == 2 and src.chance(50):
            for i in range(1, src.range(1, 10) + 1):
                settings["recent_hsm/item%d" % i] = "/nowhere/old%d.scxml" % i
            settings["common/load_last_hsm"] = "false"
        ops = [["open_hsm", "hsm0.scxml"]] if src.chance(90) else []
        if ops and src.chance(90):
            ops.append(["open_log", [x[1] for x in logs if x[0] == 0][0]])
        for _ in range(src.range(1, 14)):
            k = src.weighted([4, 10, 3, 4, 14, 10, 8, 8, 14, 5, 10, 3, 6, 3, 10, 12, 3, 1])
            if k == 0:
                ops.append(["open_hsm", "hsm%d.scxml" % src.below(len(charts)) if not ("bad.scxml" in files and src.chance(40)) else "bad.scxml"] if not src.chance(8) else ["open_hsm", None])
            elif k == 1:
                ops.append(["open_log", src.pick(logs)[1] if not src.chance(8) else None])
            elif k == 2:
                ops.append(["recent_hsm", "hsm%d.scxml" % src.below(len(charts))])
            elif k == 3:
                ops.append(["recent_logs", src.pick(logs)[1] if not src.chance(20) else "/nowhere/old%d.hsmlog" % src.range(1, 10)])
            elif k == 4:
                ops.append(["action", "actionNextFrame"])
            elif k == 5:
                ops.append(["action", "actionPrevFrame"])
            elif k == 6:
                ops.append(["goto", src.range(1, 14) if not src.chance(10) else None])
            elif k == 7:
                ops.append(["slider", src.below(14)])
            elif k == 8:
                ops.append(["row", src.below(8), src.below(4)])
            elif k == 9:
                ops.append(["action", "actionSearch"])
            elif k == 10:
                ops.append(["filter", src.pick(["", "a", "tra", "transition", "callback", "entry", "idle", "x", "exit", "callback_exit", ":a", "tra:1", "callback:", "trans:True", ":", "enter:x", "actions"])])
            elif k == 11:
                ops.append(["action", src.pick(["actionShowFrames", "actionResetZoom", "actionFitToView"])])
            elif k == 12:
                ops.append(["action", src.pick(["actionZoomIn", "actionZoomOut"])])
            elif k == 13:
                steps = []
                for _ in range(src.range(0, 3)):
                    j = src.below(4)
                    which = src.below(2)        # the two colours always differ: the pictures tell them apart
                    if j == 0:
                        steps.append(["type", ["colorActive", "colorBlocked"][which], src.pick([["123ABC", "00AA11"], ["FEDCBA", "BB2200"]][which])])
                    elif j == 1:
                        steps.append(["pick", ["btnChangeActiveColor", "btnChangeBlockedColor"][which], src.pick([["#aa00cc", "#0f0f0f", ""], ["#445566", "#cc00aa", ""]][which])])
                    elif j == 2:
                        steps.append(["check", src.chance(50)])
                    else:
                        steps.append(["restore"])
                ok = src.chance(65) or ["restore"] in steps
                ops.append(["settings", steps, ok])
            elif k == 14:
                ops.append(["release", src.below(3)])
            elif k == 15:
                ops.append(["pump", src.pick([None, 1, 2])])
            elif k == 16:
                ops.append(["restart"])
            else:
                ops.append([src.pick(["clear_hsm", "clear_logs"])])
        ops.append(["finish"])
        text = "operations:\n" + "".join("  %s\n" % json.dumps(o) for o in ops) + "renderer: %s\nsettings: %s\n" % (" ".join(modes[:len(ops)]), settings)
        c = SessionCase(files, text)
        c.charts, c.logs, c.ops, c.modes, c.settings, c.missing = charts, {x[1]: (x[0], x[2]) for x in logs}, ops, modes, settings, missing
        c.key = json.dumps([files, ops, modes])
        kinds = {e.action for _, _, log in logs if log for e in log}
        c.nontrivial = len(kinds) >= 2 and len([o for o in ops if o[0] in ("goto", "slider", "row", "action")]) >= 1
        c.labels = {"operations": len(ops), "sessions with a slow renderer": int(slow), "log entries": sum(len(x[2]) for x in logs if x[2])}
        return c

    def check(self, cases, wd):
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        jobs = []
        for i, c in enumerate(cases):
            d = os.path.join(wd, "c%d" % i)
            self.write_files(c, d)

            def full(o):
                return [o[0], os.path.join(d, o[1])] if o[0] in ("open_hsm", "open_log", "recent_hsm", "recent_logs") and o[1] else o
            jobs.append({"cwd": d, "ops": [full(o) for o in c.ops], "gen": c.modes, "settings": c.settings})
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1", PYTHONWARNINGS="ignore")
        p = subprocess.run([sys.executable, os.path.join(HERE, "dbgworker.py"), self.app, self.gen], input=json.dumps(jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=600, cwd=wd)
        try:
            out = json.loads(p.stdout)
        except ValueError:
            if len(cases) > 1:
                h = len(cases) // 2
                return self.check(cases[:h], wd) + self.check(cases[h:], wd)
            return [Failure("crash", "the debugger ended: rc=%s %s" % (p.returncode, p.stderr[-1500:]))]
        res = []
        for i, c in enumerate(cases):
            f = self.judge(c, os.path.join(wd, "c%d" % i), out[i])
            if f is not None:
                f = Failure(f.kind, f.msg.replace(os.path.join(wd, "c%d" % i), "."))
            res.append(f)
        shutil.rmtree(wd, ignore_errors=True)
        return res

    def judge(self, c, d, out):
        # the model of what the user sees
        hsm = log = logname = frame = None      # log: None, "?" (unspecified) or entries
        filt, search, frames_shown = "", False, True
        colors = [c.settings.get("style/active_state", COLORS[0]), c.settings.get("style/blocked_transition", COLORS[1])]
        loadlast = c.settings.get("common/load_last_hsm", "true") != "false"
        rec = [[c.settings[k] for k in sorted((k for k in c.settings if k.startswith(g)), key=lambda x: (len(x), x))] for g in ("recent_hsm/", "recent_logs/")]
        hsmname = None
        zoom = 1.0
        seen = {}                               # judged images
        dirty = False                           # the colours changed without a new image
        frame_unknown = False

        def remember(k, path):
            rec[k] = ([path] + [x for x in rec[k] if x != path])[:10]

        for n, o in enumerate(out["obs"]):
            op = c.ops[n - 1] if n else ["start"]
            k = op[0]
            where = "after operation %d %s: " % (n, json.dumps(op))

            def bad(kind, msg):
                return Failure(kind, where + msg)
            if k in ("open_log", "recent_logs") and op[1] in c.logs and (hsm is None or c.charts[c.logs[op[1]][0]] is not hsm) and o["ret"] is True:
                if hsm is None:
                    return bad("disabled", "a log could be opened without HSM")
                return None                     # a log of another state machine: not specified
            if o["errors"]:
                return bad("exception", o["errors"][0])
            if "image" not in o:
                return bad("startup", "the debugger didn't start")
            ret = o["ret"]
            messages = o["messages"]
            # a file which doesn't exist any more has an absolute path
            path = os.path.join(d, op[1]) if k in ("open_hsm", "open_log", "recent_hsm", "recent_logs") and op[1] else None
            expect_error = False
            lost_log = False
            if k in ("start", "restart"):
                log = logname = frame = hsm = hsmname = None
                filt, search, frames_shown, zoom = "", False, True, 1.0
                if loadlast and rec[0]:
                    hsm = self.chart_of(c, rec[0][0])
                    expect_error = hsm is None
                    hsmname = rec[0][0] if hsm is not None else None
            elif k in ("open_hsm", "recent_hsm"):
                if k == "recent_hsm":
                    if ret != (path in rec[0] or "missing" if rec[0] else False):
                        return bad("recent", "menu of recent HSMs: %r, expected entries %s" % (ret, rec[0]))
                elif ret is not True:
                    return bad("disabled", "Open HSM isn't available")
                if path and ret is True:
                    hsm = self.chart_of(c, path)
                    log = logname = frame = None
                    if hsm is None:
                        expect_error = True
                    else:
                        hsmname = path
                        remember(0, path)
            elif k in ("open_log", "recent_logs"):
                if k == "open_log" and ret is not (hsm is not None):
                    return bad("disabled", "Open HSM log is %s" % ("not available" if hsm is not None else "available without HSM"))
                if k == "recent_logs":
                    want = False if hsm is None or not rec[1] else True if path in rec[1] else "missing"
                    if ret != want:
                        return bad("recent", "menu of recent logs: %r, expected %r, entries %s" % (ret, want, rec[1]))
                if path and ret is True:
                    owner, entries = c.logs.get(op[1], (None, None))
                    if entries is None:
                        expect_error, lost_log = True, True
                    else:
                        logname = path
                        remember(1, path)
                        log, frame = (entries, 0) if entries else ("?", None)
                        frame_unknown = False
                        if log == "?" and o["rows"]:
                            return bad("rows", "an empty log has rows %s" % o["rows"])
            elif k == "clear_hsm" or k == "clear_logs":
                j = 0 if k == "clear_hsm" else 1
                if ret is True:
                    rec[j] = []
                elif rec[j] and (j == 0 or hsm is not None):
                    return bad("recent", "cannot clear the menu")
            elif k == "settings":
                if ret is not True:
                    return bad("disabled", "settings aren't available")
                form = list(colors) + [loadlast]
                for s in op[1]:
                    if s[0] == "type":
                        form[0 if s[1] == "colorActive" else 1] = s[2]
                    elif s[0] == "pick" and s[2]:
                        form[0 if s[1] == "btnChangeActiveColor" else 1] = s[2][1:].upper()
                    elif s[0] == "check":
                        form[2] = s[1]
                    elif s[0] == "restore":
                        form = list(COLORS) + [True]
                if o["dialog"] != form:
                    return bad("settings", "the dialog shows %s, expected %s" % (o["dialog"], form))
                if op[2]:
                    colors, loadlast = form[:2], form[2]
            elif log is not None and log != "?":
                n_ = len(log)
                if k in ("action", "goto") and ret is not True:
                    return bad("disabled", "action isn't available while a log is open")
                if k == "action":
                    a = op[1]
                    if a == "actionNextFrame":
                        frame = min(frame + 1, n_ - 1)
                    elif a == "actionPrevFrame":
                        frame = max(frame - 1, 0)
                    elif a == "actionSearch":
                        search = not search
                    elif a == "actionShowFrames":
                        frames_shown = not frames_shown
                    elif a in ("actionZoomIn", "actionZoomOut", "actionResetZoom"):
                        zoom = 1.0 if a == "actionResetZoom" else None if zoom is None else zoom + (0.1 if a == "actionZoomIn" else -0.1)
                    elif a == "actionFitToView":
                        zoom = None
                elif k == "goto":
                    if o["goto"] != [frame + 1, 1, n_]:
                        return bad("goto", "dialog offers %s, expected current frame %d of 1..%d" % (o["goto"], frame + 1, n_))
                    if op[1] is not None:
                        frame = min(op[1], n_) - 1
                elif k == "slider":
                    frame = min(op[1], n_ - 1)
                elif k == "filter":
                    filt = op[1]
                elif k == "row":
                    rows = self.rows(log, filt, search)
                    want = op[1] < len(rows)
                    if (ret is True) != want:
                        return bad("rows", "%d rows, expected %s" % (len(o["rows"]), rows))
                    if want:
                        frame = int(rows[op[1]][0]) - 1
            elif k == "filter":
                filt = op[1]
            elif k == "action" and op[1] == "actionSearch" and ret is True:
                search = not search
            elif k == "action" and op[1] == "actionShowFrames" and ret is True:
                frames_shown = not frames_shown
            elif k == "action" and ret is True:
                zoom = None
            if log is None and k in ("action", "goto") and op[1] != "actionShowFrames" and ret is not False:
                return bad("enabled", "action is available without a log")
            if lost_log:
                # what is shown until another log is opened isn't specified
                log, frame = "?", None
            # ---- what is shown
            if expect_error and not messages:
                return bad("message", "no error message")
            if messages and not expect_error and not c.missing:
                return bad("message", "unexpected error message %s" % messages)
            if o["recent"] != [rec[0], rec[1]]:
                return bad("recent", "menus of recent files: %s, expected %s" % (o["recent"], rec))
            if hsmname and hsm is not None and os.path.basename(hsmname) not in o["title"]:
                return bad("title", o["title"])
            if o["panels"] != [search, frames_shown]:
                return bad("panels", "search panel and frames panel %s, expected %s" % (o["panels"], [search, frames_shown]))
            if log is None:
                if o["rows"] or o["visible"] or o["busy"] or o["status"] or o["logname"]:
                    return bad("closed", "no log is open, but rows %s, diagram visible: %s, busy indicator: %s, status %r, log %r" % (o["rows"], o["visible"], o["busy"], o["status"], o["logname"]))
                continue
            if log == "?":
                continue
            rows = self.rows(log, filt, search)
            if o["rows"] != rows:
                return bad("rows", "frames %s\nexpected %s" % (o["rows"], rows))
            if o["status"] != "Frame %d / %d" % (frame + 1, len(log)) or o["slider"] != frame or o["max"] != len(log) - 1 or o["logname"] != logname:
                return bad("position", "status %r, log %r, slider %d of %d; expected frame %d of %d" % (o["status"], o["logname"], o["slider"], o["max"], frame + 1, len(log)))
            quiet = o["pending"] == 0 and o["queued"] == 0
            image = out["images"].get(o["image"]) if o["image"] else None
            if c.missing:
                if quiet and not (o["visible"] and not o["busy"] and image == "failed"):
                    return bad("failed", "the renderer is missing, but the view shows %s" % (image or "nothing"))
                continue
            if quiet and not o["visible"]:
                return bad("nothing", "no diagram is shown although nothing is being rendered")
            if o["visible"] == o["busy"]:
                return bad("busy", "diagram visible: %s, busy indicator visible: %s" % (o["visible"], o["busy"]))
            if o["visible"]:
                if image is None:
                    return bad("image", "there's no image")
                key = (id(hsm), id(log[frame]), tuple(colors), o["image"])
                if key not in seen:
                    seen[key] = self.judge_image(hsm, log[frame], colors, image)
                f = seen[key]
                if f:
                    other = [i for i, e in enumerate(log) if self.judge_image(hsm, e, colors, image) is None]
                    return bad("stale" if other else f.kind, "frame %d: %s%s" % (frame + 1, "the diagram of frame %s is shown\n" % [i + 1 for i in other] if other else "", f.msg))
                if zoom is not None and (o["size"] is None or abs(o["size"][0] - 100 * zoom) > 1e-6 or abs(o["size"][1] - 50 * zoom) > 1e-6):
                    return bad("zoom", "size of the image %s at zoom %g" % (o["size"], zoom))
        if out["hang"]:
            return Failure("hang", "the debugger hangs after operation %d" % (len(out["obs"]) - 1))
        return None

    def judge_image(self, ch, e, colors, image):
        return judge_frame(self.diagram, self.parse_text, ch, e, colors, image)

    def chart_of(self, c, path):
        m = re.match(r"^hsm(\d)\.scxml$", os.path.basename(path))
        return c.charts[int(m.group(1))] if m else None

    def rows(self, log, filt, search):
        out = []
        for i, e in enumerate(log):
            if search and filt:
                a, _, b = filt.partition(":")
                if a not in e.action or b not in e.argtext():
                    continue
            out.append([str(i + 1), e.time, e.action, e.argtext()])
        return out


class SessionCase:
    labels, nontrivial, key = {}, True, ""

    def __init__(self, files, text):
        self.files, self.text = files, text

    def describe(self):
        return self.text + "".join("---- %s\n%s" % (k, v) for k, v in sorted(self.files.items()))
