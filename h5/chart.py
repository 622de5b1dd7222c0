"""State charts: random generation, SCXML text, and what the generated code has to register."""
import os
from xml.sax.saxutils import escape, quoteattr

WORDS = ["S", "S1", "S10", "S_1", "On", "Off", "Idle", "Idle2", "State_2", "State_20", "P", "P1", "x", "_q", "Menu", "MenuA", "Final_1", "Final_10", "Hist", "E1", "Done", "B2", "lvl",
         "Fin", "End_3", "Run", "RunFast", "Z9", "aB", "Err", "Wait", "Wait_1"]
EVENTS = ["E1", "E2", "E10", "next", "EV_1", "EV_10", "POWER_ON", "ON_TIMER_T1", "ON_TIMER_X", "done", "e", "S1"]
TIMERS = ["T1", "T10", "t_2", "X"]
VOID_CB = ["onA", "onAb", "onStateX", "_cb1", "handleIt", "shared1"]
BOOL_CB = ["isOk", "isOk2", "canEnter", "checkIt", "shared2"]
EXIT_CB = ["onExitA", "leave", "leave2"]


class State:
    def __init__(self, sid, kind):
        self.id, self.kind = sid, kind       # kind: state, parallel, final, history
        self.children, self.parent = [], None
        self.initial = []                    # [(child, event, (cond, bool))]: entry points of a composite state
        self.onentry = self.onexit = self.onstate = None
        self.entry_actions, self.exit_actions = [], []
        self.transitions = []                # [Tr]
        self.final_event = None
        self.hist = None                     # shallow, deep
        self.hist_default = None             # (target, event, callback)
        self.emit = {}                       # how it's written

    def all(self):
        yield self
        for c in self.children:
            yield from c.all()

    def inside(self, other):
        s = self
        while s is not None:
            if s is other:
                return True
            s = s.parent
        return False


class Tr:
    def __init__(self, event, target, cond, cb, typ):
        self.event, self.target, self.cond, self.cb, self.type = event, target, cond, cb, typ  # target: State (may be the source)
        self.emit = {}


class Chart:
    def __init__(self):
        self.root, self.initial = [], None
        self.emit = {}

    def all(self):
        for s in self.root:
            yield from s.all()


def cpp_arg(src):
    k = src.weighted([30, 15, 15, 25, 10])
    if k == 0:
        v = src.pick([0, 1, 7, 42, 65536, -5])
        return str(v), ("N", float(v))
    if k == 1:
        b = src.chance(50)
        return ("true" if b else "false"), ("B", b)
    if k == 2:
        return "1.5", ("N", 1.5)
    s = src.pick(["a", "", "test argument", "(x)", "x)y(", "a,b", ", ,x,", "it's", "<&>", "a b  c"])
    if src.chance(10):
        s += ',"\\'
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"'), ("S", s)


def gen_chart(src, opts):
    """opts: dict(maxstates, comma): what may occur"""
    ch = Chart()
    names = list(WORDS)

    def fresh():
        return names.pop(src.below(len(names)))
    budget = [src.range(1, opts.get("maxstates", 12))]
    states = []

    def mk(kind, parent):
        s = State(fresh(), kind)
        s.parent = parent
        (parent.children if parent else ch.root).append(s)
        states.append(s)
        budget[0] -= 1
        return s

    def fill(parent, depth):
        n = src.range(1, 4)
        for _ in range(n):
            if budget[0] <= 0 or len(names) < 6:
                return
            k = src.weighted([70, 12 if depth < 3 else 0, 10 if parent is None or parent.kind != "parallel" else 0, 12 if parent is not None else 0])
            kind = ["state", "parallel", "final", "history"][k]
            s = mk(kind, parent)
            if kind == "history":
                s.hist = "deep" if src.chance(50) else "shallow"
            if kind == "parallel" or (kind == "state" and depth < 3 and src.chance(35)):
                fill(s, depth + 1)
    fill(None, 0)
    # composite states need at least one child which can be entered
    for s in list(states):
        if s.kind == "parallel" or s.children:
            if not [c for c in s.children if c.kind in ("state", "parallel")]:
                if len(names) < 2:
                    from pbt import Discard
                    raise Discard()
                budget[0] = max(budget[0], 1)
                mk("state", s)
    if not [s for s in ch.root if s.kind in ("state", "parallel")]:
        mk("state", None)
    targets = [s for s in ch.root if s.kind in ("state", "parallel")]
    ch.initial = src.pick(targets)
    allst = list(ch.all())

    def cond():
        return (src.pick(BOOL_CB), not src.chance(40)) if src.chance(50) else None

    def action():
        k = src.weighted([35, 15, 15, 35])
        if k == 3:
            ev = src.pick(EVENTS)
            args, vals = [ev], []
            for _ in range(src.below(4)):
                t, v = cpp_arg(src)
                args.append(t)
                vals.append(v)
            return ("transition", ev, args, vals)
        t = src.pick(TIMERS)
        if k == 0:
            ms, single = src.pick([0, 1, 500, 10000]), src.chance(50)
            return ("start_timer", t, [t, str(ms), "true" if single else "false"], [("N", float(ms)), ("B", single)])
        return (["", "stop_timer", "restart_timer"][k], t, [t], [])
    overload = src.chance(12)
    for s in allst:
        if s.kind == "history":
            if src.chance(50):
                t = [c for c in s.parent.all() if c.kind in ("state", "parallel") and c is not s.parent]
                s.hist_default = (src.pick(t), src.pick(EVENTS), src.pick(VOID_CB) if src.chance(50) else None)
            continue
        if src.chance(35):
            s.onstate = src.pick(VOID_CB)
        if src.chance(35):
            s.onentry = src.pick(BOOL_CB)
        if src.chance(35):
            s.onexit = src.pick(VOID_CB + BOOL_CB if overload else EXIT_CB)
        if src.chance(20):
            s.entry_actions = [action() for _ in range(src.range(1, 3))]
        if src.chance(20):
            s.exit_actions = [action() for _ in range(src.range(1, 2))]
        if s.kind == "final":
            if src.chance(50):
                s.final_event = src.pick(EVENTS)
            continue
        if s.children and s.kind == "state":
            cand = [c for c in s.children if c.kind in ("state", "parallel")]
            if src.chance(40):
                for _ in range(src.range(1, 3)):
                    s.initial.append((src.pick(cand), src.pick(EVENTS) if src.chance(50) else None, cond()))
                s.emit["initial"] = "element"
            else:
                s.initial.append((src.pick(cand), None, None))
                s.emit["initial"] = "element" if src.chance(30) else "attr"
        sib = s.parent.children if s.parent else ch.root
        for _ in range(src.weighted([30, 30, 25, 15])):
            k = src.weighted([55, 20, 15, 10])
            if k == 1:
                t = s
            elif k == 2:
                t = src.pick([x for x in allst if x.kind == "history"] or [s])
            elif k == 3:
                t = src.pick([x for x in allst if x.kind != "history"])
            else:
                t = src.pick(sib)
                if t.kind == "history":
                    t = s
            typ = "internal" if t is s and src.chance(40) else "external"
            tr = Tr(src.pick(EVENTS), t, cond(), src.pick(VOID_CB) if src.chance(40) else None, typ)
            tr.emit["type"] = src.chance(60) or typ == "internal"
            tr.emit["self"] = src.chance(50)
            s.transitions.append(tr)
    for s in allst:
        s.emit["noise"] = src.chance(20)
        s.emit["order"] = src.below(3)
    ch.emit["ns"] = src.below(3)
    ch.emit["indent"] = src.chance(50)
    ch.emit["decl"] = src.chance(50)
    ch.emit["src"] = src.below(1000)
    return ch


# ---------------------------------------------------------------------------------------------------------------- SCXML text
class Writer:
    def __init__(self, chart, name_of=None):
        self.c = chart
        self.name = name_of or (lambda s, where: s.id)
        self.where = None
        self.n = chart.emit["src"]

    def vary(self, k):
        self.n = (self.n * 1103515245 + 12345) & 0x7FFFFFFF
        return (self.n >> 8) % k

    def cond_text(self, c):
        name, val = c
        if name.startswith("RAW:"):
            return name[4:]
        if val and self.vary(3) == 0:
            return name
        v = "true" if val else "false"
        k = self.vary(4)
        return {0: "%s is %s", 1: "%s  is  %s", 2: " %s is %s ", 3: "%s is %s"}[k] % (name, v.upper() if k == 3 else v)

    def transition(self, s, tr, ind):
        a = ['event="%s"' % tr.event]
        if not (tr.target is s and tr.emit["self"]):
            a.append("target=%s" % quoteattr(self.name(tr.target, self.where)))
        if tr.cond:
            a.append("cond=%s" % quoteattr(self.cond_text(tr.cond)))
        if tr.emit["type"]:
            a.append('type="%s"' % tr.type)
        if self.vary(2):
            a.reverse()
        body = ""
        if s.emit["noise"]:
            body += '<qt:editorinfo movePoint="1;2"/>'
        if tr.cb:
            body += "<script>%s</script>" % tr.cb
        if not body and self.vary(2):
            return "%s<transition %s/>\n" % (ind, " ".join(a))
        return "%s<transition %s>%s</transition>\n" % (ind, " ".join(a), body)

    def actions(self, tag, cb, acts, ind):
        if not cb and not acts:
            return ""
        scripts = ["<script>%s(%s)</script>" % (x[0], escape((", ", ",", " , ")[self.vary(3)].join(x[2]))) for x in acts]
        if cb:
            scripts.insert(self.vary(len(scripts) + 1), "<script>%s</script>" % cb)
        return "%s<%s>%s</%s>\n" % (ind, tag, "".join(scripts), tag)

    def initial_element(self, s, ind):
        out = "%s<initial>" % ind
        for child, ev, cond in s.initial:
            a = ["target=%s" % quoteattr(self.name(child, self.where))]
            if ev:
                a.append('event="%s"' % ev)
            if cond:
                a.append("cond=%s" % quoteattr(self.cond_text(cond)))
            out += "<transition %s/>" % " ".join(a)
        return out + "</initial>\n"

    def state(self, s, level):
        ind = "  " * level if self.c.emit["indent"] else ""
        attrs = ["id=%s" % quoteattr(self.name(s, None))]
        if s.kind == "history" and not (s.hist == "shallow" and s.emit["noise"]):
            attrs.append('type="%s"' % s.hist)
        cut = s.emit.get("cut")
        if cut and cut[0] == "src":
            attrs.append("src=%s" % quoteattr(cut[2]))
        if s.kind == "final" and s.final_event:
            attrs.append('event="%s"' % s.final_event)
        parts = []
        if s.kind == "state" and s.children and s.initial and not cut:
            if s.emit["initial"] == "attr":
                attrs.append("initial=%s" % quoteattr(self.name(s.initial[0][0], self.where)))
            else:
                parts.append(self.initial_element(s, ind + "  "))
        body = []
        if s.emit["noise"]:
            body.append('%s  <qt:editorinfo geometry="1;2"/><!-- note -->\n' % ind)
        body.append(self.actions("onentry", s.onentry, s.entry_actions, ind + "  "))
        if s.onstate:
            body.append('%s  <invoke srcexpr="%s"/>\n' % (ind, s.onstate))
        body.append(self.actions("onexit", s.onexit, s.exit_actions, ind + "  "))
        trs = [self.transition(s, t, ind + "  ") for t in s.transitions]
        if s.hist_default:
            t, ev, cb = s.hist_default
            trs.append('%s  <transition event="%s" target=%s>%s</transition>\n' % (ind, ev, quoteattr(self.name(t, self.where)), "<script>%s</script>" % cb if cb else ""))
        kids = [self.children(s, level + 1)]
        order = s.emit["order"]
        groups = [body + parts, trs, kids]
        if order == 1:
            groups = [kids, body, trs, parts]
        elif order == 2:
            groups = [trs, parts, kids, body]
        if self.vary(2):
            attrs = attrs[1:] + attrs[:1]
        inner = "".join("".join(g) for g in groups)
        if not inner:
            return "%s<%s %s/>\n" % (ind, s.kind, " ".join(attrs))
        return "%s<%s %s>\n%s%s</%s>\n" % (ind, s.kind, " ".join(attrs), inner, ind, s.kind)

    def children(self, s, level):
        cut = s.emit.get("cut")
        if cut:
            return '<xi:include href=%s parse="xml"/>\n' % quoteattr(cut[2]) if cut[0] == "xi" else ""
        return self.group(s.children, level)

    def group(self, states, level):
        """states which are in this document, and an include for each set of moved ones"""
        out, seen = "", []
        for c in states:
            m = c.emit.get("moved")
            if m is None:
                out += self.state(c, level)
            elif m[0] not in seen:
                seen.append(m[0])
                out += '<xi:include href=%s parse="xml"></xi:include>\n' % quoteattr(m[1])
        return out

    def root_open(self, initial):
        out = '<?xml version="1.0" encoding="UTF-8"?>\n' if self.c.emit["decl"] else ""
        ns = ['xmlns="http://www.w3.org/2005/07/scxml"', "", 'xmlns="http://www.w3.org/2005/07/scxml" binding="early"'][self.c.emit["ns"]]
        init = " initial=%s" % quoteattr(initial) if initial else ""
        return out + '<scxml%s version="1.0" %s xmlns:qt="http://www.qt.io/2015/02/scxml-ext" xmlns:xi="http://www.w3.org/2001/XInclude" name="m">\n' % (init, ns)

    def document(self, root=None, initial=None):
        return self.root_open(initial if initial is not None else self.name(self.c.initial, self.where)) + self.group(self.c.root if root is None else root, 1) + "</scxml>\n"


# ---------------------------------------------------------------------------------------------------------------- includes
def split(src, ch):
    """Moves parts of the chart into other documents. -> (files, name of the main document, identity of states, number of includes)"""
    n = [0]
    docs = []          # (path, prefix, states, initial child)

    def newfile(base):
        n[0] += 1
        d = src.pick(["", "", "inc", "inc/deep", "other dir"])
        path = os.path.normpath(os.path.join(d if src.chance(50) else os.path.join(base, d), src.pick(["part", "part ", "sub."]) + "%d.scxml" % n[0]))
        href = os.path.relpath(path, base or ".")
        return path, ("./" if src.chance(30) and not href.startswith(".") else "") + href
    prefix = {}

    def place(parent, states, base, pre):
        for s in states:
            prefix[s] = pre
        movable = [s for s in states if s.kind in ("state", "parallel", "final", "history")]
        if src.chance(35) and len(movable) >= 2:
            # at least one plain state stays in the document
            stay = [s for s in movable if s.kind == "state"]
            if stay:
                keep = src.pick(stay)
                group = [s for s in movable if s is not keep and src.chance(50)]
                if group:
                    path, href = newfile(base)
                    for s in group:
                        s.emit["moved"] = (path, href)
                    docs.append((path, pre, group, None))
                    inner(group, os.path.dirname(path), pre)
                    inner([s for s in states if s not in group], base, pre)
                    return
        inner(states, base, pre)

    def inner(states, base, pre):
        for s in states:
            if not s.children:
                continue
            simple = s.kind == "parallel" or s.emit["initial"] == "attr" or (len(s.initial) == 1 and s.initial[0][1:] == (None, None))
            if simple and src.chance(45):
                path, href = newfile(base)
                s.emit["cut"] = ("src" if src.chance(50) else "xi", path, href)
                for d in s.all():
                    if d is s:
                        continue
                    for t in d.transitions:
                        if not t.target.inside(s) or t.target is s:
                            t.target = d
                            t.type = "external"
                docs.append((path, pre + s.id + "__", s.children, s.initial[0][0] if s.kind == "state" else None))
                place(s, s.children, os.path.dirname(path), pre + s.id + "__")
            else:
                place(s, s.children, base, pre)
    mainfile = src.pick(["m.scxml", "m.scxml", "top/m.scxml"])
    place(None, ch.root, os.path.dirname(mainfile), "")
    ident = {s: prefix[s] + s.id for s in ch.all()}
    plan = (mainfile, docs, prefix)
    return documents(ch, plan), mainfile, (lambda s: ident[s]), n[0], plan


def documents(ch, plan):
    mainfile, docs, prefix = plan
    ident = {s: prefix[s] + s.id for s in ch.all()}
    files = {}
    for path, pre, states, init in [(mainfile, "", None, None)] + docs:
        w = Writer(ch, lambda s, where, pre=pre: ident[s][len(pre):] if ident[s].startswith(pre) else "OUTSIDE")
        if states is None:
            files[path] = w.document()
        else:
            # those states are part of this document even if they were moved out of another one
            saved = {s: s.emit.pop("moved", None) for s in states} if path in {s.emit.get("moved", ("",))[0] for s in states} else {}
            files[path] = w.document(states, w.name(init, None) if init else "")
            for s, m in saved.items():
                s.emit["moved"] = m
    return files


# ---------------------------------------------------------------------------------------------------------------- expectations
def expected(chart, ident=None):
    """Everything the generated class must register. ident(state): its name in the generated code"""
    I = ident or (lambda s: s.id)
    reg = []            # multiset
    trs = {}            # source -> ordered registrations
    events, timers, optional_events = set(), set(), set()
    callbacks = set()   # (name, signature)
    for s in chart.all():
        for c in s.children:
            if c.kind == "history":
                d = c.hist_default
                if d:
                    optional_events.add(d[1])
                    if d[2]:
                        callbacks.add((d[2], "void"))
                reg.append("history %s %s %s %s %s" % (I(s), I(c), c.hist, I(d[0]) if d else "-", (d[2] if d and d[2] else "-")))
            elif s.kind == "parallel":
                reg.append("entry %s %s - - true" % (I(s), I(c)))
            else:
                n = 0
                for child, ev, cond in s.initial:
                    if child is c:
                        n += 1
                        if ev:
                            events.add(ev)
                        if cond:
                            callbacks.add((cond[0], "bool"))
                        reg.append("entry %s %s %s %s %s" % (I(s), I(c), ev or "-", cond[0] if cond else "-", "false" if cond and not cond[1] else "true"))
                if n == 0:
                    reg.append("substate %s %s" % (I(s), I(c)))
        if s.kind == "history":
            continue
        for cb, sig in ((s.onstate, "void"), (s.onentry, "bool"), (s.onexit, "exit")):
            if cb:
                callbacks.add((cb, sig))
        cbs = "%s %s %s" % (s.onstate or "-", s.onentry or "-", s.onexit or "-")
        if s.kind == "final":
            if s.final_event:
                events.add(s.final_event)
            reg.append("final %s %s %s" % (I(s), s.final_event or "-", cbs))
        else:
            reg.append("state %s %s" % (I(s), cbs))
        for trig, acts in (("entry", s.entry_actions), ("exit", s.exit_actions)):
            for a, first, _, vals in acts:
                if a == "transition":
                    events.add(first)
                else:
                    timers.add(first)
                trs.setdefault("actions %s %s" % (I(s), trig), []).append(
                    "action %s %s %s %s%s" % (I(s), trig, a, first, "".join(" " + fmt_val(v) for v in vals)))
        for t in s.transitions:
            events.add(t.event)
            if t.cb:
                callbacks.add((t.cb, "void"))
            if t.cond:
                callbacks.add((t.cond[0], "bool"))
            tail = "%s %s %s" % (t.cb or "-", t.cond[0] if t.cond else "-", "false" if t.cond and not t.cond[1] else "true")
            if t.target is s:
                trs.setdefault("transitions %s" % I(s), []).append("self %s %s %s %s" % (I(s), t.event, t.type, tail))
            else:
                trs.setdefault("transitions %s" % I(s), []).append("transition %s %s %s %s" % (I(s), I(t.target), t.event, tail))
    for e in events:
        if e.startswith("ON_TIMER_"):
            timers.add(e[len("ON_TIMER_"):])
    opt_timers = {e[len("ON_TIMER_"):] for e in optional_events if e.startswith("ON_TIMER_")} - timers
    for t in timers:
        events.add("ON_TIMER_" + t)
        reg.append("timer %s ON_TIMER_%s" % (t, t))
    return dict(reg=sorted(reg), ordered=trs, states=sorted(I(s) for s in chart.all()), events=sorted(events), timers=sorted(timers), callbacks=sorted(callbacks),
                optional_events=sorted(optional_events | {"ON_TIMER_" + t for t in opt_timers}), optional_timers=sorted(opt_timers), initial=I(chart.initial))


def fmt_val(v):
    if v[0] == "B":
        return "B:%d" % v[1]
    if v[0] == "N":
        return "N:%g" % v[1]
    return "S:" + v[1].encode().hex()
