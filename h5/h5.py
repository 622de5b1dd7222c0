#!/usr/bin/env python3
"""Property tests of tools/scxml2gen: generated code (C26), diagrams (C27), includes and rejection of invalid documents (C28)."""
import ast
import glob
import json
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import build  # noqa: E402
import chart as C  # noqa: E402
import dbg  # noqa: E402
import pbt  # noqa: E402
from pbt import Failure  # noqa: E402

REPO = build.REPO
GEN = os.path.join(REPO, "tools", "scxml2gen", "scxml2gen.py")
THPP = os.path.join(REPO, "tools", "scxml2gen", "template.hpp")
TCPP = os.path.join(REPO, "tools", "scxml2gen", "template.cpp")
WORK = os.path.join(build.BUILD, "h5")
CXX = ["clang++", "-std=c++11", "-O0", "-w", "-ferror-limit=3"]


def generate(jobs, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, os.path.join(HERE, "genworker.py"), GEN], input=json.dumps(jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=300)
    if p.returncode != 0:
        raise RuntimeError("generator worker failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)


_lib = {}


def library():
    """-> (compile flags with precompiled header, objects to link)"""
    if _lib:
        return _lib["flags"], _lib["objs"]
    gen = build._version_header()
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + gen, "-I" + HERE]
    hdr = build._headers([os.path.join(REPO, "include"), os.path.join(REPO, "src")])
    d = os.path.join(WORK, "lib")
    os.makedirs(d, exist_ok=True)
    defs = ["-DPLATFORM_POSIX=1"] + build.DEFS
    todo = [(os.path.join(HERE, "recorder.cpp"), [])] + [(os.path.join(REPO, "src", s), []) for s in build.CORE + build.POSIX]
    key = build._sha(hdr, *[build._read(p) for p, _ in todo], build._read(os.path.join(HERE, "recorder.hpp")), " ".join(CXX + defs))
    objs = []
    procs = []
    for p, fl in todo:
        o = os.path.join(d, os.path.basename(p) + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            procs.append((subprocess.Popen(CXX + defs + inc + fl + ["-c", p, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), tmp, o))
    pch = os.path.join(d, "recorder-%s.pch" % key)
    if not os.path.exists(pch):
        tmp = pch + ".%d.tmp" % os.getpid()
        procs.append((subprocess.Popen(CXX + defs + inc + ["-x", "c++-header", os.path.join(HERE, "recorder.hpp"), "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), tmp, pch))
    for p, tmp, o in procs:
        text = p.communicate()[0]
        if p.returncode != 0:
            print("BUILD FAILED\n" + text[-3000:])
            sys.exit(2)
        os.replace(tmp, o)
    _lib["flags"] = CXX + defs + inc + ["-include-pch", pch]
    _lib["objs"] = objs
    return _lib["flags"], _lib["objs"]


def driver(items, path):
    """items: [(number, class name, expectation, cpp file)]"""
    out = ['#include "recorder.hpp"\n']
    for n, cls, ex, cpp in items:
        out.append('#include "%s"\n' % cpp)
        out.append("struct D%d : %sBase {\n" % (n, cls))
        for cb, sig in ex["callbacks"]:
            if sig == "void":
                out.append('  void %s(const hsmcpp::VariantVector_t&) override { rec::hit("%s"); }\n' % (cb, cb))
            elif sig == "bool":
                out.append('  bool %s(const hsmcpp::VariantVector_t&) override { return rec::hit("%s"); }\n' % (cb, cb))
            else:
                out.append('  bool %s() override { return rec::hit("%s"); }\n' % (cb, cb))
        out.append('  void onTransitionFailed(const std::list<hsmcpp::StateID_t>&, const hsmcpp::EventID_t, const hsmcpp::VariantVector_t&) override { rec::hit("onTransitionFailed"); }\n')
        out.append("  void show() {\n    for (int i = -3; i < %d; ++i) {\n      std::string s = getStateName(i), e = getEventName(i);\n"
                   '      if (!s.empty()) printf("statename %%d %%s\\n", i, s.c_str());\n      if (!e.empty()) printf("eventname %%d %%s\\n", i, e.c_str());\n    }\n  }\n};\n' % (len(ex["states"]) + len(ex["events"]) + 200))
        out.append("static void run%d() {\n  rec::begin(%d);\n" % (n, n))
        for kind, ns, names in (("state", "States", ex["states"]), ("event", "Events", ex["events"]), ("timer", "Timers", ex["timers"])):
            for x in names:
                out.append('  rec::name("%s", "%s", %s%s::%s);\n' % (kind, x, cls, ns, x))
        out.append("  D%d d;\n  bool r = d.initialize(std::weak_ptr<hsmcpp::IHsmEventDispatcher>());\n  printf(\"result %%d\\n\", (int)r);\n  d.show();\n  rec::end();\n}\n" % n)
    out.append("int main() {\n" + "".join("  run%d();\n" % i[0] for i in items) + "}\n")
    with open(path, "w") as f:
        f.write("".join(out))


def compile_run(items, wd):
    """-> {number: list of lines} or error text"""
    flags, objs = library()
    src = os.path.join(wd, "driver.cpp")
    exe = os.path.join(wd, "driver")
    driver(items, src)
    p = subprocess.run(flags + [src] + objs + ["-Wl,--allow-multiple-definition", "-Wl,-w", "-lpthread", "-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode != 0:
        return p.stdout[:3000]
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=60)
    res, cur = {}, None
    for line in p.stdout.splitlines():
        if line.startswith("=== end"):
            cur = None
        elif line.startswith("=== "):
            cur = res.setdefault(int(line[4:]), [])
        elif cur is not None:
            cur.append(line)
    if p.returncode != 0:
        return "program ended with %d\n%s" % (p.returncode, p.stdout[-1000:])
    return res


def compare(ex, lines):
    """-> None or (kind, message)"""
    reg = sorted(line[4:] for line in lines if line.startswith("reg ") and not line.startswith(("reg transition ", "reg self ", "reg action ")))
    if reg != ex["reg"]:
        import collections
        a, b = collections.Counter(ex["reg"]), collections.Counter(reg)
        opt = {"timer %s ON_TIMER_%s" % (t, t) for t in ex["optional_timers"]}
        miss, extra = list((a - b).elements()), [x for x in (b - a).elements() if x not in opt]
        if miss or extra:
            return "registrations", "missing: %s\nunexpected: %s" % (miss, extra)
    got = {}
    for line in lines:
        if line.startswith(("reg transition ", "reg self ")):
            got.setdefault("transitions " + line.split(" ")[2], []).append(line[4:])
        elif line.startswith("reg action "):
            w = line.split(" ")
            got.setdefault("actions %s %s" % (w[2], w[3]), []).append(line[4:])
    if got != ex["ordered"]:
        for k in sorted(set(got) | set(ex["ordered"])):
            if got.get(k) != ex["ordered"].get(k):
                return k.split(" ")[0], "%s\nexpected: %s\ngot:      %s" % (k, ex["ordered"].get(k), got.get(k))
    if [x for x in lines if x.startswith("initial ")] != ["initial " + ex["initial"]]:
        return "initial", "expected %s, got %s" % (ex["initial"], [x for x in lines if x.startswith("initial")])
    if "failed onTransitionFailed" not in lines or lines.count("initialize") != 1 or "result 1" not in lines:
        return "initialize", "initialize() doesn't configure and initialize the machine: %s" % [x for x in lines if x.split(" ")[0] in ("failed", "initialize", "result")]
    for kind in ("state", "event", "timer"):
        consts = {x.split(" ")[2]: int(x.split(" ")[3]) for x in lines if x.startswith("const %s " % kind)}
        if len(set(consts.values())) != len(consts):
            return "ids", "%s constants are not unique: %s" % (kind, consts)
        if kind != "timer":
            if min([0] + list(consts.values())) < 0:
                return "ids", "%s constants are negative: %s" % (kind, consts)
            names = {}
            for x in lines:
                if x.startswith(kind + "name "):
                    w = x.split(" ")
                    names[w[2]] = int(w[1])
            if kind == "event":
                names = {k: v for k, v in names.items() if k in consts or k not in ex["optional_events"]}
            if names != consts:
                return "names", "%s names %s don't fit constants %s" % (kind, names, consts)
    return None


class Case:
    labels = {}
    nontrivial = True
    key = ""

    def __init__(self, files, main, text):
        self.files, self.main, self.text = files, main, text  # files: {relative path: content}

    def describe(self):
        return self.text + "".join("---- %s\n%s" % (k, v) for k, v in self.files.items())


def write_files(c, d):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, v in c.files.items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write(v)


class Code(pbt.Prop):
    rule = "distinct documents with at least 3 states and 2 transitions"
    quick, thorough, batch = 2600, 80000, 16

    def make(self, src):
        ch = C.gen_chart(src, {})
        return ch, {"m.scxml": C.Writer(ch).document()}, "m.scxml", C.expected(ch)

    def build(self, src):
        ch, files, mainfile, ex = self.make(src)
        how = src.below(4)
        c = Case(files, mainfile, "")
        c.ex, c.how = ex, how
        c.key = json.dumps(files, sort_keys=True)
        trs = sum(len(s.transitions) for s in ch.all())
        c.nontrivial = len(ex["states"]) >= 3 and trs >= 2
        c.labels = {"states": len(ex["states"]), "transitions": trs, "actions": sum(len(s.entry_actions) + len(s.exit_actions) for s in ch.all()),
                    "documents with history": int(any(s.kind == "history" for s in ch.all())), "documents with final states": int(any(s.kind == "final" for s in ch.all())),
                    "documents with parallel states": int(any(s.kind == "parallel" for s in ch.all())), "documents with includes": int(len(files) > 1)}
        return c

    def check(self, cases, wd):
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        res = [None] * len(cases)
        jobs, jobs2 = [], []
        for i, c in enumerate(cases):
            d = os.path.join(wd, "c%d" % i)
            write_files(c, d)
            for k, jl in (("a", jobs), ("b", jobs2)):
                o = os.path.join(d, "out" + k)
                os.makedirs(o)
                argv = ["-code", "-c", "K%d" % i, "-thpp", THPP, "-tcpp", TCPP]
                if c.how == 0:
                    argv += ["-s", os.path.join(d, c.main), "-d", o]
                elif c.how == 1:
                    argv += ["-s", c.main, "-d", "out" + k]
                elif c.how == 2:
                    argv += ["-s", "./" + c.main, "-cs", "Base", "-dhpp", "out%s/K%dBase.hpp" % (k, i), "-dcpp", "out%s/K%dBase.cpp" % (k, i)]
                else:
                    argv += ["-scxml", os.path.join("..", "c%d" % i, c.main), "-dest_dir", o]
                jl.append({"argv": argv, "cwd": d})
        out = generate(jobs, 1)
        out2 = generate(jobs2, 7)
        items = []
        for i, c in enumerate(cases):
            d = os.path.join(wd, "c%d" % i)
            if out[i][0] != 0:
                res[i] = Failure("rejected", "valid document was rejected (exit %s)\n%s" % (out[i][0], out[i][1]))
                continue
            fa = {}
            for k in "ab":
                for p in sorted(glob.glob(os.path.join(d, "out" + k, "*"))):
                    fa.setdefault(os.path.basename(p), []).append(build._read(p))
            if set(fa) != {"K%dBase.hpp" % i, "K%dBase.cpp" % i}:
                res[i] = Failure("files", "generated files: %s" % sorted(fa))
                continue
            bad = [n for n, v in fa.items() if len(v) != 2 or v[0] != v[1]]
            if bad and out2[i][0] == 0:
                la, lb = [x.decode(errors="replace").splitlines() for x in fa[bad[0]]]
                diff = [(x, y) for x, y in zip(la, lb) if x != y][:4]
                res[i] = Failure("nondeterministic", "two runs on the same document give different %s: %s" % (bad, diff))
                continue
            items.append((i, "K%d" % i, c.ex, os.path.join(d, "outa", "K%dBase.cpp" % i)))

        def judge(part):
            if not part:
                return
            r = compile_run(part, wd)
            if isinstance(r, str):
                if len(part) == 1:
                    res[part[0][0]] = Failure("compile", r.replace(wd, ""))
                else:
                    h = len(part) // 2
                    judge(part[:h])
                    judge(part[h:])
                return
            for n, _, ex, _ in part:
                f = compare(ex, r.get(n, []))
                if f:
                    res[n] = Failure(*f)
        judge(items)
        shutil.rmtree(wd, ignore_errors=True)
        return res


# ---------------------------------------------------------------------------------------------------------------- diagrams
def expected_diagram(ch, ident=None):
    """{(scope, kind): sorted list}"""
    I = ident or (lambda s: s.id)
    out = {}

    def add(scope, kind, what):
        out.setdefault((I(scope) if scope else "", kind), []).append(what)

    def label(event, cond, cb):
        return [event] + (["[%s is %s]" % (cond[0], "true" if cond[1] else "false")] if cond else []) + (["<%s>" % cb] if cb else [])
    add(None, "entry", [I(ch.initial)])
    for s in ch.all():
        scope = s.parent
        if s.kind not in ("history", "final"):
            add(scope, "state", I(s))
            if not s.children:
                entry = ([s.onentry] if s.onentry else []) + [[a[0]] + a[2] for a in s.entry_actions]
                exit = ([s.onexit] if s.onexit else []) + [[a[0]] + a[2] for a in s.exit_actions]
                add(scope, "text", [I(s), [s.onstate] if s.onstate else [], entry, exit])
        if s.kind == "parallel":
            for c in s.children:
                if c.kind != "history":
                    add(s, "entry", [I(c)])
        for child, ev, cond in s.initial:
            add(s, "entry", [I(child)] + ([ev] if ev else []) + (["[%s is %s]" % (cond[0], "true" if cond[1] else "false")] if cond else []))
        for t in s.transitions:
            where, name = scope, I(t.target)
            if t.target.kind == "history":
                where, name = t.target.parent, "[H*]" if t.target.hist == "deep" else "[H]"
            elif t.target.kind == "final":
                where, name = t.target.parent, "[*]"
            add(where if name[0] == "[" else None, "transition", [I(s), name] + label(t.event, t.cond, t.cb))
        if s.hist_default:
            add(scope, "transition", ["[H*]" if s.hist == "deep" else "[H]", I(s.hist_default[0])] + label(s.hist_default[1], None, s.hist_default[2]))
    return {k: sorted(v, key=repr) for k, v in out.items()}


def parse_diagram(text):
    """-> the same structure; position matters only for pseudo states: other names are global"""
    out, stack, texts, order = {}, [], {}, []
    lines = [x.strip() for x in text.splitlines()]
    lines = [x for x in lines if x]
    if not lines or lines[0] != "@startuml" or lines[-1] != "@enduml":
        raise ValueError("no @startuml/@enduml")
    declared = {}
    for line in lines[1:-1]:
        if line == "left to right direction":
            continue
        scope = stack[-1] if stack else ""
        m = re.match(r"^state (\w+)( \{)?$", line)
        if m:
            if m.group(1) not in declared:
                declared[m.group(1)] = scope
                out.setdefault((scope, "state"), []).append(m.group(1))
            elif declared[m.group(1)] != scope:
                raise ValueError("state %s is declared in %s and in %s" % (m.group(1), declared[m.group(1)], scope))
            if m.group(2):
                stack.append(m.group(1))
            continue
        if line == "}":
            stack.pop()
            continue
        m = re.match(r"^(\[\*\]|\[H\*?\]|\w+) -+> (\[\*\]|\[H\*?\]|\w+)(?: ?:(.*))?$", line)
        if m:
            a, b, rest = m.group(1), m.group(2), (m.group(3) or "").strip()
            if a == "[*]":
                r = re.match(r"^(\w+)?\s*(\[\w+ is \w+\])?$", rest)
                if not r:
                    raise ValueError("cannot parse entry: " + line)
                out.setdefault((scope, "entry"), []).append([b] + [x for x in r.groups() if x])
            else:
                out.setdefault((scope if "[" in a + b else "", "transition"), []).append([a, b] + [x.strip() for x in rest.split("\\n")])
            continue
        m = re.match(r"^(\w+) :(.*)$", line)
        if m:
            if m.group(1) not in texts:
                order.append(m.group(1))
            texts.setdefault(m.group(1), (scope, []))[1].append(m.group(2).strip())
            continue
        raise ValueError("cannot parse: " + line)
    if stack:
        raise ValueError("unbalanced braces")
    out["texts"] = texts
    return out


def parse_text(lines):
    res, cur = ([], [], []), 0
    for x in lines:
        if x == "<on entry>":
            cur = 1
        elif x == "<on exit>":
            cur = 2
        elif x:
            x = x[2:] if cur and x.startswith("- ") else x
            m = re.match(r"^(start_timer|stop_timer|restart_timer|transition)\W", x)
            if m and cur:
                res[cur].append([m.group(1)] + [a.strip() for a in ast.literal_eval(x[len(m.group(1)):])])
            else:
                res[cur].append(x)
    return list(res)


class Diagram(pbt.Prop):
    rule = "distinct documents with at least 3 states and 2 transitions"
    quick, thorough, batch = 30000, 1000000, 64

    def build(self, src):
        ch = C.gen_chart(src, {"maxstates": 16})
        ident = None
        if src.chance(20):
            files, mainfile, ident, _, _ = C.split(src, ch)
        else:
            files, mainfile = {"m.scxml": C.Writer(ch).document()}, "m.scxml"
        c = Case(files, mainfile, "")
        c.ident = ident
        c.ch, c.l2r = ch, src.chance(30)
        c.key = json.dumps(c.files)
        n, trs = len(list(ch.all())), sum(len(s.transitions) for s in ch.all())
        c.nontrivial = n >= 3 and trs >= 2
        c.labels = {"states": n, "transitions": trs, "transitions to final states": sum(t.target.kind == "final" for s in ch.all() for t in s.transitions),
                    "transitions to history": sum(t.target.kind == "history" for s in ch.all() for t in s.transitions)}
        return c

    def check(self, cases, wd):
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        jobs = []
        for i, c in enumerate(cases):
            d = os.path.join(wd, "c%d" % i)
            write_files(c, d)
            jobs.append({"argv": ["-plantuml", "-s", c.main, "-o", "out.puml"] + (["-l2r"] if c.l2r else []), "cwd": d})
        out = generate(jobs, 1)
        res = []
        for i, c in enumerate(cases):
            if out[i][0] != 0:
                res.append(Failure("rejected", "valid document was rejected (exit %s)\n%s" % (out[i][0], out[i][1])))
                continue
            with open(os.path.join(wd, "c%d" % i, "out.puml")) as f:
                text = f.read()
            res.append(self.judge(c, text))
        shutil.rmtree(wd, ignore_errors=True)
        return res

    def judge(self, c, text):
        ex = expected_diagram(c.ch, c.ident)
        try:
            got = parse_diagram(text)
        except (ValueError, IndexError) as e:
            return Failure("syntax", "%s\n%s" % (e, text))
        texts = got.pop("texts")
        ext = {k: ex.pop(k) for k in list(ex) if k[1] == "text"}
        got = {k: sorted(v, key=repr) for k, v in got.items()}
        for k in sorted(set(ex) | set(got)):
            if ex.get(k, []) != got.get(k, []):
                return Failure(k[1], "%s of %s\nexpected: %s\ndiagram:  %s\n%s" % (k[1], k[0] or "the machine", ex.get(k), got.get(k), text))
        for k, v in ext.items():
            for sid, st, en, xi in v:
                scope, lines = texts.get(sid, (k[0], []))
                if scope != k[0] or parse_text(lines) != [st, en, xi]:
                    return Failure("text", "description of %s\nexpected: %s\ndiagram:  %s\n%s" % (sid, [st, en, xi], lines, text))
        return None


class Includes(Code):
    rule = "distinct documents split into at least 2 files, with at least 3 states"
    quick, thorough = 3000, 60000

    def make(self, src):
        ch = C.gen_chart(src, {"maxstates": 14})
        files, mainfile, ident, n, _ = C.split(src, ch)
        if n == 0:
            raise pbt.Discard()
        return ch, files, mainfile, C.expected(ch, ident)

    def build(self, src):
        c = Code.build(self, src)
        c.nontrivial = len(c.files) > 1 and len(c.ex["states"]) >= 3
        c.labels["included files"] = len(c.files) - 1
        return c


BAD = ["a-b", "a b", "1a", "a.b", "K::b", "\u00e9t", "a\u00e9", "+", "a;b", "a()", "0"]


class Invalid(pbt.Prop):
    rule = "distinct invalid documents (exactly one fault in an otherwise valid, possibly split document with at least 2 states)"
    quick, thorough, batch = 12000, 300000, 64

    def build(self, src):
        ch = C.gen_chart(src, {"maxstates": 10})
        parts = src.chance(50)
        states = [s for s in ch.all() if s.kind != "history"]
        if parts:
            files, mainfile, ident, n, plan = C.split(src, ch)
        else:
            ident, mainfile = (lambda s: s.id), "m.scxml"
        included = parts and len(files) > 1
        k = src.weighted([10, 10, 12, 10, 8, 5, 8, 6, 10 if included else 0, 10 if included else 0, 6, 3, 12])
        what = ["identifier of a state", "event of a transition", "callback", "condition", "truncated document", "root element", "state without id", "initial without target", "missing included file",
                "broken included file", "unknown initial state", "missing document", "event or timer elsewhere"][k]
        bad = src.pick(BAD)

        def need(x):
            if not x:
                raise pbt.Discard()
            return src.pick(x)
        if k == 0:
            s = need([x for x in ch.all()])
            if ident(s) != s.id and bad[0].isdigit():
                bad = "a-b"
            s.id = bad
        elif k == 1:
            need([t for s in states for t in s.transitions]).event = bad
        elif k == 2:
            c = need([(s, f) for s in states for f in ("onstate", "onentry", "onexit") if getattr(s, f)] + [(t, "cb") for s in states for t in s.transitions if t.cb])
            setattr(c[0], c[1], bad)
        elif k == 3:
            t = need([t for s in states for t in s.transitions if t.cond] + [(s, i) for s in states for i, e in enumerate(s.initial) if e[2] and s.emit["initial"] == "element" and not s.emit.get("cut")])
            name = "RAW:" + src.pick([bad, bad + " is true", "isOk is maybe", "isOk is ", "isOk is true is true", "isOk is 1", "isOk == true", " is true"])
            if isinstance(t, tuple):
                e = t[0].initial[t[1]]
                t[0].initial[t[1]] = (e[0], e[1], (name, True))
            else:
                t.cond = (name, True)
        elif k == 12:
            c = [("final", s) for s in states if s.final_event]
            c += [("entry", (s, i)) for s in states for i, e in enumerate(s.initial) if e[1] and s.emit["initial"] == "element" and not s.emit.get("cut")]
            c += [("action", a) for s in states for a in (s.entry_actions + s.exit_actions)]
            kind, v = need(c)
            if kind == "final":
                v.final_event = bad
            elif kind == "entry":
                e = v[0].initial[v[1]]
                v[0].initial[v[1]] = (e[0], bad, e[2])
            else:
                v[2][0] = bad
        if parts:
            # the same split again, now with the fault
            files = C.documents(ch, plan)
        else:
            files = {"m.scxml": C.Writer(ch).document()}
        names = sorted(files)
        others = [f for f in names if f != mainfile]
        target = src.pick(names) if k in (5, 6, 7) else src.pick(others) if k == 9 else mainfile

        def sub(pat, rep):
            m = list(re.finditer(pat, files[target]))
            x = need(m)
            files[target] = files[target][:x.start()] + x.expand(rep) + files[target][x.end():]

        def cut():
            text = files[target]
            lo, hi = text.index("<scxml"), text.rindex(">") - 1
            files[target] = text[:lo + src.below(hi - lo + 1)]
        if k == 4:
            cut()
        elif k == 5:
            if src.chance(50):
                files[target] = files[target].replace("<scxml ", "<scxmlx ").replace("</scxml>", "</scxmlx>")
            else:
                files[target] = src.pick(["", "<state id='x'/>", "plain text", "{}", "<?xml version='1.0'?><html><body/></html>"])
        elif k == 6:
            sub(r'(<(?:state|parallel|final|history)\b[^>]*?) id="[^"]*"', r"\1")
        elif k == 7:
            x = need(list(re.finditer(r"<initial>.*?</initial>", files[target])))
            files[target] = files[target][:x.start()] + (re.sub(r' target="[^"]*"', "", x.group(0)) if src.chance(70) else "<initial/>") + files[target][x.end():]
        elif k == 8:
            how = src.below(3)
            if how == 0:
                victim = src.pick(others)
                del files[victim]
            elif how == 1:
                target = src.pick(names)
                sub(r'(<xi:include[^>]*?) href="[^"]*"', r"\1")
            else:
                target = src.pick(names)
                sub(r'( (?:src|href)=)"[^"]*"', r'\1"no/such.scxml"')
        elif k == 9:
            how = src.below(3)
            if how == 0:
                cut()
            elif how == 1:
                files[target] = files[target].replace("<scxml ", "<svg ").replace("</scxml>", "</svg>")
            else:
                sub(r'(<scxml[^>]*?) initial="[^"]*"', r'\1 initial="nowhere"')
        elif k == 10:
            sub(r'(<scxml[^>]*?) initial="[^"]*"', r'\1 initial="%s"' % src.pick(["nowhere", "S0", "s", ch.initial.id + "x"]))
        elif k == 11:
            del files[mainfile]
        c = Case(files, mainfile, "fault: %s\n" % what)
        c.key = json.dumps([files, mainfile], sort_keys=True)
        c.mode, c.old, c.how = src.below(3), src.chance(60), what
        c.nontrivial = len(list(ch.all())) >= 2
        c.labels = {"fault: " + what: 1}
        return c

    def check(self, cases, wd):
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        jobs = []
        for i, c in enumerate(cases):
            d = os.path.join(wd, "c%d" % i)
            write_files(c, d)
            os.makedirs(os.path.join(d, "out"))
            if c.old:
                for n in ("KBase.hpp", "KBase.cpp", "d.puml"):
                    with open(os.path.join(d, "out", n), "w") as f:
                        f.write("OLD " + n)
            argv = ["-s", c.main]
            if c.mode == 0:
                argv = ["-plantuml", "-o", "out/d.puml"] + argv
            elif c.mode == 1:
                argv = ["-code", "-c", "K", "-thpp", THPP, "-tcpp", TCPP, "-d", "out"] + argv
            else:
                argv = ["-code", "-c", "K", "-thpp", THPP, "-tcpp", TCPP, "-dhpp", "out/KBase.hpp", "-dcpp", "out/KBase.cpp"] + argv
            jobs.append({"argv": argv, "cwd": d})
        out = generate(jobs, 1)
        res = []
        for i, c in enumerate(cases):
            d = os.path.join(wd, "c%d" % i, "out")
            f = {n: build._read(os.path.join(d, n)).decode(errors="replace") for n in sorted(os.listdir(d))}
            ok = {n: "OLD " + n for n in ("KBase.hpp", "KBase.cpp", "d.puml")} if c.old else {}
            if out[i][0] == 0:
                res.append(Failure("accepted", "document with a fault (%s) was accepted" % c.how))
            elif f != ok:
                res.append(Failure("output", "rejected document (%s) changed output files: %s" % (c.how, [n for n in f if f[n] != ok.get(n)])))
            else:
                res.append(None)
        shutil.rmtree(wd, ignore_errors=True)
        return res


PROPS = {"C26": Code(), "C27": Diagram(), "C28": Includes(), "C28/invalid": Invalid(),
         "C30": dbg.Session(os.path.join(REPO, "tools", "hsmdebugger", "hsmdebugger.py"), GEN, Diagram(), parse_text, write_files)}

if __name__ == "__main__":
    if len(sys.argv) == 1 or "--prop" in sys.argv or "--replay" in sys.argv:
        os.makedirs(WORK, exist_ok=True)
        for old in glob.glob(os.path.join(WORK, "lib", "*")):
            import time
            if time.time() - os.path.getmtime(old) > 7200:
                os.remove(old)
        library()
        sys.exit(pbt.main(PROPS, WORK))
