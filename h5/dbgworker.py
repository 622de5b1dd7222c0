"""Runs user sessions of tools/hsmdebugger/hsmdebugger.py with the stand-in toolkit. argv: path of hsmdebugger.py, path of scxml2gen.py; stdin: JSON list of {"cwd", "ops", "gen", "settings"};
stdout: JSON list of {"obs": one observation for each operation, "images": {hash: text}, "hang": bool}."""
import hashlib
import importlib.util
import json
import os
import signal
import subprocess
import sys
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dbgstub as Q  # noqa: E402

APP, GEN = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
real_out = os.dup(1)
os.dup2(2, 1)                      # whatever the tool prints
Q.install()
MAIN = threading.main_thread()


# ---------------------------------------------------------------------------------------------------------------- the renderer
class Generation:
    """one run of the renderer: mode fast, slow (until released or killed), late (the process doesn't even start until released)"""
    all = []
    modes = []
    lock = threading.Lock()


class FakePopen:
    def __init__(self, args, *a, **k):
        mode = Generation.modes.pop(0) if Generation.modes else "fast"
        self.thread = threading.current_thread()
        self.go, self.rc, self.killed, self.waiting, self.late = threading.Event(), None, False, False, mode == "late"
        self.pid, self.returncode, self.args = 4242, None, args
        self.stdout = self.stderr = self.stdin = None
        if mode == "missing":
            raise FileNotFoundError(args[0])
        srcs = [str(x) for x in args if str(x).endswith(".plantuml")]
        self.src = srcs[0] if srcs else None
        outs = [str(args[i + 1]) for i in range(len(args) - 1) if str(args[i]) == "-o"]
        self.dest = os.path.join(os.path.dirname(self.src), outs[0]) if self.src and outs else os.path.dirname(self.src or "")
        # the renderer's working directory and its input are fixed when it starts
        self.src = os.path.abspath(self.src) if self.src else None
        self.dest = os.path.abspath(self.dest)
        Generation.all.append(self)
        if self.late and threading.current_thread() is not MAIN:
            self.waiting = True
            self.go.wait(20)
            self.waiting = False
            self.go.clear()
        if mode == "fast":
            self.finish()
        elif mode == "slow" and self.src:
            open(self.png(), "a").close()

    def png(self):
        return os.path.join(self.dest, os.path.splitext(os.path.basename(self.src))[0] + ".png")

    def finish(self):
        if self.rc is None and not self.killed:
            ok = self.src is not None and "-tpng" in [str(x) for x in self.args] and os.path.exists(self.src)
            if ok:
                # in one step, so that what a reader sees doesn't depend on real time (mode slow is for unfinished files)
                with open(self.src) as f, open(self.png() + ".tmp", "w") as o:
                    o.write(f.read())
                os.replace(self.png() + ".tmp", self.png())
            self.rc = 0 if ok else 1
        self.go.set()

    def release(self):
        if self.late:
            self.late = False
            self.go.set()
        else:
            self.finish()

    def wait(self, timeout=None):
        if self.rc is None:
            if threading.current_thread() is MAIN:
                if not self.killed:
                    self.finish()
            else:
                self.waiting = True
                if not self.go.wait(20):
                    self.finish()
                self.waiting = False
        self.returncode = self.rc
        return self.rc

    def poll(self):
        self.returncode = self.rc
        return self.rc

    def communicate(self, *a, **k):
        self.wait()
        return (None, None)

    def kill(self):
        if self.rc is None:
            self.killed, self.rc = True, -9
        self.go.set()

    terminate = kill

    def send_signal(self, s):
        self.kill()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


subprocess.Popen = FakePopen
real_join = threading.Thread.join


def join(self, timeout=None):
    if threading.current_thread() is MAIN:
        # the main thread waits, so time passes
        for _ in range(20000):
            if not self.is_alive():
                break
            for g in list(Generation.all):
                if g.thread is self and g.waiting:
                    g.release()
            time.sleep(0.0001)
    return real_join(self, timeout)


threading.Thread.join = join


def pending():
    return [g for g in Generation.all if g.waiting]


def settle():
    """until every other thread ended or waits for the renderer"""
    t = time.time() + 5
    while time.time() < t:
        others = [x for x in threading.enumerate() if x is not MAIN]
        busy = [x for x in others if not any(g.thread is x and g.waiting and not g.go.is_set() for g in Generation.all)]
        if not busy:
            return
        time.sleep(0.0001)


spec = importlib.util.spec_from_file_location("hsmdebugger_app", APP)
sys.path.insert(0, os.path.dirname(APP))
app_module = importlib.util.module_from_spec(spec)
spec.loader.exec_module(app_module)


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


signal.signal(signal.SIGALRM, on_alarm)


class Session:
    def __init__(self, job):
        self.images = {}
        Q.STORE.clear()
        Q.STORE.update(job["settings"])
        Generation.all, Generation.modes = [], list(job["gen"])
        Q.QUEUE.clear()
        self.start()

    def start(self):
        Q.reload_settings()
        Q.STORE["environment/scxml2gen"] = GEN
        Q.STORE["environment/plantuml"] = "plantuml"
        self.main = None
        try:
            self.main = app_module.hsmdebugger()
        except SystemExit:
            Q.ERRORS.append("exit() at startup")
        except Exception:
            import traceback
            Q.ERRORS.append("startup: " + traceback.format_exc()[-1000:])

    def finish_all(self):
        for _ in range(200):
            settle()
            if not pending():
                break
            for g in pending():
                g.release()

    def run(self, op):
        w = self.main.window
        k = op[0]
        if k in ("open_hsm", "open_log"):
            Q.SCRIPT["file"] = op[1]
            return (w.actionOpenHsm if k == "open_hsm" else w.actionOpenHsmLog).user_trigger()
        if k in ("recent_hsm", "recent_logs"):
            m = w.menuFileRecentHSM if k == "recent_hsm" else w.menuFileRecentLogs
            if not m.isEnabled():
                return False
            a = [x for x in m.actions() if x.text() == op[1]]
            return a[0].user_trigger() if a else "missing"
        if k in ("clear_hsm", "clear_logs"):
            m = w.menuFileRecentHSM if k == "clear_hsm" else w.menuFileRecentLogs
            if not m.isEnabled() or not m.actions():
                return False
            return m.actions()[-1].user_trigger()
        if k == "action":
            return getattr(w, op[1]).user_trigger()
        if k == "goto":
            Q.SCRIPT["int"], Q.SCRIPT["int_offered"] = op[1], None
            return w.actionGoToFrame.user_trigger()
        if k == "slider":
            if not w.frameSelector.isEnabled():
                return False
            w.frameSelector.setValue(op[1])
        elif k == "row":
            m = w.frames.model()
            if op[1] >= m.rowCount():
                return "no row"
            i = m.index(op[1], op[2])
            if w.frames.selectionModel().currentIndex().row() == op[1] and op[1] >= 0:
                # selecting the current row again isn't a change
                w.frames.selectionModel().cur = Q.QModelIndex()
            w.frames.selectionModel().user_select(i)
        elif k == "filter":
            w.searchFilter.setText(op[1])
        elif k == "settings":
            def dialog(d):
                for step in op[1]:
                    if step[0] == "type":
                        getattr(d, step[1]).setText(step[2])
                    elif step[0] == "pick":
                        Q.SCRIPT["color"] = step[2]
                        getattr(d, step[1]).clicked.emit()
                    elif step[0] == "check":
                        d.loadLastHSM.setChecked(step[1])
                    elif step[0] == "restore":
                        d.buttonBox.clicked.emit(Q.QDialogButtonBox.RestoreDefaults)
                Q.SCRIPT["dialog"] = [d.colorActive.text(), d.colorBlocked.text(), d.loadLastHSM.isChecked()]
                return 1 if op[2] else 0
            Q.SCRIPT["settings"] = dialog
            return w.actionSettings.user_trigger()
        elif k == "release":
            p = pending()
            if p:
                p[op[1] % len(p)].release()
        elif k == "pump":
            Q.pump(op[1])
        elif k == "finish":
            for _ in range(50):
                self.finish_all()
                Q.pump()
                settle()
                if not pending() and not Q.QUEUE:
                    break
        elif k == "restart":
            self.finish_all()
            Q.QUEUE.clear()
            self.start()
        return True

    def observe(self, ret):
        o = {"ret": ret, "errors": Q.ERRORS[:2], "messages": list(Q.MESSAGES)}
        del Q.ERRORS[:]
        del Q.MESSAGES[:]
        if self.main is None:
            return o
        w = self.main.window
        pm = w.hsmStateView.pixmap()
        o["image"] = None
        if pm.content:
            h = hashlib.md5(pm.content.encode()).hexdigest()[:12]
            self.images[h] = pm.content
            o["image"] = h
        o["visible"], o["busy"] = w.hsmStateView.isVisible(), w.hsmStateViewWait.isVisible()
        fx = w.hsmStateView._fixed
        o["size"] = [fx.width(), fx.height()] if fx is not None else None
        m = w.frames.model()
        o["rows"] = [[m.data(m.index(r, c)) for c in range(4)] for r in range(m.rowCount())]
        o["slider"], o["max"] = w.frameSelector.value(), w.frameSelector.maximum()
        o["status"], o["logname"] = self.main.statusBarFrame.text(), self.main.statusBarLog.text()
        o["title"] = w._title
        o["recent"] = [[a.text() for a in menu.actions()][:-1] for menu in (w.menuFileRecentHSM, w.menuFileRecentLogs)]
        o["recent_enabled"] = [menu.isEnabled() for menu in (w.menuFileRecentHSM, w.menuFileRecentLogs)]
        o["pending"], o["queued"] = len(pending()), len(Q.QUEUE)
        o["goto"] = Q.SCRIPT.pop("int_offered", None)
        o["dialog"] = Q.SCRIPT.pop("dialog", None)
        o["panels"] = [w.searchFilter.isVisible(), w.frames.isVisible()]
        return o


def run_job(job):
    os.chdir(job["cwd"])
    out = {"obs": [], "images": {}, "hang": False}
    s = None
    signal.alarm(25)
    try:
        s = Session(job)
        settle()
        out["obs"].append(s.observe(True))
        for op in job["ops"]:
            if s.main is None:
                break
            r = s.run(op)
            settle()
            out["obs"].append(s.observe(r))
    except Hang:
        out["hang"] = True
    finally:
        signal.alarm(0)
    if s is not None:
        s.finish_all()
        out["images"] = s.images
    os.chdir("/")
    return out


jobs = json.load(sys.stdin)
res = [run_job(j) for j in jobs]
with os.fdopen(real_out, "w") as f:
    f.write(json.dumps(res))
    f.flush()
os._exit(0)
