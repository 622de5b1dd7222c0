"""Builds the harnesses in /verif/src against /repo's current sources (objects cached by content hash in /verif/build)."""
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HSM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")



def _glob(pattern, skip=()):
    return sorted(os.path.relpath(p, os.path.join(REPO, "src")) for p in glob.glob(os.path.join(REPO, "src", pattern))
                  if not any(os.path.basename(p).startswith(x) for x in skip))


# everything but the bundled dispatchers
CORE = _glob("*.cpp", ["HsmEventDispatcherSTD", "HsmEventDispatcherGLib", "HsmEventDispatcherQt", "HsmEventDispatcherArduino",
                       "HsmEventDispatcherFreeRTOS"]) + _glob("os/common/*.cpp")
POSIX = _glob("os/posix/*.cpp") + _glob("os/stl/*.cpp")
DEFS = ["-DHSM_LOGGING_MODE_OFF", "-DHSM_ENABLE_SAFE_STRUCTURE", "-DHSMBUILD_DEBUGGING"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]


# simulated by src/fib.cpp
WRAPS = ["-Wl,--wrap=" + f for f in
         ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_clockwait",
          "pthread_cond_signal", "pthread_cond_broadcast", "pthread_cond_destroy", "pthread_create", "pthread_join", "pthread_detach", "pthread_self",
          "pthread_sigmask", "clock_gettime", "nanosleep", "clock_nanosleep", "sched_yield"]]


def pkg(*names):
    def run(opt):
        return subprocess.check_output(["pkg-config", opt] + list(names), text=True).split()
    return run("--cflags"), run("--libs")


# name -> configuration
#   lib: sources below /repo/src      defs: preprocessor options of library and harness
#   src: harness sources below /verif/src     opt: code generation options of both    link: link options
HARNESS = {
    "h1": dict(src=["h1_hsm.cpp"], lib=CORE + POSIX, defs=["-DPLATFORM_POSIX=1"] + DEFS, opt=["-O1", "-g1"] + SAN),
    "h2": dict(src=["h2_variant.cpp"], lib=["variant.cpp"], defs=["-DPLATFORM_POSIX=1"] + DEFS, opt=["-O1", "-g1"] + SAN),
    "known": dict(src=["known.cpp"], lib=CORE + POSIX, defs=["-DPLATFORM_POSIX=1"] + DEFS, opt=["-O1", "-g1"] + SAN),
    "h1life": dict(src=["h1_life.cpp"], lib=CORE + POSIX, defs=["-DPLATFORM_POSIX=1"] + DEFS, opt=["-O1", "-g1"] + SAN),
    "h4": dict(src=["h4_std.cpp", "fib.cpp"], lib=CORE + POSIX + ["HsmEventDispatcherSTD.cpp"], defs=["-DPLATFORM_POSIX=1"] + DEFS, opt=["-O1", "-g1"] + SAN,
               libopt=["-fsanitize-coverage=func,trace-loads,trace-stores"], link=["-static-libstdc++"] + WRAPS + ["-lpthread"]),
    "h3g": dict(src=["h4_std.cpp", "fib.cpp", "bk.cpp"], lib=CORE + POSIX + ["HsmEventDispatcherGLib.cpp"], defs=["-DPLATFORM_POSIX=1", "-DBK_GLIB", "-DFIB_INTERPOSE"] + DEFS,
                opt=["-O1", "-g1"] + SAN, libopt=["-fsanitize-coverage=func,trace-loads,trace-stores"],
                link=["-static-libstdc++", "-Wl,--wrap=write"] + WRAPS + ["-lpthread", "-rdynamic"], pkg=lambda: pkg("glib-2.0")),
    "h3m": dict(src=["h4_std.cpp", "fib.cpp", "bk.cpp"], lib=CORE + POSIX + ["HsmEventDispatcherGLibmm.cpp"], defs=["-DPLATFORM_POSIX=1", "-DBK_GLIBMM", "-DFIB_INTERPOSE"] + DEFS,
                opt=["-O1", "-g1"] + SAN, libopt=["-fsanitize-coverage=func,trace-loads,trace-stores"],
                link=["-static-libstdc++", "-Wl,--wrap=write"] + WRAPS + ["-lpthread", "-rdynamic"], pkg=lambda: pkg("glibmm-2.4")),
    "h3q": dict(src=["h4_std.cpp", "fib.cpp", "bk.cpp"], lib=CORE + POSIX + ["HsmEventDispatcherQt.cpp"], defs=["-DPLATFORM_POSIX=1", "-DBK_QT", "-DFIB_INTERPOSE", "-fPIC"] + DEFS,
                opt=["-O1", "-g1"] + SAN, libopt=["-fsanitize-coverage=func,trace-loads,trace-stores"], moc=["hsmcpp/HsmEventDispatcherQt.hpp"],
                link=["-static-libstdc++", "-Wl,--wrap=_ZN7QThread13currentThreadEv", "-Wl,--wrap=_ZN7QObject11deleteLaterEv"] + WRAPS + ["-lpthread", "-rdynamic"],
                pkg=lambda: pkg("Qt5Core", "glib-2.0")),
    "h6": dict(src=["h6_arduino.cpp"], lib=CORE + _glob("os/arduino/*.cpp") + ["HsmEventDispatcherArduino.cpp"], incs=["arduino"], defs=["-DPLATFORM_ARDUINO=1"] + [x for x in DEFS if "DEBUGGING" not in x],
               opt=["-O1", "-g1"] + SAN, libopt=["-fsanitize-coverage=func,trace-loads,trace-stores"]),
    "h5": dict(cmd=["python3", os.path.join(VERIF, "h5", "h5.py")]),
    "h1log": dict(src=["h1_log.cpp"], lib=CORE + POSIX, defs=["-DPLATFORM_POSIX=1"] + DEFS, opt=["-O1", "-g1"] + SAN),
}


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def _read(path):
    with open(path, "rb") as f:
        return f.read()


def _headers(dirs):
    acc = []
    for d in dirs:
        for root, _, files in sorted(os.walk(d)):
            for n in sorted(files):
                if n.endswith((".hpp", ".h", ".in", ".inl", ".ipp")):
                    p = os.path.join(root, n)
                    acc.append(p.encode() + b"=" + _read(p))
    return _sha(*acc)


def _version_header():
    """The library's build generates version.hpp; reproduce it."""
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "version.hpp")
    text = "#pragma once\n"
    for cand in glob.glob(os.path.join(REPO, "**", "version.hpp.in"), recursive=True):
        text = _read(cand).decode()
        break
    if not os.path.exists(out) or _read(out).decode() != text:
        with open(out, "w") as f:
            f.write(text)
    return d


def run(cmd, log, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        log.append("$ " + " ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.returncode


class BuildError(Exception):
    pass


def build(name):
    cfg = HARNESS[name]
    if "cmd" in cfg:
        return cfg["cmd"][0]
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    gen = _version_header()
    cc = cfg.get("cxx", "clang++")
    incs = [os.path.join(REPO, "include"), os.path.join(REPO, "src"), gen, os.path.join(VERIF, "src")]
    incs = [os.path.join(VERIF, "src", x) for x in cfg.get("incs", [])] + incs
    inc = ["-I" + i for i in incs]
    extra_c, extra_l = cfg["pkg"]() if "pkg" in cfg else ([], [])
    hdr = _headers([os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(VERIF, "src")])
    jobs = []
    for s in cfg["lib"]:
        jobs.append((os.path.join(REPO, "src", s), ["-std=" + cfg.get("libstd", "c++11")] + cfg["opt"] + cfg.get("libopt", []) + cfg["defs"] + cfg.get("libdefs", []) + ["-w"]))
    for s in cfg["src"]:
        jobs.append((os.path.join(VERIF, "src", s), ["-std=c++17"] + cfg["opt"] + cfg["defs"] + ["-Wall", "-Wno-unused-function"]))
    log = []
    objs = []
    for h in cfg.get("moc", []):
        path = os.path.join(REPO, "include", h)
        tool = os.path.join(subprocess.check_output(["pkg-config", "--variable=host_bins", "Qt5Core"], text=True).strip(), "moc")
        out = os.path.join(BUILD, "gen", "moc_%s-%s.cpp" % (os.path.basename(h), _sha(_read(path))))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            if run([tool, path, "-o", tmp], log) == 0:
                os.replace(tmp, out)
        jobs.append((out, ["-std=c++17"] + cfg["opt"] + cfg["defs"] + ["-w"]))

    def one(job):
        path, flags = job
        cmd = [cc] + flags + inc + extra_c + ["-c", path]
        obj = os.path.join(BUILD, "obj", os.path.basename(path) + "-" + _sha(" ".join(cmd), _read(path), hdr) + ".o")
        if not os.path.exists(obj):
            tmp = obj + ".%d.tmp" % os.getpid()
            if run(cmd + ["-o", tmp], log) == 0:
                os.replace(tmp, obj)
        return obj

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    if log:
        raise BuildError("\n".join(log))
    link = [cc] + cfg["opt"] + cfg.get("prelink", []) + objs + extra_l + cfg.get("link", ["-lpthread"])
    exe = os.path.join(BUILD, name + "-" + _sha(" ".join(link)))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        if run(link + ["-o", tmp], log) != 0:
            raise BuildError("\n".join(log))
        os.replace(tmp, exe)
    return exe


def build_many(names):
    return [build(n) for n in names]


def command(name):
    """Command line prefix that runs the harness."""
    if "cmd" in HARNESS.get(name, {}):
        return list(HARNESS[name]["cmd"])
    return [build(name)]


def environment(name):
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0",
           "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
    env.update(HARNESS.get(name, {}).get("env", {}))
    return env


if __name__ == "__main__":
    for n in sys.argv[1:] or sorted(HARNESS):
        try:
            print(build(n))
        except BuildError as e:
            print(e)
            sys.exit(2)
