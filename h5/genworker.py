"""Runs scxml2gen.py's command line for many documents in one process. stdin: JSON list of {"argv": [...], "cwd": dir}; stdout: JSON list of [exit code, output]."""
import contextlib
import io
import json
import os
import sys
import traceback

script = sys.argv[1]
with open(script) as f:
    code = compile(f.read(), script, "exec")
jobs = json.load(sys.stdin)
sys.path.insert(0, os.path.dirname(script))
res = []
here = os.getcwd()
for j in jobs:
    buf = io.StringIO()
    rc = 0
    sys.argv = [script] + j["argv"]
    os.chdir(j["cwd"])
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        try:
            exec(code, {"__name__": "__main__", "__file__": script, "__builtins__": __builtins__})
        except SystemExit as e:
            rc = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except BaseException:
            rc = 1
            traceback.print_exc()
    os.chdir(here)
    res.append([rc, buf.getvalue()[-1500:]])
print(json.dumps(res))
