#!/usr/bin/env python3
"""Run one case concretely on the real code in /repo.

replay.py CASE.json      replay a counterexample written by check.py
replay.py --server       used by check.py
"""
import json
import os
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
sys.path.insert(0, HERE)


def run_case(case):
    from symx import env as envm
    from symx.runner import plain
    import importlib
    tmp = tempfile.mkdtemp(prefix="symx-")
    try:
        os.chdir(tmp)
        m = importlib.import_module(case["module"])
        env = envm.RealEnv(case["inputs"], tmp)
        import time as _t
        _t.time = lambda: env.clock("time")
        _t.monotonic = lambda: env.clock("monotonic")
        _t.perf_counter = lambda: env.clock("perf")
        import subprocess
        from symx import commands
        subprocess.Popen = commands.popen(env)
        os.system = lambda cmd: subprocess.Popen(cmd, shell=True).returncode << 8
        real_local = _t.localtime
        _t.localtime = lambda *a: env.localtime() if not a else real_local(*a)
        try:
            getattr(m, case["fn"])(env, **case["params"])
        except envm.AssumeFailed:
            return dict(status="assume-failed")
        except envm.ConcreteCheckFailed as e:
            return dict(status="check-failed", label=e.label, detail=e.detail)
        except (KeyError,) as e:
            if e.args and isinstance(e.args[0], str) and e.args[0] not in case["inputs"] and \
                    traceback.extract_tb(e.__traceback__)[-1].filename.endswith("symx/env.py"):
                return dict(status="input-missing", detail=str(e))
            return dict(status="exception", label=type(e).__name__, detail=traceback.format_exc()[-1500:])
        except Exception as e:
            return dict(status="exception", label=type(e).__name__, detail=traceback.format_exc()[-1500:])
        return dict(status="ok", observed=[(n, plain(v)) for n, v in env.observed])
    finally:
        os.chdir("/")
        shutil.rmtree(tmp, ignore_errors=True)


def child(case, timeout):
    """Fork, run, and report; a child that outlives the timeout is a hang."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                out = run_case(case)
            except MemoryError:
                out = dict(status="exception", label="MemoryError", detail="memory bound")
            data = json.dumps(out, default=str).encode()
            while data:
                data = data[os.write(w, data):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    hang = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            hang = True
            break
        if not select.select([r], [], [], left)[0]:
            continue
        d = os.read(r, 65536)
        if not d:
            break
        buf += d
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    if hang:
        return dict(status="hang", label="no answer within %d s" % timeout)
    if not buf:
        return dict(status="exception", label="process died", detail="")
    return json.loads(buf)


def main():
    if sys.argv[1:] == ["--server"]:
        import importlib
        out = os.fdopen(os.dup(1), "w", encoding="utf-8")
        for line in sys.stdin:
            case = json.loads(line)
            try:
                out.write(json.dumps(child(case, case["timeout"])) + "\n")
                out.flush()
            except BrokenPipeError:
                os._exit(0)
        return 0
    case = json.load(open(sys.argv[1]))
    r = child(case, case.get("timeout", 30))
    print(json.dumps(r, indent=1))
    return 0 if r["status"] == "ok" else 1


if __name__ == "__main__":
    sys.exit(main())
