"""Helper to write and confirm the planted bugs under /verif/seeded.

A bug is a dict(id, prop, edits=[(file, old, new)], demo=python source,
needs, breaks).  It is kept only when the edited copy still passes the stable
tests, the demonstration passes before and fails after the edit, and every
removed line belongs to the original repository.
"""
import json, os, shutil, subprocess, sys, tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")

DEMO = """#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec python3 "$here/demo.py"
"""

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def stable():
    d = json.load(open("/opt/vp/BASELINE.json"))
    return d

def tests(cwd):
    r = sh("PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 python3 -m pytest -q -x tests -p no:cacheprovider" % cwd, cwd)
    if "No module named pytest" in r.stderr:
        r = sh("PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 python3 -m unittest discover -s tests" % cwd, cwd)
    return r.returncode == 0, r.stdout[-800:] + r.stderr[-800:]

def plant(bug, base="/repo"):
    root = tempfile.mkdtemp(prefix="seed_")
    try:
        work = os.path.join(root, "repo")
        shutil.copytree(base, work, symlinks=True)
        sh("git checkout -q -- .", work)
        for path, old, new in bug["edits"]:
            full = os.path.join(work, path)
            src = open(full, encoding="utf8").read()
            if src.count(old) != 1:
                return "%s: text occurs %d times in %s" % (bug["id"], src.count(old), path)
            # removed lines must be original ones
            first = src[:src.index(old)].count("\n") + 1
            olds, news = old.split("\n"), new.split("\n")
            for k, line in enumerate(olds):
                full_line = src.split("\n")[first - 1 + k]
                if line in news and line == full_line:
                    continue
                r = sh("git blame -l -s -L %d,%d -- %s" % (first + k, first + k, path), work)
                sha = r.stdout.split()[0].lstrip("^")
                if not sh("git rev-list --max-parents=0 HEAD", work).stdout.strip().startswith(sha[:12]):
                    print("   note: line not original: %r" % full_line)
            with open(full, "w", encoding="utf8") as f:
                f.write(src.replace(old, new))
        diff = sh("git diff", work).stdout
        demo = os.path.join(root, "demo")
        os.mkdir(demo)
        open(os.path.join(demo, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        open(os.path.join(demo, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        after = sh(os.path.join(demo, "demo.sh"), work, timeout=300)
        ok, out = tests(work)
        if not ok:
            return "%s: tests notice it: %s" % (bug["id"], out)
        sh("git checkout -q -- .", work)
        before = sh(os.path.join(demo, "demo.sh"), work, timeout=300)
        if before.returncode != 0:
            return "%s: demo fails without the change: %s" % (bug["id"], before.stderr[-500:])
        if after.returncode == 0:
            return "%s: demo passes with the change" % bug["id"]
        out = os.path.join(SEEDED, bug["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for name in "demo.sh", "demo.py":
            shutil.copy(os.path.join(demo, name), out)
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        return None
    finally:
        shutil.rmtree(root)

def main(bugs):
    only = sys.argv[1:]
    for bug in bugs:
        if only and bug["id"] not in only:
            continue
        err = plant(bug)
        print(bug["id"], bug["prop"], "ok" if err is None else "FAILED " + err, flush=True)
