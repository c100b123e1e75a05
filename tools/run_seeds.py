"""Run each planted bug's quick check on a scratch copy of /repo with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
for b in sys.argv[1:] or sorted(os.listdir(S)):
    prop = json.load(open(os.path.join(S, b, "meta.json")))["property"]
    patch = os.path.join(S, b, "patch.diff")
    root = tempfile.mkdtemp(prefix="seedrun_")
    try:
        work = os.path.join(root, "repo")
        shutil.copytree("/repo", work, symlinks=True)
        r = subprocess.run(["git", "-C", work, "apply", patch], capture_output=True, text=True)
        if r.returncode:
            print(b, prop, "DOES NOT APPLY", r.stderr[:200]); continue
        t = time.time()
        r = subprocess.run(["python3-vt", os.path.join(V, "check.py"), prop], cwd=V, capture_output=True, text=True, env=dict(os.environ, SYMX_REPO=work))
        line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(b, prop, "rc=%d" % r.returncode, "%.0fs" % (time.time() - t), (line or r.stdout.splitlines()[-1:] or r.stderr.splitlines()[-1:])[0][:110], flush=True)
    finally:
        shutil.rmtree(root)
