"""Try mutants in a scratch copy: mut.py FILE with lines of Python tuples (file, old, new, props)."""
import os, shutil, subprocess, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/mutrepo%d" % os.getpid()
muts = ast.literal_eval(open(sys.argv[1]).read())
for i, (f, old, new, props) in enumerate(muts):
    shutil.rmtree(D, ignore_errors=True)
    shutil.copytree("/repo", D, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    p = os.path.join(D, f)
    s = open(p).read()
    if old not in s:
        print(i, "NOT APPLICABLE", old)
        continue
    open(p, "w").write(s.replace(old, new, 1))
    for prop in props.split():
        r = subprocess.run(["python3-vt", "check.py", prop], cwd=V, env=dict(os.environ, SYMX_REPO=D), capture_output=True, text=True)
        out = r.stdout.strip().split("\n")
        print(i, prop, "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, "|", old[:50].replace("\n", " "), "->", new[:50].replace("\n", " "), "|", out[0][:150] if r.returncode != 1 else out[0].split(" inputs=")[0][:150], flush=True)
        if r.returncode == 1:
            break
shutil.rmtree(D, ignore_errors=True)
