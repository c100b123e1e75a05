"""Revert every fix of known_findings.txt in a scratch clone; its property's check must report it."""
import os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "/tmp/fixrepo"
want = set(sys.argv[1:])
for line in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
    if not m or want and not want & {m[1], m[2]}:
        continue
    shutil.rmtree(D, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", D], check=True)
    diff = subprocess.run(["git", "-C", D, "show", m[2]], capture_output=True).stdout
    r = subprocess.run(["git", "-C", D, "apply", "-R", "-C1", "--recount"], input=diff, capture_output=True)
    if r.returncode:
        r = subprocess.run(["patch", "-d", D, "-p1", "-R", "--forward", "--fuzz=3"], input=diff, capture_output=True)
    if r.returncode:
        print(m[1], m[2], "CANNOT REVERT", m[3][:60], flush=True)
        continue
    r = subprocess.run(["python3-vt", "check.py", m[1]], cwd=V, env=dict(os.environ, SYMX_REPO=D), capture_output=True, text=True)
    print(m[1], m[2], "reported" if r.returncode == 1 and "VIOLATION" in r.stdout else "MISSED rc=%d" % r.returncode, m[3][:60], "|", r.stdout.split("\n")[0].split(" inputs=")[0][:120], flush=True)
shutil.rmtree(D, ignore_errors=True)
