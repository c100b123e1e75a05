"""Systematic mutants: automut.py MODULE... [--max N] [--every K]

Every mutant is one small edit of the syntax tree of a module.  It must pass
the tests of the repository; the checks of the properties whose code the
module belongs to are run on it until one reports it.  Those that none
reports are printed with their place, to be judged by hand."""
import ast, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitXor: ast.BitOr, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Pow: ast.Mult}


def mutants(src):
    """(node, what, function that makes the mutant's tree)"""
    tree = ast.parse(src)

    def maker(i, change):
        def make():
            t = ast.parse(src)
            change(list(ast.walk(t))[i])
            return t
        return make

    def op_at(k, new):
        def f(m): m.ops[k] = new()
        return f

    def attr(name, fn):
        def f(m): setattr(m, name, fn(m))
        return f

    def without(k):
        def f(m):
            del m.values[k]
            if len(m.values) == 1:
                m.values.append(m.values[0])
        return f

    def drop(field, k):
        def f(m):
            getattr(m, field)[k] = ast.copy_location(ast.Pass(), getattr(m, field)[k])
        return f
    for i, n in enumerate(ast.walk(tree)):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    yield n, "%s -> %s" % (type(op).__name__, new.__name__), maker(i, op_at(k, new))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            new = BIN[type(n.op)]
            yield n, "%s -> %s" % (type(n.op).__name__, new.__name__), maker(i, attr("op", lambda m, new=new: new()))
        elif isinstance(n, ast.BoolOp):
            new = ast.Or if isinstance(n.op, ast.And) else ast.And
            yield n, "and/or", maker(i, attr("op", lambda m, new=new: new()))
            for k in range(len(n.values)):
                yield n, "without operand %d" % k, maker(i, without(k))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield n, "unary", maker(i, attr("op", lambda m: ast.UAdd()))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield n, "unary", maker(i, attr("operand", lambda m: ast.UnaryOp(ast.Not(), m.operand)))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            for d in (1, -1):
                yield n, "%r -> %r" % (n.value, n.value + d), maker(i, attr("value", lambda m, d=d: m.value + d))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            yield n, "not %r" % n.value, maker(i, attr("value", lambda m: not m.value))
        elif isinstance(n, ast.If):
            for v in (True, False):
                yield n, "if %r" % v, maker(i, attr("test", lambda m, v=v: ast.Constant(v)))
        for field in ("body", "orelse"):
            b = getattr(n, field, None)
            if not isinstance(b, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for k, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Continue, ast.Break, ast.Return)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    yield s, "dropped", maker(i, drop(field, k))


def skip(func, line):
    return func in ("__repr__", "__str__", "test")


def place(spans, n):
    best = ""
    for a, b, name in spans:
        if a <= getattr(n, "lineno", 0) <= b:
            best = name
    return best


def main(argv):
    every, offset, mods = 1, 0, []
    for a in argv:
        if a.startswith("--every="):
            every, _, offset = a[8:].partition("+")
            every, offset = int(every), int(offset or 0)
        else:
            mods.append(a)
    props = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        fs = p["anchors"]["files"]
        t = 99
        try:
            t = json.load(open(os.path.join(V, "evidence", p["id"] + ".json")))["wall_s"]
        except Exception:
            pass
        for f in fs:
            props.setdefault(f, []).append((t, p["id"]))
    jobs = []
    for mod in mods:
        path = "coral/%s.py" % mod
        src = open("/repo/" + path).read()
        tree = ast.parse(src)
        spans = sorted((f.lineno, f.end_lineno, f.name) for f in ast.walk(tree) if isinstance(f, ast.FunctionDef))
        main_line = min([n.lineno for n in tree.body if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test)] + [10 ** 9])
        k = 0
        for n, what, t in mutants(src):
            line = getattr(n, "lineno", 0)
            f = place(spans, n)
            if line >= main_line or skip(f, line) or not f:
                continue
            k += 1
            if (k - offset) % every:
                continue
            jobs.append((path, line, f, what, src.split("\n")[line - 1].strip(), t))
    print(len(jobs), "mutants", flush=True)
    work = tempfile.mkdtemp(prefix="automut_v_")
    subprocess.run("git -C %s archive HEAD | tar x -C %s" % (V, work), shell=True, check=True)

    def run(job):
        path, line, f, what, text, t = job
        d = tempfile.mkdtemp(prefix="automut_")
        try:
            shutil.copytree("/repo", d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
            with open(d + "/repo/" + path, "w") as o:
                o.write(ast.unparse(ast.fix_missing_locations(t())))
            env = dict(os.environ, PYTHONPATH=d + "/repo", PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run(["python3-vt", "-m", "pytest", "-q", "-x", "tests", "-p", "no:cacheprovider"], cwd=d + "/repo", env=env, capture_output=True, text=True, timeout=60)
                if r.returncode:
                    return "tests"
            except subprocess.TimeoutExpired:
                return "tests"
            env = dict(os.environ, SYMX_REPO=d + "/repo", SYMX_OUT=d)
            odd = []
            for _, p in sorted(props.get(path, [])):
                try:
                    r = subprocess.run(["python3-vt", "check.py", p, "--jobs", "2", "--budget", "240"], cwd=work, env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    odd.append(p + " timeout")
                    continue
                if r.returncode == 1:
                    return p
                if r.returncode:
                    odd.append("%s rc=%d" % (p, r.returncode))
            return "SURVIVED " + " ".join(odd)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    counts = {}
    with ThreadPoolExecutor(4) as ex:
        for job, res in zip(jobs, ex.map(run, jobs)):
            n = sum(counts.values()) + 1
            if n % 50 == 0:
                print("..", n, flush=True)
            counts[res.split()[0]] = counts.get(res.split()[0], 0) + 1
            if res.startswith("SURVIVED"):
                print("%s:%d %s: %s | %s | %s" % (job[0], job[1], job[2], job[3], job[4][:90], res), flush=True)
    print(counts, flush=True)
    shutil.rmtree(work)


main(sys.argv[1:])
