"""Tables of named tuples (coral/table.py)."""
import collections

from symx.cases import case

SEPS = {"comma": ",", "tab": "\t", "semicolon": ";", "two": "::"}
CHARS = {"comma": "a \"\t\u00e9", "tab": "a ,\u2014", "semicolon": "a ,\t", "two": "a,:"}


def table(env, name, keys, rows, value):
    Row = collections.namedtuple("Row", keys)
    return [Row(*[value("%s%d.%s" % (name, i, k)) for k in keys]) for i in range(rows)]


def sparse(value, n, text=False):
    """Values of a long table: those of its row n are symbolic."""
    def f(s):
        row, key = s.lstrip("lrv").split(".")
        if int(row) == n:
            return value(s)
        v = (int(row) * 7 + len(key)) % 10
        return str(v) * (v % 4 + 1) if text else v
    return f


def word(env, name, longest, chars, sep):
    """A text that can be told apart in a line."""
    n = env.num(name + " length", 0, longest)
    s = env.str(name, n, chars=chars) if n else ""
    for c in (0, n - 1):
        if n:
            env.assume(env.And(*[s[c] != b for b in " \t"]))
            if len(sep) > 1:
                env.assume(s[c] != ":")
    return s


@case("T01", quick=[dict(sep=s, cols=c, rows=r) for s in SEPS for c, r in ((2, 1), (2, 2), (3, 1), (1, 2))],
      thorough=[dict(sep=s, cols=c, rows=r, n=n) for s in SEPS for c, r, n in ((2, 1, 3), (2, 2, 2), (3, 1, 2), (1, 3, 2), (1, 2, 4), (3, 2, 1), (4, 1, 1))], validate=8)
def roundtrip(env, sep, cols, rows, n=None):
    """A table written to a file is read back as it was."""
    t = env.mod("table")
    keys = ["k%d" % i for i in range(cols)]
    sp = SEPS[sep]
    n = n if n else 2 if cols * rows < 3 else 1
    tab = table(env, "v", keys, rows, lambda s: word(env, s, n, CHARS[sep], sp))
    if cols == 1:
        # an empty line is not a row
        env.assume(env.And(*[len(r[0]) > 0 for r in tab]))
    path = env.path("t.txt")
    kw = {} if sep == "comma" else {"sep": sp}
    t.writefile(path, tab, **kw)
    got = t.readfile(path, **kw)
    env.check_eq(len(got), rows, "every row is read back")
    for a, b in zip(got, tab):
        env.check_eq(a._fields, b._fields, "columns keep their names and order")
        env.check_eq(tuple(a), tuple(b), "values are read back as they were")


@case("T01", quick=[dict(rows=60, cols=2), dict(rows=3, cols=70)], thorough=[dict(rows=2000, cols=2), dict(rows=3, cols=300)], validate=8, ticks=10 ** 6)
def long(env, rows, cols):
    """Tables of many rows or columns."""
    t = env.mod("table")
    tab = table(env, "v", ["k%d" % i for i in range(cols)], rows, sparse(lambda s: word(env, s, 1, "a ,\u00e9", "\t") if s[-2:] == "k1" else "x", rows - 2, True))
    path = env.path("t.txt")
    t.writefile(path, tab, sep="\t")
    got = t.readfile(path, sep="\t")
    env.check_eq(len(got), rows, "every row is read back")
    for a, b in zip(got, tab):
        env.check_eq(a._fields, b._fields, "columns keep their names and order")
        env.check_eq(tuple(a), tuple(b), "values are read back as they were")


@case("T01", quick=[dict(cols=c) for c in (2, 3)], thorough=[dict(cols=c) for c in (2, 3, 4)], validate=8)
def chosen(env, cols):
    """Columns are written and read by name, whatever their order."""
    t = env.mod("table")
    keys = ["k%d" % i for i in range(cols)]
    tab = table(env, "v", keys, 2, lambda s: env.str(s, 1, chars="ab-"))
    wrote = pick(env, "write", keys)
    read = pick(env, "read", wrote)
    path = env.path("t.txt")
    t.writefile(path, tab, wrote)
    got = t.readfile(path, read)
    env.check_eq(len(got), 2, "every row is read back")
    for a, b in zip(got, tab):
        env.check_eq(list(a._fields), read, "exactly the chosen columns are read")
        for k in read:
            env.check_eq(getattr(a, k), getattr(b, k), "columns keep their own values")


def pick(env, name, keys):
    """A non-empty selection of keys in any order."""
    left, out = list(keys), []
    for i in range(len(keys)):
        j = env.num("%s%d" % (name, i), 0 if out else 1, len(left))
        if not j:
            break
        out.append(left.pop(j - 1))
    return out


LINES = ["", "# note", "a,b", "c,d # why", "   ", ",", "#"]


@case("T01", quick=[dict(k=3)], thorough=[dict(k=4)], validate=8)
def comments(env, k):
    """Comments and blank lines are skipped; files without rows are empty."""
    t = env.mod("table")
    chosen = [env.choice("line%d" % i, LINES) for i in range(k)]
    text = "\n".join(chosen) + env.choice("end", ["", "\n"])
    comm = env.choice("mark", ["#", "%"])
    text = text.replace("#", comm)
    path = env.path("t.txt")
    env.put_file(path, text)
    left = [x.split("#")[0].strip() for x in chosen]
    left = [x for x in left if x]
    env.assume("," not in left[:1])
    got = t.readfile(path) if comm == "#" else t.readfile(path, comm=comm)
    env.check_eq(len(got), max(len(left) - 1, 0), "comments and blank lines are not rows")
    for a, b in zip(got, left[1:]):
        env.check_eq(list(a._fields), left[0].split(","), "the first line names the columns")
        env.check_eq(list(a), b.split(","), "comments are not part of values")


@case("T02", quick=[dict(a=a, b=b) for a in (1, 2) for b in (1, 2)] + [dict(a=3, b=40), dict(a=40, b=12)], thorough=[dict(a=a, b=b) for a in (1, 2, 3) for b in (1, 2, 3)])
def join(env, a, b):
    """Every row of the left table is joined with its first match, if any."""
    t = env.mod("table")
    value = lambda s: env.int(s, 0, 9)
    t1 = table(env, "l", ["id", "x"], a, value if a < 4 and b < 4 else sparse(value, a // 2))
    both = env.choice("shared columns", [1, 2])
    right = ["id", "y"] if both == 1 else ["y", "x", "id"]
    t2 = table(env, "r", right, b, value if b < 4 else sparse(value, b - 2))
    pivots = env.choice("pivots", [None, ["id"], ["id", "x"] if both == 2 else ["id"]])
    keys = env.choice("keys", [None, ["y", "id", "x"], ["y", "z"]])
    got = t.join(t1, t2, pivots, keys)
    env.check_eq(len(got), a, "the joined table has the rows of the left one")
    piv = pivots or (["id"] if both == 1 else ["id", "x"])
    if keys is not None:
        env.check_eq(list(got[0]._fields), keys, "the joined table has the columns asked for")
    else:
        env.check_eq(sorted(got[0]._fields), ["id", "x", "y"], "the joined table has the columns of both")
    for row, r1 in zip(got, t1):
        match = None
        for r2 in t2:
            if env.And(*[getattr(r1, p) == getattr(r2, p) for p in piv]):
                match = r2
                break
        for k in sorted(row._fields):
            if match is not None and k in match._fields:
                want = getattr(match, k)
            else:
                want = getattr(r1, k, "")
            env.check_eq(getattr(row, k), want, "rows carry the values of their first match")


@case("T03", quick=[dict(n=n) for n in (1, 2, 3, 30)], thorough=[dict(n=n) for n in (1, 2, 3, 4)])
def lookups(env, n):
    """Rows are found by the value of a column, in order."""
    t = env.mod("table")
    value = lambda s: env.int(s, 0, 3) if s[-1] == "b" else env.str(s, 1)
    plain = sparse(value, n // 2)
    tab = table(env, "v", ["a", "b", "c"], n, value if n < 5 else lambda s: plain(s) if s[-1] == "b" or int(s[1:-2]) == n // 2 else "pqr"[plain(s) % 3])
    key, q = env.choice("query", [("b", None), ("c", 1)])
    q = env.int("q", 0, 3) if q is None else env.str("s", 1)
    one = t.getone(tab, key, q)
    every = list(t.getall(tab, key, q))
    want = [r for r in tab if getattr(r, key) == q]
    env.check_eq([list(r) for r in every], [list(r) for r in want], "exactly the matching rows are found, in order")
    if want:
        env.check(one is want[0], "the first match is returned")
    else:
        env.check(one is None, "nothing is returned without a match")


@case("T03", quick=[dict(n=n) for n in (1, 2, 3, 30)], thorough=[dict(n=n) for n in (1, 2, 3, 4)])
def index(env, n):
    """A table indexed by a column gives the other columns of its rows."""
    t = env.mod("table")
    value = lambda s: env.int(s, 0, 2) if s[-1] == "b" else env.int(s)
    tab = table(env, "v", ["a", "b", "c"], n, value if n < 5 else sparse(value, n // 2))
    before = t.indexby(table(env, "w", ["a", "b"], 2, lambda s: 70 + len(s)), "a")
    d = t.indexby(tab, "b")
    env.check_eq(list(before), [74], "tables are indexed one by one")
    last = {}
    for r in tab:
        last[r.b] = r
    env.check_eq(sorted(d), sorted(last), "every value of the column is a key, and nothing else")
    for k, r in last.items():
        env.check_eq(list(d[k]._fields), ["a", "c"], "rows keep the other columns")
        env.check_eq(list(d[k]), [r.a, r.c], "rows are found under their own value")


@case("T03", quick=[dict(n=n) for n in (1, 2, 30)], thorough=[dict(n=n) for n in (1, 2, 3, 4)])
def columns(env, n):
    """Columns can be added and removed without touching the others."""
    t = env.mod("table")
    tab = table(env, "v", ["a", "b", "c"], n, lambda s: env.int(s))
    add = list(t.addkey(tab, "d", lambda r: r.a + 2 * r.c))
    env.check_eq([list(r._fields) for r in add], [["a", "b", "c", "d"]] * n, "the new column comes last")
    for r, s in zip(add, tab):
        env.check_eq(list(r), [s.a, s.b, s.c, s.a + 2 * s.c], "the new column is computed from its own row")
    gone = env.choice("gone", [["b"], ["c", "a"], [], ("a",), {"b", "c"}])
    left = [k for k in ("a", "b", "c") if k not in gone]
    rest = list(t.delkeys(tab, gone))
    env.check_eq([list(r._fields) for r in rest], [left] * n, "the other columns stay in order")
    for r, s in zip(rest, tab):
        env.check_eq(list(r), [getattr(s, k) for k in left], "the other columns keep their values")
    env.check_eq([list(r._fields) for r in tab], [["a", "b", "c"]] * n, "the table itself is not changed")


@case("T03", quick=[dict(keys=k) for k in (["ab", "a", "abc"], ["x", "xx", "X"], ["a", "b_a", "a_b"])])
def similar(env, keys):
    """Columns whose names contain one another."""
    t = env.mod("table")
    tab = table(env, "v", keys, 2, lambda s: env.int(s, 0, 2))
    k = env.choice("column", keys)
    rest = [f for f in keys if f != k]
    d = t.indexby(tab, k)
    last = {}
    for r in tab:
        last[getattr(r, k)] = r
    env.check_eq(sorted(d), sorted(last), "every value of the column is a key, and nothing else")
    for v, r in last.items():
        env.check_eq(list(d[v]._fields), rest, "rows keep the other columns")
        env.check_eq(list(d[v]), [getattr(r, f) for f in rest], "rows are found under their own value")
    for r, s in zip(list(t.delkeys(tab, [k])), tab):
        env.check_eq(list(r._fields), rest, "the other columns stay in order")
        env.check_eq(list(r), [getattr(s, f) for f in rest], "the other columns keep their values")
    q = env.int("q", 0, 2)
    env.check_eq([list(r) for r in t.getall(tab, k, q)], [list(r) for r in tab if getattr(r, k) == q], "exactly the matching rows are found, in order")


@case("T04", quick=[dict(rows=r, cols=c) for r, c in ((0, 1), (1, 1), (1, 2), (2, 1), (2, 2), (20, 2), (270, 2))], thorough=[dict(rows=r, cols=c) for r, c in ((0, 1), (1, 1), (1, 3), (2, 2), (3, 1), (3, 2), (3000, 2))], validate=8, ticks=10 ** 7)
def printed(env, rows, cols):
    """A printed table has one aligned line per row."""
    t = env.mod("table")
    keys = ["a", "longer", "c"][:cols]
    value = lambda s: env.str(s, env.choice(s + " length", [0, 1, 8]), exclude="\\n")
    tab = table(env, "v", keys, rows, value if rows < 5 else sparse(value, rows - 7, True))
    if env.flag("chosen") or not rows:
        keys = keys[::-1]
        _, text = env.capture(t.pprint, tab, keys)
    else:
        _, text = env.capture(t.pprint, tab)
    widths = [max([len(k)] + [len(getattr(r, k)) for r in tab]) for k in keys]
    want = [" | ".join([k.ljust(w) for k, w in zip(keys, widths)]), "-+-".join(["-" * w for w in widths])]
    want += [" | ".join([getattr(r, k).ljust(w) for k, w in zip(keys, widths)]) for r in tab]
    env.check_eq(text, "\n".join(want) + "\n", "every row is printed with its values aligned under their column")
