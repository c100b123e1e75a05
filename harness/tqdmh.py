"""The progress meter (coral/tqdm.py)."""
from symx.cases import case
from symx.textscan import fields, screen


class Out:
    def __init__(self):
        self.writes = []

    def write(self, s):
        self.writes.append(s)

    def flush(self):
        pass


class Source:
    """Items handed out one at a time, each taking some time."""

    def __init__(self, env, items, sized, slow, fail=None, began=0):
        self.items, self.taken, self.slow, self.fail = items, 0, slow, fail
        self.began = self.now = began
        env.clock_fn = lambda which: self.now
        if sized:
            self.__class__ = Sized

    def __iter__(self):
        for i, x in enumerate(self.items):
            self.taken += 1
            if self.fail == i:
                raise KeyError(i)
            self.now = self.now + self.slow[i]
            yield x


class Sized(Source):
    def __len__(self):
        return len(self.items)


@case("Q01", quick=[dict(n=n) for n in (0, 1, 2, 40)], thorough=[dict(n=n) for n in (0, 1, 2, 3)], validate=8)
def passthrough(env, n):
    """The items come out unchanged, in order, each when asked for."""
    t = env.mod("tqdm")
    items = [env.int("item%d" % i) for i in range(n)]
    slow = [env.int("time%d" % i, 0, 20) if n < 5 else 4 if i == n // 2 else i % 3 for i in range(n)]
    fail = env.num("fails", 0, n) if n < 5 else env.choice("fails", [n // 2, n])
    src = Source(env, items, env.flag("sized"), slow, fail if fail < n else None)
    out = Out()
    leave = env.flag("leave")
    kw = dict(file=out, leave=leave, desc="x" if leave else "")
    every = env.choice("every", [None, 0, 1, 3])
    if every is not None:
        kw["miniters"] = every
    total = env.choice("total", ["none", "less", "more"])
    if total != "none":
        kw["total"] = max(n - 1, 1) if total == "less" else n + 5
    it = iter(t.tqdm(src, **kw))
    env.check_eq(src.taken, 0, "nothing is taken before it is asked for")
    for i in range(min(n, fail)):
        env.check_eq(next(it), items[i], "the items come out unchanged and in order")
        env.check_eq(src.taken, i + 1, "items are taken one at a time, when asked for")
    if fail < n:
        env.check(env.raises(KeyError, next, it), "errors of the iterable are passed on")
    else:
        env.check(env.raises(StopIteration, next, it), "the iteration ends with the items")


@case("Q01", quick=[dict(k=k) for k in (1, 2, 3)])
def ranges(env, k):
    """trange is tqdm over a range."""
    t = env.mod("tqdm")
    args = [env.num("arg%d" % i, -3, 3) if i < 2 else env.choice("step", [-2, 1, 2]) for i in range(k)]
    env.clock_fn = lambda which: 0
    got = list(t.trange(*args, file=Out()))
    env.check_eq(got, list(range(*args)), "trange hands out the range")


@case("Q02", quick=[dict(n=n, total=t) for n in (0, 1, 2, 30) for t in ("own", "none", "less")] + [dict(n=2, total="zero")], thorough=[dict(n=n, total=t) for n in (0, 1, 2, 3) for t in ("own", "none", "less", "more", "zero")], validate=8)
def shown(env, n, total):
    """What is left on the screen is the final state, or nothing."""
    t = env.mod("tqdm")
    slow = [env.int("time%d" % i, 0, 4000) if n < 5 else 700 if i == n // 2 else i % 5 for i in range(n)]
    src = Source(env, list(range(n)), total in ("own", "zero"), slow, began=env.choice("began", [0, 1700000000]))
    desc = env.choice("desc", ["", "some"])
    leave = env.flag("leave")
    out = Out()
    kw = dict(desc=desc, leave=leave, file=out)
    # Whatever the limits on updates, the final state is up to date.
    limit = env.choice("limit", ["usual", "items", "time"])
    if limit == "items":
        kw.update(mininterval=0, miniters=n + 1 if total == "own" else 2)
    elif limit == "time":
        kw.update(mininterval=10 ** 6)
    if total in ("less", "more"):
        kw["total"] = max(n - 1, 1) if total == "less" else n + 5
    elif total == "zero":
        kw["total"] = 0
    _, printed = env.capture(lambda: list(t.tqdm(src, **kw)))
    env.check_eq(printed, "", "nothing is written anywhere else")
    lines, cur, col = screen(out.writes)
    if not leave:
        env.check_eq((len(lines), len(cur), col), (0, 0, 0), "the meter is erased and the cursor put back")
    else:
        env.check_eq((len(lines), len(cur), col), (1, 0, 0), "the meter stays on a line of its own")
        count = n if total == "own" else kw.get("total")
        want = t.format_meter(n, count, src.now - src.began)
        env.check_eq(lines[0], (desc + ": " if desc else "") + want, "the final state of the meter is shown")


@case("Q02", quick=[dict(n=n) for n in (1, 2, 3, 4)], thorough=[dict(n=n) for n in (1, 2, 3, 4, 5)], validate=8)
def updates(env, n):
    """The meter is updated exactly when enough time and items have passed."""
    t = env.mod("tqdm")
    unit = env.flag("usual limits") and n < 4
    slow = [env.num("time%d" % i, 0, 1) * 0.5 if unit else env.int("time%d" % i, 0, 9) for i in range(n)]
    src = Source(env, list(range(n)), True, slow, began=env.int("began", 0, 10 ** 9))
    out = Out()
    if unit:
        interval, every, kw = 0.5, 1, {}
    else:
        interval = env.int("interval", 0, 9)
        every = env.num("every", 0, n + 1)
        kw = dict(mininterval=interval, miniters=every)
    it = iter(t.tqdm(src, file=out, **kw))
    next(it)
    env.check(len(out.writes) == 1, "the meter is shown at the start")
    last_n, last_t = 0, src.began
    for i in range(1, n):
        before, now = len(out.writes), src.now
        next(it)
        due = env.And(i - last_n >= every, now - last_t >= interval)
        if len(out.writes) > before:
            env.check(due, "the meter is not updated too often")
            env.check_eq(len(out.writes), before + 1, "every update is written once")
            lines, cur, col = screen(out.writes)
            if i == 1:
                env.check_eq(cur.rstrip(), t.format_meter(i, n, now - src.began).rstrip(), "updates show the count and the time passed")
            last_n, last_t = i, now
        else:
            env.check(env.Not(due), "the meter is updated when it is due")


WITH = "|{bar}| {n}/{total} {pct}% [elapsed: {elapsed} left: {left}, {rate} iters/sec]"
WITHOUT = "{n} [elapsed: {elapsed}, {rate} iters/sec]"


def seconds(env, text):
    """Duration shown as mm:ss or h:mm:ss."""
    p = fields(text, "{h}:{m}:{s}") or fields(text, "{m}:{s}")
    env.check(p is not None, "durations are shown as minutes and seconds, or hours as well")
    m, s = int(p["m"]), int(p["s"])
    env.check(env.And(len(p["s"]) == 2, len(p["m"]) == 2, s >= 0, s < 60, m >= 0, m < 60), "minutes and seconds have two digits and are less than 60")
    h = 0
    if "h" in p:
        h = int(p["h"])
        env.check(h > 0, "hours are shown only when there are some")
    return 3600 * h + 60 * m + s


def amount(env, text):
    text = text.strip()
    return float(text)


@case("Q03", quick=[dict(total=t) for t in (1, 2, 3, 10, 17, 100, 1000)], thorough=[dict(total=t) for t in (1, 2, 3, 7, 10, 17, 64, 99, 100, 365, 1000, 4096)])
def progress(env, total):
    """Counts, percentage and bar show the fraction done."""
    t = env.mod("tqdm")
    n = env.int("n", 0, total + 50)
    e = env.num("elapsed", 0, 1)
    text = t.format_meter(n, total, e)
    f = fields(text, WITH)
    if n > total:
        f = fields(text, WITHOUT)
        env.check(f is not None, "without a usable total only the count is shown")
        env.check_eq(int(f["n"]), n, "the count is shown")
        return
    env.check(f is not None, "the meter has its usual form")
    env.check_eq((int(f["n"]), int(f["total"])), (n, total), "the count and the total are shown")
    env.check(len(f["pct"]) == 3, "the percentage has a fixed width")
    p = int(f["pct"])
    env.check(env.And(p * total <= 100 * n, (p + 1) * total + 0.001 >= 100 * n), "the percentage is that of the fraction done")
    env.check_eq(len(f["bar"]), 10, "the bar has ten cells")
    full = f["bar"].count("#")
    env.check_eq(f["bar"], "#" * full + "-" * (10 - full), "the bar is filled from the left")
    env.check(env.And(full * total <= 10 * n, (full + 1) * total + 0.001 >= 10 * n), "the bar is filled up to the fraction done")
    env.check(env.implies(n == total, env.And(p == 100, full == 10)), "the finished meter is full")


@case("Q03", quick=[dict(n=n, total=t) for n, t in ((0, 5), (1, 5), (3, 5), (5, 5), (7, 5), (3, None), (0, None), (0, 0), (7, 4000))], timeout=20000, validate=8)
def times(env, n, total):
    """Elapsed and remaining time and the rate are consistent."""
    t = env.mod("tqdm")
    e = env.real("elapsed", 0, 90000)
    env.assume(env.Or(e == 0, e > 0.01))
    env.opaque_floats()
    text = t.format_meter(n, total, e)
    known = total and n <= total
    f = fields(text, WITH if known else WITHOUT)
    env.check(f is not None, "the meter has its usual form")
    env.check_eq(int(f["n"]), n, "the count is shown")
    s = seconds(env, f["elapsed"])
    env.check(env.And(s <= e, e < s + 1), "the elapsed time is shown in whole seconds")
    if e == 0:
        env.check_eq(f["rate"], "?", "there is no rate before time has passed")
    else:
        r = amount(env, f["rate"])
        env.check(env.And(r * e <= n + 0.0051 * e, r * e >= n - 0.0051 * e), "the rate is the count per second")
    if known and n:
        left = seconds(env, f["left"])
        x = e * (total - n)
        env.check(env.And(left * n <= x + 0.000001 * n, x < (left + 1) * n + 0.000001 * n), "the remaining time is that of the items left at the present rate")
    elif known:
        env.check_eq(f["left"], "?", "there is no remaining time before the first item")


@case("Q03", quick=[dict(e=e) for e in (0.25, 1, 3, 7.5, 61, 4000)], thorough=[dict(e=e) for e in (0.02, 0.25, 1, 1.5, 3, 7, 7.5, 10, 61, 64, 4000, 86400)], timeout=20000)
def rates(env, e):
    """Rates are shown with two decimals."""
    t = env.mod("tqdm")
    n = env.int("n", 0, 99999)
    f = fields(t.format_meter(n, None, e), WITHOUT)
    env.check(f is not None, "the meter has its usual form")
    text = f["rate"]
    r = float(text.strip())
    env.check(env.And(r * e <= n + 0.0051 * e, r * e >= n - 0.0051 * e), "the rate is the count per second")
    env.check(len(text) >= 5, "rates have a fixed width")
    env.check(text[-3:-2] == ".", "rates have two decimals")


@case("Q03", quick=[dict()], timeout=20000)
def interval(env):
    """Durations are written as minutes and seconds, or hours as well."""
    t = env.mod("tqdm")
    e = env.real("t", 0, 400000)
    text = t.format_interval(e)
    s = seconds(env, text)
    env.check(env.And(s <= e, e < s + 1), "durations are whole seconds")
    env.check(env.iff(fields(text, "{h}:{m}:{s}") is not None, e >= 3600), "hours are shown when there are some")
