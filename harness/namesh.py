"""Comparing and abbreviating names (coral/names.py)."""
from symx.cases import case


def distance(a, b):
    """Optimal string alignment: insertions, deletions, substitutions and
    transpositions of neighbours, by its recursive definition."""
    if not len(a) or not len(b):
        return len(a) + len(b)
    best = distance(a[:-1], b[:-1]) + (0 if a[-1] == b[-1] else 1)
    best = min(best, distance(a[:-1], b) + 1, distance(a, b[:-1]) + 1)
    if len(a) > 1 and len(b) > 1 and a[-1] == b[-2] and a[-2] == b[-1]:
        best = min(best, distance(a[:-2], b[:-2]) + 1)
    return best


def lengths(k):
    return [dict(a=a, b=b) for a in range(k + 1) for b in range(k + 1)]


@case("N01", quick=lengths(3), thorough=lengths(3) + [dict(a=a, b=b) for a, b in ((4, 4), (4, 3), (2, 4), (5, 2), (2, 5), (4, 1))])
def damlev(env, a, b):
    """The distance is the least number of single edits."""
    n = env.mod("names")
    s, t = env.str("s", a), env.str("t", b)
    d = n.damlev(s, t)
    env.check_eq(d, distance(s, t), "the distance is the least number of edits")
    env.check_eq(n.damlev(t, s), d, "the distance is symmetric")
    env.check(env.iff(d == 0, s == t), "only equal texts have distance 0")
    env.check(env.And(d >= abs(a - b), d <= max(a, b)), "the distance is between the difference and the maximum of the lengths")


@case("N01", quick=[dict(n=60)], thorough=[dict(n=60), dict(n=150)], ticks=10 ** 6)
def longer(env, n):
    """Long texts that differ in up to two places."""
    m = env.mod("names")
    i, j = env.choice("i", [0, 39, n - 2]), env.choice("j", [1, 40, n - 1])
    base = "".join([chr(97 + (7 * k * k + 3 * k) % 26) for k in range(n)])
    c, d = env.str("c", 1), env.str("d", 1)
    env.assume(env.And(ord(c) < 97, ord(d) < 97))
    if i < j:
        s = base[:i] + c + base[i + 1:j] + d + base[j + 1:]
        env.check_eq(m.damlev(s, base), 2, "two replacements are distance 2")
    else:
        s = base[:i] + c + base[i:]
        env.check_eq(m.damlev(base, s), 1, "one insertion is distance 1")


@case("N01", quick=[dict(n=n, edit=e) for n in (1, 2, 3, 4, 5, 9) for e in ("insert", "delete", "replace", "swap")], thorough=[dict(n=n, edit=e) for n in (1, 2, 3, 4, 5, 6) for e in ("insert", "delete", "replace", "swap")])
def edited(env, n, edit):
    """One edit anywhere changes a text by distance 1."""
    m = env.mod("names")
    s = env.str("s", n)
    i = env.num("where", 0, n - 1)
    c = env.str("c", 1)
    if edit == "insert":
        t = s[:i] + c + s[i:]
    elif edit == "delete":
        t = s[:i] + s[i + 1:]
    elif edit == "replace":
        env.assume(s[i] != c)
        t = s[:i] + c + s[i + 1:]
    else:
        env.assume(i + 1 < n)
        # distinct characters keep the comparisons few
        env.assume(env.And(*[s[j] != s[k] for j in range(n) for k in range(j)]))
        t = s[:i] + s[i + 1] + s[i] + s[i + 2:]
    if n > 3:
        env.assume(env.And(*[s[j] != s[k] for j in range(n) for k in range(j)]))
    env.check_eq(m.damlev(s, t), 1, "one edit is distance 1")


@case("N02", quick=lengths(3), thorough=lengths(3) + [dict(a=a, b=b) for a, b in ((4, 4), (4, 3), (2, 4), (5, 2))], validate=6)
def error(env, a, b):
    """The relative error is the distance over the mean length."""
    n = env.mod("names")
    s, t = env.str("s", a), env.str("t", b)
    e = n.strerr(s, t)
    env.near(e * (a + b), 2 * n.damlev(s, t), "the relative error is the distance over the mean length", tol=1e-9)
    env.near(n.strerr(s, s), 0, "a text has no error against itself")


@case("N02", quick=[dict(keys=k, values=v) for k, v in ((1, 2), (2, 1), (2, 2))], thorough=[dict(keys=k, values=v) for k, v in ((1, 2), (2, 1), (2, 2), (3, 1), (1, 3))], validate=6)
def mapping(env, keys, values):
    """Every key is mapped to its nearest value, best matches first."""
    n = env.mod("names")
    ks = ["a" + env.str("k%d" % i, 1, chars="abc") for i in range(keys)]
    vs = [env.str("v%d" % i, env.num("length %d" % i, 1, 2), chars="ab") for i in range(values)]
    got = n.mapping(ks, vs)
    env.check_eq(len(got), keys, "every key is mapped once")
    for k in ks:
        env.check(env.Or(*[m.key == k for m in got]), "every key is mapped once")
    for m in got:
        errs = [n.strerr(m.key, v) for v in vs]
        env.check(env.Or(*[m.value == v for v in vs]), "keys are mapped to one of the values")
        env.near(m.score, 1 - min(errs), "keys are mapped to their nearest value", tol=1e-9)
        env.near(n.strerr(m.key, m.value), min(errs), "keys are mapped to their nearest value", tol=1e-9)
    for a, b in zip(got, got[1:]):
        env.check(a.score >= b.score, "the best matches come first")


def window(a, b):
    return max(a, b) // 2 - 1


@case("N02", quick=[dict(n=n) for n in (20, 31)], ticks=10 ** 6)
def mapping_close(env, n):
    """Long texts, whose scores differ little."""
    m = env.mod("names")
    value = "".join([chr(97 + (7 * k * k + 3 * k) % 26) for k in range(n)])
    c = env.str("c", 1)
    env.assume(ord(c) < 48)
    i = env.choice("i", [0, n // 2, n - 1])
    ks = [value[:i] + c + value[i:], value[:i] + c + value[i + 1:], value[:i] + value[i + 1:], value[1:-1], value + value[:3], c]
    want = [2 / (2 * n + 1), 2 / (2 * n), 2 / (2 * n - 1), 4 / (2 * n - 2), 6 / (2 * n + 3), 2 * n / (n + 1)]
    r = env.num("rot", 0, len(ks) - 1)
    got = m.mapping(ks[r:] + ks[:r], ["0" * n, value])
    order = [0, 1, 2, 3, 4, 5]
    env.check_eq([g.key for g in got], [ks[j] for j in sorted(order, key=lambda j: want[j])], "matches are in order of descending score")
    for g, j in zip(got, sorted(order, key=lambda j: want[j])):
        env.near(g.score, 1 - want[j], "the score is one minus the error", tol=1e-12)
        if j < 5:
            env.check_eq(g.value, value, "every key gets the closest value")


@case("N03", quick=lengths(3) + [dict(a=4, b=b) for b in (2, 4)], thorough=lengths(4) + [dict(a=5, b=b) for b in (1, 2, 3)], validate=6, timeout=20000)
def jaro(env, a, b):
    """Similarities are between 0 and 1, and 1 only for equal texts."""
    n = env.mod("names")
    s, t = env.str("s", a), env.str("t", b)
    j = n.jaro(s, t)
    w = n.jaro_winkler(s, t)
    env.le(0, j, "similarities are not negative")
    env.le(j, 1, "similarities are at most 1")
    if a or b:
        env.check(env.iff(j > 0.99999999, s == t), "exactly equal texts have similarity 1")
    # texts without a common character within reach are not similar at all
    k = window(a, b)
    near = [s[x] == t[y] for x in range(a) for y in range(b) if x == y or abs(x - y) <= k]
    env.check(env.iff(j > 0, env.Or(*near)), "texts are similar when they share a character within reach")
    p = 0
    for x, y in zip(s[:4], t[:4]):
        if not x == y:
            break
        p += 1
    env.near(w, j + p * (1 - j) / 10, "a common prefix of up to four characters closes the gap by a tenth each", tol=1e-9)
    env.le(w, 1, "similarities are at most 1")


@case("N03", quick=[dict(n=n) for n in (4, 5, 6, 12)])
def swapped(env, n):
    """Similarities of texts of distinct characters follow the definition."""
    m = env.mod("names")
    s = env.str("s", n)
    env.assume(env.And(*[s[j] != s[k] for j in range(n) for k in range(j)]))
    i = env.num("where", 0, n - 2)
    t = s[:i] + s[i + 1] + s[i] + s[i + 2:]
    env.near(m.jaro(s, t), (2 + (n - 1) / n) / 3, "two neighbours exchanged are one transposition", tol=1e-9)
    c = env.str("c", 1)
    env.assume(env.And(*[s[j] != c for j in range(n)]))
    k = env.num("replaced", 0, n - 1)
    u = s[:k] + c + s[k + 1:]
    f = (n - 1) / n
    env.near(m.jaro(s, u), (f + f + 1) / 3, "a character replaced is missing from both", tol=1e-9)


def similarity(s, t):
    """Jaro similarity: counterparts match first, then every other character
    matches the first free equal one within reach; matches that cross an
    earlier one are transpositions."""
    reach = window(len(s), len(t))
    free = [i >= len(s) or not s[i] == t[i] for i in range(len(t))]
    matches = free.count(False)
    crossed, far = 0, 0
    for i in range(len(s)):
        if i < len(t) and s[i] == t[i]:
            continue
        for j in range(len(t)):
            if abs(i - j) <= reach and free[j] and s[i] == t[j]:
                free[j] = False
                matches += 1
                if j < far:
                    crossed += 1
                else:
                    far = j
                break
    if not matches:
        return 0
    return (matches / len(s) + matches / len(t) + (matches - crossed) / matches) / 3


@case("N03", quick=[dict(a=a, b=b, chars=c) for a, b, c in ((5, 5, "ab"), (6, 5, "ab"), (4, 5, "ab"), (4, 4, "abc"))], thorough=[dict(a=a, b=b, chars=c) for a, b, c in ((6, 6, "ab"), (5, 7, "ab"), (5, 4, "abc"))], validate=6)
def defined(env, a, b, chars):
    """Similarities of texts of few different characters follow the definition."""
    m = env.mod("names")
    s, t = env.str("s", a, chars=chars), env.str("t", b, chars=chars)
    j = similarity(s, t)
    env.near(m.jaro(s, t), j, "similarities follow their definition", tol=1e-9)
    p = 0
    for x, y in zip(s[:4], t[:4]):
        if not x == y:
            break
        p += 1
    env.near(m.jaro_winkler(s, t), j + p * (1 - j) / 10, "a common prefix of up to four characters closes the gap by a tenth each", tol=1e-9)


BASE = {"a": "\u00e1\u00e0\u00e3\u00e2\u00e4", "e": "\u00e9\u00e8\u1ebd\u00ea\u00eb", "i": "\u00ed\u00ec\u0129\u00ee\u00ef",
        "o": "\u00f3\u00f2\u00f5\u00f4\u00f6", "u": "\u00fa\u00f9\u0169\u00fb\u00fc", "c": "\u00e7"}


@case("N04", quick=[dict(n=n) for n in (1, 2)], thorough=[dict(n=n) for n in (1, 2, 3)], timeout=30000, validate=6)
def unaccented(env, n):
    """Accented vowels and c-cedilla lose their accent; nothing else changes."""
    m = env.mod("names")
    s = env.str("s", n, alphabet="bmp")
    a = m.ascii(s)
    env.check_eq(len(a), n, "every character stays one character")
    for i in range(n):
        x, y = ord(s[i]), ord(a[i])
        known = []
        for b, accented in BASE.items():
            for c in accented:
                for x0, y0 in ((c, b), (c.upper(), b.upper())):
                    known.append(x == ord(x0))
                    env.check(env.implies(x == ord(x0), y == ord(y0)), "accented letters lose their accent and keep their case")
        env.check(env.implies(env.Not(env.Or(*known)), y == x), "other characters are not changed")
    env.check_eq(m.ascii(a), a, "nothing is left to change")


@case("N05", quick=[dict(k=2, n=3), dict(k=2, n=4), dict(k=3, n=2)], thorough=[dict(k=2, n=3), dict(k=2, n=4), dict(k=3, n=3)], validate=6)
def abbreviations(env, k, n):
    """Abbreviations are short, unique and made of the letters of the name."""
    m = env.mod("names")
    length = env.num("length", 1, 3)
    names = []
    for i in range(k):
        ln = env.num("length %d" % i, 1, n)
        s = "".join([env.choice("c%d.%d" % (i, j), ["a", "b", " "] if 0 < j < ln - 1 else ["a", "b"]) for j in range(ln)])
        env.assume("  " not in s)
        names.append(s)
    env.assume(len(set(names)) == k)
    try:
        got = m.abbreviations(names, length)
    except Exception as e:
        env.check(type(e) is Exception, "failing to find abbreviations is reported as such")
        scarce = [x for x in names if len(x) > length and len(subsets(x.replace(" ", ""), length)) < k]
        env.check(len(scarce) > 0, "a name with enough letters is abbreviated")
        return
    env.check_eq(sorted(got), sorted(names), "every name is abbreviated")
    env.check_eq(len(set(got.values())), k, "abbreviations are unique")
    for s in names:
        a = got[s]
        env.check(len(a) <= length, "abbreviations are no longer than asked for")
        rest = s.upper()
        for c in a:
            env.check(c in rest, "abbreviations are letters of the name in order")
            rest = rest[rest.index(c) + 1:]
        if len(s) <= length:
            env.check_eq(a, s.upper(), "short names are their own abbreviation")


def subsets(text, length):
    """The different texts of some letters of a text, in order."""
    if not length:
        return {""}
    out = set()
    for i in range(len(text)):
        for rest in subsets(text[i + 1:], length - 1):
            out.add(text[i] + rest)
    return out


@case("N05", quick=[dict(words=w) for w in ([1], [3], [2, 2], [1, 3], [1, 1, 2])], thorough=[dict(words=w) for w in ([4], [3, 2], [2, 1, 3])], validate=6)
def preferred(env, words):
    """An abbreviation has the initials of the words, and then the rarest letters."""
    m = env.mod("names")
    ws = ["".join(env.choice("c%d.%d" % (i, j), ["a", "b", "\u00e9"][:3 - (len(words) > 2)]) for j in range(n)) for i, n in enumerate(words)]
    extra = env.choice("extra", ["", "do", "\u00e9"])
    case = env.flag("extra in capitals")
    name = (" %s " % extra).join(ws) if extra else " ".join(ws)
    length = env.num("length", 1, 3)
    other = "b" + "oxyzuv" * 3
    got = m.abbreviations([other, name] if env.flag("other first") else [name, other], length, extras=[extra.upper() if case else extra, "xx"] if extra else env.choice("extras", [(), ["do"]]))
    env.check_eq(sorted(got), sorted([name, other]), "every name is abbreviated")
    a = got[name]
    plain = m.ascii(" ".join(ws)).upper()
    if len(plain) <= length:
        env.check_eq(a, plain, "short names are their own abbreviation")
        return
    env.check_eq(len(a), length, "abbreviations are as long as asked for")
    letters = plain.replace(" ", "")
    starts, k = [], 0
    for w in ws:
        starts.append(k)
        k += len(w)
    # the choices that take initials first and then letters by rarity
    count = {c: 2 if c == "B" else 1 for c in letters}
    first = starts[:length]
    rest = sorted(count[letters[i]] for i in range(len(letters)) if i not in starts)[:length - len(first)]
    env.check(a in [w for w in picks(letters, length, first, rest, count)], "initials come first, and then the rarest letters")


def picks(letters, length, first, rest, count):
    import itertools
    others = [i for i in range(len(letters)) if i not in first]
    for c in itertools.combinations(others, length - len(first)):
        if sorted(count[letters[i]] for i in c) == list(rest):
            yield "".join(letters[i] for i in sorted(first + list(c)))
