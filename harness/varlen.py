"""Variable-length quantities of the P and RangeGrid formats."""
from symx.cases import case

MODS = [dict(m="pf"), dict(m="rg")]


@case("V01", quick=MODS, ticks=400)
def vlv_roundtrip(env, m):
    mod = env.mod(m)
    v = env.int("v", 0, 2 ** 70)
    f = env.BytesIO()
    mod.writevlv(f, v)
    data = f.getvalue()
    env.observe("data", data)
    n = len(data)
    env.check(env.And(v < 128 ** n, env.Or(n == 1, v >= 128 ** (n - 1))), "the encoding has the minimal number of bytes")
    for i in range(n):
        env.check(env.iff(data[i] >= 128, i < n - 1), "exactly the last byte has a clear top bit")
    g = env.BytesIO(data + b"\x81")
    env.check_eq(mod.readvlv(g), v, "the value is read back")
    env.check_eq(g.tell(), n, "reading stops exactly at the end of the value")


@case("V01", quick=MODS, ticks=400)
def svlv_roundtrip(env, m):
    mod = env.mod(m)
    if not hasattr(mod, "writesvlv"):
        return
    v = env.int("v", -2 ** 64, 2 ** 64)
    f = env.BytesIO()
    mod.writesvlv(f, v)
    data = f.getvalue()
    env.observe("data", data)
    g = env.BytesIO(data + b"\x81")
    env.check_eq(mod.readsvlv(g), v, "the signed value is read back")
    env.check_eq(g.tell(), len(data), "reading stops exactly at the end of the signed value")


@case("V01", quick=[dict(m=p["m"], n=3) for p in MODS], thorough=[dict(m=p["m"], n=4) for p in MODS], ticks=400)
def vlv_stream(env, m, n):
    """Any sequence of values is recovered from the concatenated encodings."""
    mod = env.mod(m)
    vs = [env.int("v%d" % i, 0, 2 ** 21) for i in range(n)]
    f = env.BytesIO()
    for v in vs:
        mod.writevlv(f, v)
    f.seek(0)
    for v in vs:
        env.check_eq(mod.readvlv(f), v, "values come back in order")
    env.check_eq(f.read(), b"", "nothing is left over")


@case("V01", quick=[dict(m=p["m"], n=n) for p in MODS for n in (1, 2, 3)], ticks=400)
def vlv_decode(env, m, n):
    """Reading arbitrary bytes: base-128 big-endian value of the first number."""
    mod = env.mod(m)
    bs = env.bytes("b", n)
    env.assume(bs[n - 1] < 128)
    f = env.BytesIO(bs)
    v = mod.readvlv(f)
    want = 0
    k = 0
    for b in bs:
        want = want * 128 + b % 128
        k += 1
        if b < 128:
            break
    env.check_eq(v, want, "the value is the base-128 number of the bytes read")
    env.check_eq(f.tell(), k, "reading consumes up to the first byte with a clear top bit")


@case("V01")
def ascii_roundtrip(env):
    mod = env.mod("pf")
    s = env.str("s", env.num("n", 0, 4), exclude="\x00")
    f = env.BytesIO()
    mod.writeascii(f, s)
    f.write(b"Z")
    f.seek(0)
    env.check_eq(mod.readascii(f), s, "names are read back")
    env.check_eq(f.read(), b"Z", "reading stops after the terminator")
