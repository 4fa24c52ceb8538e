"""Calls of the stateless functions. What they have to give is decided by TraceFun.tla."""
import itertools
from mqtt import *


def batch(kind, cases, size=40):
    """scenarios of at most size calls per event"""
    evs = [{"op": "fun", "o": 0, "g": kind, "c": cases[i:i + size]} for i in range(0, len(cases), size)]
    return [{"ev": evs[i:i + 8]} for i in range(0, len(evs), 8)]


def codes_all(): return batch("code", [{"n": n} for n in range(256)])
def types_all(): return batch("type", [{"n": n} for n in range(256)])


def props_all(r):
    ns = list(range(0, 300)) + [511, 512, 1023, 16383, 16384, 32767, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 28, (1 << 31) - 1]
    ns += [i + 128 * k for i in PROPS for k in (2, 4, 512)] + [r.randrange(1 << 31) for _ in range(200)]
    return batch("prop", [{"n": n} for n in ns])


def opts_all(): return batch("opt", [{"n": n} for n in range(256)])


def topics(r, depth=5, n=2000):
    g = Gen(r)
    out = set()
    for k in range(0, depth + 1):
        for t in itertools.product(b"a+#/$", repeat=k):
            out.add(bytes(t))
    sh = set()
    for k in range(0, depth + 1):
        for t in itertools.product(b"a+#/", repeat=k):
            sh.add(b"$share/" + bytes(t))
    for k in range(0, 4):
        for t in itertools.product(b"g+#/$", repeat=k):
            for p in (b"$share", b"$shar", b"$shared", b"$SYS", b"$sharE/", b"$share//", b"$", b"$$", b"/$share/", b"a$share/", b"$share/g/", b"$SYS/", b"$x/"):
                sh.add(p + bytes(t))
    out |= sh
    level = [b"$share", b"a", b"+", b"#", b"", b"$SYS", b"$", b"a+", b"$share ", b"share", b"#a"]      # whole levels in any order
    for k in range(1, 4): out |= {b"/".join(t) for t in itertools.product(level, repeat=k)}
    out |= {b"$share/g/" + b"/".join(t) for t in itertools.product(level[:9], repeat=3)}
    out |= {b"/".join(r.choice(level) if r.random() < 0.6 else b"b" for _ in range(r.randint(4, 8))) for _ in range(n // 3)}
    special = [b"\x00", b"\x1f", b"\x20", b"\x7f", b"\xc2\x80", b"\xc2\x9f", b"\xc2\xa0", b"\xed\x9f\xbf", b"\xed\xa0\x80", b"\xef\xbf\xbd",
               b"\xef\xbf\xbe", b"\xef\xbf\xbf", b"\xf4\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xff", b"\xe2\x80\xa8", b"\xc2\x85", b"\n", b"\r", b"\t",
               b"\xef\xbb\xbf", b"\xc0\xaf", b"\xe0\x80\xaf", b"\xf0\x9f\x98\x80", b"\xc3", b"\x80"]
    for s in special:
        for t in (b"", b"a", b"a/", b"+/", b"$share/g/", b"$share/", b"$x/", b"#"):
            for e in (b"", b"a", b"/a", b"/#", b"+", b"/+"):
                out.add(t + s + e)
    for _ in range(n):
        x = g.filter() if r.random() < 0.6 else g.badfilter()
        if r.random() < 0.5 and x:
            b = bytearray(x)
            k = r.randrange(4)
            j = r.randrange(len(b))
            if k == 0: b[j] = r.choice(b"a+#/$\x00\x80\xff")
            elif k == 1: b.insert(j, r.choice(b"a+#/$\x1f\xc3"))
            elif k == 2: del b[j]
            else: b = b[j:] + b[:j]
            x = bytes(b)
        out.add(x)
    for L in (127, 128, 255, 256, 1000, 65535, 65536, 70000):
        if L < 2000 or n > 2000:
            out |= {b"a" * L, b"a/" * (L // 2) + b"#", b"+/" * (L // 2) + b"a", b"a" * (L - 1) + b"+", b"$share/" + b"g" * L + b"/a",
                    "é".encode() * (L // 2)}
    for k in (7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 255, 256, 257, 300):      # many levels
        out |= {b"/" * k, b"a/" * k, b"a/" * k + b"#", b"+/" * k + b"+", b"+/" * k + b"#", b"a/" * k + b"+", b"a/" * k + b"b+", b"$SYS" + b"/a" * k, b"$share/g" + b"/a" * k,
                b"$share/g" + b"/+" * k + b"/#", b"$share/" + b"g" * k + b"/a", b"$" + b"x" * k + b"/a", b"a/" * k + b"#/a"}
    for _ in range(n // 25):     # one odd place in a long text
        u = r.choice([b"a", b"a/", "é".encode(), b"x\xe2\x82\xac", b"+/", "\U0001f600".encode()])
        L = r.choice([r.randrange(130, 1030), r.randrange(1030, 4200), 1024, 2048, 4096, 4097, 4100, 5000, 8192, 8200, 10000] + [16384, 16400, 32768, 33000] * (r.random() < 0.2)) // len(u)
        j = r.choice([0, 1, L // 2, L - 1, L, r.randrange(L)])
        out.add(u * j + r.choice(special + [b"+", b"#", b"/#", b"$", b"", b"/+"]) + u * (L - j) + r.choice([b"", b"", b"#", b"\xc3"]))
    out = sorted(out)
    r.shuffle(out)
    small = [x for x in out if len(x) < 2000]
    big = [x for x in out if len(x) >= 2000]
    q = [0, 1, 2, 3, 4, 8, 16, 22, 41, 45, 46, 47, 63, 64, 128, 255, 254, 253]
    mk = lambda xs: [{"a": list(x), "q": r.choice(q)} for x in xs]
    return batch("topic", mk(small), 50) + batch("topic", mk(big), 1)


B3 = [0, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4,
      0xf5, 0xff, 0x2b, 0x23]


def texts(r, n3=3000, n4=3000):
    sc = batch("utf1", [{}]) + batch("utf2", [{"n": n} for n in range(256)], 8)
    cs = []
    all3 = list(itertools.product(B3, repeat=3))
    for t in all3 if n3 >= len(all3) else r.sample(all3, n3):
        cs.append({"a": list(t), "q": r.randrange(256)})
    for _ in range(n4):
        lead = r.choice([0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xe0, 0xed, 0xef, 0xc2])
        t = [lead] + [r.choice([0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0]) for _ in range(3)]
        cs.append({"a": t, "q": 0})
    return sc + batch("topic", cs, 60)


def lpfields(r, n=400, big=True):
    rd, wr = [], []
    for L in list(range(0, 9)) + [100, 257, 258, 259]:
        for p in list(range(0, 9)) + [254, 255, 256, 257, 65534, 65535]:
            for q in (0, 1):
                rd.append({"l": L, "a": [p >> 8, p & 255][:L], "q": q})
    for p in (255, 256, 65534, 65535):
        for d in (-2, -1, 0, 1, 2, 5):
            rd.append({"l": p + 2 + d, "a": [p >> 8, p & 255], "q": r.randint(0, 1)})
    for _ in range(n):
        p = r.choice([r.randrange(300), r.randrange(65536)])
        rd.append({"l": max(0, p + 2 + r.choice([-300, -2, -1, 0, 0, 1, 2, 3, 300])), "a": [p >> 8, p & 255], "q": r.randint(0, 1)})
    for x in rd: x["a"] = x["a"][:x["l"]]
    for w in list(range(0, 9)) + [254, 255, 256, 257, 65533, 65534, 65535, 65536, 65537, 65538, 65540, 131071, 131072, 131073, 200000]:
        for L in sorted({0, 1, 2, 3, w - 1, w, w + 1, w + 2, w + 3, w + 4, w + 100, (w & 65535) + 2, (w & 65535)}):
            if L >= 0: wr.append({"w": w, "l": L})
    for _ in range(n):
        w = r.choice([r.randrange(300), r.randrange(65536)])
        wr.append({"w": w, "l": max(0, w + 2 + r.choice([-300, -2, -1, 0, 1, 2, 300]))})
    return batch("lpr", rd, 100) + batch("lpw", wr, 100) + batch("lps", [{}])


def auths(r, n=300):
    ns = list(range(-20, 300)) + [65535, 65536, 65537, (1 << 31) - 1, -(1 << 31) + 1, 1 << 16, 1 << 24, 256 * 5, -256]
    ns += [r.randrange(-(1 << 31) + 1, 1 << 31) for _ in range(n)]
    hi = [{"n": k, "q": 1} for k in [1, 2, 3, -1, -2, 256, 1 << 20]]
    far = [{"n": (1 << k) - 300, "w": 600} for k in range(22, 31)] + [{"n": -(1 << k) - 300, "w": 600} for k in range(22, 31)]
    return batch("authr", [{"n": -(1 << 20), "w": 1 << 21}] + far, 5) + batch("authc", [{}]) + batch("auth", [{"n": k} for k in ns] + hi)


def wordings(r, th):
    """texts of all errors, reason codes and QoS values, and of undefined ones"""
    far = [{"g": "prop", "n": sg * (1 << k) - 300, "w": 600} for k in range(20, 62) for sg in (1, -1)]
    return batch("txt", [{"g": g, "n": 0, "w": 255} for g in ("code", "qos", "err")] + [{"g": "prop", "n": -70000, "w": 140000}], 1) + batch("txt", [dict(f, n=f["n"]) for f in far if abs(f["n"]) < 2**31 - 1000], 4)


def numbers(r, th):
    """every two-byte number, and four-byte and variable ones around all powers of two"""
    cs = []
    con = lp(b"MQTT") + b"\5"
    where = {CONNECT: (0x10, con + b"\2\0\1", lp(b"c")), CONNACK: (0x20, b"\0\0", b""), PUBLISH: (0x30, lp(b"t"), b"pay"), SUBSCRIBE: (0x82, b"\0\1", lp(b"f") + b"\1"), DISCONNECT: (0xe0, b"\0", b"")}
    for v, nm in ((3, b"MQIsdp"), (4, b"MQTT"), (5, b"MQTT")):
        cs.append({"q": v, "i": 0, "w": 2, "h": 0x10, "a": list(lp(nm) + bytes([v, 2])), "b": list((b"\0" if v == 5 else b"") + lp(b"c")), "s": 0, "l": 65535})
    for i in PROPS:
        k = {"u16": 2, "u32": 4, "var": 0}.get(ptype(i))
        if k is None: continue
        top = {2: 65535, 4: (1 << 32) - 1, 0: 268435455}[k]
        lo = 1 if i in (11, 33, 35, 39) else 0
        spans = [(lo, 65535 - lo)] if k == 2 else [(lo, 20000 if th else 3000)] + [((1 << p) - 40, 80) for p in range(12, 33) if (1 << p) + 40 <= top] + [(top - 50, 50)] + \
            [(r.randrange(1, top - 100), 100) for _ in range(200 if th else 12)]
        for t in where:
            if allowed(i, t) and i != 24:
                h, a, b = where[t]
                cs += [{"q": 5, "i": i, "w": k, "h": h, "a": list(a), "b": list(b), "s": s, "l": l} for s, l in spans]
        if i in (2, 24):
            cs += [{"q": 5, "i": i, "w": k, "g": "will", "h": 0x10, "a": list(con + b"\6\0\1\0" + lp(b"c")), "b": list(lp(b"w") + lp(b"m")), "s": s, "l": l} for s, l in spans]
    return batch("vals", cs, 10)


def descriptors(r, n):
    """descriptors of plugins: texts set, copied and asked for, two descriptors at a time"""
    w = ["", "1.0.0", "2.10.3", "v1", "name", "a b", "é", "long " * 60, "1.0.0 ", "0"]
    def s(o, j, x): return {"t": "set", "o": o, "v": j, "k": x}
    def g(o, j): return {"t": "get", "o": o, "v": j}
    def step():
        q, o, j = r.random(), r.randrange(2), r.randrange(4)
        return g(o, j) if q < 0.65 else s(o, j, r.choice(w)) if q < 0.93 else {"t": "copy", "o": o}
    cs = [{"e": [g(o, j) for o in (0, 1) for j in (0, 1, 2, 3, 0)]}]
    for x in w:      # one text in one field, in all
        cs += [{"e": [s(0, j, x)] + [g(o, k) for o in (0, 1) for k in range(4)]} for j in range(4)]
        cs.append({"e": [s(0, j, x) for j in range(4)] + [g(0, k) for k in range(4)]})
    for _ in range(n):
        e = [s(o, j, r.choice(w)) for o in (0, 1) for j in range(4)]
        cs.append({"e": e + [step() for _ in range(r.randint(4, 20))]})
    return batch("desc", cs)


OTHER = ("int0 int-1 int7 int8 int64 uint uint8 uint32 rune float0 float32 complex true false byte1 byte0 bytes empty structs named named0 error duration "
         "pointer channel nilpointer type code array uintptr time").split()


def configs(r, n=300):
    cs = [{"g": g} for g in ("sm", "im", "smnil", "imnil", "nil", "int", "str", "slice", "ss", "si", "is", "psm", "pim", "struct", "bool", "bytes", "ifs")]
    for x in OTHER:
        for e in ([], [{"t": "s", "k": "a", "v": 8}], [{"t": "s", "k": k, "v": 4} for k in "abcdefghijkl"]):
            cs += [{"g": "im", "e": e + [{"t": "x", "k": x, "v": v}]} for v in (4, 5, 7)]
    names = ["", "a", "b", "A", "a.b", "é", "long key with spaces", "\x00", "true", "1", "nil", "0"]
    for _ in range(n):
        k = r.choice([0, 1, 1, 2, 3, 5, 8, 12])
        ks = r.sample(names, k)
        e = [{"t": "s", "k": x, "v": r.randrange(4, 1000)} for x in ks]
        g = r.choice(["sm", "im", "im"])
        if g == "im" and r.random() < 0.5:
            bad = r.sample(["i", "b", "n", "f", "a", "p"], r.choice([1, 1, 1, 2, 3]))
            e += [{"t": t, "k": "k", "v": r.randrange(4, 1000)} for t in bad]
            if r.random() < 0.5: e = [x for x in e if x["t"] == "s"] + [{"t": "x", "k": y, "v": r.randrange(4, 1000)} for y in r.sample(OTHER, r.choice([1, 1, 2]))]
            if r.random() < 0.2: e = [x for x in e if x["t"] != "s"]
        r.shuffle(e)
        # several times: the order of iteration over a map differs
        cs += [{"g": g, "e": e}] * (4 if any(x["t"] != "s" for x in e) else 1)
    for k in (17, 65, 129, 300):  # many entries, all fine or one bad
        for g in ("sm", "im", "im", "im"):
            e = [{"t": "s", "k": "k%d" % j, "v": 4 + j} for j in range(k)]
            if r.random() < 0.5 and g == "im": e.append({"t": r.choice("ibnfap"), "k": "k", "v": 5})
            r.shuffle(e)
            cs.append({"g": g, "e": e})
    cs += [{"g": g, "e": [{"t": "s", "k": "n" * k, "v": v}]} for g in ("sm", "im") for k in (64, 256, 1000) for v in range(4, 18)]
    return batch("cfg", cs, 50)


def clocks(r, th):
    """histories on a clock that is set: far times, boundaries to the nanosecond, the cap, clones, other calls in between"""
    def T(s, ns): return [(s + ns // 10 ** 9) // 65536, (s + ns // 10 ** 9) % 65536, ns % 10 ** 9]
    far = [0, 1, 2, 59, 3600, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 9223372036, 10 ** 10]
    cs = []
    for _ in range(12000 if th else 1200):
        base = (r.choice([1, 86399, 2 ** 31 - 2, 2 ** 31, 2 ** 32 - 1, 1700000000, 1700000000, 4102444800]), r.choice([0, 1, 5 * 10 ** 8, 999999999, r.randrange(10 ** 9)]))
        now = 0     # nanoseconds
        at = {1: None, 2: None, 3: None}
        x = []
        for _ in range(r.randint(3, 22)):
            k = r.choices(["tick", "set", "clear", "new", "clone", "use", "ask"], [6, 4, 0.5, 0.5, 3, 3, 8])[0]
            o = r.randint(1, 3)
            if k == "tick":
                live = [a - now for a in at.values() if a is not None and a > now]
                d = r.choice([1, 10 ** 9, 10 ** 9 - 1, 10 ** 9 + 1, r.randrange(10 ** 10), r.choice(far) * 10 ** 9, 5 * 10 ** 8])
                if live and r.random() < 0.7: d = max(0, r.choice(live) - r.choice([0, 1, -1, 10 ** 9, 10 ** 9 + 1, 10 ** 9 - 1, 2 * 10 ** 9, 2 * 10 ** 9 - 1, 5 * 10 ** 8, (2 ** 32 - 1) * 10 ** 9, 2 ** 32 * 10 ** 9]))
                now += d
                x.append({"t": k, "s": T(d // 10 ** 9, d % 10 ** 9)})
            elif k == "set":
                a = now + r.choice([1, 1, 1, -1]) * r.choice(far) * 10 ** 9 + r.choice([0, 0, 1, -1, 5 * 10 ** 8, r.randrange(10 ** 9)])
                at[o] = a
                x.append({"t": k, "o": o, "s": T(a // 10 ** 9, a % 10 ** 9), "v": r.randrange(3)})
            elif k == "clone":
                p = r.randint(1, 3)
                at[p] = at[o]
                x.append({"t": k, "o": o, "p": p, "v": r.choice([3, 4, 5])})
            else:
                if k in ("clear", "new"): at[o] = None
                x.append({"t": k, "o": o, "v": r.choice([3, 4, 5]) if k == "new" else r.randrange(6)})
        x += [{"t": "ask", "o": o} for o in (1, 2, 3)]
        cs.append({"s": base[0], "ns": base[1], "q": r.randrange(3), "n": r.randrange(3), "x": x})
    return batch("clk", cs, 40)


def expiries(r, n=600):
    cs = [{"g": "none"}, {"g": "cleared"}]
    secs = [0, 1, 2, 3, 59, 60, 3599, 3600, 86400, 65535, 65536, 65537, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1,
            5 * 10 ** 9, 9 * 10 ** 9, 9223372036]
    nss = [0, 1, 1000, 10 ** 5, 10 ** 6, 10 ** 8, 4 * 10 ** 8, 499999999, 5 * 10 ** 8, 500000001, 9 * 10 ** 8, 998 * 10 ** 6, 999999999]
    for s in secs:
        for sg in (1, -1):
            for ns in nss:
                if s > 9 * 10 ** 9: continue
                cs.append({"g": "set", "s": sg * s, "ns": ns, "q": r.randrange(3)})
    for s in (1, 1000000000, 253402300799, 10 ** 10, 2 ** 33, 2 ** 34, 9223372036, 9223372037, 11000000000, 18446744073, 20000000000, 10 ** 11, -10 ** 9,
              -9223372036, -9223372037, -10 ** 10, -62135596700, -62135596799):
        for ns in (0, 1, 999999999):
            cs.append({"g": "abs", "s": s, "ns": ns, "q": r.randrange(3)})
    for _ in range(n):
        cs.append({"g": "set", "s": r.choice([r.randrange(-5, 6), r.randrange(-10 ** 5, 10 ** 5), r.randrange(2 ** 33)]), "ns": r.randrange(10 ** 9), "q": r.randrange(3)})
    return batch("exp", cs, 50)
