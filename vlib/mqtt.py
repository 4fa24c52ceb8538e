"""Random MQTT packets as labelled segments. Only a generator: what is right is decided by the specification."""

CONNECT, CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, PINGREQ, \
    PINGRESP, DISCONNECT, AUTH = range(1, 16)
ACKS = (PUBACK, PUBREC, PUBREL, PUBCOMP)
IDT = ACKS + (SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK)
PROPS = [1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42]


def ptype(i):
    if i in (1, 23, 25, 36, 37, 40, 41, 42): return "u8"
    if i in (19, 33, 34, 35): return "u16"
    if i in (2, 17, 24, 39): return "u32"
    if i == 11: return "var"
    if i in (9, 22): return "bin"
    if i == 38: return "pair"
    return "str"


def allowed(i, t):
    if i in (1, 2, 3, 8, 9, 35, 24): return t == PUBLISH
    if i == 11: return t in (PUBLISH, SUBSCRIBE)
    if i == 17: return t in (CONNECT, CONNACK, DISCONNECT)
    if i in (18, 19, 26, 36, 37, 40, 41, 42): return t == CONNACK
    if i in (21, 22): return t in (CONNECT, CONNACK, AUTH)
    if i in (23, 25): return t == CONNECT
    if i == 28: return t in (CONNACK, DISCONNECT)
    if i == 31: return t in ACKS + (CONNACK, SUBACK, UNSUBACK, DISCONNECT, AUTH)
    if i in (33, 34, 39): return t in (CONNECT, CONNACK)
    if i == 38: return t not in (PINGREQ, PINGRESP)
    return False


CODES = {
    CONNACK: ([0, 1, 2, 3, 4, 5], [0, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153,
                                   154, 155, 156, 157, 159]),
    PUBACK: ([], [0, 16, 128, 131, 135, 144, 145, 151, 153]),
    PUBREL: ([], [0, 146]),
    SUBACK: ([0, 1, 2, 128], [0, 1, 2, 128, 131, 135, 143, 145, 151, 158, 161, 162]),
    UNSUBACK: ([], [0, 17, 128, 131, 135, 143, 145]),
    DISCONNECT: ([], [0, 4, 128, 129, 130, 131, 135, 137, 139, 141, 142, 143, 144, 147, 148, 149, 150, 151, 152, 153,
                      154, 155, 156, 157, 158, 159, 160, 161, 162]),
    AUTH: ([], [0, 24, 25]),
}
CODES[PUBREC] = CODES[PUBACK]
CODES[PUBCOMP] = CODES[PUBREL]


def codes(t, v):
    return CODES[t][1 if v == 5 else 0]


def u16(n): return bytes([n >> 8 & 255, n & 255])
def lp(b): return u16(len(b)) + b


def varint(n):
    out = bytearray()
    while True:
        c = n & 127
        n >>= 7
        if n:
            out.append(c | 128)
        else:
            out.append(c)
            return bytes(out)


UNI = ["a", "b", "Z", "0", "é", "ß", "€", "漢", "𐍈", "\U0010ffff", "\ud7ff", "\ue000", "\u0800", "\u07ff", "\x7e", " ", "\u00a0",
       "-", "_", ".", "\ufffd", "\U00010000"]
BADUTF = [b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\x80", b"\xe2\x82", b"\xf4\x90\x80\x80", b"\xf0\x80\x80\x80", b"\xc1\xbf",
          b"\xe0\x9f\xbf", b"\xf5\x80\x80\x80", b"a\xc3", b"\xed\xbf\xbf", b"\xf8\x88\x80\x80\x80", b"\xfe", b"\xf0\x8f\xbf\xbf"]
CTRL = ["\x00", "\x01", "\x1f", "\x7f", "\x80", "\x9f", "\n", "\t"]


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.pool = None        # kind -> the few values to take

    def few(self):
        """from now on only a few values, which look alike: the same length, beginning or end"""
        r = self.r
        n = r.choice([1, 2, 5, 9, 17, 40])
        c = lambda a: "".join(r.choice(a) for _ in range(n))
        x = c("abc")
        tx = [x, x[1:] + x[0], x[:-1] + "d", "d" + x[1:], c("abc")]
        top = [t.encode() for t in tx] + [("/".join(t)[:n] + "e").encode() for t in tx[:3]]
        self.pool = {"topic": top, "filter": top + [b"+/" + top[0], top[1] + b"/#", b"$share/g/" + top[0], b"$share/h/" + top[0], b"$S/" + top[1]],
                     "clientid": [t.encode() for t in tx], "uni": tx, "blob": [t.encode() for t in tx]}

    def pooled(self, kind):
        return self.r.choice(self.pool[kind]) if self.pool and self.r.random() < 0.85 else None

    def n(self, hi, p=0.5):
        """small number, geometric"""
        k = 0
        while k < hi and self.r.random() > p:
            k += 1
        return k

    def uni(self, lo=0, hi=6):
        if x := self.pooled("uni"): return x
        return "".join(self.r.choice(UNI) for _ in range(self.r.randint(lo, hi)))

    def level(self):
        return self.r.choice(["a", "b", "", "sport", "é", "漢字", "$SYS", "x y", "1"]) if self.r.random() < 0.8 else self.uni(0, 3)

    def topic(self, empty=False):
        if x := self.pooled("topic"): return x
        if self.r.random() < 0.015: return self.longtopic()
        while True:
            s = "/".join(self.level() for _ in range(1 + self.n(3)))
            if s or empty:
                return s.encode()

    def longtopic(self):
        n = self.r.choice([17, 33, 65, 100, 127, 128, 129, 200, 255, 256, 257])
        k = self.r.random()
        return (b"a/" * n if k < 0.3 else b"/" * n if k < 0.4 else b"t" * n if k < 0.8 else "é".encode() * n)[: self.r.choice([n, 2 * n]) & ~1] + b"x"

    def filter(self):
        if x := self.pooled("filter"): return x
        if self.r.random() < 0.015: return self.longtopic() + self.r.choice([b"", b"", b"/#", b"/+"])
        while True:
            lv = [self.level() if self.r.random() < 0.6 else "+" for _ in range(1 + self.n(4))]
            if self.r.random() < 0.3:
                lv.append("#")
            s = "/".join(lv)
            k = self.r.random()
            if k < 0.12:
                s = "$share/" + self.r.choice(["g", "group", "é", "$x", " "]) + "/" + (s or "a")
            elif k < 0.2:
                s = self.r.choice(["$SYS", "$", "$x", "$shar", "$shared"]) + "/" + s
            if s == "" or (s[0] == "$" and "/" not in s):
                continue
            if s.startswith("$share/") and k >= 0.12:
                continue
            return s.encode()

    def badfilter(self):
        return self.r.choice([b"", b"a+", b"+a", b"a/#/b", b"#/a", b"a#", b"a/b#", b"++", b"a/+b", b"$x", b"$share", b"$share/", b"$share/g",
                              b"$share/g/", b"$share//a", b"$share/+/a", b"$share/g#/a", b"$share/g/a+", b"$share/g/#/a", b"##", b"a/##",
                              b"$", b"$SYS", b"$a/#b", b"$share/g/a#", b"/#/", b"+#", b"#+"]
                             + [c.encode() + b"a" for c in CTRL] + [b"a/" + c for c in BADUTF])

    def clientid(self):
        if x := self.pooled("clientid"): return x
        a = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ -_,.|/"
        return "".join(self.r.choice(a) for _ in range(self.r.choice([23, 24, 64, 65, 127, 128, 254, 255, 256, 257, 300]) if self.r.random() < 0.04
                       else self.r.randint(0, 12))).encode()

    def blob(self, hi=24):
        if x := self.pooled("blob"): return x
        k = self.r.random()
        n = self.r.randint(0, hi)
        if k < 0.02:
            n = self.r.choice([126, 127, 128, 129, 255, 256, 300])
        return bytes(self.r.randrange(256) for _ in range(n))

    def id(self):
        return self.r.choice([1, 2, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0xffff, self.r.randint(1, 65535)])

    def value(self, i):
        """bytes of a property value"""
        r = self.r
        t = ptype(i)
        if t != "u8" and r.random() < 0.4:       # any value
            if t == "u16": return u16(r.randint(1, 65535))
            if t == "u32": return r.choice([r.randint(1, 300), r.randint(1, 1 << 17), r.randrange(1, 1 << 32)]).to_bytes(4, "big")
            if t == "var": return varint(r.choice([r.randint(1, 300), r.randint(1, 1 << 17), r.randrange(1, 1 << 28)]))
        if t == "u8": return bytes([r.randint(0, 1)])
        if t == "u16": return u16(r.choice([1, 2, 255, 256, 0x8000, 65535]))
        if t == "u32": return r.choice([0, 1, 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff]).to_bytes(4, "big") \
            if i != 39 else r.choice([1, 255, 65536, 0x80000000, 0xffffffff]).to_bytes(4, "big")
        if t == "var": return varint(r.choice([1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455]))
        if t == "bin": return lp(self.blob())
        if t == "pair": return lp(self.uni().encode()) + lp(self.uni().encode())
        if i == 8: return lp(self.topic())
        return lp(self.uni(0, 8).encode())

    def props(self, t, will=False, density=None):
        """list of (id, value bytes)"""
        ids = [i for i in PROPS if allowed(i, t) and not (t == PUBLISH and (i == 24) != will and i == 24)
               and not (will and i in (11, 35))]
        if density is None:
            density = self.r.choice([0, 0, 0.2, 0.5, 1])
        out = []
        for i in ids:
            if self.r.random() < density:
                out.append((i, self.value(i)))
                while i == 38 and self.r.random() < 0.4 or (i == 11 and t == PUBLISH and self.r.random() < 0.5):
                    out.append((i, self.value(i)))
        if any(i == 22 for i, _ in out) and not any(i == 21 for i, _ in out):
            out = [x for x in out if x[0] != 22]
        self.r.shuffle(out)
        return out

    def propseg(self, t, will=False, density=None):
        b = b"".join(bytes([i]) + v for i, v in self.props(t, will, density))
        return [("plen", varint(len(b))), ("props", b)]

    def packet(self, t, v, **kw):
        """well formed packet: (first byte, segments of the body)"""
        r = self.r
        f = 2 if t in (PUBREL, SUBSCRIBE, UNSUBSCRIBE) else 0
        s = []
        d = kw.get("density")
        if t == CONNECT:
            will, us, pw = r.random() < 0.5, r.random() < 0.5, r.random() < 0.5
            if v < 5 and not us:
                pw = False
            ci = self.clientid()
            clean = r.random() < 0.5 or (v < 5 and not ci)
            if v == 3 and not ci:
                ci = b"c"
            q, rt = (r.randint(0, 2), r.random() < 0.5) if will else (0, False)
            cf = clean * 2 + will * 4 + q * 8 + rt * 32 + pw * 64 + us * 128
            s = [("proto", lp(b"MQIsdp" if v == 3 else b"MQTT")), ("level", bytes([v])), ("cflags", bytes([cf])),
                 ("ka", u16(r.choice([0, 1, 60, 255, 256, 65535, r.randrange(65536)])))]
            if v == 5: s += self.propseg(t, False, d)
            s.append(("lp", lp(ci)))
            if will:
                if v == 5: s += self.propseg(PUBLISH, True, d)
                s += [("lp", lp(self.topic())), ("lp", lp(self.blob()))]
            if us: s.append(("lp", lp(self.uni(0, 5).encode())))
            if pw: s.append(("lp", lp(self.blob())))
        elif t == CONNACK:
            rc = kw.get("rc", r.choice(codes(t, v)))
            sp = r.random() < 0.5 and rc == 0 and v > 3
            s = [("ackflags", bytes([sp])), ("code", bytes([rc]))]
            if v == 5: s += self.propseg(t, False, d)
        elif t == PUBLISH:
            q = kw.get("q", r.randint(0, 2))
            f = q * 2 + r.randint(0, 1) + (8 * r.randint(0, 1) if q else 0)
            p = self.propseg(t, False, d)
            tp = self.topic()
            if v == 5 and r.random() < 0.15:
                tp = b""
                pb = b"\x23" + u16(r.randint(1, 65535)) + b"".join(bytes([i]) + x for i, x in self.props(t) if i != 35)
                p = [("plen", varint(len(pb))), ("props", pb)]
            s = [("lp", lp(tp))]
            if q: s.append(("id", u16(self.id())))
            if v == 5: s += p
            s.append(("payload", self.blob(kw.get("payload", 24))))
        elif t in ACKS:
            s = [("id", u16(self.id()))]
            if v == 5 and r.random() < 0.8:
                s.append(("code", bytes([kw.get("rc", r.choice(codes(t, v)))])))
                if r.random() < 0.8: s += self.propseg(t, False, d)
        elif t in (SUBSCRIBE, UNSUBSCRIBE):
            s = [("id", u16(self.id()))]
            if v == 5: s += self.propseg(t, False, d)
            for _ in range(kw.get("topics", 1 + self.n(4))):
                x = self.filter()
                s.append(("lp", lp(x)))
                if t == SUBSCRIBE:
                    o = r.randint(0, 2)
                    if v == 5: o += 4 * (r.randint(0, 1) if not x.startswith(b"$share/") else 0) + 8 * r.randint(0, 1) + 16 * r.randint(0, 2)
                    s.append(("opt", bytes([o])))
        elif t in (SUBACK, UNSUBACK):
            s = [("id", u16(self.id()))]
            if v == 5: s += self.propseg(t, False, d)
            if t == SUBACK or v == 5:
                s.append(("codes", bytes(r.choice(codes(t, v)) for _ in range(1 + self.n(6)))))
        elif t == DISCONNECT:
            if v == 5 and r.random() < 0.85:
                s = [("code", bytes([kw.get("rc", r.choice(codes(t, v)))]))] + self.propseg(t, False, d)
        elif t == AUTH:
            if r.random() < 0.9:
                p = self.propseg(t, False, d)
                s = [("code", bytes([kw.get("rc", r.choice(codes(t, v)))]))] + p
        return t * 16 + f, s


def join(first, segs, remlen=None):
    b = b"".join(x for _, x in segs)
    return bytes([first]) + (varint(len(b)) if remlen is None else remlen) + b


def mutate(g, first, segs):
    """one structural mutation; returns bytes"""
    r = g.r
    segs = list(segs)
    k = r.randrange(16)
    if not segs:
        k = r.choice([0, 1, 2, 14])
    if k == 0:      # header flags, type
        return join(first ^ (1 << r.randrange(8)), segs)
    if k == 1:      # remaining length
        n = sum(len(x) for _, x in segs)
        return join(first, segs, r.choice([varint(n + 1), varint(max(0, n - 1)), varint(n) + b"" if n > 127 else bytes([n | 128, 0]),
                                           b"\xff\xff\xff\x7f", b"\x80\x80\x80\x80\x01", b"\xff\xff\xff\xff", b"\xff\xff\xff\xff\x7f",
                                           b"\x80\x80\x00", varint(n + r.randint(2, 300))]))
    if k == 2 or not segs:      # bytes left over
        segs.append(("extra", bytes(r.randrange(256) for _ in range(r.randint(1, 4)))))
        return join(first, segs)
    i = r.randrange(len(segs))
    nm, x = segs[i]
    if k == 3:      # cut the packet anywhere, length corrected
        b = b"".join(y for _, y in segs)
        c = r.randrange(len(b) + 1)
        return join(first, [("", b[:c])])
    if k == 4:
        del segs[i]
    elif k == 5:
        segs.insert(i, segs[i])
    elif k == 6 and x:      # flip a bit
        j = r.randrange(len(x))
        segs[i] = (nm, x[:j] + bytes([x[j] ^ (1 << r.randrange(8))]) + x[j + 1:])
    elif k == 7 and x:      # set a byte
        j = r.randrange(len(x))
        segs[i] = (nm, x[:j] + bytes([r.choice([0, 1, 3, 127, 128, 255, r.randrange(256)])]) + x[j + 1:])
    elif k == 8 and x:      # cut a segment
        segs[i] = (nm, x[:r.randrange(len(x))])
    elif k == 9:
        segs[i] = (nm, x + bytes([r.randrange(256)]))
    elif k == 10:           # length prefixes
        for j, (nn, y) in enumerate(segs):
            if nn == "lp" and r.random() < 0.5:
                segs[j] = (nn, u16(max(0, min(65535, len(y) - 2 + r.choice([-1, 1, 2, 255, 65535])))) + y[2:])
    elif k == 11:           # property length
        for j, (nn, y) in enumerate(segs):
            if nn == "plen":
                n = len(segs[j + 1][1])
                segs[j] = (nn, r.choice([varint(n + 1), varint(max(0, n - 1)), bytes([n & 127 | 128, n >> 7]) if n > 127 else bytes([n | 128, 0]),
                                         b"", b"\xff\xff\xff\xff\x7f", varint(n + 7), b"\xff\xff\xff\x7f", b"\x80", varint(max(0, n - 2))]))
                if r.random() < 0.7: break
    elif k == 12:           # text
        for j, (nn, y) in enumerate(segs):
            if nn == "lp" and r.random() < 0.6:
                z = y[2:] + r.choice(BADUTF + [c.encode() for c in CTRL] + [b"+", b"#", b"/#", b"/+"])
                segs[j] = (nn, lp(z))
    elif k == 13:           # properties: repeat, unknown, not allowed, not minimal
        for j, (nn, y) in enumerate(segs):
            if nn == "props":
                t = first >> 4
                i2 = r.choice(PROPS)
                add = r.choice([bytes([i2]) + g.value(i2), bytes([r.randrange(256)]) + b"\x00\x00", bytes([i2 | 128, 0]) + g.value(i2),
                                y[:0] + y, bytes([i2]) + g.value(i2)[:-1]])
                z = y + add if r.random() < 0.6 else add + y
                segs[j] = (nn, z)
                if j and segs[j - 1][0] == "plen":
                    segs[j - 1] = ("plen", varint(len(z)))
                if r.random() < 0.7: break
    elif k == 14:           # bit flips anywhere
        b = bytearray(join(first, segs))
        for _ in range(r.randint(1, 3)):
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        return bytes(b)
    elif k == 15:           # code, options, flags
        for j, (nn, y) in enumerate(segs):
            if nn in ("code", "opt", "cflags", "level", "ackflags", "codes") and y:
                q = r.randrange(len(y))
                segs[j] = (nn, y[:q] + bytes([r.randrange(256)]) + y[q + 1:])
    return join(first, segs)
