"""Families of scenarios: what is called on the real code. Nothing here decides what is right."""
import itertools
import mqtt
from mqtt import *
from hist import Hist, V

VT = [(v, t) for v in (3, 4, 5) for t in range(1, 16) if t < 15 or v == 5]


def pick(r):
    v, t = r.choice(VT)
    if v < 5 and r.random() < 0.5: v = 5
    return v, t


def dec(b, v, o=1, **kw):
    return dict({"op": "dec", "o": o, "v": v, "b": list(b)}, **kw)


def enc(o, d=0, f=0, k=0, **kw):
    return dict({"op": "enc", "o": o, "d": d, "f": f, "k": k}, **kw)


# ------------------------------------------------------------------ received packets
def packets(r, n, muts=8, types=None, x=None, density=None):
    """well formed packets decoded, encoded, decoded again; and broken variants of them"""
    g = Gen(r)
    sc = []
    for _ in range(n):
        v, t = pick(r)
        if types: t = r.choice(types); v = 5 if t == AUTH else v
        f, s = g.packet(t, v, **({"density": density} if density is not None else {}))
        b = join(f, s)
        sc.append({"ev": [dec(b, v), enc(1, r.choice([0, 1, 5, -1]), r.randrange(256), 3), {"op": "redec", "o": 1, "p": 2}, enc(2, 0, 255)]})
        if muts:
            ms = [mutate(g, f, s) for _ in range(muts)]
            sc.append({"ev": [dec(m, v if r.random() < 0.9 else r.choice([3, 4, 5])) for m in ms]})
    return sc


def garbage(r, n):
    """bytes that are mostly no packets"""
    g = Gen(r)
    sc = []
    for _ in range(n):
        ev = []
        for _ in range(8):
            k = r.random()
            v = r.choice([3, 4, 5])
            if k < 0.25:
                b = bytes(r.randrange(256) for _ in range(r.randint(0, 20)))
            elif k < 0.5:       # plausible first byte and length
                t = r.randint(0, 15)
                body = bytes(r.choice([0, 0, 0, 1, 2, 4, 5, 35, 38, 77, 81, 84, 127, 128, 255, r.randrange(256)]) for _ in range(r.randint(0, 24)))
                b = bytes([t * 16 + (2 if t in (6, 8, 10) else 0)]) + varint(len(body)) + body
            elif k < 0.6:
                b = bytes([r.randrange(256)]) + bytes(r.choice([0x7f, 0x80, 0xff, 0, 1]) for _ in range(r.randint(0, 7)))
            else:
                vv, t = pick(r)
                f, s = g.packet(t, vv)
                b = bytearray(join(f, s))
                for _ in range(r.randint(1, 4)):
                    j = r.randrange(len(b))
                    q = r.randrange(5)
                    if q == 0: b[j] = r.randrange(256)
                    elif q == 1: del b[j]
                    elif q == 2: b.insert(j, r.randrange(256))
                    elif q == 3: b = b[:j] + b[r.randrange(len(b)):] or bytearray(1)
                    else: b[j] ^= 1 << r.randrange(8)
                    if not b: b = bytearray(1)
                if r.random() < 0.5:      # the header fits again
                    b = bytes([b[0]]) + varint(max(0, len(b) - 2)) + bytes(b[2:])
                v = vv
            ev.append(dec(bytes(b), v))
        sc.append({"ev": ev})
    return sc


def nested(r, n):
    """lengths that claim much more than there is"""
    sc = []
    for _ in range(n):
        ev = []
        for _ in range(6):
            v, t = pick(r)
            body = b"".join(r.choice([b"\xff\xff", b"\xff\xff\xff\x7f", b"\xff\xff\xff\xff\x0f", b"\x26\xff\xff", b"\x00\x04MQTT\x05\xff", b"\x0b\xff\xff\xff\x7f",
                                      b"\x00\x01", b"\x80\x80\x01", b"\x7f", b"\x26\x00\x01a\xff\xff", b"\x09\xff\xff", b"\x16\x7f\xff"])
                            for _ in range(r.randint(1, 6)))
            ev.append(dec(bytes([t * 16 + (2 if t in (6, 8, 10) else 0)]) + varint(len(body)) + body, v))
        sc.append({"ev": ev})
    return sc


def prefixes(r, n, every=24):
    """all prefixes of packets, packets with bytes after their end, lengths in every encoding"""
    g = Gen(r)
    sc = []
    for _ in range(n):
        v, t = pick(r)
        f, s = g.packet(t, v, payload=r.choice([4, 24, 24, 24]), density=r.choice([0, 0, 0.1]))
        b = join(f, s)
        if r.random() < 0.15:     # broken, but complete
            b = mutate(g, f, s)
        cuts = range(len(b)) if len(b) <= every else sorted(set(list(range(7)) + r.sample(range(len(b)), every - 8) + [len(b) - 1]))
        sc.append({"ev": [dec(b[:c], v, x=["C02"]) for c in cuts]})
        nx = join(*g.packet(*reversed(pick(r))))
        sc.append({"ev": [dec(b + e, v, x=["C02"]) for e in (b"\x00", nx[:1], nx, b, bytes([b[0]]) * 3, b"\xff" * 8)]})
    for v in (3, 4, 5):
        for first in (0x10, 0x20, 0x30, 0x32, 0x3d, 0x3f, 0x40, 0x62, 0x60, 0x82, 0xc0, 0xd0, 0xe0, 0xf0, 0x00, 0x21):
            ev = []
            for ln in (b"", b"\x00", b"\x80", b"\x80\x00", b"\x80\x80", b"\x80\x80\x00", b"\xff\xff\xff", b"\x80\x80\x80\x00", b"\x80\x80\x80\x01", b"\xff\xff\xff\x7f",
                       b"\x80\x80\x80\x80", b"\x80\x80\x80\x80\x00", b"\x80\x80\x80\x80\x01", b"\xff\xff\xff\xff", b"\xff\xff\xff\xff\x0f", b"\xff\xff\xff\xff\x7f",
                       b"\xff\xff\xff\xff\xff", b"\xff" * 9 + b"\x01", b"\xff" * 10, b"\x80" * 9 + b"\x01", b"\x80" * 10 + b"\x01", b"\x82\x00", b"\x02", b"\x7f", b"\xff\x01"):
                for rest in (b"", b"\x00", b"\x00\x01", b"\x00\x00\x01"):
                    ev.append(dec(bytes([first]) + ln + rest, v))
            sc.append({"ev": ev})
    return sc


def streams(r, n, maxp=5):
    """packet sequences cut into chunks"""
    g = Gen(r)
    sc = []
    for k in range(n):
        v = r.choice([3, 4, 5])
        ps = []
        for _ in range(r.randint(1, maxp)):
            t = r.choice([t for vv, t in VT if vv == v])
            big = r.random() < 0.1
            if big:
                body = g.topic()
                pl = bytes(r.randrange(256) for _ in range(r.choice([110, 120, 125, 126, 127, 128, 129, 300])))
                ps.append(join(0x30, [("lp", lp(body))] + ([("plen", b"\0")] if v == 5 else []) + [("payload", pl)]))
            else:
                ps.append(join(*g.packet(t, v, density=r.choice([0, 0, 0.2]))))
        b = b"".join(ps)
        mode = r.randrange(6)
        cuts = []
        if mode == 0: cuts = [1] * len(b)
        elif mode == 1: cuts = [len(b)]
        elif mode == 2:
            for p in ps: cuts += [len(p)]
        elif mode == 3:      # around packet boundaries
            off = r.choice([1, -1, 2])
            c = 0
            pos = []
            for p in ps:
                c += len(p)
                pos.append(min(len(b), max(0, c + off)))
            pos = sorted(set(pos + [len(b)]))
            cuts = [y - x for x, y in zip([0] + pos, pos) if y > x]
        else:
            hi = r.choice([2, 3, 7, 20, 200])
            left = len(b)
            while left:
                c = min(left, r.randint(1, hi))
                cuts.append(c)
                left -= c
        sc.append({"ev": [{"op": "stream", "o": 0, "v": v, "b": list(b), "n": len(ps), "cuts": cuts}]})
    return sc


def everycut(r, n, size=12):
    """short packet sequences under every way of cutting them in up to four chunks"""
    g = Gen(r)
    sc = []
    for _ in range(n):
        v = r.choice([4, 5])
        ps, tot = [], 0
        while True:
            t = r.choice([PINGREQ, PUBACK, PUBREL, PUBLISH, DISCONNECT, UNSUBACK, CONNACK])
            f, s = g.packet(t, v, density=0, payload=3)
            p = join(f, s)
            if tot + len(p) > size: break
            ps.append(p)
            tot += len(p)
        if not ps: continue
        b = b"".join(ps)
        for k in range(0, 4):
            for c in itertools.combinations(range(1, len(b)), k):
                pos = list(c) + [len(b)]
                sc.append({"ev": [{"op": "stream", "o": 0, "v": v, "b": list(b), "n": len(ps), "cuts": [y - x for x, y in zip([0] + pos, pos)]}]})
    return sc


def propblocks(r, n):
    """property blocks: right ones, and one rule broken at a time"""
    g = Gen(r)
    sc = []
    for k in range(n):
        t = r.choice([t for t in range(1, 16) if t not in (PINGREQ, PINGRESP)])
        will = t == CONNECT and r.random() < 0.5
        ev = []
        for _ in range(8):
            ps = g.props(PUBLISH if will else t, will, r.choice([0, 0.1, 0.3, 0.6, 1]))
            enc1 = [bytes([i]) + x for i, x in ps]
            q = r.randrange(14)
            ln = None
            if q == 0 and enc1: enc1.append(r.choice(enc1))                 # repeated
            elif q == 1:                                                       # any property, maybe not allowed
                i = r.choice(PROPS)
                enc1.insert(r.randint(0, len(enc1)), bytes([i]) + g.value(i))
            elif q == 2: enc1.insert(r.randint(0, len(enc1)), bytes([r.choice([0, 4, 5, 10, 12, 16, 20, 27, 29, 32, 43, 44, 100, 127])]) + b"\0\0")
            elif q == 3 and ps:                                                # identifier not minimal
                j = r.randrange(len(ps))
                enc1[j] = bytes([ps[j][0] | 128]) + r.choice([b"\0", b"\x80\0", b"\x80\x80\0"]) + ps[j][1]
            elif q == 4 and enc1: enc1[-1] = enc1[-1][:-1]                     # cut short
            elif q == 5:                                                       # overruns the block
                ln = max(0, sum(map(len, enc1)) + r.choice([-2, -1, 1, 2, 5, 100]))
            elif q == 6:                                                       # varint value
                enc1.append(b"\x0b" + r.choice([b"\0", b"\x80\0", b"\x81\0", b"\xff\xff\xff\x7f", b"\xff\xff\xff\xff", b"\xff\xff\xff\xff\x01", b"\x80\x80\x80\x01",
                                                b"\x80\x80\x80\x80\x01", b"\x80\x80\x01", b"\x80\x01", b"\xff"]))
            elif q == 7:                                                       # text
                enc1.append(b"\x26" + lp(r.choice(mqtt.BADUTF + [b"a"])) + lp(r.choice(mqtt.BADUTF + [b"b", b"b"])))
            elif q == 8:
                i = r.choice([3, 8, 18, 21, 26, 28, 31])
                enc1.append(bytes([i]) + lp(r.choice(mqtt.BADUTF)))
            elif q == 9:                                                       # several subscription ids
                enc1 += [b"\x0b" + varint(r.choice([1, 127, 128, 16384, 268435455])) for _ in range(r.randint(1, 4))]
                r.shuffle(enc1)
            elif q == 10:                                                      # id beyond a byte
                i = r.choice(PROPS)
                enc1.append(bytes([i | 128, r.choice([1, 2, 127])]) + g.value(i))
            blk = b"".join(enc1)
            n1 = len(blk) if ln is None else ln
            lv = varint(n1)
            if q == 11: lv = bytes([n1 & 127 | 128, n1 >> 7]) + (b"" if n1 > 127 else b"") if n1 < 128 else lv
            if q == 12: lv = r.choice([b"\xff\xff\xff\xff\x7f", b"\xff\xff\xff\x7f", b"\x80\x80\x80\x80\x00", b"\xff", lv[:-1]])
            f, s = g.packet(t, 5, density=0)
            idx = [j for j, (nm, _) in enumerate(s) if nm == "plen"]
            if t == CONNECT:
                while will != (len(idx) == 2):
                    f, s = g.packet(t, 5, density=0)
                    idx = [j for j, (nm, _) in enumerate(s) if nm == "plen"]
                    if not will: break
                idx = idx[1:] if will else idx
            if not idx:
                if t in ACKS: s = s[:1] + [("code", b"\0"), ("plen", b""), ("props", b"")]
                elif t in (DISCONNECT, AUTH): s = [("code", b"\0"), ("plen", b""), ("props", b"")]
                else: continue
                idx = [j for j, (nm, _) in enumerate(s) if nm == "plen"]
            j = idx[0]
            s = s[:j] + [("plen", lv), ("props", blk)] + s[j + 2:]
            ev.append(dec(join(f, s), 5))
        sc.append({"ev": ev})
    return sc


def held(t, pb):
    """a packet of a type (16: a CONNECT whose will) with the property block pb"""
    T = {CONNECT: lambda: join(0x10, [("", lp(b"MQTT") + b"\5\2\0\7" + pb + lp(b"c"))]),
         16: lambda: join(0x10, [("", lp(b"MQTT") + b"\5\6\0\7\0" + lp(b"c") + pb + lp(b"w") + lp(b"p"))]),
         CONNACK: lambda: join(0x20, [("", b"\0\0" + pb)]),
         PUBLISH: lambda: join(0x32, [("", lp(b"t") + b"\0\1" + pb + b"x")]),
         SUBSCRIBE: lambda: join(0x82, [("", b"\0\1" + pb + lp(b"t") + b"\1")]),
         UNSUBSCRIBE: lambda: join(0xa2, [("", b"\0\1" + pb + lp(b"t"))]),
         SUBACK: lambda: join(0x90, [("", b"\0\1" + pb + b"\1")]),
         UNSUBACK: lambda: join(0xb0, [("", b"\0\1" + pb + b"\0")]),
         DISCONNECT: lambda: join(0xe0, [("", b"\0" + pb)]), AUTH: lambda: join(0xf0, [("", b"\x18" + pb)]),
         PINGREQ: lambda: join(0xc0, [("", pb)]), PINGRESP: lambda: join(0xd0, [("", pb)])}
    return T[t]() if t in T else join(t * 16 + (2 if t == 6 else 0), [("", b"\0\1\0" + pb)])


def eachprop(r):
    """every property in every packet type: once, twice, and as will property"""
    g = Gen(r)
    sc = []
    for t in range(1, 17):          # 16: will
        ev = []
        for i in PROPS + [0, 4, 10, 43]:
            for rep in (1, 2):
                val = lambda: g.value(i) if i in PROPS else b"\0"
                blk = b"".join(bytes([i]) + val() for _ in range(rep))
                if i == 22 and r.random() < 0.5: blk = b"\x15" + lp(b"m") + blk
                ev += [dec(held(t, varint(len(blk)) + blk), 5), enc(1, 0, 9)]
        sc.append({"ev": ev})
    return sc


BADTEXT = [b"\xff", b"\x80", b"\xc3", b"\xc0\x80", b"\xed\xa0\x80", b"\xe2\x82", b"\xf4\x90\x80\x80", b"\xf0\x80\x80\xaf"]
GOODTEXT = [b"\xc3\xa9", b"\xed\x9f\xbf", b"\xee\x80\x80", b"\xf4\x8f\xbf\xbf", b"\xe2\x82\xac"]
NEAR = [b"", b"a", b"\xc3\xa9", b"b" * 130]


def proptexts(r):
    """every text of a property block with a byte sequence that is no text, or one that just is, whatever its neighbours are"""
    ids = {1: [21], 2: [18, 21, 26, 28, 31], 3: [3, 8], 4: [31], 5: [31], 6: [31], 7: [31], 8: [], 9: [31], 10: [], 11: [31], 14: [28, 31], 15: [21, 31],
           16: [3, 8]}
    sc = []
    for t in ids:
        ev = []
        def block(first, blk, last): return b"".join(first) + blk + b"".join(last)
        user = lambda k, v: b"\x26" + lp(k) + lp(v)
        others = [[], [user(b"", b"")], [user(b"k", b"v")]]
        for x in r.sample(BADTEXT, 4) + r.sample(GOODTEXT, 2):
            for n in NEAR:
                for y in (x, x + n, n + x):
                    for blk in (user(y, n), user(n, y)):
                        blk = block(r.choice(others), blk, r.choice(others))
                        ev.append(dec(held(t, varint(len(blk)) + blk), 5))
                for i in ids[t]:
                    y = r.choice([x, x + n, n + x])
                    blk = block(r.choice(others), bytes([i]) + lp(y), r.choice(others))
                    ev.append(dec(held(t, varint(len(blk)) + blk), 5))
        r.shuffle(ev)
        sc += [{"ev": ev[k:k + 40]} for k in range(0, len(ev), 40)]
    return sc


def fieldtexts(r):
    """the same for the texts outside property blocks"""
    sc = []
    for v in (3, 4, 5):
        p0 = b"\0" if v == 5 else b""
        head = (lp(b"MQIsdp") if v == 3 else lp(b"MQTT")) + bytes([v])
        ev = []
        def connect(cid, w, u, pw):
            f = 2 + (4 if w is not None else 0) + (128 if u is not None else 0) + (64 if pw is not None else 0)
            x = head + bytes([f]) + b"\0\7" + p0 + lp(cid)
            if w is not None: x += p0 + lp(w) + lp(b"\xff")
            if u is not None: x += lp(u)
            if pw is not None: x += lp(pw)
            return join(0x10, [("", x)])
        for x in BADTEXT[:1] + r.sample(BADTEXT, 3) + r.sample(GOODTEXT, 2):
            for n in NEAR:
                y = r.choice([x, x + n, n + x])
                for w in (None, b"w"):
                    for u in (None, n):
                        ev.append(connect(y, w, u, b"\xff" if u is not None else None))
                    ev.append(connect(n, w, y, r.choice([None, b"", b"\xff"])))
                ev.append(connect(n, y, r.choice([None, b"u"]), None))
                for q in (0, 1, 2):
                    ev.append(join(0x30 + 2 * q, [("", lp(y) + (b"\0\1" if q else b"") + p0 + r.choice([b"", b"x"]))]))
                for ts in ([y], [n or b"t", y], [y, n or b"t"], [b"t", y, b"t"], [b"$share/" + y + b"/t"], [b"$share/g/" + y]):
                    ev.append(join(0x82, [("", b"\0\1" + p0 + b"".join(lp(z) + b"\1" for z in ts))]))
                    ev.append(join(0xa2, [("", b"\0\1" + p0 + b"".join(lp(z) for z in ts))]))
        ev = [dec(b, v) for b in ev]
        r.shuffle(ev)
        sc += [{"ev": ev[k:k + 40]} for k in range(0, len(ev), 40)]
    return sc


# ------------------------------------------------------------------ API histories
def histories(r, n, lo=1, hi=12, types=None, only=None, vs=(3, 4, 5, 5, 5), probe=0.15, finish=True):
    h = Hist(r)
    sc = []
    for _ in range(n):
        t = r.choice(types or range(1, 16))
        v = 5 if t == AUTH else r.choice(vs)
        ev = h.history(t, v, r.randint(lo, hi), only=only, probe=probe)
        sc.append({"ev": ev + (h.finish(1, 2) if finish else [])})
    return sc


def afterdecode(r, n, hi=8, types=None, only=None, vs=(3, 4, 5, 5, 5)):
    """histories that start with a received message"""
    h = Hist(r)
    sc = []
    for _ in range(n):
        t = r.choice(types or range(1, 16))
        v = 5 if t == AUTH else r.choice(vs)
        ev = [dec(join(*h.g.packet(t, v)), v)]
        for _ in range(r.randint(1, hi)):
            ev.append(h.call(1, t, None, only))
            if r.random() < 0.2: ev.append(h.enc(1))
        sc.append({"ev": ev + h.finish(1, 2)})
    return sc


def buffers(r, n):
    """messages encoded into every kind of buffer"""
    h = Hist(r)
    sc = []
    for _ in range(n):
        v, t = pick(r)
        if r.random() < 0.5:
            ev = [dec(join(*h.g.packet(t, v)), v)]
        else:
            ev = h.history(t, v, r.randint(0, 6), probe=0)
        if t == PUBLISH and r.random() < 0.25: ev.append({"op": "pay", "o": 1, "a": list(r.randbytes(1)) * r.choice([257, 600, 1100, 2100])})
        L = r.sample([4096, 70000, -1, -2, -3, -4, -5, -8, 0, 0, 0, 1, 2, 3, 64, 1000, -100000], 8)
        for d in L:
            ev.append(enc(1, d, r.choice([0, 255, 1, 128, r.randrange(256)]), r.choice([0, 1, 7, 31])))
        ev += [enc(1, h=1), enc(1, h=2, n=r.choice([0, 1, 4, 600])), enc(1, 0, 85)]
        if r.random() < 0.5:
            ev.append(h.call(1, t))
            ev += [enc(1, h=2, n=2000, f=255), enc(1, 0, 0), enc(1, 9, 255)]
        sc.append({"ev": ev})
    # every buffer length
    for v, t in VT:
        b = join(*h.g.packet(t, v, density=0.3))
        ev = [dec(b, v)]
        for k in range(0, min(len(b) + 3, 60)):
            ev.append(enc(1, h=2, n=k, f=r.randrange(256), k=r.choice([0, 1])))
        sc.append({"ev": ev})
    # last fields of round sizes
    for n in [(1 << k) + d for k in range(6, 14) for d in (-1, 0, 1)] + [10000, 16384, r.choice([32768, 65535])]:
        for v, b in r.sample(tails(r, n), 2):
            sc.append({"ev": [dec(b, v)] + [enc(1, d, r.choice([255, 170])) for d in (0, 1, r.randint(2, 40), 5000, -1)]})
    return sc


def tails(r, n):
    """packets whose last field is n long, with their versions"""
    x, out = bytes([r.randrange(97, 123)]) * n, []
    for v in (3, 4, 5):
        p0 = b"\0" if v == 5 else b""
        c = lambda f, body: join(0x10, [("", (lp(b"MQIsdp") if v == 3 else lp(b"MQTT")) + bytes([v, f]) + b"\0\7" + p0 + body)])
        out += [(v, p) for p in (c(2, lp(x)), c(0x82, lp(b"c") + lp(x)), c(0xc2, lp(b"c") + lp(b"u") + lp(x)), c(6, lp(b"c") + p0 + lp(b"w") + lp(x)),
                                 join(0x30, [("", lp(x) + p0)]), join(0x32, [("", lp(b"t") + b"\0\1" + p0 + x)]),
                                 join(0xa2, [("", b"\0\1" + p0 + lp(x))]), join(0xa2, [("", b"\0\1" + p0 + lp(b"t") + lp(x))]),
                                 join(0x82, [("", b"\0\1" + p0 + lp(x) + b"\1")]), join(0x90, [("", b"\0\1" + p0 + b"\1" * min(n, 9000))]))]
    user = b"\x26" + lp(b"k") + lp(x) if n < 65536 else b""
    reason = b"\x1f" + lp(x)
    for blk in (user, reason):
        pb = varint(len(blk)) + blk
        out += [(5, held(t, pb)) for t in (2, 4, 5, 6, 7, 14, 15)]
    return out


def propmaps(r, n, hi=14):
    """property calls only, on few properties, so that they meet each other"""
    h = Hist(r)
    sc = []
    for _ in range(n):
        t = r.choice([t for t in range(1, 16) if r.random() < 0.3 or t in (CONNECT, CONNACK, PUBLISH)])
        v = 5 if t == AUTH else r.choice([5, 5, 5, 5, 4, 3])
        ids = [i for i in PROPS if allowed(i, t)] or PROPS
        ids = r.sample(ids, min(len(ids), r.randint(1, 4)))
        ev = [{"op": "new", "o": 1, "t": t, "v": v}] + h.complete(1, t, v)
        for _ in range(r.randint(1, hi)):
            k = r.random()
            if k < 0.55: ev.append(h.pset(1, t, 0.85, ids))
            elif k < 0.63: ev.append(h.pset(1, t, 0.2, ids))
            elif k < 0.68: ev.append({"op": "pdis", "o": 1})
            elif k < 0.76 and t != AUTH: ev.append({"op": "ver", "o": 1, "v": r.choice([3, 4, 5, 5])})
            elif k < 0.88: ev.append(h.enc(1))
            elif k < 0.94: ev.append({"op": "pget", "o": 1, "i": r.choice(ids + PROPS)})
            else: ev.append({"op": "pfor", "o": 1})
        sc.append({"ev": ev + h.finish(1, 2)})
    # every property and kind of value on every packet type
    kinds = ["u8", "u16", "u32", "str", "bin", "pair", "u16s", "u32s", "strs", "bins", "pairs", "int", "i64", "bool", "nil"]
    one = {"u8": V("u8", [1]), "u16": V("u16", [0, 1]), "u32": V("u32", [0, 0, 0, 1]), "str": V("str", b"x"), "bin": V("bin", b"\1\2"), "pair": V("pair", b"k", b"v"),
           "int": V("u8", [3]), "i64": V("u32", [0, 0, 0, 9]), "bool": V("u8", [1])}
    base = {"u16s": "u16", "u32s": "u32", "strs": "str", "bins": "bin", "pairs": "pair"}
    for t in range(1, 16):
        for part in range(2):
            ev = [{"op": "new", "o": 1, "t": t, "v": 5}, {"op": "pset", "o": 1, "i": 38, "g": "pair", "s": [V("pair", b"a", b"b")]}]
            for i in [i for i in PROPS if i % 2 == part]:
                for k in kinds:
                    if not allowed(i, t) and r.random() < 0.7: continue
                    s = [] if k == "nil" else [one[base[k]]] * 2 if k in base else [one[k]]
                    ev.append({"op": "pset", "o": 1, "i": i, "g": k, "s": s})
            ev += h.complete(1, t, 5) + [enc(1, 0, 7)]
            sc.append({"ev": ev})
    return sc


def versions(r, n):
    """one content under changing versions"""
    h = Hist(r)
    sc = []
    for _ in range(n):
        t = r.choice([t for t in range(1, 15)])
        v = r.choice([3, 4, 5])
        if r.random() < 0.4:
            ev = [dec(join(*h.g.packet(t, v)), v)]
        else:
            ev = h.history(t, v, r.randint(1, 8), probe=0)
        for _ in range(r.randint(1, 5)):
            ev.append({"op": "ver", "o": 1, "v": r.choice([3, 4, 5])})
            ev.append(h.enc(1, d=0))
            if r.random() < 0.4: ev.append(h.call(1, t))
            if r.random() < 0.2: ev.append({"op": "pfor", "o": 1})
        sc.append({"ev": ev + h.finish(1, 2)})
    # the same packet given to the decoder under every version
    for _ in range(n):
        v, t = pick(r)
        b = join(*h.g.packet(t, v))
        sc.append({"ev": [dec(b, w, x=["C09"] if t == CONNECT or w == v else None) if t == CONNECT or w == v else dec(b, w) for w in (3, 4, 5)]
                   + [enc(1, 0, 3), {"op": "redec", "o": 1, "p": 2}]})
    for t in range(0, 16):
        for v in (3, 4, 5):
            sc.append({"ev": [{"op": "new", "o": 1, "t": t, "v": v}]})
    return [clean(s) for s in sc]


def clean(s):
    for e in s["ev"]:
        if e.get("x", 1) is None: del e["x"]
    return s


def codesweep(r):
    """all 256 codes, decoded and set"""
    sc = []
    for v in (3, 4, 5):
        for t in (CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH):
            if t == AUTH and v < 5: continue
            ev = []
            for c in range(256):
                p = b"\0" if v == 5 else b""
                body = {CONNACK: bytes([0, c]) + p, SUBACK: b"\0\1" + p + bytes([c]), UNSUBACK: b"\0\1" + p + bytes([c]),
                        DISCONNECT: bytes([c]) + p, AUTH: bytes([c]) + p}.get(t, b"\0\1" + bytes([c]) + p)
                ev.append(dec(join(t * 16 + (2 if t == PUBREL else 0), [("", body)]), v))
                if t in ACKS and v == 5: ev.append(dec(join(t * 16 + (2 if t == PUBREL else 0), [("", b"\0\1" + bytes([c]))]), v))
                if t == AUTH: ev.append(dec(join(t * 16, [("", bytes([c]))]), v))
                if t == DISCONNECT and v == 5: ev.append(dec(join(t * 16, [("", bytes([c]))]), v))
                if t in (SUBACK, UNSUBACK): ev.append(dec(join(t * 16, [("", b"\0\1" + p + bytes([0, c, 128]))]), v))
            sc.append({"ev": ev})
            if t in (DISCONNECT,) + ACKS: continue
            for h in (0, 1):
                ev = [{"op": "new", "o": 1, "t": t, "v": v}]
                if t in IDT: ev.append({"op": "id", "o": 1, "n": 5})
                cs = list(range(256))
                r.shuffle(cs)
                for c in cs:
                    ev.append({"op": "codes", "o": 1, "cs": [c], "h": h} if t in (SUBACK, UNSUBACK) else {"op": "rc", "o": 1, "n": c})
                    if r.random() < 0.1: ev.append(enc(1, 0, 1))
                sc.append({"ev": ev + [enc(1, 0, 77)]})
            if t in (SUBACK, UNSUBACK):
                ev = [{"op": "new", "o": 1, "t": t, "v": v}, {"op": "id", "o": 1, "n": 5}]
                for _ in range(60):
                    ok = mqtt.CODES[t][1 if v == 5 else 0] or [0, 1, 2, 128]
                    ev.append({"op": "codes", "o": 1, "cs": [r.choice(ok) if r.random() < 0.8 else r.randrange(256) for _ in range(r.randint(1, 4))]})
                    if r.random() < 0.1: ev += [{"op": "new", "o": 1, "t": t, "v": v}, {"op": "id", "o": 1, "n": 5}]
                sc.append({"ev": ev})
                for k in (5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257):
                    for at in {0, r.randrange(k), k - 1}:      # one wrong code somewhere in a long list
                        cs = [r.choice(ok) for _ in range(k)]
                        cs[at] = r.choice([c for c in range(256) if c not in ok])
                        sc.append({"ev": [{"op": "new", "o": 1, "t": t, "v": v}, {"op": "id", "o": 1, "n": 5}, {"op": "codes", "o": 1, "cs": cs}, enc(1, 0, 9)]})
                        sc.append({"ev": [dec(join(t * 16, [("", b"\0\1" + p + bytes(cs))]), v)]})
    return sc


def ids(r, n, sweep=1):
    """identifiers: cut, missing, on packets that have none; plus full sweeps"""
    g = Gen(r)
    h = Hist(r)
    sc = []
    tp = [(v, t) for v, t in VT if t in IDT + (PUBLISH,)]
    for v, t in tp:
        for q in ((0, 1, 2) if t == PUBLISH else (0,)):
            for _ in range(2):
                f, s = g.packet(t, v, q=q, density=r.choice([0, 0.3]))
                b = b"".join(x for _, x in s)
                ev = [dec(join(f, [("", b[:c])]), v) for c in list(range(0, min(len(b), 16)))]
                sc.append({"ev": ev})
            for i in (0, 1, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff, r.randrange(65536)):
                ev = [{"op": "new", "o": 1, "t": t, "v": v}, enc(1, 0, 3)]
                ev += [c for c in h.complete(1, t, v) if c["op"] != "id"]
                if t == PUBLISH: ev.append({"op": "qos", "o": 1, "n": q})
                ev += [enc(1, 0, 4), enc(1, h=2, n=500), {"op": "id", "o": 1, "n": i}, enc(1, 0, 5), {"op": "redec", "o": 1, "p": 2}]
                if t == PUBLISH: ev += [{"op": "qos", "o": 1, "n": (q + 1) % 3}, enc(1, 0, 6), {"op": "redec", "o": 1, "p": 2}]
                ev += [{"op": "id", "o": 1, "n": g.id()}, enc(1, 0, 5)]
                sc.append({"ev": ev})
    for v, t in VT:
        sc.append({"ev": [{"op": "new", "o": 1, "t": t, "v": v}]})
    fs = []
    todo = [(v, t, q) for v, t in tp for q in ((1, 2) if t == PUBLISH else (0,))]
    if sweep < len(todo): todo = r.sample(todo, sweep)
    for v, t, q in todo:
        f, s = g.packet(t, v, q=q, density=0)
        if t == PUBLISH: f &= 0xf7
        k = 1 + len(varint(sum(len(x) for _, x in s)))
        for nm, x in s:
            if nm == "id": break
            k += len(x)
        fs.append({"ev": [{"op": "fun", "o": 0, "g": "ids", "c": [{"a": list(join(f, s)), "n": k, "q": v}]}]})
    return sc, fs


def publishes(r, n):
    """DUP, QoS, RETAIN, topic, payload"""
    sc = histories(r, n, 2, 16, [PUBLISH], ("set", "dup", "ret", "qos", "top", "pay", "id", "ver", "pid"), (3, 4, 5), 0.25)
    for v in (3, 4, 5):
        for d in (0, 1):
            for q in (0, 1, 2):
                for e in (0, 1):
                    ev = [{"op": "new", "o": 1, "t": PUBLISH, "v": v},
                          {"op": "set", "o": 1, "a": list(b"t"), "b": [1], "q": q, "e": e, "d": d}, {"op": "id", "o": 1, "n": 9}, enc(1, 0, 1)]
                    for f in ({"op": "dup", "n": 1 - d}, {"op": "dup", "n": d}, {"op": "ret", "n": 1 - e}, {"op": "ret", "n": e},
                              {"op": "qos", "n": (q + 1) % 3}, {"op": "qos", "n": 3}, {"op": "qos", "n": r.randrange(3, 256)}, {"op": "qos", "n": (q + 2) % 3},
                              {"op": "dup", "n": 0}, {"op": "dup", "n": 1}, {"op": "qos", "n": 0}, {"op": "ret", "n": 1}):
                        ev += [dict(f, o=1), enc(1, 0, 1)]
                    sc.append({"ev": ev})
        ev = [{"op": "new", "o": 1, "t": PUBLISH, "v": v}, {"op": "set", "o": 1, "a": list(b"t"), "b": [1], "q": 1, "e": 1, "d": 1}, {"op": "id", "o": 1, "n": 9}]
        for q in range(256):
            ev.append({"op": "qos", "o": 1, "n": q})
            ev.append({"op": "set", "o": 1, "a": list(b"u"), "b": [2], "q": (q * 7) % 256, "e": q & 1, "d": q >> 1 & 1})
        sc.append({"ev": ev})
        # header bytes as received
        ev = []
        for f in range(16):
            for body in (lp(b"t") + b"\0\1" + (b"\0" if v == 5 else b"") + b"x", lp(b"t") + (b"\0" if v == 5 else b"") + b"x"):
                ev += [dec(join(0x30 + f, [("", body)]), v), enc(1, 0, 1), {"op": "dup", "o": 1, "n": 1}, {"op": "ret", "o": 1, "n": 0}, enc(1, 0, 1)]
        sc.append({"ev": ev})
    return sc


def connects(r, n):
    h = Hist(r)
    sc = histories(r, n, 2, 14, [CONNECT], ("cl", "ka", "ci", "rwill", "cred", "will", "ver", "pset"), (3, 4, 5), 0.25)
    sc += afterdecode(r, n // 4, 8, [CONNECT], ("cl", "ka", "ci", "rwill", "cred", "ver"), (3, 4, 5))
    g = Gen(r)
    for v in (3, 4, 5):          # every flags byte with the fields it announces, and with more or less
        ev = []
        for cf in range(256):
            body = lp(b"MQIsdp" if v == 3 else b"MQTT") + bytes([v, cf]) + u16(r.choice([0, 9, 256, 65535])) + (b"\0" if v == 5 else b"") + lp(b"cid")
            if cf & 4: body += (b"\0" if v == 5 else b"") + lp(b"w/t") + lp(b"pay")
            if cf & 128: body += lp(b"usr")
            if cf & 64: body += lp(b"pwd")
            ev += [dec(join(0x10, [("", body)]), v), enc(1, 0, 1)]
            if r.random() < 0.2: ev.append(dec(join(0x10, [("", body + lp(b""))]), v))
        sc.append({"ev": ev})
        ev = []
        for nm in (b"MQTT", b"MQIsdp", b"MQTt", b"mqtt", b"MQT", b"", b"MQTTX", b"MQISDP"):
            for lv in (0, 1, 2, 3, 4, 5, 6, 131, 132, 133, 255):
                body = lp(nm) + bytes([lv, 2]) + b"\0\1" + (b"\0" if lv == 5 else b"") + lp(b"cid")
                ev.append(dec(join(0x10, [("", body)]), r.choice([3, 4, 5])))
        sc.append({"ev": ev})
        ev = [{"op": "new", "o": 1, "t": CONNECT, "v": v}]
        for c in range(256):     # client identifiers character by character
            ev.append({"op": "ci", "o": 1, "a": [97, c, 98]})
        sc.append({"ev": ev})
    for v in (3, 4, 5):          # the will changes and is set again, or another one is
        for _ in range(12):
            ev = [{"op": "new", "o": 1, "t": CONNECT, "v": v}, {"op": "ci", "o": 1, "a": list(b"id")}]
            for w in (6, 7): ev += [{"op": "new", "o": w, "t": PUBLISH, "v": v}, {"op": "set", "o": w, "a": list(b"w/%d" % w), "b": [w], "q": r.randint(0, 2), "e": r.randint(0, 1), "d": 0}]
            for _ in range(r.randint(2, 6)):
                w = r.choice([6, 6, 6, 7])
                for _ in range(r.randint(0, 2)):
                    ev.append(dict(r.choice([{"op": "qos", "n": r.randint(0, 2)}, {"op": "ret", "n": r.randint(0, 1)}, {"op": "pay", "a": [r.randrange(256)]},
                                             {"op": "top", "a": list(b"t%d" % r.randrange(9))}, {"op": "pset", "i": 24, "g": "u32", "s": [V("u32", [0, 0, 0, 3])]}]), o=w))
                ev += [{"op": "will", "o": 1, "w": w}, enc(1, 0, 3)]
                if r.random() < 0.2: ev += [{"op": "rwill", "o": 1}, enc(1, 0, 3)]
                if r.random() < 0.2: ev += [{"op": "will", "o": 1, "w": 0}, enc(1, 0, 3)]
            sc.append({"ev": ev + [{"op": "redec", "o": 1, "p": 2}]})
    for v in (3, 4, 5):          # all subsets of what can be set, in two orders, then removed again
        for k in range(32):
            ops = []
            if k & 1: ops.append({"op": "cl", "o": 1, "n": 1})
            if k & 2: ops.append({"op": "will", "o": 1, "w": 6})
            if k & 4: ops.append({"op": "cred", "o": 1, "a": list(b"u"), "b": list(b"p") if k & 8 else []})
            elif k & 8: ops.append({"op": "cred", "o": 1, "a": [], "b": list(b"p")})
            if k & 16: ops.append({"op": "ka", "o": 1, "n": 0x1234})
            r.shuffle(ops)
            q, e = r.randint(0, 2), r.randint(0, 1)
            ev = [{"op": "new", "o": 1, "t": CONNECT, "v": v}, {"op": "new", "o": 6, "t": PUBLISH, "v": v},
                  {"op": "set", "o": 6, "a": list(b"w/t"), "b": list(b"pay"), "q": q, "e": e, "d": 0}, {"op": "ci", "o": 1, "a": list(b"id")}]
            for o in ops: ev += [o, enc(1, 0, 3)]
            ev += [{"op": "redec", "o": 1, "p": 2}]
            un = [{"op": "rwill", "o": 1}, {"op": "cred", "o": 1, "a": [], "b": []}, {"op": "cl", "o": 1, "n": 0}]
            r.shuffle(un)
            for o in un: ev += [o, enc(1, 0, 3)]
            sc.append({"ev": ev})
    return sc


def clones(r, n):
    h = Hist(r)
    X = ["C15"]
    sc = []
    for _ in range(n):
        v = r.choice([3, 4, 5, 5, 5])
        if r.random() < 0.5:
            ev = [dec(join(*h.g.packet(PUBLISH, v)), v)]
        else:
            ev = h.history(PUBLISH, v, r.randint(1, 8), probe=0)
        if r.random() < 0.3: ev.append({"op": "exp", "o": 1, "a": h.time()})
        for k in range(r.randint(1, 4)):
            src = r.choice([1] * 3 + list(range(2, 2 + k)))
            ev.append({"op": "clone", "o": src, "p": 2 + k, "v": r.choice([3, 4, 5, 5])})
            for _ in range(r.randint(0, 4)):       # changes to one are not seen in the others
                o = r.choice(list(range(1, 3 + k)))
                ev.append(h.call(o, PUBLISH))
                for j in range(1, 3 + k):
                    if j != o: ev.append({"op": "obs", "o": j, "x": X})
                if r.random() < 0.3: ev.append(h.enc(o))
            if r.random() < 0.3: ev.append({"op": "scrib", "o": 1, "f": r.randrange(256)})
            for j in range(1, 3 + k):
                ev.append({"op": "obs", "o": j, "x": X})
        ev += [enc(2, 0, 3, x=X), enc(1, 0, 3, x=X), {"op": "redec", "o": 2, "p": 7, "x": X}]
        sc.append({"ev": ev})
    # every property on its own and all together, every pair of versions
    for v in (3, 4, 5):
        for w in (3, 4, 5):
            for i in PROPS + [0]:
                if i and not allowed(i, PUBLISH): continue
                q = r.randint(0, 2)
                ev = [{"op": "new", "o": 1, "t": PUBLISH, "v": 5},
                      {"op": "set", "o": 1, "a": list(b"a/b"), "b": [7, 8], "q": q, "e": r.randint(0, 1), "d": r.randint(0, 1)}, {"op": "id", "o": 1, "n": 33},
                      {"op": "exp", "o": 1, "a": h.time()}]
                for j in ([i] if i else [j for j in PROPS if allowed(j, PUBLISH)]):
                    gk, s = h.goodval(j, PUBLISH)
                    ev.append({"op": "pset", "o": 1, "i": j, "g": gk, "s": s})
                ev += [{"op": "ver", "o": 1, "v": v}, {"op": "clone", "o": 1, "p": 2, "v": w}, {"op": "pdis", "o": 2}, {"op": "obs", "o": 1, "x": X}, {"op": "clone", "o": 1, "p": 3, "v": w},
                       {"op": "pdis", "o": 1}, {"op": "dup", "o": 1, "n": 1}, {"op": "pay", "o": 1, "a": [9]}, {"op": "top", "o": 1, "a": list(b"zz")},
                       {"op": "obs", "o": 3, "x": X}, enc(3, 0, 4, x=X), {"op": "id", "o": 3, "n": 4}, enc(3, 0, 4, x=X)]
                sc.append({"ev": ev})
    return sc


def scribbles(r, n):
    """the receive buffer is reused after decoding"""
    g = Gen(r)
    sc = []
    X = ["C21"]
    for _ in range(n):
        v, t = pick(r)
        if r.random() < 0.4: t = r.choice([PUBLISH, CONNECT, PUBLISH, CONNACK, AUTH, SUBACK, UNSUBACK, DISCONNECT]); v = 5
        b = join(*g.packet(t, v, density=r.choice([0, 0.5, 1])))
        ev = [dec(b, v)]
        for _ in range(2):
            nx = join(*g.packet(*reversed(pick(r))))
            ev.append({"op": "scrib", "o": 1, "f": r.choice([0, 255, 97, 35]), "a": list(nx) if r.random() < 0.6 else []})
            if t not in (CONNECT, SUBSCRIBE, UNSUBSCRIBE):
                ev.append(enc(1, 0, 9, x=X))
                ev.append({"op": "redec", "o": 1, "p": 2, "x": X})
            if t == PUBLISH and r.random() < 0.3:
                ev += [{"op": "clone", "o": 1, "p": 3, "v": 5, "x": X}]
        sc.append({"ev": ev})
    return sc


def topiclists(r, n):
    h = Hist(r)
    g = h.g
    sc = histories(r, n, 3, 14, [SUBSCRIBE, UNSUBSCRIBE, SUBACK, UNSUBACK], ("topic", "codes", "id", "ver"), (3, 4, 5), 0.1)
    for _ in range(n):
        t = r.choice([SUBSCRIBE, UNSUBSCRIBE])
        v = r.choice([3, 4, 5])
        k = r.choice([1, 2, 3, 5, 8, 30])
        if r.random() < 0.5:
            ev = [dec(join(*g.packet(t, v, topics=k)), v)]
        else:
            ev = [{"op": "new", "o": 1, "t": t, "v": v}, {"op": "id", "o": 1, "n": g.id()}]
            for _ in range(k):
                ev.append({"op": "topic", "o": 1, "a": list(r.choice([b"a", b"b", b"a"]) if r.random() < 0.3 else g.filter()),
                           "q": (r.randint(0, 2) + (4 * r.randrange(16) if v == 5 else 0)) if t == SUBSCRIBE else 0})
            if r.random() < 0.5:     # topics put in twice, as the same object or as another one
                again = [dict(r.choice(ev[2:]), sh=1) for _ in range(r.randint(1, 3))]
                ev += again + ([dict(x) for x in again] if r.random() < 0.5 else [])
        for j in [0, 1, 2, k - 1, k, k + 1, 0]:
            if j >= 0: ev.append({"op": "each", "o": 1, "k": j})
        ev += [enc(1, 0, 2), {"op": "redec", "o": 1, "p": 2}, {"op": "each", "o": 2, "k": 0}]
        sc.append({"ev": ev})
    for v in (3, 4, 5):          # every options byte as received and as set
        ev = [{"op": "new", "o": 2, "t": SUBSCRIBE, "v": v}, {"op": "id", "o": 2, "n": 3}]
        for q in range(256):
            ev.append(dec(join(0x82, [("", b"\0\1" + (b"\0" if v == 5 else b"") + lp(b"a/b") + bytes([q]) + lp(b"c") + b"\1")]), v))
            ev.append({"op": "topic", "o": 2, "a": list(b"a/b"), "q": q})
        ev.append({"op": "each", "o": 2, "k": 0})
        sc.append({"ev": ev})
    for t in (SUBACK, UNSUBACK):
        for v in (3, 4, 5):
            for _ in range(6):
                cs = bytes(r.choice(codes(t, v) or [0]) for _ in range(r.choice([1, 2, 3, 10, 100])))
                body = b"\1\2" + (b"\0" if v == 5 else b"") + (cs if t == SUBACK or v == 5 else b"")
                sc.append({"ev": [dec(join(t * 16, [("", body)]), v), enc(1, 0, 1), {"op": "redec", "o": 1, "p": 2}]})
    return sc


def sizes(r, thorough=False):
    """messages around the limits of the remaining length"""
    sc = []
    for v in (3, 4, 5):
        for q in (0, 1):
            base = 2 + 3 + (2 if q else 0) + (1 if v == 5 else 0)
            pre = [{"op": "new", "o": 1, "t": PUBLISH, "v": v}, {"op": "set", "o": 1, "a": list(b"a/b"), "b": [], "q": q, "e": 0, "d": 0}, {"op": "id", "o": 1, "n": 7}]
            ev = list(pre)
            for lim in (127, 16383):
                for d in range(-3, 4):
                    ev.append({"op": "big", "o": 1, "g": "pay", "n": lim - base + d, "f": r.randrange(256)})
            for d in ((-1, 0, 1, 2) if thorough or v == 5 else (0, 1)):
                ev.append({"op": "big", "o": 1, "g": "pay", "n": 2097151 - base + d, "f": 3})
            big = ev[len(pre):] + [{"op": "big", "o": 1, "g": "pay", "n": n, "f": 7} for n in (0, 1, 200, 130, 5000, 20000, 18000)]
            r.shuffle(big)
            sc.append({"ev": pre + big})
            if thorough or (v, q) in ((4, 0), (5, 1)):
                sc.append({"ev": pre + [{"op": "big", "o": 1, "g": "pay", "n": 268435455 - base + d, "f": 3} for d in ((-1, 0, 1, 2) if thorough else (0, 1))]})
            if thorough or v == 4:
                for n in (268435456, 268435457, 300000000, 536870912, 1073741824, 2147483632) if thorough else (300000000,):
                    sc.append({"ev": pre + [{"op": "big", "o": 1, "g": "pay", "n": n}]})
    for k, n in ((4, 0), (4, 10), (4, 268435455), (8, 5), (2, 0), (1, 0), (16, 100)) if thorough else ((4, 10), (2, 5), (8, 0)):
        sc.append({"ev": [{"op": "new", "o": 1, "t": PUBLISH, "v": r.choice([3, 4, 5])}, {"op": "set", "o": 1, "a": [97], "b": [], "q": 0, "e": 0, "d": 0},
                          {"op": "big", "o": 1, "g": "pay", "n": n, "k": k}]})
    def withid(t):
        ev = [{"op": "new", "o": 1, "t": t, "v": 5}]
        if t in IDT: ev.append({"op": "id", "o": 1, "n": 7})
        if t == PUBLISH: ev.append({"op": "set", "o": 1, "a": list(b"a/b"), "b": [], "q": 0, "e": 0, "d": 0})
        if t in (SUBSCRIBE, UNSUBSCRIBE): ev.append({"op": "topic", "o": 1, "a": list(b"a/b"), "q": 1})
        if t in (SUBACK, UNSUBACK): ev.append({"op": "codes", "o": 1, "cs": [0]})
        if t == CONNECT: ev.append({"op": "ci", "o": 1, "a": list(b"abc")})
        if t in ACKS + (DISCONNECT,): ev.append({"op": "rc", "o": 1, "n": 0x80 if t in (PUBACK, PUBREC, DISCONNECT) else 0x92})
        if t == AUTH: ev.append({"op": "rc", "o": 1, "n": 24})
        return ev
    for t in range(1, 16):
        if t in (PINGREQ, PINGRESP): continue
        ev = withid(t)
        for lim in (127, 16383):     # of the property block and of the packet
            for d in list(range(-24, 4)) if t in (PUBLISH, CONNECT, SUBACK) or thorough else (-3, -2, -1, 0, 1, 2):
                ev.append({"op": "big", "o": 1, "g": "props", "n": lim + d})
        if thorough or t in (PUBLISH, PUBACK):
            for d in (-12, -4, -3, -1, 0, 1): ev.append({"op": "big", "o": 1, "g": "props", "n": 2097151 + d})
        k = len(withid(t))
        big = ev[k:]
        r.shuffle(big)
        sc.append({"ev": ev[:k] + big})
    if thorough:
        for t in (PUBLISH, CONNECT, SUBACK):
            for d in (-40, -20, -8, 0, 1):
                sc.append({"ev": withid(t) + [{"op": "big", "o": 1, "g": "props", "n": 268435455 + d}]})
    for v in (4, 5):
        for n in (124, 125, 126, 16380, 16381, 2097149) + ((2097150, 268435452, 268435453, 268435454, 268435460) if thorough else ()):
            sc.append({"ev": [{"op": "new", "o": 1, "t": SUBSCRIBE, "v": v}, {"op": "id", "o": 1, "n": 7}, {"op": "big", "o": 1, "g": "topics", "n": n}]})
    for v in (3, 4, 5):          # other lists, and the fields of CONNECT
        none = 1 if v == 5 else 0
        for t, g in ((SUBSCRIBE, "topics"), (UNSUBSCRIBE, "topics"), (SUBACK, "codes"), (UNSUBACK, "codes")):
            if t == UNSUBACK and v < 5: continue
            new = [{"op": "new", "o": 1, "t": t, "v": v}, {"op": "id", "o": 1, "n": 7}]
            ev = []
            for lim in (127, 255, 256, 16383, 65535, 65536) + ((2097151,) if thorough or g == "topics" and v == 5 else ()):
                for d in (-1, 0, 1): ev += new + [{"op": "big", "o": 1, "g": g, "n": lim - 2 - none + d}]
            sc.append({"ev": ev})
            if thorough: sc.append({"ev": [e for d in (0, 1) for e in new + [{"op": "big", "o": 1, "g": g, "n": 268435455 - 2 - none + d}]] if g == "topics" else new})
        base = 10 + (2 if v == 3 else 0) + none + 2
        for g, more in (("ci", 0), ("us", 2), ("pw", 5), ("wl", 5 + none)):
            ev = []
            for n in [lim - base - more + d for lim in (127, 255, 16383, 65535) for d in (-1, 0, 1)] + [1, 2, 255, 256, 65534, 65535]:
                if n < 1 or n > 65535: continue
                ev += [{"op": "new", "o": 1, "t": CONNECT, "v": v}, {"op": "cl", "o": 1, "n": 1}]
                if g == "ci" or r.random() < 0.3: ev.append({"op": "ci", "o": 1, "a": list(r.choice([b"", b"x", b"abc"]) if g != "ci" else b"")})
                ev.append({"op": "big", "o": 1, "g": g, "n": n, "f": r.randrange(256)})
            sc.append({"ev": ev})
    return sc


NUM = b"abcd"            # four bytes that the driver replaces by the number of the unit


def number(u, i):
    """unit i of a numbered sequence"""
    at = u.find(NUM)
    if at < 0 and len(u) == 5 and u[0] == 11: at = 1
    if at < 0: return 0, u
    return at + 1, u[:at] + bytes(u[at + k] & 0x80 | (97 + (i >> (12 - 4 * k) & 15)) for k in range(4)) + u[at + 4:]


def rep(v, h, head, u, k, tail):
    """k units u between head(k) and tail"""
    small = head(3) + b"".join(number(u, i)[1] for i in range(3)) + tail
    return {"op": "rep", "o": 1, "v": v, "h": h, "a": list(head(k)), "b": list(u), "n": k, "d": number(u, 0)[0], "cs": list(tail),
            "c": list(bytes([h]) + varint(len(small)) + small)}


def lens(r, hi):
    return r.choice([x for x in (17, 32, 33, 127, 128, 129, 255, 256, 257, 1023, 1024, 4096, 16383, 16384, 32767, 32768, 65534, 65535) if x <= hi] + [hi, r.randint(1, hi)])


def huges(r, n):
    """very many parts: time and memory stay in proportion"""
    up = b"\x26" + lp(NUM) + lp(b"")
    sc = []
    for k in n:
        for h, pre, u, post, pr in [(0x82, b"\0\1\0", lp(b"a") + b"\1", b"", 0), (0x82, b"\0\1\0", lp(NUM) + b"\1", b"", 0), (0xa2, b"\0\1\0", lp(b"a"), b"", 0), (0xa2, b"\0\1\0", lp(NUM), b"", 0),
                                    (0x90, b"\0\1\0", b"\1", b"", 0), (0xb0, b"\0\1\0", b"\x11", b"", 0), (0x30, lp(b"t"), up, b"", 1), (0x30, lp(b"t"), b"\x0b\1", b"", 1), (0x30, lp(b"t"), b"\x0b\xe1\xe1\xe1\x61", b"", 1),
                                    (0x10, b"\0\4MQTT\5\2\0\1", up, lp(b"c"), 1), (0x10, b"\0\4MQTT\5\6\0\1\0" + lp(b"c"), up, lp(b"t") + lp(b""), 1)]:
            head = (lambda j, pre=pre, u=u: pre + varint(j * len(u))) if pr else (lambda j, pre=pre: pre)
            e = rep(5, h, head, u, k, post)
            e["f"], e["cuts"] = 0, [len(head(k)) + k * len(u) - 1]
            sc.append({"ev": [e]})
    return sc


def longgarbage(r, n):
    return longs(r, n, 12)


def longs(r, n, only=None):
    """packets with many equal parts or a long field, well formed or not at their end"""
    def up():
        k = r.choice([b"", b"k", b"kkk", b"k" * 40, NUM, NUM, b"k" + NUM])
        return b"\x26" + lp(k) + lp(r.choice([b"", b"v", b"v" * 20]) if NUM in k or r.random() < 0.5 else NUM + b"v")
    sc = []
    for _ in range(n):
        ev = []
        for _ in range(4):
            k = r.choice([16, 17, 18, 20, 33, 65, 150, 257, 700, r.randint(1, 3000), r.randint(1000, 9000)])
            cut = r.choice([b""] * 5 + [b"\0", b"\0\xff", b"\xff"])
            c = r.randrange(15) if only is None else only
            v, tail = r.choice([3, 4, 5]), cut
            none = b"\0" if v == 5 else b""
            two = lambda m: bytes([m >> 8, m & 255])
            if c == 0:      # user properties
                v, u = 5, up()
                t = r.choice([CONNECT, CONNACK, PUBACK, PUBREL, SUBSCRIBE, SUBACK, UNSUBACK, DISCONNECT, AUTH])
                pre = {CONNECT: b"\0\4MQTT\5\2\0\1", CONNACK: b"\0\0", PUBACK: b"\0\1\0", PUBREL: b"\0\1\0", DISCONNECT: b"\0", AUTH: b"\0"}.get(t, b"\0\1")
                post = {CONNECT: lp(b"ci"), SUBSCRIBE: lp(b"f") + b"\1", SUBACK: b"\1", UNSUBACK: b"\0"}.get(t, b"")
                h, head, tail = t * 16 + (2 if t in (PUBREL, SUBSCRIBE) else 0), lambda j: pre + varint(j * len(u)), post + cut
            elif c == 1: v, h, u, head = 5, 0x30, b"\x0b" + r.choice([varint(r.choice([1, 127, 128, 268435455])), b"\xe1\xe1\xe1\x61", b"\xe1\xe1\xe1\x61"]), lambda j: lp(b"a") + varint(j * len(u))
            elif c == 2: h, u, head = 0x82, lp(r.choice([b"a", b"+", b"a/b", b"$share/g/x", b"#", NUM, NUM, NUM + b"/#"])) + bytes([r.randrange(3)]), lambda j: b"\0\1" + none
            elif c == 3: h, u, head = 0xa2, lp(r.choice([b"a", b"+", b"a/b", b"$SYS/x", b"#", NUM, NUM, b"+/" + NUM])), lambda j: b"\0\1" + none
            elif c == 4: h, u, head = 0x90, bytes(r.choice([0, 1, 2, 128]) for _ in range(r.randint(1, 9))), lambda j: b"\0\1" + none
            elif c == 5: v, h, u, head = 5, 0xb0, bytes(r.choice([0, 17, 128]) for _ in range(r.randint(1, 9))), lambda j: b"\0\1\0"
            elif c in (6, 7):    # one long text
                h, u = 0x30, r.choice([b"a", b"/", "é".encode(), "\U0001f600".encode(), b"ab/", NUM + b"/", NUM + b"x"])
                if v == 5: tail = b"\0" + cut
                head = lambda j: two(j * len(u))
                k = lens(r, 65535 // len(u))
            elif c == 8:    # one long property
                i = r.choice([38, 31, 3, 8, 9, 18, 21, 22, 26, 28])
                v, u, d = 5, r.choice([b"a", b"\xc3\xa9", NUM + b"-"]), lp(b"v") if i == 38 else b""
                t = r.choice([t for t in (PUBLISH, PUBACK, CONNACK, DISCONNECT, AUTH, CONNECT) if allowed(i, t)])
                pre = {CONNACK: b"\0\0", PUBACK: b"\0\1\0", DISCONNECT: b"\0", AUTH: b"\x18", PUBLISH: lp(b"t"), CONNECT: b"\0\4MQTT\5\2\0\1"}[t]
                if i == 22: pre2 = b"\x15" + lp(b"m")
                else: pre2 = b""
                h, tail = t * 16, d + {CONNECT: lp(b"ci")}.get(t, b"") + cut
                k = lens(r, 65535 // len(u))
                head = lambda j: pre + varint(len(pre2) + j * len(u) + 3 + len(d)) + pre2 + bytes([i]) + two(j * len(u))
            elif c in (9, 10):    # fields of CONNECT
                h, u, w = 0x10, r.choice([b"a", NUM + b"x", b"Z0"]), r.randrange(5)
                v = r.choice([4, 5])
                none = b"\0" if v == 5 else b""
                fl = [2, 0xc2, 0xc2, 0x06, 0x06][w]
                pre = lp(b"MQTT") + bytes([v, fl]) + b"\0\1" + none
                pre += [b"", lp(b"c"), lp(b"c") + lp(b"us"), lp(b"c") + none, lp(b"c") + none + lp(b"w")][w]
                tail = [b"", lp(b"pw"), b"", lp(b"m"), b""][w] + cut
                head = lambda j: pre + two(j * len(u))
                k = lens(r, 65535 // len(u))
            elif c == 11:   # payload
                h, u, head = 0x32, r.choice([b"\xff", b"a", NUM, b"\0"]), lambda j: lp(b"t/u") + b"\1\0" + none
                k = r.choice([lens(r, 65535), 65536 // len(u), 1 << 18, (1 << 20) // len(u), (1 << 21) - r.randrange(20), r.randint(1, 300000)])
            elif c == 12:   # no more than a field, of any packet
                h, u = r.choice([0x10, 0x10, 0x20, 0x30, 0x32, 0x40, 0x62, 0x82, 0x90, 0xa2, 0xb0, 0xc0, 0xe0, 0xf0]), r.choice([b"a", NUM + b"x", b"\0", b"\x26\0\1k\0\1v"])
                k = r.choice([65535 // len(u), lens(r, 65535 // len(u)), r.randint(1, 80000)])
                pre = r.choice([b"", b"\0\1", b"\0", b"\0\0", lp(b"MQTT") + bytes([v, r.choice([2, 6, 0xc2]), 0, 1]) + none, lp(b"t"), lp(b"t") + none])
                m = r.choice([65535, 65535, k * len(u), k * len(u) + 1])
                tail = r.choice([b"", b"", b"\0", b"\0\0", b"\0\1"])
                head = r.choice([lambda j: two(min(65535, m)), lambda j: pre + two(min(65535, m)), lambda j: pre + varint(m), lambda j: pre + varint(65533) + r.choice([b"\x26\0\1k", b"\x1f", b"\x12", b"\x16", b"\x09", b"\x0b"]) + two(65530)])
            else:           # a long filter
                h, u, tail = 0x82, r.choice([b"/", b"a/", b"+/", b"a", NUM + b"/"]), b"#\1" if r.random() < 0.5 else b"\1" + cut
                w = 1 if tail[0:1] == b"#" else 0
                k = lens(r, 65500 // len(u))
                head = lambda j: b"\0\1" + none + two(j * len(u) + w)
            if r.random() < 0.2:     # ends too early, or its lengths point beyond its end
                if tail and r.random() < 0.5: tail = tail[:r.randrange(len(tail))]
                elif c not in (2, 3, 4, 5, 11): head, k = (lambda j, hd=head: hd(j + 1)), max(3, k - 1)
            e = rep(v, h, head, u, k, tail)
            if c == 12: e["c"] = []
            size = len(head(k)) + k * len(u) + len(tail)
            size += 1 + len(varint(size))
            e["f"] = r.choice([0, 0x30, 0xc0, 0xd0, 0xff])
            # parts of it, and more than it
            e["cuts"] = sorted({x for x in (r.choice([size - 1, size - 2, size // 2, 5, 128, 256, 65535, 65536]), r.randrange(size)) if 0 < x < size}) + \
                [size + r.choice([0, 1, 9, 127, 255, 4095, 16384, 65535, 65536, 70000, r.randrange(size)])]
            ev.append(e)
        sc.append({"ev": ev})
    return sc


def lists(r, n):
    """lists of many entries, all different, received and built"""
    h = Hist(r)
    sc = []
    for _ in range(n):
        t = r.choice([CONNECT, CONNACK, PUBLISH, PUBACK, PUBREL, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK, DISCONNECT, AUTH])
        v = r.choice([3, 4, 5]) if t in (SUBSCRIBE, SUBACK, UNSUBSCRIBE) else 5
        k = r.choice([4, 5, 7, 8, 9, 15, 16, 17, 18, 20, 31, 32, 33, 40, 64, 65])
        new = [{"op": "new", "o": 1, "t": t, "v": v}] + [e for e in h.complete(1, t, v) if e["op"] not in ("topic", "codes")]
        ev = []
        if t in (SUBSCRIBE, UNSUBSCRIBE):
            for j in range(k): ev.append({"op": "topic", "o": 1, "a": list(b"%d/%d" % (j, r.randrange(9))), "q": r.randint(0, 2) if t == SUBSCRIBE else 0})
            last = [{"op": "each", "o": 2, "k": j} for j in (0, 1, k // 2, k - 1, k, k + 1, 16, 17)]
        elif t in (SUBACK, UNSUBACK):
            ok = mqtt.CODES[t][1 if v == 5 else 0] or [0, 1, 2, 128]
            cs = [r.choice(ok) for _ in range(k)]
            cut = sorted(r.randint(0, k) for _ in range(3))
            for a, b in zip([0] + cut, cut + [k]): ev.append({"op": "codes", "o": 1, "cs": cs[a:b]})
            last = []
        else:
            if t == PUBLISH and r.random() < 0.5:
                ev.append({"op": "pset", "o": 1, "i": 11, "g": "u32s", "s": [V("u32", (1 + j * r.choice([1, 130, 20000])).to_bytes(4, "big")) for j in range(k)]})
            else:
                ev.append({"op": "pset", "o": 1, "i": 38, "g": "pairs", "s": [V("pair", b"%d" % r.choice([j, j, 1]), b"%d" % j) for j in range(k)]})
            last = [{"op": "pset", "o": 2, "i": 38, "g": "pair", "s": [V("pair", b"new", b"1")]}, enc(2, 0, 8)]
            if t == PUBLISH: last += [{"op": "clone", "o": 2, "p": 3, "v": 5, "x": ["C15"]}, enc(3, 0, 8)]
        sc.append({"ev": new + ev + [enc(1, 0, 7), {"op": "redec", "o": 1, "p": 2}, enc(2, 0, 1)] + last})
    return sc


def powers(r, thorough):
    """payloads around powers of two"""
    sc = []
    for v in (3, 4, 5):
        q = r.randint(0, 2)
        for lo, hi in ((6, 17), (17, 20), (20, 21), (21, 22), (22, 23), (23, 24)) + (((24, 26), (26, 28)) if thorough else ()):
            ev = [{"op": "new", "o": 1, "t": PUBLISH, "v": v}, {"op": "set", "o": 1, "a": list(b"a/b"), "b": [], "q": q, "e": 0, "d": 0}, {"op": "id", "o": 1, "n": 7}]
            for j in range(lo, hi):
                for d in (-1, 0, 1): ev.append({"op": "big", "o": 1, "g": "pay", "n": (1 << j) + d, "f": r.randrange(256)})
            sc.append({"ev": ev})
    return sc


def creates():
    sc = []
    for v in (3, 4, 5):
        sc.append({"ev": [{"op": "new", "o": 1, "t": t, "v": v, "n": 0} for t in range(256)]})
        for n in (0, 1):         # by New, by the constructor of the type
            sc.append({"ev": [e for t in range(1, 16) for e in ({"op": "new", "o": 1, "t": t, "v": v, "n": n}, enc(1, 0, 1), {"op": "id", "o": 1, "n": 3}, {"op": "pset", "o": 1, "i": 38, "g": "pair", "s": [V("pair", b"a", b"b")]},
                                                                {"op": "new", "o": 2, "t": t, "v": v, "n": n}, {"op": "new", "o": 3, "t": t, "v": v, "n": 1 - n}, {"op": "look", "o": 1})]})
    return sc


# ------------------------------------------------------------------ several messages
def shared(r, n):
    """messages that were given the same memory: one receive buffer, one argument slice"""
    h = Hist(r)
    sc = []
    for _ in range(n):
        ts = []
        if r.random() < 0.5:
            v, t = pick(r)
            if r.random() < 0.6: t = r.choice([CONNECT, CONNECT, PUBLISH, SUBSCRIBE, UNSUBSCRIBE])
            b = join(*h.g.packet(t, v, density=r.choice([0, 0.5, 1])))
            ev = [dec(b, v)] + [dec(b, v, o, p=1, sh=1) for o in (2, 3)]
            ts = [t] * 3
        else:
            v = r.choice([3, 4, 5, 5])
            ev = []
            for o in (1, 2, 3):
                t = r.choice([CONNECT, PUBLISH, PUBLISH, SUBSCRIBE, UNSUBSCRIBE, AUTH if v == 5 else CONNECT, CONNACK, SUBACK, SUBACK, UNSUBACK])
                ts.append(t)
                ev.append({"op": "new", "o": o, "t": t, "v": v})
        words = [list(x) for x in r.choice([(b"abcdef", b"xyz", b"q"), (b"abcdef", b"ghijkl", b"mnopqr"), (b"abcdef", b"uvw")])]
        pairs = [[V("pair", b"k", b"v"), V("pair", b"k", b"w")], [V("pair", b"a", b"b")] * 3]
        lists = [[0, 128, 0, 128], [128, 0], [128, 128, 0, 0, 0, 128, 0]]
        for _ in range(r.randint(3, 14)):
            o = r.randint(1, 3)
            t = ts[o - 1]
            w = lambda: r.choice(words)
            k = r.random()
            if k < 0.15: ev.append(h.call(o, t))
            elif v == 5 and k < 0.3: ev.append({"op": "pset", "o": o, "i": 38, "g": "pairs", "s": r.choice(pairs), "sh": 1})
            elif t in (SUBACK, UNSUBACK):
                ev.append({"op": "codes", "o": o, "cs": r.choice(lists), "sh": 1})
                if r.random() < 0.5: ev.append({"op": "codes", "o": o, "cs": [r.choice([0, 128])], "h": r.randint(0, 1)})
            elif t == CONNECT: ev.append(r.choice([{"op": "ci", "o": o, "a": w(), "sh": 1}, {"op": "ci", "o": o, "a": w(), "sh": 1}, {"op": "cred", "o": o, "a": w(), "b": w(), "sh": 1},
                                                   {"op": "pset", "o": o, "i": 22, "g": "bin", "s": [V("bin", bytes(w()))], "sh": 1}]))
            elif t == PUBLISH: ev.append(r.choice([{"op": "pay", "o": o, "a": w(), "sh": 1}, {"op": "set", "o": o, "a": w(), "b": w(), "q": 0, "e": 0, "d": 0, "sh": 1},
                                                   {"op": "pset", "o": o, "i": 9, "g": "bin", "s": [V("bin", bytes(w()))], "sh": 1}]))
            elif t in (SUBSCRIBE, UNSUBSCRIBE): ev.append({"op": "topic", "o": o, "a": w(), "q": 1 if t == SUBSCRIBE else 0, "sh": 1})
            elif t == AUTH: ev.append({"op": "pset", "o": o, "i": 22, "g": "bin", "s": [V("bin", bytes(w()))], "sh": 1})
            else: ev.append(h.call(o, t))
            if r.random() < 0.2: ev.append(h.enc(o))
            ev += [{"op": "obs", "o": j} for j in (1, 2, 3) if j != o]
        sc.append({"ev": ev + [enc(o, 0, 3, x=["C22"]) for o in (1, 2, 3)]})
    return sc


def readers(r, n):
    """several goroutines read one message"""
    h = Hist(r)
    sc = []
    X = ["C22"]
    for k in range(n):
        v, t = pick(r)
        if r.random() < 0.4: t = PUBLISH
        c = r.random()
        if c < 0.4: ev = [dec(join(*h.g.packet(t, v, density=r.choice([0, 0.5, 1]))), v)]
        else: ev = h.history(t, v, r.randint(0, 5), probe=0.1)
        if t != AUTH and r.random() < 0.6: ev += [{"op": "ver", "o": 1, "v": w} for w in r.choice([[5], [3, 5], [5, 4], [4, 5]])]
        if t == PUBLISH: ev += [{"op": "exp", "o": 1, "a": list(r.choice([1, 10 ** 9, 4102444800, 10 ** 10]).to_bytes(8, "big") + r.choice([0, 1, 500000000]).to_bytes(4, "big"))}] if r.random() < 0.7 else []
        for e in ev:
            if e["op"] != "codes" and r.random() < 0.8: e["z"] = 1
        ev.append({"op": "cread", "o": 1, "n": 5, "x": X})
        if t == PUBLISH: ev += [{"op": "cclone", "o": 1, "p": 2, "n": 5, "v": r.choice([4, 5]), "x": X}, {"op": "obs", "o": 1}]
        sc.append({"ev": ev + [enc(1, 0, 1, x=X)]})
    return sc


def onemsg(r, h, n=6):
    """a part for mix and par: calls on one to three messages"""
    ev = []
    for o in range(1, r.randint(2, 4)):
        v, t = pick(r)
        if r.random() < 0.5:
            f, s = h.g.packet(t, v)
            b = join(f, s) if r.random() < 0.8 else mutate(h.g, f, s)
            ev.append([dec(b, v, o)] + [h.call(o, t) for _ in range(r.randint(0, n // 2))] + [h.enc(o), {"op": "redec", "o": o, "p": o + 3}])
        else:
            ev.append(h.history(t, v, r.randint(1, n), o=o, probe=0.1)[:24] + [h.enc(o), {"op": "redec", "o": o, "p": o + 3}])
        if t == PUBLISH:
            ev[-1].append({"op": "clone", "o": o, "p": 5 + o, "v": r.choice([3, 4, 5])})
            ev[-1].append({"op": "pset", "o": 5 + o, "i": 38, "g": "pair", "s": [h.scalar(38)]})
        if t in (SUBSCRIBE, UNSUBSCRIBE): ev[-1].append({"op": "each", "o": o, "k": r.randint(0, 3)})
    out = []
    for e in ev:       # one after the other, or merged
        if r.random() < 0.5: out += e
        else:
            m, i, j = [], 0, 0
            while i < len(out) or j < len(e):
                if j >= len(e) or (i < len(out) and r.random() < 0.5): m.append(out[i]); i += 1
                else: m.append(e[j]); j += 1
            out = m
    return out


def firsts(r, thorough):
    """messages of one kind, or of all, at the same time, from the start"""
    h = Hist(r)
    sc = []
    for _ in range(6 if thorough else 1):
        for v, t in VT:
            p = []
            for _ in range(3):
                f, s = h.g.packet(t, v, density=1)
                p.append([dec(join(f, s), v), enc(1, 0, 3), {"op": "redec", "o": 1, "p": 2}])
                p.append(h.history(t, v, 6, probe=0.3) + h.finish(1, 2))
            r.shuffle(p)
            sc.append({"par": p})
        for _ in range(12): sc.append({"par": [onemsg(r, h, 8) for _ in range(6)]})
    return sc


def mixes(r, n, parts=3):
    h = Hist(r)
    sc = []
    for k in range(n):
        if k == n // 2: h.g.few()
        elif k > n // 2 and r.random() < 0.3: h.g.few()
        ps = [onemsg(r, h) for _ in range(r.randint(2, parts))]
        order = [i for i, p in enumerate(ps) for _ in p]
        r.shuffle(order)
        sc.append({"mix": ps, "order": order})
    h.g.pool = None
    # two messages of the same type and content, stepped alternately
    for v, t in VT:
        p = h.history(t, v, 6, probe=0.2) + h.finish(1, 2)
        q = h.history(t, v, 6, probe=0.2) + h.finish(1, 2)
        sc.append({"mix": [p, q, p], "order": [0, 1, 2] * (max(len(p), len(q)) + 1)})
        # received ones with many properties, all alive at the same time
        for _ in range(4 if t == PUBLISH and v == 5 else 1):
            ps = []
            for _ in range(3):
                f, s = h.g.packet(t, v, density=1)
                ps.append([dec(join(f, s), v), enc(1, 0, 3), {"op": "redec", "o": 1, "p": 2}, {"op": "obs", "o": 1}, enc(1, 0, 3), enc(2, 0, 3)])
            sc.append({"mix": ps, "order": [0, 1, 2] * 8})
    return sc


def pars(r, n, width=6, readers=True):
    h = Hist(r)
    sc = []
    for k in range(n):
        if k >= n // 2 and (k == n // 2 or r.random() < 0.3): h.g.few()
        sc.append({"par": [onemsg(r, h, 8) for _ in range(width)]})
    h.g.pool = None
    # the same type everywhere
    for v, t in VT:
        p = [h.history(t, v, 5, probe=0.2) + h.finish(1, 2) for _ in range(width - 2)]
        f, s = h.g.packet(t, v, density=1)
        p += [[dec(join(f, s), v), enc(1, 0, 3), {"op": "redec", "o": 1, "p": 2}] * 3, [dec(join(f, s), v), enc(1, 0, 3)] * 3]
        sc.append({"par": p})
    for _ in range(max(8, n // 2) if readers else 0):      # one message, many readers and cloners
        v = r.choice([4, 5, 5])
        ev = [dec(join(*h.g.packet(PUBLISH, v, density=r.choice([0, 1, 1]))), v)] if r.random() < 0.5 else h.history(PUBLISH, v, 5, probe=0)
        ev += [{"op": "cclone", "o": 1, "p": 2, "n": 6, "v": 5, "x": ["C22"]}, {"op": "obs", "o": 1}, enc(2, 0, 1), enc(1, 0, 1)]
        sc.append({"ev": ev})
    return sc
