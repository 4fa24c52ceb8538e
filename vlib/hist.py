"""Random histories of API calls. What they may do is decided by the specification."""
from mqtt import *
import mqtt

SCALAR = {"u8": "u8", "u16": "u16", "u32": "u32", "var": "u32", "bin": "bin", "pair": "pair", "str": "str"}


def V(g, a=b"", b=b""):
    return {"g": g, "a": list(a), "b": list(b)}


class Hist:
    def __init__(self, rng):
        self.r = rng
        self.g = Gen(rng)

    def scalar(self, i):
        r, g = self.r, self.g
        t = ptype(i)
        if t == "u8": return V("u8", [r.choice([0, 1, 1, 2, 255])])
        if t == "u16": return V("u16", u16(r.choice([0, 1, 255, 256, 65535])))
        if t == "u32": return V("u32", r.choice([0, 1, 255, 256, 65536, 0x7fffffff, 0x80000000, 0xffffffff]).to_bytes(4, "big"))
        if t == "var": return V("u32", r.choice([1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 0xffffffff, 0]).to_bytes(4, "big"))
        if t == "bin": return V("bin", g.blob())
        if t == "pair": return V("pair", g.uni().encode(), g.uni().encode())
        if i == 8: return V("str", g.topic())
        return V("str", g.uni(0, 8).encode())

    def goodval(self, i, t):
        """kind and values of a right value"""
        if i == 38 and self.r.random() < 0.5:
            return "pairs", [self.scalar(38) for _ in range(self.r.randint(0 if self.r.random() < 0.1 else 1, 4))]
        if i == 11 and t == PUBLISH and self.r.random() < 0.5:
            return "u32s", [V("u32", self.r.choice([1, 127, 128, 16384, 268435455]).to_bytes(4, "big")) for _ in range(self.r.randint(1, 4))]
        s = self.scalar(i)
        if i == 11:
            s = V("u32", self.r.choice([1, 127, 128, 16383, 16384, 2097152, 268435455]).to_bytes(4, "big"))
        return s["g"], [s]

    def badval(self, i):
        k = self.r.choice(["u8", "u16", "u32", "str", "bin", "pair", "u16s", "u32s", "strs", "bins", "pairs", "int", "i64", "bool", "nil"])
        one = {"u8": V("u8", [1]), "u16": V("u16", [0, 1]), "u32": V("u32", [0, 0, 0, 1]), "str": V("str", b"x"), "bin": V("bin", b"\x01\x02"),
               "pair": V("pair", b"k", b"v"), "u16s": V("u16", [0, 2]), "u32s": V("u32", [0, 0, 0, 2]), "strs": V("str", b"y"),
               "bins": V("bin", b"\x03"), "pairs": V("pair", b"a", b"b"), "int": V("u8", [3]), "i64": V("u32", [0, 0, 0, 9]),
               "bool": V("u8", [1])}.get(k)
        return k, ([] if one is None else [one] * (self.r.randint(1, 2) if k.endswith("s") else 1))

    def pset(self, o, t, good=0.6, ids=None):
        r = self.r
        if r.random() < good:
            i = r.choice(ids or [i for i in PROPS if allowed(i, t)] or PROPS)
            g, s = self.goodval(i, t)
        else:
            i = r.choice(PROPS + [0, 4, 10, 43, 127, 128, 200, 255, 256, 300, 16777255])
            if r.random() < 0.5 and i in PROPS:
                g, s = self.goodval(i, t)
            else:
                g, s = self.badval(i)
        return {"op": "pset", "o": o, "i": i, "g": g, "s": s}

    def call(self, o, t, w=None, only=None):
        """one random call on slot o of type t; w: slot of a PUBLISH usable as will"""
        r, g = self.r, self.g
        ops = {"ver": 1, "pset": 3, "pdis": 0.5}
        if t in IDT + (PUBLISH,): ops["id"] = 1.5
        if t in ACKS + (CONNACK, DISCONNECT, AUTH): ops["rc"] = 2
        if t == CONNACK: ops["sp"] = 1
        if t == CONNECT: ops.update(cl=1, ka=1, ci=1.5, rwill=1, cred=2, will=2 if w else 0.3)
        if t == PUBLISH: ops.update(set=1.5, dup=1, ret=1, qos=2, top=2, pay=1, exp=0.7, pid=0.4)
        if t in (SUBACK, UNSUBACK): ops["codes"] = 3
        if t in (SUBSCRIBE, UNSUBSCRIBE): ops["topic"] = 4
        if only: ops = {k: v for k, v in ops.items() if k in only}
        k = r.choices(list(ops), list(ops.values()))[0]
        e = {"op": k, "o": o}
        if k == "ver": e["v"] = r.choice([3, 4, 5, 5])
        elif k == "pset": return self.pset(o, t)
        elif k == "id": e["n"] = g.id()
        elif k == "rc":
            e["n"] = r.choice(mqtt.CODES[t][0] + mqtt.CODES[t][1]) if r.random() < 0.7 else r.randrange(256)
        elif k in ("sp", "cl", "dup", "ret"): e["n"] = r.randint(0, 1)
        elif k == "ka": e["n"] = r.choice([0, 1, 255, 256, 65535, r.randrange(65536), r.randrange(65536)])
        elif k == "ci": e["a"] = list(g.clientid() if r.random() < 0.7 else r.choice([b"", b"a+", "é".encode(), b"a\x00", b"\xff", b"a b", b"x#", b"a\n"]))
        elif k == "cred":
            e["a"] = list(g.uni(0, 4).encode() if r.random() < 0.8 else r.choice([b"", b"\xff", b"a\x01"]))
            e["b"] = list(g.blob(6) if r.random() < 0.7 else b"")
        elif k == "will": e["w"] = w or 0
        elif k == "set":
            e.update(a=list(g.topic() if r.random() < 0.8 else r.choice([b"", b"a+", b"#", b"\xff", b"a\x00"])), b=list(g.blob(10)),
                     q=r.choice([0, 1, 2, 0, 1, 2, 3, 4, 5, 7, 128, 255, r.randrange(256)]), e=r.randint(0, 1), d=r.randint(0, 1))
        elif k == "qos": e["n"] = r.choice([0, 1, 2, 0, 1, 2, 3, 4, 5, 6, 127, 128, 130, 255, r.randrange(256)])
        elif k == "top": e["a"] = list(g.topic() if r.random() < 0.7 else r.choice([b"", b"a+", b"a/#", b"\xff\xfe", b"\x1f", b"+", b"x\x7f"]))
        elif k == "pay": e["a"] = list(g.blob(40))
        elif k == "exp": e["a"] = self.time()
        elif k == "pid": e["a"] = [] if r.random() < 0.2 else list(r.choice([1, 255, 2 ** 31, 2 ** 32, 2 ** 48 + 5, 2 ** 64 - 1, r.randrange(1, 2 ** 64)]).to_bytes(8, "big"))
        elif k == "codes":
            cs = mqtt.CODES[t][r.randint(0, 1)] or [0, 1, 2, 128]
            e["cs"] = [r.choice(cs) if r.random() < 0.85 else r.randrange(256) for _ in range(r.randint(0, 4))]
            e["h"] = r.randint(0, 1)
        elif k == "topic":
            e["a"] = list(g.filter() if r.random() < 0.8 else g.badfilter())
            e["q"] = r.choice([0, 1, 2, 0, 1, 2, 3, 4, 8, 9, 16, 22, 32, 41, 45, 48, 64, 128, r.randrange(64)]) if t == SUBSCRIBE else 0
        return e

    def time(self):
        r = self.r
        if r.random() < 0.2: return []
        return list(r.choice([1, 1000000000, 1800000000, 4102444800, 10 ** 10, 2 ** 33, 253402300799]).to_bytes(8, "big")
                    + r.choice([0, 1, 500000000, 999999999]).to_bytes(4, "big"))

    def enc(self, o, **kw):
        r = self.r
        e = {"op": "enc", "o": o, "d": r.choice([0, 0, 0, 1, 7, 40, -1, -2, -1000]), "f": r.choice([0, 255, 165, r.randrange(256)]),
             "k": r.choice([0, 0, 1, 7])}
        if r.random() < 0.2: e["h"] = 1
        elif r.random() < 0.1:
            e["h"] = 2
            e["n"] = r.choice([0, 1, 2, 5, 500, 3000])
        e.update(kw)
        return e

    def complete(self, o, t, v, w=None):
        """calls that make a new message encodable"""
        r, g = self.r, self.g
        out = []
        if t in IDT or (t == PUBLISH and r.random() < 0.8): out.append({"op": "id", "o": o, "n": g.id()})
        if t == CONNECT:
            out.append({"op": "ci", "o": o, "a": list(g.clientid() or b"c")})
        if t == PUBLISH:
            out.append({"op": "set", "o": o, "a": list(g.topic()), "b": list(g.blob(10)), "q": r.randint(0, 2), "e": r.randint(0, 1), "d": 0})
        if t in (SUBSCRIBE, UNSUBSCRIBE):
            out.append({"op": "topic", "o": o, "a": list(g.filter()), "q": r.randint(0, 2)})
        if t in (SUBACK, UNSUBACK):
            out.append({"op": "codes", "o": o, "cs": [r.choice(codes(t, v) or [0])]})
        r.shuffle(out)
        return out

    def will(self, o, v):
        """a PUBLISH to be used as will"""
        r, g = self.r, self.g
        ev = [{"op": "new", "o": o, "t": PUBLISH, "v": v if r.random() < 0.85 else r.choice([3, 4, 5])}]
        if r.random() < 0.85:
            ev.append({"op": "set", "o": o, "a": list(g.topic()), "b": list(g.blob(8) or b"p") if r.random() < 0.9 else [], "q": r.randint(0, 2),
                       "e": r.randint(0, 1), "d": r.randint(0, 1)})
        for _ in range(g.n(3)):
            ev.append(self.pset(o, PUBLISH, 0.9, [1, 2, 3, 8, 9, 24, 38]))
        return ev

    def history(self, t, v, n, o=1, encs=True, only=None, probe=0.15):
        """a history on slot o; slots o+5.. hold wills"""
        r = self.r
        ev = [{"op": "new", "o": o, "t": t, "v": v}]
        ws = 0
        comp = self.complete(o, t, v) if r.random() < 0.85 else []
        total = n + len(comp)
        for k in range(total):
            if comp and r.random() < (len(comp) + 0.3) / (total - k):
                ev.append(comp.pop())
                continue
            w = None
            if t == CONNECT and ws < 4 and r.random() < 0.35 and (not only or "will" in only):
                w = o + 5 + ws
                ws += 1
                ev += self.will(w, v)
                ev.append({"op": "will", "o": o, "w": w})
                continue
            ev.append(self.call(o, t, w, only))
            if encs and r.random() < probe: ev.append(self.enc(o))
            if r.random() < probe / 3: ev.append({"op": "pget", "o": o, "i": r.choice(PROPS + [0, 77])})
            if r.random() < probe / 4: ev.append({"op": "pfor", "o": o})
        return ev + comp

    def finish(self, o, p, x=None):
        ev = [self.enc(o), {"op": "enc", "o": o, "d": 0, "f": 90, "k": 0}, {"op": "redec", "o": o, "p": p}, {"op": "enc", "o": p, "d": 3, "f": 17, "k": 1}]
        return ev
