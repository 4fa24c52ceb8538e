"""Bounded models checked by TLC. Those that print their behaviours also yield scenarios: the behaviours
are replayed on the real code, where the trace specification judges them like any other execution."""
import json, random, collections
from concurrent.futures import ThreadPoolExecutor
import core
from hist import Hist

LAWS = ("TypeOK RoundTrip Consistent NoFive NoIdAtQos0 Frame Refusal Again LastWins Commute VersionBack Lookup "
        "Appended CloneLaws")
# the wills of MCMsg, as calls
WILLS = [[{"op": "new", "t": 3, "v": 5}, {"op": "set", "a": [97], "b": [107], "q": 1, "e": 0, "d": 0}],
         [{"op": "new", "t": 3, "v": 5}, {"op": "set", "a": [97, 47, 98], "b": [97], "q": 2, "e": 1, "d": 0},
          {"op": "pset", "i": 24, "g": "u32", "s": [{"g": "u32", "a": [0, 0, 0, 5], "b": []}]},
          {"op": "pset", "i": 38, "g": "pair", "s": [{"g": "pair", "a": [107], "b": [97]}]}],
         [{"op": "new", "t": 3, "v": 4}, {"op": "top", "a": [97]}]]


def printed(r, tag="E"):
    """what a model printed: JSON values"""
    pre = f'"{tag} '
    return [json.loads(json.loads(l)[len(tag) + 1:]) for l in r.out.splitlines() if l.startswith(pre)]


def invariants(names): return "INVARIANTS " + names + "\n"


class Graph:
    """the reachable graph of MCMsg"""
    def __init__(self, edges):
        self.ids, self.out = {}, collections.defaultdict(dict)
        for e in edges:
            s, d, c = (json.dumps(e[k], sort_keys=True) for k in "sdc")
            self.out[self.node(s)].setdefault(c, []).append(self.node(d))
        self.edges = sum(len(x) for x in self.out.values())

    def node(self, s): return self.ids.setdefault(s, len(self.ids))

    def tours(self, r, start, limit, budget):
        """walks from start that make every call in every state, each at most limit long; at most budget calls"""
        todo = {s: list(o) for s, o in self.out.items()}
        for s in todo: r.shuffle(todo[s])
        left = sum(len(x) for x in todo.values())
        walks, used = [], 0
        while left and used < budget:
            at, walk = start, []
            while left and len(walk) < limit and used + len(walk) < budget:
                if todo[at]:
                    c = todo[at].pop()
                    left -= 1
                    walk.append(c)
                    at = r.choice(self.out[at][c])
                    continue
                path = self.path(at, todo)
                if path is None: break
                for c, n in path:
                    walk.append(c)
                    at = n
            if not walk: break
            walks.append(walk)
            used += len(walk)
        return walks, left

    def path(self, at, todo):
        """calls to the nearest state with something to do"""
        prev, q = {at: None}, collections.deque([at])
        while q:
            x = q.popleft()
            if x != at and todo[x]:
                p = []
                while prev[x]:
                    y, c = prev[x]
                    p.append((c, x))
                    x = y
                return p[::-1]
            for c, ns in self.out[x].items():
                for n in ns:
                    if n not in prev:
                        prev[n] = (x, c)
                        q.append(n)
        return None


def scenario(r, t, walk, enc=0.4):
    h = Hist(r)
    ev, o, used = [{"op": "new", "o": 1, "t": t, "v": 5}], 1, [1]
    calls = [json.loads(c) for c in walk]
    for k in sorted({c["w"] for c in calls if c["op"] == "will" and c["w"]}):
        ev += [dict(x, o=5 + k) for x in WILLS[k - 1]]
    for c in calls:
        if c["op"] == "clone":
            p = 1 + o % 4
            ev.append({"op": "clone", "o": o, "p": p, "v": c["v"]})
            if p not in used: used.append(p)
            if r.random() < 0.5: o = p          # go on with the clone
            continue
        if c["op"] == "will" and c["w"]: c["w"] += 5
        ev.append(dict(c, o=o))
        if r.random() < enc: ev.append(h.enc(o))
        if len(used) > 1 and r.random() < 0.2: ev.append({"op": "obs", "o": r.choice(used), "x": ["C15"]})
        if c["op"] == "pset" and r.random() < 0.2: ev.append({"op": "pget", "o": o, "i": c["i"]})
        if r.random() < 0.03 and t in (8, 10): ev.append({"op": "each", "o": o, "k": r.randint(0, 3)})
    return {"ev": ev + h.finish(o, 5), "fam": "tours of MCMsg"}


def message_model(work, t, cfg, deep, emit=True):
    return core.tlc(work, "MCMsg", "SPECIFICATION Spec\n" + invariants(LAWS) +
                    f'CONSTANTS T = {t} Cfg = "{cfg}" Emit = {str(emit).upper()} Deep = {str(deep).upper()}\n',
                    workers=2, heap="2g", name=f"MCMsg-{t}-{cfg}", timeout=3000)


def messages(work, res, prop, thorough, cfgs, budget=3000):
    """MCMsg for each (type, alphabet); returns scenarios of at most budget calls in all (quick)"""
    r = random.Random(f"{core.SEED}/{prop}/MCMsg")
    with ThreadPoolExecutor(max(1, core.CPUS // 2)) as ex:
        runs = list(ex.map(lambda c: message_model(work, c[0], c[1], thorough), cfgs))
    sc = []
    for (t, cfg), m in zip(cfgs, runs):
        g = Graph(printed(m))
        start = 0
        walks, left = g.tours(r, start, 60, 10 ** 9 if thorough else max(200, budget // len(cfgs)))
        sc += [scenario(r, t, w) for w in walks]
        res.add_model(f"MCMsg type {t}, {cfg}", m, edges=g.edges, edges_not_toured=left, laws=LAWS.split())
    return sc


def packet_model(work, t, v, deep):
    rich = (1 if t == 1 and v == 5 else 2) + (1 if deep else 0)
    big = deep and not (t == 1 and v == 5)
    return core.tlc(work, "MCPacket", "SPECIFICATION Spec\n" + invariants(PLAWS) +
                    f'CONSTANTS T = {t} V = {v} Emit = TRUE Deep = {str(big).upper()} Rich = {rich}\n',
                    workers=2 if not deep else 4, heap="3g" if not deep else "8g", name=f"MCPacket-{t}-{v}", timeout=6000)


PLAWS = "Understood Refused Framed Rewritten"


def packets(work, res, prop, thorough, tvs, budget, want="all"):
    """MCPacket for each (type, version): what the sender writes is decoded by the real code"""
    r = random.Random(f"{core.SEED}/{prop}/MCPacket")
    with ThreadPoolExecutor(max(1, core.CPUS // (4 if thorough else 2))) as ex:
        runs = list(ex.map(lambda c: packet_model(work, c[0], c[1], thorough), tvs))
    pool = []
    for (t, v), m in zip(tvs, runs):
        ps = sorted({(bytes(p["b"]), p["bad"]) for p in printed(m, "P") if want == "all" or (want == "good") == (p["bad"] == "")})
        res.add_model(f"MCPacket type {t}, version {v}", m, packets=len(ps), laws=PLAWS.split())
        r.shuffle(ps)
        pool.append([(b, bad, v) for b, bad in ps])
    # a share for each type and version, the rest goes to the larger ones
    n = budget * (10 if thorough else 1)
    share = n // len(pool)
    take = [x for p in pool for x in p[:share]]
    rest = [x for p in pool for x in p[share:]]
    r.shuffle(rest)
    take += rest[: n - len(take)]
    r.shuffle(take)
    h, sc = Hist(r), []
    for i in range(0, len(take), 8):
        ev = []
        for b, bad, v in take[i:i + 8]:
            o = r.randint(1, 4)
            ev.append({"op": "dec", "o": o, "v": v, "b": list(b)})
            if bad == "" and r.random() < 0.3: ev.append(h.enc(o))
        sc.append({"ev": ev, "fam": "packets of MCPacket"})
    return sc


def streams(work, res, prop, thorough):
    """MCStream: the schedules of chunks it explores are played to the real code"""
    r, sc = random.Random(f"{core.SEED}/{prop}/MCStream"), []
    for v in (4, 5):
        n = 13 if thorough else 10
        m = core.tlc(work, "MCStream", "SPECIFICATION Spec\n" + invariants(SLAWS) + "PROPERTY Complete\n" +
                     f"CONSTANTS V = {v} MaxLen = {n} MaxPackets = 3 Emit = FALSE\n", name=f"MCStream-{v}", timeout=3000)
        res.add_model(f"MCStream, version {v}", m, laws=SLAWS.split() + ["Complete"], bytes=n)
        m = core.tlc(work, "MCStream", "SPECIFICATION Spec\n" + invariants(SLAWS) +
                     f"CONSTANTS V = {v} MaxLen = {10 if thorough else 9} MaxPackets = 3 Emit = TRUE\n", name=f"MCStream-{v}-emit", timeout=3000)
        ss = sorted(json.dumps(x, sort_keys=True) for x in printed(m, "S"))
        res.add_model(f"MCStream, version {v}, schedules", m, schedules=len(ss))
        r.shuffle(ss)
        ss = [json.loads(x) for x in ss[:60000 if thorough else 2500]]
        for i in range(0, len(ss), 10):
            sc.append({"ev": [{"op": "stream", "o": 0, "v": v, "b": x["b"], "n": x["n"], "cuts": x["cuts"]} for x in ss[i:i + 10]],
                       "fam": "schedules of MCStream"})
    return sc


SLAWS = "Delivered Prompt Exact OnlyBadCloses"


def topics(work, res, prop, thorough):
    """MCTopics, MCText: every text they build is given to the real validation functions"""
    import funs
    r = random.Random(f"{core.SEED}/{prop}/MCTopics")
    runs = [("MCTopics", "SPECIFICATION Spec\n" + invariants("Agree NameAgrees NameIsFilter SharedRest") +
             f"CONSTANTS N = {7 if thorough else 6} Emit = TRUE\n", 120000 if thorough else 9000)]
    for n, reps in ((3, "ends"), (5 if thorough else 4, "few")):
        runs.append(("MCText", "SPECIFICATION Spec\n" + invariants("Agree CodePoints Controls") +
                     f'CONSTANTS N = {n} Emit = TRUE Reps = "{reps}"\n', 60000 if thorough else 6000))
    sc = []
    for k, (mod, cfg, limit) in enumerate(runs):
        m = core.tlc(work, mod, cfg, name=f"{mod}-{k}", timeout=3000)
        ts = sorted({bytes(x) for x in printed(m, "T")})
        res.add_model(mod, m, texts=len(ts), constants=cfg.split("CONSTANTS ")[1].strip())
        if len(ts) > limit: ts = r.sample(ts, limit)
        r.shuffle(ts)
        sc += [dict(s, fam=f"texts of {mod}", module="TraceFun") for s in
               funs.batch("topic", [{"a": list(t), "q": r.choice([0, 1, 2, 4, 41, 255])} for t in ts], 60)]
    return sc


def configurations(work, res, prop, thorough):
    """MCConfig: every configuration of a few entries, normalised by the real code, several times"""
    import funs
    c = f"CONSTANTS N = {4 if thorough else 3} Emit = TRUE\n"
    m = core.tlc(work, "MCConfig", "SPECIFICATION Spec\n" + invariants("Again Exact Nothing Only") + "PROPERTIES Spoilt Grows\n" + c, timeout=3000)
    hs = printed(m, "G")
    res.add_model("MCConfig", m, configurations=len(hs), constants=c.split("CONSTANTS ")[1].strip())
    r = random.Random(f"{core.SEED}/{prop}/MCConfig")
    if len(hs) > 60000: hs = r.sample(hs, 60000)
    hs = [h for h in hs for _ in range(2 if h["g"] == "im" and any(x["t"] != "s" for x in h["e"]) else 1)]
    return [dict(s, fam="configurations of MCConfig", module="TraceFun") for s in funs.batch("cfg", hs, 60)]


def plugins(work, res, prop, thorough):
    """MCPlugin: every history of changes of two descriptors, all fields asked for before and after the last step"""
    import funs
    laws = "SPECIFICATION Spec\n" + invariants("Stems") + "PROPERTIES Own Copy\n"
    c = f"CONSTANTS N = {4 if thorough else 3} Emit = FALSE\n"
    m = core.tlc(work, "MCPlugin", laws + c, name="MCPlugin-laws", timeout=3000)
    res.add_model("MCPlugin", m, constants=c.split("CONSTANTS ")[1].strip())
    c = f"CONSTANTS N = {3 if thorough else 2} Emit = TRUE\n"
    m = core.tlc(work, "MCPlugin", "SPECIFICATION Spec\n" + c, name="MCPlugin-all", timeout=3000)
    hs = sorted(printed(m, "D"), key=str)
    res.add_model("MCPlugin", m, histories=len(hs), constants=c.split("CONSTANTS ")[1].strip())
    r = random.Random(f"{core.SEED}/MCPlugin")
    if len(hs) > 20000: hs = r.sample(hs, 20000)
    ask = [{"t": "get", "o": o, "v": v} for o in (0, 1) for v in range(4)]
    cs = [{"e": h[:-1] + r.sample(ask, 8) + h[-1:] + r.sample(ask, 8)} for h in hs]
    return [dict(s, fam="histories of MCPlugin", module="TraceFun") for s in funs.batch("desc", cs, 60)]


def expiry(work, res, thorough):
    """MCExpiry: every history of a few steps, each followed by asking all messages"""
    import funs
    laws = "SPECIFICATION Spec\n" + invariants("Counted Never Normal Apart") + "PROPERTIES OnlyLess Alike Frame\n"
    c = f"CONSTANTS N = {6 if thorough else 5} Emit = FALSE Ticks = {{1, 2, 3}} Ats = {{1, 4, 5, 6, 7, 9}}\n"
    m = core.tlc(work, "MCExpiry", laws + "VIEW View\n" + c, name="MCExpiry-laws", timeout=3000)
    res.add_model("MCExpiry", m, constants=c.split("CONSTANTS ")[1].strip())
    c = f"CONSTANTS N = {4 if thorough else 3} Emit = TRUE Ticks = {{1, 2, 3}} Ats = {{1, 5, 6, 7}}\n"
    m = core.tlc(work, "MCExpiry", "SPECIFICATION Spec\n" + c, name="MCExpiry-all", timeout=3000)
    hs = sorted(printed(m, "X"), key=str)
    res.add_model("MCExpiry", m, histories=len(hs), constants=c.split("CONSTANTS ")[1].strip())
    r = random.Random(f"{core.SEED}/MCExpiry")
    if len(hs) > 40000: hs = r.sample(hs, 40000)
    cs = []
    for h in hs:
        x = []
        for e in h: x += [dict(e, v=r.choice([3, 4, 5]))] + [{"t": "ask", "o": o} for o in (1, 2)]
        cs.append({"s": 1700000000, "ns": r.choice([0, 500000000, 999999999]), "q": r.randrange(3), "n": r.randrange(3), "x": x})
    return [dict(s, fam="histories of MCExpiry") for s in funs.batch("clk", cs, 60)]


BLAWS = "Verdicts Rewritten Canonical Prefix Header"


def bodies(work, res, prop, thorough, tvs, budget):
    """MCBytes: every body of a few bytes, decoded by the real code"""
    r = random.Random(f"{core.SEED}/{prop}/MCBytes")

    def one(c):
        t, v = c
        n = 5 if (t, v) == (3, 5) and not thorough else 6 if t in (12, 13) or thorough else 5
        return core.tlc(work, "MCBytes", "SPECIFICATION Spec\n" + invariants(BLAWS) + f"CONSTANTS T = {t} V = {v} N = {n} Emit = TRUE\n",
                        workers=2, heap="3g", name=f"MCBytes-{t}-{v}", timeout=3000)
    with ThreadPoolExecutor(max(1, core.CPUS // 2)) as ex: runs = list(ex.map(one, tvs))
    pool = []
    for (t, v), m in zip(tvs, runs):
        ps = sorted({bytes(p["b"]) for p in printed(m, "P")})
        res.add_model(f"MCBytes type {t}, version {v}", m, packets=len(ps), laws=BLAWS.split())
        r.shuffle(ps)
        pool += [(b, v) for b in ps[: budget * (12 if thorough else 1) // len(tvs)]]
    r.shuffle(pool)
    return [{"ev": [{"op": "dec", "o": 1 + k % 4, "v": v, "b": list(b)} for k, (b, v) in enumerate(pool[i:i + 8])], "fam": "bodies of MCBytes"}
            for i in range(0, len(pool), 8)]


CLAWS = "Implements Same MaxHad Quiet"


def counters(work, res, prop, thorough):
    """MCMetrics: it implements Counters, mistaken variants of it do not; its schedules are played to the real code"""
    ops = "c" if prop == "C17" else "m"

    def one(threads, calls, emit, variant):
        return core.tlc(work, "MCMetrics", "SPECIFICATION Spec\n" + invariants(CLAWS) + "PROPERTIES NeverBack" + (" Done" if not emit else "") +
                        f'\nCONSTANTS Threads = {threads} Calls = {calls} Ops = "{ops}" Emit = {str(emit).upper()} Variant = "{variant}"\n',
                        workers=2, heap="4g", name=f"MCMetrics-{threads}-{calls}-{emit}-{variant}", timeout=6000, quiet_fail=variant != "asis")
    jobs = [(2, 2, False, "asis"), (3, 1, False, "asis"), (2 if ops == "c" else 3, 2 if ops == "c" else 1, True, "asis")]
    if thorough: jobs += [(2, 3 if ops == "m" else 2, False, "asis"), (2, 2, True, "asis"), (3, 1, True, "asis")]
    jobs = list(dict.fromkeys(jobs))
    mistakes = ["torn"] if ops == "c" else ["torn", "once", "plain", "early"]
    with ThreadPoolExecutor(max(1, core.CPUS // 2)) as ex:
        runs = list(ex.map(lambda j: one(*j), jobs + [(2, 2, False, v) for v in mistakes]))
    pool = []
    for j, m in zip(jobs, runs):
        ms = printed(m, "M")
        res.add_model(f"MCMetrics, {j[0]} threads of {j[1]} calls" + (", schedules" if j[2] else ""), m, laws=CLAWS.split() + ["NeverBack", "Done"],
                      schedules=len(ms))
        pool += ms
    for v, m in zip(mistakes, runs[len(jobs):]):
        if not m.violated: core.die(f"MCMetrics does not find the mistake {v}")
        res.add_model(f"MCMetrics, mistake {v} found", m)
    if thorough: res.add_proof(p := "CounterProof" if ops == "c" else "MaxProof", core.prove(work, p))
    r = random.Random(f"{core.SEED}/{prop}/MCMetrics")
    uniq = sorted({json.dumps(x, sort_keys=True) for x in pool})
    pick = uniq if len(uniq) < (n := 60000 if thorough else 4000) else r.sample(uniq, n)
    return [dict(json.loads(x), pre=[], bound=0, max=1, mode="given", fam="schedules of MCMetrics") for x in pick]


def B(tvs, budget): return lambda w, r, p, th: bodies(w, r, p, th, tvs, budget)


VT = [(t, v) for v in (3, 4, 5) for t in range(1, 16) if t < 15 or v == 5]


def P(tvs, budget, want="all"): return lambda w, r, p, th: packets(w, r, p, th, tvs, budget, want)


ALLT = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15]
IDS = [3, 4, 5, 6, 7, 8, 9, 10, 11]
CODES = [2, 4, 5, 6, 7, 9, 11, 14, 15]


def run(work, res, prop, thorough):
    sc = []
    for f in MODELS.get(prop, []): sc += f(work, res, prop, thorough)
    return sc


def M(cfgs, budget=3000): return lambda w, r, p, th: messages(w, r, p, th, cfgs, budget)


MODELS = {
    "C17": [counters],
    "C18": [counters],
    "C19": [configurations],
    "C27": [plugins],
    "C01": [P([(t, 5) for t in range(1, 16)], 4000), B([(t, v) for t in range(1, 15) for v in (4, 5)] + [(15, 5)], 8000)],
    "C02": [streams, B([(t, v) for t in (1, 3, 8, 9, 10) for v in (4, 5)], 3000)],
    "C11": [topics],
    "C03": [P(VT, 9000, "good"), B([(t, 4) for t in (1, 3, 8, 9, 10)] + [(t, 5) for t in (2, 4, 9, 14, 15)], 4000)],
    "C04": [P(VT, 9000, "bad"), B([(t, 5) for t in range(1, 16)], 6000)],
    "C08": [P([(t, 5) for t in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14, 15)], 8000)],
    "C05": [M([(3, "publish"), (1, "connect"), (8, "topics"), (9, "codes"), (11, "codes"), (14, "codes"), (15, "props"), (3, "pubprops")])],
    "C06": [M([(3, "publish"), (1, "wills"), (4, "codes"), (10, "topics"), (2, "codes")], 2000)],
    "C07": [M([(t, "props") for t in ALLT] + [(3, "pubprops"), (1, "wills")], 5000)],
    "C09": [M([(t, "codes") for t in CODES] + [(3, "ids"), (8, "ids"), (1, "connect"), (1, "wills")], 4000)],
    "C10": [M([(t, "codes") for t in CODES], 4000)],
    "C12": [P([(1, 3), (1, 4), (1, 5)], 6000), M([(1, "connect"), (1, "wills")], 5000)],
    "C13": [M([(t, "ids") for t in IDS], 4000)],
    "C14": [M([(3, "publish")], 5000)],
    "C15": [M([(3, "publish"), (3, "pubprops"), (3, "expiry")], 5000)],
    "C16": [M([(3, "expiry")], 3000)],
    "C23": [P([(t, v) for t in (8, 9, 10, 11) for v in (4, 5)], 4000), M([(8, "topics"), (10, "topics"), (9, "codes"), (11, "codes")], 4000)],
}
