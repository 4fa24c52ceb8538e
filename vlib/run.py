"""Runs one check: models, scenarios on the real code, trace validation, evidence, verdict."""
import collections, hashlib, json, os, random, sys, time
from concurrent.futures import ThreadPoolExecutor
import core, fam, props

OUT = core.VERIF + "/out"
PROPS = {json.loads(x)["id"]: json.loads(x) for x in open(core.VERIF + "/properties.jsonl")}
ASSUME = ["TLC evaluates the specification correctly",
          "the recorder (harness/) reports arguments, results and accessor values of the real calls truthfully",
          "executions not generated behave like those generated (bounds and generators in DESIGN.md)"]


def known(prop):
    """findings that are listed: [(why, digest of the failing call)]"""
    p = core.VERIF + "/known_findings.txt"
    out = []
    for line in open(p) if os.path.exists(p) else []:
        if line.startswith(f"known: property={prop} "):
            w = dict(x.split("=", 1) for x in line.split()[1:] if "=" in x)
            out.append((w.get("call", ""), line.split(" -- ", 1)[-1].strip()))
    return out


def call_of(ev):
    """the failing call: its name and arguments, without results"""
    keep = ("op", "t", "v", "b", "i", "g", "s", "a", "q", "d", "n", "cs", "k", "e")
    return hashlib.sha256(json.dumps({k: ev[k] for k in keep if k in ev}, sort_keys=True).encode()).hexdigest()[:16]


class Result:
    def __init__(self):
        self.states = self.trans = self.traces = self.events = 0
        self.bad = []            # (fail, events, scenario)
        self.parts = []
        self.samples = []
        self.ops = collections.Counter()

    def add_model(self, name, r, **kw):
        self.states += r.distinct
        self.trans += r.states
        self.parts.append(dict(part="model", name=name, states=r.distinct, generated=r.states, depth=r.depth, **kw))

    def add_proof(self, name, n):
        self.parts.append(dict(part="proof", name=name, obligations=n, method="TLAPS"))

    def add_traces(self, name, prop, traces, judged):
        fails, st, tr, ev = judged
        self.states += st
        self.trans += tr
        self.events += ev
        self.traces += len(traces)
        self.parts.append(dict(part="traces", name=name, traces=len(traces), steps=ev))
        for t, _ in traces:
            for e in t: self.ops[e["op"]] += 1
        for f in fails:
            if prop in f["lab"] or "*" in f["lab"]:
                self.bad.append((f, traces[f["trace"]][0], traces[f["trace"]][1]))
        self.other = [f for f in fails if prop not in f["lab"] and "*" not in f["lab"]]
        for t, s in traces[:: max(1, len(traces) // 3)][:3]:
            self.samples.append({"family": s.get("fam", name), "calls": [short(e) for e in t[:4]]})


def short(e):
    return json.dumps({k: v for k, v in e.items() if k not in ("obs", "src")}, separators=(",", ":"))[:400]


def families(prop, seed, thorough):
    gen, fams, fun = props.CHECKS[prop]
    msgs, funs = [], []
    lst = (props.general(gen) if gen else []) + [(n, props.FAM[n]) for n in fams]
    for n, fn in lst:
        for s in fn(random.Random(f"{seed}/{prop}/{n}"), thorough): msgs.append(dict(s, fam=n))
    msgs += props.shared(prop, random.Random(f"{seed}/{prop}/shared"), thorough)
    for n in fun:
        for s in props.FUN[n](random.Random(f"{seed}/{prop}/{n}"), thorough): funs.append(dict(s, fam=n))
    return msgs, funs


SETTERS = {"ver", "pset", "pdis", "id", "rc", "codes", "topic", "sp", "cl", "ka", "ci", "cred", "rwill", "will", "set", "dup", "ret", "qos", "top", "pay", "exp", "pid"}


def quiet(r, scenarios, p=0.25):
    """some histories are made without looking at the message after each call: looking may change it, too"""
    for s in scenarios:
        ev = s.get("ev")
        if not ev or not any(e["op"] in SETTERS for e in ev) or any(e["op"] == "big" for e in ev) or r.random() >= p: continue
        q = r.choice([1, 1, 0.5])
        for e in ev:
            if (e["op"] in SETTERS or e["op"] in ("new", "dec")) and not (e["op"] == "codes" and len(e.get("cs") or []) > 1) and r.random() < q: e["z"] = 1
        ev += [{"op": "look", "o": o} for o in sorted({e["o"] for e in ev if e["op"] in SETTERS})]


def byname(r, scenarios):
    """some messages are made by the constructor of their type instead of New"""
    for s in scenarios:
        for e in s.get("ev") or []:
            if e["op"] == "new" and "n" not in e and r.random() < 0.4: e["n"] = 1


def clocks(work, res, prop, seed, thorough, tmo):
    """histories on a clock that the driver sets: every answer is determined exactly"""
    import models
    exe = core.clocked(work)
    sc = models.expiry(work, res, thorough) + [dict(s, fam="clock") for s in props.funs.clocks(random.Random(f"{seed}/{prop}/clock"), thorough)]
    for s in sc: s.update(module="TraceFun", clock=1)
    tr = core.drive(work, exe, sc, tag="c", timeout=tmo) if exe else []
    asked = sum(c.get("asked", 0) for t, _ in tr for e in t for c in e.get("c") or [] if isinstance(c, dict))
    if asked: res.add_traces("function traces on a set clock", prop, tr, core.judge(work, tr, "TraceFun", timeout=tmo, name="clock"))
    else: res.parts.append(dict(part="note", name="the code does not take its time from package time: histories on a set clock left out"))


def message_check(work, prop, seed, thorough):
    res = Result()
    msgs, funs = families(prop, seed, thorough)
    exe = core.build(work)
    import models
    if prop in models.MODELS:
        for s in models.run(work, res, prop, thorough): (funs if s.get("module") == "TraceFun" else msgs).append(s)
    tmo = 9000 if thorough else 700
    quiet(random.Random(f"{seed}/{prop}/quiet"), msgs)
    byname(random.Random(f"{seed}/{prop}/byname"), msgs)
    if msgs:
        tr = core.drive(work, exe, msgs, timeout=tmo)
        res.add_traces("message traces", prop, tr, core.judge(work, tr, "Trace", timeout=tmo))
    if funs:
        tr = core.drive(work, exe, funs, tag="f", timeout=tmo)
        res.add_traces("function traces", prop, tr, core.judge(work, tr, "TraceFun", timeout=tmo))
    if prop == "C16": clocks(work, res, prop, seed, thorough, tmo)
    if prop == "C22":
        exr = core.build(work, race=True)
        sc = [dict(s, fam=n + ", race detector") for n in ("parallel", "readers") for s in props.FAM[n](random.Random(f"{seed}/race"), thorough)]
        tr = core.drive(work, exr, sc, tag="r", timeout=tmo, env={"GORACE": "halt_on_error=1"})
        res.add_traces("message traces under the race detector", prop, tr, core.judge(work, tr, "Trace", timeout=tmo, name="race"))
        # in a process of their own each: whatever the package sets up on first use is set up by all of them at once
        sc = [dict(s, fam="first use, race detector", first=True) for s in fam.firsts(random.Random(f"{seed}/first"), thorough)]
        tr = []
        with ThreadPoolExecutor(4) as ex:
            for x in ex.map(lambda k: core.drive(work, exr, [sc[k]], tag=f"u{k}.", timeout=tmo, env={"GORACE": "halt_on_error=1"}), range(len(sc))): tr += x
        res.add_traces("message traces of first use under the race detector", prop, tr, core.judge(work, tr, "Trace", timeout=tmo, name="first"))
    return res


def report(prop, res):
    """prints verdict lines; returns the exit code"""
    kn = known(prop)
    hit, new = set(), []
    for f, ev, sc in res.bad:
        e = ev[f["l"] - 1]
        c = call_of(e)
        k = [d for d in kn if d[0] == c]
        if k: hit.add(k[0])
        else: new.append((f, ev, sc, c))
    for _, text in sorted(hit):
        print(f"KNOWN-FINDING: property={prop} {text}")
    if not new: return 0
    os.makedirs(OUT, exist_ok=True)
    # the shortest failing execution
    f, ev, sc, c = min(new, key=lambda x: (x[0]["l"], len(json.dumps(x[1][: x[0]["l"]]))))
    path = f"{OUT}/replay-{prop}.json"
    mod = "TraceFun" if sc.get("fam") in props.FUN else "Trace"
    with open(path, "w") as o:
        json.dump({"property": prop, "why": f["why"], "module": sc.get("module", mod), "labels": f["lab"], "step": f["l"], "call": c,
                   "scenario": {k: v for k, v in sc.items()}, "trace": ev[: f["l"]],
                   "failing_step": ev[f["l"] - 1], "violations": len(new)}, o)
    why = collections.Counter(x[0]["op"] + ": " + x[0]["why"] for x in new)
    for w, k in why.most_common(12): print(f"  {k} x {w}")
    print("  first: " + short(ev[f["l"] - 1]))
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def evidence(prop, res, t0, bad):
    os.makedirs(core.VERIF + "/evidence", exist_ok=True)
    with open(f"{core.VERIF}/evidence/{prop}.json", "w") as f:
        json.dump({"property": prop, "tier": core.TIER, "seed": core.SEED, "level": "model_checking",
                   "coverage": {"states": res.states, "transitions": res.trans, "traces_validated_against_impl": res.traces,
                                "trace_steps": res.events, "calls": dict(res.ops), "parts": res.parts, "samples": res.samples[:12]},
                   "assumptions": ASSUME, "wall_s": round(time.time() - t0, 2), "violations": bad}, f, indent=1)


def replay(path):
    d = json.load(open(path))
    work = core.Work(d["property"])
    try:
        if d["module"] not in ("Trace", "TraceFun"):
            import mon
            res = mon.replay(work, d)
        else:
            race = "race" in d["scenario"].get("fam", "")
            exe = core.clocked(work) if d["scenario"].get("clock") else core.build(work, race=race)
            tr = core.drive(work, exe, [d["scenario"]], env={"GORACE": "halt_on_error=1"} if race else None)
            res = Result()
            res.add_traces("replay", d["property"], tr, core.judge(work, tr, d["module"]))
        for f, ev, _ in res.bad: print(f["l"], f["op"], f["lab"], f["why"], short(ev[f["l"] - 1]))
        print("reproduced" if res.bad else "not reproduced")
        return 1 if res.bad else 0
    finally:
        work.close()


def main(argv):
    if len(argv) >= 3 and argv[1] == "--replay": return replay(argv[2])
    prop = argv[0]
    t0 = time.time()
    thorough = core.TIER == "thorough"
    work = core.Work(prop)
    try:
        if prop in ("C17", "C18"):
            import mon
            res = mon.check(work, prop, core.SEED, thorough)
        else:
            res = message_check(work, prop, core.SEED, thorough)
        rc = report(prop, res)
        evidence(prop, res, t0, len(res.bad))
        print(f"{prop} {'broken' if rc else 'held'}: {res.states} states, {res.traces} executions, {res.events} steps, {time.time() - t0:.1f} s")
        return rc
    except core.Infra as e:
        print(f"check could not run: {e}", file=sys.stderr)
        return 2
    finally:
        work.close()
