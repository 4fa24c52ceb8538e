"""C17, C18: counters under schedules of the real code."""
import glob, json, os, random, re, subprocess, time
import core
from run import Result

SHIM = ("shim/sched", "shim/atomic", "shim/sync")


def limbs(n): return [n >> 48 & 0xffff, n >> 32 & 0xffff, n >> 16 & 0xffff, n & 0xffff]


def C(op, n=0): return {"op": op, "n": limbs(n)}


def rewritten(work):
    """the package with scheduling points; returns the overlay entries"""
    exe = work.path("rewrite")
    r = subprocess.run(["go", "build", "-o", exe, f"{core.VERIF}/harness/rewrite/main.go"], env=dict(core.goenv(), GO111MODULE="off", GOFLAGS=""),
                       capture_output=True, text=True, cwd=work.dir)
    if r.returncode: core.die("rewriter does not build: " + r.stderr)
    d = work.path("vm")
    os.makedirs(d, exist_ok=True)
    r = subprocess.run([exe, core.REPO + "/vlmonitoring", d], capture_output=True, text=True)
    if r.returncode: core.die("rewriting failed: " + r.stderr)
    return {f"{core.REPO}/vlmonitoring/{os.path.basename(f)}": f for f in glob.glob(d + "/*.go")}


OPS = {"C17": ["add", "add", "add", "get", "load", "diff", "sadd", "radd", "fdiff", "sget", "rget"], "C18": ["madd", "madd", "madd", "msub", "mload", "mget"]}
POST = {"C17": ["get", "load", "diff", "sget", "rget", "fdiff"], "C18": ["mload", "mget"]}
BIG = [1, 2, 2 ** 64 - 1, 2 ** 64 - 2, 2 ** 64 - 256, 255, 256, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 48, 2 ** 63 - 1, 2 ** 63]


def program(r, prop, threads, calls, big=False):
    """threads of calls; each thread subtracts no more than it has added"""
    ts = []
    for _ in range(threads):
        t, bal = [], 0
        for _ in range(r.randint(1, calls)):
            op = r.choice(OPS[prop])
            if op == "msub":
                if bal == 0: op = "madd"
                else:
                    n = r.choice([bal, r.randint(0, bal)])
                    bal -= n
                    t.append(C(op, n))
                    continue
            n = r.choice([1, 1, 2, 3, 5, 0]) if not big else r.choice(BIG)
            if op == "madd":
                if bal + n >= 2 ** 61: n = 1
                bal += n
            t.append(C(op, n if op.endswith("add") else 0))
        ts.append(t)
    return ts


def scenarios(prop, seed, th):
    r = random.Random(f"{seed}/{prop}/mon")
    post = [C(o) for o in POST[prop]]
    out = []

    def S(threads, bound, mx, pre=(), mode=""):
        out.append({"pre": list(pre), "threads": threads, "post": post, "bound": bound, "max": mx, "seed": r.randrange(1 << 30), "mode": mode})

    k = 10 if th else 1
    if prop == "C17":
        S([[C("add", 1)], [C("add", 2)]], -1, 20000 * k)
        S([[C("add", 1), C("add", 3)], [C("add", 2), C("get")]], -1 if th else 4, 4000 * k)
        S([[C("add", 1)], [C("add", 2)], [C("add", 4)]], -1 if th else 3, 4000 * k)
        S([[C("add", 1), C("add", 2)], [C("diff"), C("diff"), C("diff")]], 4, 4000 * k)
        S([[C("add", 1)], [C("add", 2)], [C("diff"), C("diff")]], 3, 4000 * k)
        S([[C("sadd", 1), C("sadd", 2)], [C("radd", 5), C("sadd", 7)]], 4, 3000 * k)
        S([[C("sadd", 1), C("radd", 2)], [C("fdiff"), C("fdiff")]], 4, 4000 * k)
        S([[C("diff"), C("add", 1), C("diff")], [C("diff"), C("add", 2), C("diff")]], 3, 4000 * k)
        # one call against many of another thread, every order of steps: retries give up sooner or later
        S([[C("add", 1)], [C("add", 2), C("add", 4), C("add", 8), C("add", 16)]], -1, 20000 * k)
        S([[C("sadd", 1)], [C("sadd", 2), C("radd", 4), C("sadd", 8), C("sadd", 16)]], -1, 10000 * k)
        S([[C("diff")], [C("add", 2), C("add", 4), C("add", 8)]], -1, 6000 * k, pre=[C("add", 1), C("diff")])
    else:
        S([[C("madd", 1)], [C("madd", 2)]], -1, 20000 * k)
        S([[C("madd", 1)], [C("madd", 2)], [C("madd", 4)]], -1 if th else 4, 6000 * k)
        S([[C("madd", 3), C("msub", 2)], [C("madd", 2), C("msub", 1)]], 5, 6000 * k)
        S([[C("madd", 1), C("madd", 1)], [C("mload"), C("mload"), C("mload")]], 4, 4000 * k)
        S([[C("madd", 5), C("msub", 5), C("madd", 1)], [C("mload"), C("mload")]], 4, 4000 * k)
        S([[C("madd", 1)], [C("madd", 1)], [C("mload"), C("mload")]], 4, 5000 * k)
        S([[C("madd", 3), C("msub", 3)], [C("madd", 1), C("mload")]], 5, 5000 * k, pre=[C("madd", 2)])
        S([[C("madd", 1)], [C("madd", 2), C("madd", 4), C("madd", 8)]], -1, 20000 * k)
        S([[C("madd", 1), C("msub", 1)], [C("madd", 2), C("madd", 4), C("madd", 8)]], -1, 10000 * k)
        S([[C("msub", 1)], [C("madd", 2), C("madd", 4), C("msub", 3)]], -1, 10000 * k, pre=[C("madd", 1)])
        S([[C("madd", 4)], [C("mload"), C("msub", 3), C("mload")]], -1, 10000 * k, pre=[C("madd", 3)])
        S([[C("mload"), C("mload")], [C("madd", 2), C("madd", 4)]], -1, 10000 * k)
        S([[C("madd", 7), C("msub", 6)], [C("madd", 1)], [C("mload")]], 3, 5000 * k, pre=[C("madd", 3), C("msub", 2)])
    # whatever one call does between two of its steps, another thread has made a call in between
    def against(pre, call, other, short=False):
        for a in range(5 if short else 7):
            for b in (1, 2) if short else (1, 2, 3, 4):
                for p in (1, 2, 3) if short else (1, 2, 3, 4, 5):
                    out.append({"pre": pre, "threads": [[call], other], "post": post, "bound": 0, "max": 1, "seed": 1, "mode": "against", "order": [a, b, p]})

    for n in (5, 130):
        if prop == "C17":
            against([], C("add", 7), [C("add", 1)] * n)
            against([], C("sadd", 7), [C("sadd", 1), C("radd", 2)] * (n // 2), True)
            against([C("add", 3)], C("diff"), [C("add", 1)] * n, True)
        else:
            against([C("madd", 200)], C("madd", 400), [C("mget"), C("msub", 200)] + [C("madd", 1)] * n)
            against([C("madd", 1)], C("madd", 7), [C("madd", 1)] * n, True)
            against([C("madd", 9)], C("msub", 9), [C("madd", 1)] * n, True)
            against([C("madd", 9)], C("mload"), [C("madd", 1)] * n, True)
    for _ in range(60 * k):
        S(program(r, prop, r.choice([2, 2, 3]), 3), r.choice([2, 3]), 300, mode="")
    for _ in range(60 * k):
        S(program(r, prop, r.choice([2, 3, 4]), 4), 0, 120, pre=program(r, prop, 1, 3)[0], mode="random")
    # one thread, values of any size
    for _ in range(250 * k):
        S([], 0, 1, pre=program(r, prop, 1, 12, big=True)[0])
    if prop == "C17":
        for _ in range(20 * k):
            pre, x = [], 0
            for _ in range(8):
                if r.random() < 0.5:
                    x = (x + r.choice(BIG + [0, 0])) % 2 ** 64
                    pre.append(C("lset", x))
                else: pre.append(C("ls"))
            S([], 0, 1, pre=pre + [C("ls"), C("ls")])
    return out


def drive(work, exe, sc, tag, env=None):
    fin, fout = work.path(tag + ".in"), work.path(tag + ".out")
    with open(fin, "w") as f:
        for s in sc: f.write(json.dumps(s) + "\n")
    e = dict(os.environ, GOTRACEBACK="single")
    e.update(env or {})
    try:
        r = subprocess.run([exe, "-in", fin, "-out", fout], capture_output=True, text=True, errors="replace", env=e, preexec_fn=core.limits, timeout=3000)
    except subprocess.TimeoutExpired:
        core.die("driver ran out of time")
    res = []
    if os.path.exists(fout):
        for line in open(fout):
            if line.endswith("\n"): res.append(json.loads(line))
    return r.returncode, r.stderr, res


def linearize(work, hists, name):
    """indices of histories that have no explanation"""
    p = work.path(f"{name}.ndjson")
    nt = 1 + max([e["t"] for h in hists for e in h] or [0])
    with open(p, "w") as f:
        for h in hists: f.write(json.dumps({"ev": h}, separators=(",", ":")) + "\n")
    r = core.tlc(work, "TraceMon", f'SPECIFICATION Spec\nINVARIANT TypeOK\nCONSTANT TraceFile = "{p}"\nCONSTANT NThreads = {nt}\n', name=name, timeout=3000)
    done = {int(x) for x in re.findall(r'^"DONE (\d+)"', r.out, re.M)}
    os.unlink(p)
    return [k for k, h in enumerate(hists) if h and k + 1 not in done], r


def check(work, prop, seed, th):
    res = Result()
    import models
    given = models.run(work, res, prop, th)
    exe = core.build(work, "mon", extra=SHIM, replace=rewritten(work))
    sc = scenarios(prop, seed, th) + [dict(s, post=[C(o) for o in POST[prop]]) for s in given]
    rc, err, out = drive(work, exe, sc, "mon")
    collect(work, res, prop, sc, out, rc, err, "schedules", th)
    # the code as it is, real goroutines, race detector
    r = random.Random(f"{seed}/{prop}/real")
    post = [C(o) for o in POST[prop]]
    real = [{"pre": [], "threads": program(r, prop, 4, 4), "post": post, "real": 60 if th else 15} for _ in range(100 if th else 10)]
    bulk = [{"bulk": 8, "max": 6000 if th else 800, "seed": r.randrange(1 << 30)} for _ in range(10 if th else 2)]
    for race in (False, True):
        exe = core.build(work, "mon", race=race, extra=SHIM)
        rc, err, out = drive(work, exe, real + bulk, "real", env={"GORACE": "halt_on_error=1"})
        collect(work, res, prop, real + bulk, out, rc, err, "goroutines" + (", race detector" if race else ""), th)
    return res


def collect(work, res, prop, sc, out, rc, err, name, th):
    if "DATA RACE" in err:
        m = re.search(r"WARNING: DATA RACE.*?(?=\n==|\Z)", err, re.S)
        text = m.group(0) if m else err
        labs = ["C18"] if re.search(r"\(\*Max\)|Max\.", text) else ["C17"]
        f = {"op": "fail", "lab": labs, "why": "data race", "l": 1}
        if prop in labs:
            res.bad.append((f, [{"op": "fail", "why": "data race", "text": text[:3000]}], {"fam": name, "module": "mon", "race": True}))
    elif rc == 7:
        bad(res, prop, sc[len(out)], [], "call does not return", name)
    elif rc != 0:
        m = re.search(r"^(fatal error|panic).*$", err, re.M)
        if m and "zzverif" not in err.split("goroutine", 1)[-1].split("\n")[1:2]:
            bad(res, prop, sc[min(len(out), len(sc) - 1)], [], "process dies: " + m.group(0), name)
        else:
            core.die("driver failed: " + err[-2000:])
    hists, src, nsched, full = [], [], 0, 0
    for o in out:
        s = sc[o["id"]]
        nsched += o["sched"]
        full += o["full"]
        if o["hang"]: bad(res, prop, s, o["hist"][-1], "calls do not end", name)
        for h in o["hist"]:
            hists.append(h)
            src.append(s)
    wrong, states = [], 0
    if hists:
        wrong, r = linearize(work, hists, "lin")
        res.states += r.distinct
        res.trans += r.states
        states = r.distinct
    for k in wrong:
        bad(res, prop, src[k], hists[k], "no order of effects explains the results", name)
    bulks = [b for o in out for b in o["bulk"]]
    if bulks:
        p = work.path("bulk.ndjson")
        with open(p, "w") as f:
            for b in bulks: f.write(json.dumps(b) + "\n")
        r = core.tlc(work, "TraceBulk", f'SPECIFICATION Spec\nINVARIANT TypeOK\nCONSTANT TraceFile = "{p}"\n')
        os.unlink(p)
        res.states += r.distinct
        res.trans += r.states
        for f in r.fails:
            if prop in f["lab"]:
                b = bulks[f["tid"] - 1]
                e = {k: (v if k not in ("adds", "diffs", "load") else len(v)) for k, v in b.items()}
                res.bad.append((dict(f, l=1), [e], {"fam": name, "module": "mon", "bulk": 8, "max": 800, "seed": 1}))
    res.traces += len(hists) + len(bulks)
    res.events += sum(len(h) for h in hists) + sum(len(b["adds"]) for b in bulks)
    for h in hists:
        for e in h:
            if e["k"] == "inv": res.ops[e["op"]] += 1
    res.parts.append(dict(part="traces", name=name, schedules=nsched, distinct_histories=len(hists), fully_enumerated_programs=full,
                          bulk_runs=len(bulks), linearization_states=states))
    for h in hists[:: max(1, len(hists) // 2)][:2]:
        res.samples.append({"family": name, "calls": [f'{e["k"]} {e["t"]} {e["op"]} {e["n"]} -> {e["r"]}' for e in h[:8]]})


def bad(res, prop, s, h, why, name):
    res.bad.append(({"op": "history", "lab": [prop], "why": why, "l": len(h) or 1}, [dict(e, op=e["op"]) for e in h] or [{"op": "fail", "why": why}],
                    dict(s, fam=name, module="mon")))


def replay(work, d):
    res = Result()
    s = {k: v for k, v in d["scenario"].items() if k not in ("fam", "module", "race")}
    if d["scenario"].get("race") or "goroutines" in d["scenario"]["fam"]:
        s = s if s.get("threads") or s.get("bulk") else {"bulk": 8, "max": 800, "seed": 1}
        exe = core.build(work, "mon", race=bool(d["scenario"].get("race")), extra=SHIM)
    else:
        exe = core.build(work, "mon", extra=SHIM, replace=rewritten(work))
    rc, err, out = drive(work, exe, [s], "rep", env={"GORACE": "halt_on_error=1"})
    collect(work, res, d["property"], [s], out, rc, err, d["scenario"]["fam"], False)
    return res
