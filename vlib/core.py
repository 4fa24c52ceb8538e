"""Building the driver from /repo's working tree, running it, running TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, collections

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")  # another tree only while testing the machinery (tools/catch.py)
SPEC = VERIF + "/spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
CPUS = os.cpu_count() or 4


class Infra(Exception):
    """The check could not do its work; no verdict."""


def die(msg):
    raise Infra(msg)


class Work:
    """scratch directory of one check run"""
    def __init__(self, prop):
        base = VERIF + "/out"
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)
        self.prop = prop

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off", CGO_ENABLED=e.get("CGO_ENABLED", "1"))
    return e


def build(work, name="drv", race=False, replace=None, extra=("shim/clock",), may=False):
    """builds harness/<name> as a package of /repo's module, without writing to /repo"""
    rep = {}
    for d in (name,) + tuple(extra):
        src = f"{VERIF}/harness/{d}"
        rep.update({f"{REPO}/zzverif/{d}/{f}": f"{src}/{f}" for f in os.listdir(src) if f.endswith(".go")})
    rep.update(replace or {})
    ov = work.path(f"ov-{name}{'-race' if race else ''}.json")
    with open(ov, "w") as f:
        json.dump({"Replace": rep}, f)
    mod = work.path("alt.mod")
    shutil.copy(REPO + "/go.mod", mod)
    shutil.copy(REPO + "/go.sum", work.path("alt.sum"))
    exe = work.path(name + ("-race" if race else "") + ("-alt" if replace else ""))
    cmd = ["go", "build", "-overlay", ov, "-modfile", mod, "-o", exe] + (["-race"] if race else []) + [f"./zzverif/{name}"]
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        if may: return None
        die("driver does not build:\n" + r.stdout + r.stderr)
    return exe


def clocked(work):
    """the driver with a package mqttp whose clock is set by hand, or None where that cannot be built"""
    rep = {}
    d = work.path("clk")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(REPO + "/mqttp"):
        if not f.endswith(".go") or f.endswith("_test.go"): continue
        s = open(f"{REPO}/mqttp/{f}", encoding="utf-8").read()
        n = re.sub(r'^(\s*(?:import\s+)?)(\w+\s+)?"time"', lambda m: m[1] + (m[2] or "time ") + '"github.com/VolantMQ/vlapi/zzverif/shim/clock"', s, flags=re.M)
        if n == s: continue
        with open(f"{d}/{f}", "w", encoding="utf-8") as o: o.write(n)
        rep[f"{REPO}/mqttp/{f}"] = f"{d}/{f}"
    return build(work, replace=rep, may=True) if rep else None


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def drive(work, exe, scenarios, tag="t", timeout=600, env=None):
    """runs scenarios on the real code; returns the traces (list of event lists) with their scenarios"""
    todo = list(scenarios)
    traces = []
    part = 0
    t0 = time.time()
    while todo:
        part += 1
        fin, fout = work.path(f"{tag}{part}.in"), work.path(f"{tag}{part}.out")
        with open(fin, "w") as f:
            for k, s in enumerate(todo):
                f.write(json.dumps(dict(s, id=k)) + "\n")
        e = dict(os.environ, GOMEMLIMIT="20GiB", GOTRACEBACK="single")
        e.update(env or {})
        try:
            r = subprocess.run([exe, "-in", fin, "-out", fout], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               text=True, errors="replace", env=e, preexec_fn=limits,
                               timeout=max(30, timeout - (time.time() - t0)))
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            die("driver ran out of time")
        done = 0
        with open(fout) as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                try:
                    d = json.loads(line)
                except ValueError:
                    break
                traces.append((d["ev"], todo[d["id"]]))
                done = d["id"] + 1
        os.unlink(fin)
        os.unlink(fout)
        race = rc == 66 and "DATA RACE" in err
        if race:
            m = re.search(r"WARNING: DATA RACE.*?(?=\n==|\Z)", err, re.S)
            traces.append(([{"op": "fail", "o": 0, "x": ["C22", "C17", "C18"], "why": "data race"}],
                           {"race": (m.group(0) if m else err)[:4000], "ev": []}))
            if done >= len(todo):
                return traces
        if rc == 0:
            if done != len(todo):
                die(f"driver stopped after {done} of {len(todo)} scenarios: {err[-500:]}")
            return traces
        if rc == 7:      # a call does not return; its trace says so
            return traces
        if rc == 3 or done >= len(todo):
            if race:
                return traces
            die("driver failed: " + err[-2000:])
        # the process died inside scenario `done`: make sure it was that scenario
        bad = todo[done]
        fin, fout = work.path(f"crash{tag}.in"), work.path(f"crash{tag}.out")
        with open(fin, "w") as f:
            f.write(json.dumps(dict(bad, id=0)) + "\n")
        r = subprocess.run([exe, "-in", fin, "-out", fout], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                           text=True, errors="replace", env=e, preexec_fn=limits, timeout=300)
        if r.returncode not in (0, 3, 7) or (race and done < len(todo)):
            m = re.search(r"^(fatal error|panic|runtime).*$", err, re.M)
            traces.append(([{"op": "fail", "o": 0, "x": ["*"],
                             "why": "process dies: " + (m.group(0) if m else "?")}], bad))
            todo = todo[done + 1:]
        else:
            die("driver died without being reproducible: " + err[-2000:])
        if time.time() - t0 > timeout:
            die("driver ran out of time")
    return traces


def write_traces(work, name, traces):
    p = work.path(name)
    with open(p, "w") as f:
        for ev, _ in traces:
            f.write(json.dumps({"ev": ev}, separators=(",", ":")) + "\n")
    return p


TlcResult = collections.namedtuple("TlcResult", "ok states distinct depth out fails violated")


def tlc(work, module, cfg, workers=None, args=(), timeout=800, heap="6g", name=None, env=None, quiet_fail=False):
    """runs TLC on a copy of the specification directory"""
    d = work.path("tlc-" + (name or module))
    shutil.copytree(SPEC, d, dirs_exist_ok=True)
    with open(f"{d}/{module}.cfg", "w") as f:
        f.write(cfg)
    w = workers or CPUS
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, min(4, w))}",
           f"-Djava.io.tmpdir={d}", "-cp", JARS, "tlc2.TLC", "-workers", str(w), "-metadir", d + "/states", "-noGenerateSpecTE",
           "-deadlock", "-fpmem", "0.1"] + list(args) + [module]
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, timeout=timeout, errors="replace",
                           env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired:
        die(f"TLC on {module} ran out of time")
    out = r.stdout
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    if not m:
        m = re.findall(r"The number of states generated: (\d+)()", out)
    states, distinct = (int(m[-1][0]), int(m[-1][1] or 0)) if m else (0, 0)
    dm = re.search(r"depth of the complete state graph search is (\d+)", out)
    fails = []
    for line in out.splitlines():
        if line.startswith('"FAIL '):
            fails.append(json.loads(json.loads(line)[5:]))
    violated = re.findall(r"Error: Invariant (\S+) is violated|Error: Action property (\S+) is violated|"
                          r"Temporal properties were violated|Error: Evaluating assumption|Assumption .* is false", out)
    ok = r.returncode == 0 and ("No error has been found" in out or "-simulate" in args)
    if not ok and not quiet_fail and not fails:
        err = "\n".join(out.splitlines()[-60:])
        die(f"TLC on {module} failed (exit {r.returncode}):\n{err}\n{r.stderr[-1500:]}")
    shutil.rmtree(d, ignore_errors=True)
    return TlcResult(ok, states, distinct, int(dm.group(1)) if dm else 0, out, fails, bool(violated))


def prove(work, module):
    """checks the proofs of a module with TLAPS: number of obligations"""
    d = work.path("tlapm-" + module)
    os.makedirs(d, exist_ok=True)
    shutil.copy(f"{SPEC}/{module}.tla", d)
    for k in range(4):
        # its back ends are timed: on a busy machine the proof is continued from the obligations proved so far
        try:
            r = subprocess.run(["tlapm", "--stretch", str(1 + 2 * k), module + ".tla"], cwd=d, capture_output=True, text=True, timeout=900,
                               errors="replace")
        except subprocess.TimeoutExpired:
            continue
        m = re.search(r"All (\d+) obligations? proved", r.stdout + r.stderr)
        if r.returncode == 0 and m:
            shutil.rmtree(d, ignore_errors=True)
            return int(m[1])
    die(f"the proofs of {module} do not go through:\n{(r.stdout + r.stderr)[-3000:]}")


def judge(work, traces, module="Trace", slots=12, chunk=60_000_000, consts="", timeout=800, name=None, workers=None):
    """validates traces against the trace specification; returns (fails, states, transitions, events)"""
    fails, states, trans, events = [], 0, 0, 0
    batches, cur, size = [], [], 0
    for k, tr in enumerate(traces):
        n = len(json.dumps(tr[0], separators=(",", ":")))
        if cur and size + n > chunk:
            batches.append(cur)
            cur, size = [], 0
        cur.append(k)
        size += n
    if cur:
        batches.append(cur)
    for b, idx in enumerate(batches):
        sub = [traces[k] for k in idx]
        p = write_traces(work, f"tr-{name or module}-{b}.ndjson", sub)
        cfg = f'SPECIFICATION Spec\nINVARIANT TypeOK\nCONSTANT TraceFile = "{p}"\n' + \
              (f"CONSTANT Slots = {slots}\n" if module == "Trace" else "") + consts
        r = tlc(work, module, cfg, timeout=timeout, name=f"{name or module}-{b}", workers=workers)
        want = sum(len(ev) + 1 for ev, _ in sub)
        if not r.ok:
            die("trace validation did not finish:\n" + "\n".join(r.out.splitlines()[-40:]))
        if r.distinct != want:
            die(f"trace specification consumed {r.distinct} of {want} steps:\n" + "\n".join(r.out.splitlines()[-40:]))
        for f in r.fails:
            f["trace"] = idx[f["tid"] - 1]
            fails.append(f)
        states += r.distinct
        trans += want - len(sub)
        events += want - len(sub)
        os.unlink(p)
    return fails, states, trans, events
