#!/usr/bin/env python3
"""seed.py [ID...]: writes /verif/seeded/<ID> from tools/seeds.py after checking, in a scratch copy of
/repo, that the change builds, passes the stable tests and that its demonstration tells the trees apart."""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
import seeds
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on")
DEMO = '''#!/bin/bash
# exit 0 where the property holds; run in the repository's root
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on
export HOME=${HOME:-/root}
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp go.mod "$t/go.mod"; cp go.sum "$t/go.sum"
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" PKG "$here" > "$t/overlay.json"
go test RACE-vet=off -count=1 -timeout 200s -modfile "$t/go.mod" -overlay "$t/overlay.json" -run '^TestDemo' ./PKG
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def stable(cwd, tmp):
    log = os.path.join(tmp, "go.json")
    with open(log, "w") as f:
        subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "./..."], cwd=cwd, env=ENV, stdout=f, stderr=subprocess.DEVNULL)
    out = os.path.join(tmp, "r.json")
    subprocess.run(["python3", "/opt/vp/results.py", out, "gojson:" + log], stdout=subprocess.DEVNULL)
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base["stable"]
    got = json.load(open(out))["passed"]
    return [t for t in want if t not in set(got)], len(want)

def one(b):
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        r = os.path.join(tmp, "repo"); shutil.copytree("/repo", r, symlinks=True)
        sh(["git", "checkout", "-q", "--", "."], r)
        for path, old, new in b["edits"]:
            p = os.path.join(r, path); s = open(p).read()
            if s.count(old) != 1: return "edit of %s matches %d times: %r" % (path, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        sh(["gofmt", "-l", "."], r)
        diff = sh(["git", "diff"], r).stdout
        # removed lines have to be of the original repository
        mine = []
        for path in sorted({e[0] for e in b["edits"]}):
            bl = sh(["git", "blame", "-s", "HEAD", "--", path], r).stdout.splitlines()
            owner = {}
            for i, l in enumerate(bl): owner[i + 1] = l[:9].lstrip("^")[:7]
            basec = sh(["git", "rev-list", "--max-parents=0", "HEAD"], r).stdout.strip()[:7]
            ln = 0
            for l in sh(["git", "diff", "-U0", "--", path], r).stdout.splitlines():
                if l.startswith("@@"): ln = int(l.split()[1][1:].split(",")[0])
                elif l.startswith("-") and not l.startswith("---"):
                    mine.append(owner.get(ln) == basec); ln += 1
        if not mine: note = "  (adds only)"
        else: note = "" if all(mine) else "  (%d of %d changed lines are not original)" % (mine.count(False), len(mine))
        if mine and not any(mine): return "changes only lines of fixes"
        d = os.path.join(tmp, b["id"]); os.mkdir(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo_test.go"), "w").write(b["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("PKG", b.get("pkg", "mqttp")).replace("RACE", "-race " if b.get("race") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        x = sh(["go", "build", "./..."], r)
        if x.returncode: return "build: " + x.stdout[:400]
        miss, n = stable(r, tmp)
        if miss: return "stable tests fail: %s" % miss[:4]
        x = sh(["bash", os.path.join(d, "demo.sh")], r)
        if x.returncode == 0: return "demo passes with the change"
        if "--- FAIL" not in x.stdout and "DATA RACE" not in x.stdout and "panic" not in x.stdout: return "demo breaks: " + x.stdout[:600]
        sh(["git", "checkout", "-q", "--", "."], r)
        x = sh(["bash", os.path.join(d, "demo.sh")], r)
        if x.returncode: return "demo fails without the change: " + x.stdout[:600]
        dst = os.path.join(V, "seeded", b["id"])
        if os.path.isdir(dst): shutil.rmtree(dst)
        shutil.copytree(d, dst)
        return "ok (%d tests)%s" % (n, note)
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    want = sys.argv[1:]
    todo = [b for b in seeds.ALL if not want and not os.path.isdir(V + "/seeded/" + b["id"]) or any(b["id"].startswith(w) for w in want)]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for b, r in zip(todo, ex.map(one, todo)): print(b["id"], b["prop"], r, flush=True)
