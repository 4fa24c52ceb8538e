#!/usr/bin/env python3
"""catch.py [-a] [-s SEED] [ID...]: runs the check of each planted bug's property (-a: every check) against a
scratch copy of /repo with the bug, and prints what it reports."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
allp = "-a" in args
seed = args[args.index("-s") + 1] if "-s" in args else "1"
ids = [a for i, a in enumerate(args) if not a.startswith("-") and (i == 0 or args[i - 1] != "-s")]
ids = [d for d in sorted(os.listdir(V + "/seeded")) if not ids or any(d.startswith(i) for i in ids)]
PROPS = ["C%02d" % i for i in range(1, 29)]

def one(b):
    meta = json.load(open(f"{V}/seeded/{b}/meta.json"))
    tmp = tempfile.mkdtemp(prefix="catch")
    out = []
    try:
        r = tmp + "/repo"; shutil.copytree("/repo", r, symlinks=True)
        subprocess.run(["git", "apply", f"{V}/seeded/{b}/patch.diff"], cwd=r, check=True)
        for p in (PROPS if allp else [meta["property"]]):
            t = time.time()
            x = subprocess.run(["./check", p], cwd=V, env=dict(os.environ, VERIF_REPO=r, VERIF_TIER="quick", VERIF_SEED=seed), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            if allp and x.returncode == 0: continue
            why = [l for l in x.stdout.splitlines() if not l.startswith("VIOLATION")][-3:]
            out.append("%s %s exit=%d %s %.0fs | %s" % (b, p, x.returncode, "CAUGHT" if v and x.returncode == 1 else "MISSED", time.time() - t, " ; ".join(why)[:260]))
        return out or [b + " nothing"]
    finally:
        shutil.rmtree(tmp)

with ThreadPoolExecutor(2 if allp else 3) as ex:
    for o in ex.map(one, ids):
        for l in o: print(l, flush=True)
