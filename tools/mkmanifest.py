#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[json.loads(x) for x in open(ROOT+"/properties.jsonl")]
NA={}
NOTE={
 "msg":"TLC enumerates the bounded models named in DESIGN.md completely; executions of the real code are generated from them and from grammar based generators, recorded, and every step is checked by TLC against the same specification (spec/Trace.tla, TraceFun.tla). Assurance is bounded by the generated executions; TLC and the recorder in harness/ are trusted.",
 "mon":"TLC checks the step level model of the counters for all schedules of the bounded configurations; the real code is instrumented at check time (scheduling point before every statement and atomic operation), its schedules are enumerated within a preemption bound and recorded, and TLC searches a linearization of each history. Go's memory model is covered by additional runs under the race detector.",
}
checks=[]
for p in P:
    i=p["id"]
    if i in NA: continue
    k="mon" if i in("C17","C18") else "msg"
    checks.append(dict(property=i,quick_cmd=f"VERIF_TIER=quick ./check {i}",thorough_cmd=f"VERIF_TIER=thorough ./check {i}",
      technique="TLA+ specification checked with TLC; "+("schedules of the real code recorded and linearized by TLC" if k=="mon" else "recorded executions of the real code validated by TLC against it"),
      level="model_checking",level_note=NOTE[k]))
json.dump(dict(version=1,setup_cmd="./setup.sh",checks=checks,
  not_applicable=[dict(property=i,reason=r) for i,r in NA.items()],
  notes="No hooks in /repo: harnesses are compiled into its module by 'go build -overlay'. Repairs are the fix: commits listed in known_findings.txt."),open(ROOT+"/MANIFEST.json","w"),indent=1)
