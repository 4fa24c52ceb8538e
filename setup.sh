#!/bin/sh
# Everything is built by each check from /repo's working tree; this only warms the Go build cache and shows that the tools are there.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "vlib")
import core
w = core.Work("setup")
try:
    core.build(w)
    core.build(w, race=True)
finally:
    w.close()
P
echo ready
