#!/bin/bash
# try.sh PATCH CHECK...: applies a patch to /repo, runs checks, undoes it
p=$1; shift
git -C /repo apply "$p" || exit 9
for c in "$@"; do (cd /verif; ./check $c 2>&1 | tail -14 | cut -c1-400; echo "exit ${PIPESTATUS[0]}"); done
git -C /repo checkout -- .
