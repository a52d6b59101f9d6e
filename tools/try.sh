#!/bin/bash
# try.sh PATCH PROP... : applies PATCH to /repo, runs the quick checks, undoes it.
P=$(readlink -f "$1"); shift
git -C /repo apply "$P" || exit 9
for c in "$@"; do echo "== $c"; python3 /verif/tools/check.py $c quick 2>&1 | cut -c1-700 | tail -${TAILN:-12}; echo "exit ${PIPESTATUS[0]}"; done
git -C /repo checkout -- .
