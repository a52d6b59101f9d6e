#!/bin/bash
# replay.sh HARNESS VALUE... : native run of one harness on given inputs (development aid)
cd /verif/tools && python3 gen.py && VERIF_ERRS=1 exec python3 - "$@" <<'PY'
import sys; sys.path.insert(0, "/verif/tools"); import check
b = check.build_native("core", "debug")
rc, e = check.native_run(b, sys.argv[1], sys.argv[2:]); print(rc, "\n".join(l for l in e.splitlines() if "panicked" in l or (not l.startswith(" ") and "thread" not in l)).split("\nnote:")[0][-1500:])
PY
