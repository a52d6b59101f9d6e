#!/bin/bash
# Builds /repo's library with its private modules made visible, in a scratch directory, links demo.rs
# against it and runs it. Exit 0: demo.rs passed.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
D=${CARGO_TARGET_DIR:-/opt/vp/ws/target}/debug/deps
ls "$D"/libdatafusion-*.rlib > /dev/null 2>&1 || bash /opt/vp/build.sh > /dev/null 2>&1
S=$(mktemp -d) || exit 3
trap 'cd /; rm -rf "$S"' EXIT
cp -r "$repo/src" "$S/src" || exit 3
python3 - "$S/src" <<'P'
import os, re, sys
for d, _, fs in os.walk(sys.argv[1]):
    for f in fs:
        if f.endswith(".rs"):
            p = os.path.join(d, f); t = open(p).read()
            n = re.sub(r"^(\s*)(?:pub(?:\([a-z ]+\))? )?mod (\w+);", r"\1pub mod \2;", t, flags=re.M)
            n = re.sub(r"^(\s*)pub\((?:crate|super)\) ", r"\1pub ", n, flags=re.M)
            n = re.sub(r"^#!\[deny.*\]$", "", n, flags=re.M)
            n = re.sub(r"^(pub )?mod tests;", r"mod tests;", n, flags=re.M)
            if n != t: open(p, "w").write(n)
P
# every direct dependency, newest version when cargo built several
python3 - "$D" /opt/vp/ws/Cargo.toml > "$S/externs" <<'P'
import glob, os, re, sys
D, toml = sys.argv[1:]
want = dict(re.findall(r"""^([A-Za-z0-9_-]+)\s*=\s*(?:\{[^}]*?version\s*=\s*)?"(\d+(?:\.\d+)*)""", open(toml).read().split("[dependencies]")[1].split("[features]")[0], re.M))
for n in sorted(set(want) | {"futures-util", "datafusion", "datafusion-proto"}):
    w = [int(x) for x in want.get(n, "").split(".") if x]; w = w[:2] if w[:1] == [0] else w[:1]
    n = n.replace("-", "_"); best = None
    for p in glob.glob(f"{D}/lib{n}-*.rlib") + glob.glob(f"{D}/lib{n}-*.so"):
        h = os.path.basename(p).rsplit("-", 1)[1].rsplit(".", 1)[0]
        v = (0,)
        try:
            m = re.search(r"/" + n.replace("_", "[_-]") + r"-(\d+)\.(\d+)\.(\d+)", open(f"{D}/{n}-{h}.d").read())
            if m: v = tuple(map(int, m.groups()))
        except OSError: pass
        if w and v != (0,) and list(v[:len(w)]) != w: continue
        if best is None or v > best[0]: best = (v, p)
    if best: print(f"--extern {n}={best[1]}")
P
F=(); for f in grpc integration avro system-metrics sql sysinfo default insta parquet arrow-flight arrow-select arrow-ipc tonic tower; do F+=(--cfg "feature=\"$f\""); done
export CARGO_MANIFEST_DIR=$repo CARGO_PKG_VERSION=4.0.0 CARGO_PKG_NAME=datafusion-distributed
rustc --edition 2024 --crate-type rlib --crate-name datafusion_distributed --cap-lints allow -C debuginfo=0 "${F[@]}" -L dependency="$D" $(cat "$S/externs") "$S/src/lib.rs" -o "$S/libdatafusion_distributed.rlib" > "$S/log" 2>&1 || { tail -30 "$S/log"; echo "demo: library does not build"; exit 4; }
rustc --edition 2024 --crate-name demo --cap-lints allow -C debuginfo=0 -L dependency="$D" $(cat "$S/externs") --extern datafusion_distributed="$S/libdatafusion_distributed.rlib" "$here/demo.rs" -o "$S/demo" > "$S/log" 2>&1 || { tail -30 "$S/log"; echo "demo: demo does not build"; exit 5; }
cd "$S" && timeout 120 ./demo
