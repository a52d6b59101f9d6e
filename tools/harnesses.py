"""Reads the harness annotations:  //# prop=C01 tier=quick bounds="…" covers="a,b" [time=…] [solver_ms=…]"""
import glob, json, os, re, shlex
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUMPTIONS = [
    "The code executed is /repo/src (generated afresh on every run) with mechanical rewrites only; DataFusion, tokio, moka, dashmap, rand, http and url are the environment models of /verif/env (contracts listed in DESIGN.md).",
    "One thread; interleavings are task-poll interleavings chosen by the solver at await points, no weak-memory effects.",
    "The symbolic executor (/verif/symex), rustc's LLVM IR and z3 are trusted; every reported violation is confirmed by a native run, and explored paths are sampled against the native build.",
]
def scan():
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.rs"))):
        pend = None
        for l in open(p):
            m = re.match(r"\s*//# (.*)", l)
            if m: pend = dict(kv.split("=", 1) for kv in shlex.split(m.group(1))); continue
            m = re.search(r"extern \"C\" fn (h_\w+)\(", l)
            if m:
                if pend:
                    h = {"tier": "quick", "bounds": "", **pend, "name": m.group(1), "file": os.path.basename(p)}
                    h["covers"] = [c for c in pend.get("covers", "").split(",") if c]
                    for pr in pend["prop"].split(","): out.append({**h, "prop": pr})
                pend = None
    return out
def properties():
    props = {}
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        for l in f:
            if l.strip():
                d = json.loads(l); props[d["id"]] = {"anchors": d["anchors"]["files"], "harnesses": [], "files": set()}
    for h in scan():
        p = props.get(h["prop"])
        if p is None: continue
        p["harnesses"].append(h); p["files"].add(h["file"])
    return props
def all_names():
    out = []
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.rs"))):
        for m in re.finditer(r"extern \"C\" fn (h_\w+)\(", open(p).read()): out.append((os.path.basename(p)[:-3], m.group(1)))
    return out
