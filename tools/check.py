#!/usr/bin/env python3
"""Decides one property on /repo's current tree: check.py PROPERTY [quick|thorough]

Exit 0: every path of every harness explored within the bounds, no violation.
Exit 1: a violation that the native build of the same sources reproduces (VIOLATION line).
Exit 2: no answer (build failure, limit reached, encoding not confirmed by the native run).
"""
import concurrent.futures, fcntl, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import gen, harnesses

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TRIPLE = "x86_64-unknown-linux-gnu"
SYMEX = os.path.join(VERIF, "symex", "target", "release", "symex")
IRFLAGS = "--cfg symex -Cno-vectorize-loops -Cno-vectorize-slp -Clinker=/bin/true"

class NoAnswer(Exception): pass

def sh(cmd, cwd=None, env=None, timeout=None):
    e = dict(os.environ); e.update(env or {})
    for k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"): e.pop(k, None)
    p = subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

class Lock:
    def __init__(self, name): os.makedirs(BUILD, exist_ok=True); self.f = open(os.path.join(BUILD, name), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): fcntl.flock(self.f, fcntl.LOCK_UN); self.f.close()

def build_symex():
    with Lock(".lock-symex"):
        rc, out = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "symex"), env={"RUSTUP_TOOLCHAIN": "1.94"})
        if rc: raise NoAnswer("symbolic executor does not build:\n" + out[-3000:])

def tree_hash(root):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(root):
        dirs.sort()
        if "target" in dirs: dirs.remove("target")
        for f in sorted(files):
            p = os.path.join(base, f); h.update(os.path.relpath(p, root).encode()); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:20]

def cargo(unit, args, env, target, tail=[]):
    crate = os.path.join(BUILD, unit)
    lock = os.path.join(VERIF, "lock", "core.lock")
    dst = os.path.join(crate, "Cargo.lock")
    if os.path.exists(lock) and (not os.path.exists(dst) or open(dst).read() != open(lock).read()): shutil.copy(lock, dst)
    e = {"RUSTUP_TOOLCHAIN": "1.94", "CARGO_TARGET_DIR": os.path.join(BUILD, target), "CARGO_NET_OFFLINE": "true"}; e.update(env)
    return sh(["cargo"] + args + ["--offline"] + tail, cwd=crate, env=e, timeout=800)

def build_ir(unit):
    """LLVM IR of the generated crate; returns its path."""
    with Lock(".lock-" + unit):
        key = tree_hash(os.path.join(BUILD, unit, "src")) + tree_hash(os.path.join(BUILD, "env"))
        out = os.path.join(BUILD, "ll", f"{unit}-{key}.ll")
        if os.path.exists(out): os.utime(out); return out
        rc, log = cargo(unit, ["rustc", "--profile", "ir", "--target", TRIPLE, "--lib", "--crate-type", "cdylib"], {"RUSTFLAGS": IRFLAGS}, "t-ir", ["--", "--emit=llvm-ir"])
        if rc: raise NoAnswer("BUILD\n" + log)
        src = os.path.join(BUILD, "t-ir", TRIPLE, "ir", "deps", "datafusion_distributed.ll")
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copy(src, out + ".tmp"); os.rename(out + ".tmp", out)
        old = sorted(glob.glob(os.path.join(BUILD, "ll", unit + "-*.ll")), key=os.path.getmtime)
        for p in old[:-3]: os.unlink(p)
        return out

def build_native(unit, profile):
    """Native replay binary of the same generated crate."""
    with Lock(".lock-" + unit):
        key = tree_hash(os.path.join(BUILD, unit, "src")) + tree_hash(os.path.join(BUILD, "env"))
        out = os.path.join(BUILD, "bin", f"replay-{unit}-{profile}-{key}")
        if os.path.exists(out): return out
        args = ["build", "--bin", "replay"] + (["--release"] if profile == "release" else [])
        rc, log = cargo(unit, args, {}, "t-native")
        if rc: raise NoAnswer("native build failed:\n" + log[-3000:])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copy(os.path.join(BUILD, "t-native", "release" if profile == "release" else "debug", "replay"), out)
        old = sorted(glob.glob(os.path.join(BUILD, "bin", f"replay-{unit}-{profile}-*")), key=os.path.getmtime)
        for p in old[:-3]: os.unlink(p)
        return out

def native_run(binary, harness, values, timeout=60):
    d = os.path.join(BUILD, "tmp"); os.makedirs(d, exist_ok=True)
    f = os.path.join(d, f"{os.getpid()}-{time.monotonic_ns()}.txt")
    with open(f, "w") as o: o.write("\n".join(values) + "\n")
    try:
        p = subprocess.run([binary, harness, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, env={**os.environ, "RUST_BACKTRACE": "0"})
        return p.returncode, p.stderr
    except subprocess.TimeoutExpired: return "timeout", ""
    finally: os.unlink(f)

def merge(rs):
    """Report of a harness from the reports of its shards."""
    o = rs[0]
    for r in rs[1:]:
        if "error" in r: return r
        if "error" in o: return o
        for k in ("paths", "assumed", "forks", "instructions", "by_interval", "cached", "queries", "sat", "unsat", "unknown", "solver_s", "violating_paths"): o[k] += r[k]
        for k in ("wall_s", "max_inputs", "max_path_steps"): o[k] = max(o[k], r[k])
        for k, v in r["covers"].items():
            if k in o["covers"]: o["covers"][k]["paths"] += v["paths"]
            else: o["covers"][k] = v
        o["incomplete"] = sorted(set(o["incomplete"]) | set(r["incomplete"])); o["functions"] = sorted(set(o["functions"]) | set(r["functions"]))
        o["violations"] = (o["violations"] + r["violations"])[:5]; o["samples"] = (o["samples"] + r["samples"])[:3]
        for f, l in r["lines"].items(): o["lines"][f] = sorted(set(o["lines"].get(f, [])) | set(l))
    return o

def run_symex(ll, h, tier, shard=0):
    lim = int(h.get("time", 240 if tier == "quick" else 3000))
    t = time.time()
    p = subprocess.run([SYMEX, ll, h["name"], "--time", str(lim), "--solver-ms", str(h.get("solver_ms", 30000 if tier == "quick" else 300000)), "--path-steps", str(h.get("steps", 20000000)), "--shard", str(shard), "--shards", str(h.get("shards", 1)), "--depth", str(h.get("depth", 4))],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0: return {"harness": h["name"], "error": f"executor exit {p.returncode}: {p.stderr[-1500:]}"}
    r = json.loads(p.stdout); r["wall_s"] = round(time.time() - t, 2)
    return r

def prepare(prop):
    """Generates and compiles the crate; falls back to the property's own harnesses and, for files the
    property does not depend on, to the baseline sources when the current ones do not compile against
    the environment models. Returns (unit, IR path, substitutions)."""
    with Lock(".lock-gen"):
        gen.generate("core", None, {})
    first = None
    try: return "core", build_ir("core"), []
    except NoAnswer as e: first = str(e)
    info = harnesses.properties()[prop]
    subs = {}
    for _ in range(6):
        with Lock(".lock-gen"): gen.generate("core_" + prop, info["files"], subs)
        try: return "core_" + prop, build_ir("core_" + prop), sorted(subs)
        except NoAnswer as e:
            log = str(e)
            bad = {m for m in re.findall(r"--> src/([\w/]+\.rs)", "\n".join(b for b in re.split(r"\n(?=error|warning)", log) if b.startswith("error")))}
            own = [a[len("src/"):] for a in info["anchors"] if a.startswith("src/")]
            new = {f for f in bad if f not in own and f not in subs and os.path.exists(os.path.join(VERIF, "baseline", f))}
            if not new: raise NoAnswer("the current sources do not compile against the environment models:\n" + log[-4000:])
            for f in new: subs[f] = True
    raise NoAnswer("the current sources do not compile against the environment models:\n" + first[-4000:])

def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    return [k for k in (json.load(open(p)).get("findings", []) if os.path.exists(p) else []) if k["property"] == prop]

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time(); info = harnesses.properties()[prop]
    hs = [h for h in info["harnesses"] if h["tier"] == "quick" or tier == "thorough"]
    hs = [h for h in hs if not (tier == "thorough" and h["tier"] == "quick" and h.get("superseded"))]
    build_symex()
    unit, ll, subs = prepare(prop)
    t_build = time.time() - t0
    native = concurrent.futures.ThreadPoolExecutor(1)
    fdev = native.submit(build_native, unit, "debug")
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        order = sorted(hs, key=lambda h: -int(h.get("weight", 1)))
        jobs = [(h, [ex.submit(run_symex, ll, h, tier, i) for i in range(int(h.get("shards", 1)))]) for h in order]
        res = [merge([f.result() for f in fs]) for _, fs in jobs]
    hmap = {h["name"]: h for h in hs}
    problems, violations, known, cross, samples = [], [], [], 0, []
    dev = fdev.result()
    for r in res:
        h = hmap[r["harness"]]
        if "error" in r: problems.append(f"{r['harness']}: {r['error']}"); continue
        for s in r["incomplete"]: problems.append(f"{r['harness']}: {s}")
        for v in r["violations"]: violations.append((r["harness"], v))
        miss = [c for c in h["covers"] if c not in r["covers"]]
        if miss and not r["violations"]: problems.append(f"{r['harness']}: vacuous, nothing reaches {miss}")
        if r["paths"] == 0 and not r["violations"]: problems.append(f"{r['harness']}: no path completes")
        # the same inputs must behave the same in the native build
        for vals in [c["values"] for c in r["covers"].values()][:6] + r["samples"]:
            rc, err = native_run(dev, r["harness"], vals)
            if rc == 0: cross += 1
            elif r["violations"]: pass
            elif (rc == 3 or rc != 0) and vals not in r["samples"]: pass # a prefix of a path: later inputs are unconstrained zeros
            else: problems.append(f"{r['harness']}: native run of an explored path ends with {rc}: {err[-400:]}")
        samples += [{"harness": r["harness"], "inputs": s} for s in r["samples"][:2]]
    rep = []
    if violations:
        rel = build_native(unit, "release")
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        seen = {}
        for hn, v in violations:
            if seen.get(hn, 0) >= 3: continue
            rd, ed = native_run(dev, hn, v["values"]); rr, er = native_run(rel, hn, v["values"])
            msg = next((l for l in (ed or er).splitlines() if "panicked" not in l and l.strip()), "")
            full = " ".join((ed or er).split("note: run with")[0].split())[:600]
            if rd in (0, 3) and rr in (0, 3): problems.append(f"{hn}: counterexample not reproduced natively ({v['kind']} {v['msg']} at {v['site']}; native exits {rd}/{rr})"); continue
            k = next((k for k in known_findings(prop) if k["harness"] == hn and re.search(k["match"], full + " @ " + v["site"])), None)
            if k: known.append(k); continue
            seen[hn] = seen.get(hn, 0) + 1
            path = os.path.join(BUILD, "replay", f"{prop}-{hn}-{seen[hn]}.txt")
            with open(path, "w") as o:
                o.write(f"# property {prop}, harness {hn}\n# {v['kind']}: {v['msg']}\n# where: {v['site']}\n# native (dev exit {rd}, release exit {rr}): {full}\n# rerun: {dev} {hn} {path}\n" + "\n".join(v["values"]) + "\n")
            rep.append((path, hn, v, full))
    good = [r for r in res if "error" not in r]
    fns = sorted({f for r in good for f in r["functions"]})
    lines = {}
    for r in good:
        for f, l in r["lines"].items(): lines.setdefault(f, set()).update(l)
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": sum(r["paths"] + r["violating_paths"] for r in good), "transitions": sum(r["instructions"] for r in good),
            "traces_validated_against_impl": cross, "samples": samples[:12] or [{"note": "no completed path"}],
            "explanation": "states: symbolic paths explored to the end; transitions: LLVM instructions executed symbolically; traces_validated_against_impl: explored inputs re-run in the native dev build with the same outcome",
            "exhaustive": not problems, "forks": sum(r["forks"] for r in good),
            "queries": {k: sum(r[k] for r in good) for k in ("queries", "sat", "unsat", "unknown", "by_interval")}, "solver_s": round(sum(r["solver_s"] for r in good), 2), "build_s": round(t_build, 1),
            "harnesses": [{"name": r["harness"], "bounds": hmap[r["harness"]]["bounds"], **{k: r[k] for k in ("paths", "assumed", "forks", "instructions", "queries", "sat", "unsat", "unknown", "solver_s", "wall_s", "max_inputs", "violating_paths")}, "covers": {k: v["paths"] for k, v in r["covers"].items()}} for r in good],
            "functions_encoded": [f for f in fns], "lines_encoded": {f: len(l) for f, l in sorted(lines.items())},
            "baseline_substitutions": subs, "problems": problems, "known_findings": [k["what"] for k in known],
        },
        "assumptions": harnesses.ASSUMPTIONS + info.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(rep),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as o: json.dump(ev, o, indent=1)
    for w in sorted({k["what"] for k in known}): print(f"KNOWN-FINDING: property={prop} {w}")
    for path, hn, v, full in rep:
        print(f"{hn}: {v['kind']} {v['msg']}\n  at {v['site']}\n  native: {full}")
        print(f"VIOLATION property={prop} replay={path}")
    if rep: sys.exit(1)
    if problems:
        for p in problems: print("NO-ANSWER " + p)
        hard = [p for p in problems if "limit reached" not in p]
        if tier == "thorough" and not hard: print("explored part of the space holds; the rest was not reached (see evidence)"); sys.exit(0)
        sys.exit(2)
    print(f"{prop} {tier}: {ev['coverage']['states']} paths, {ev['coverage']['queries']['queries']} queries, {ev['wall_s']} s, holds within the stated bounds")

def setup():
    build_symex()
    with Lock(".lock-gen"): gen.generate("core", None, {})
    build_ir("core"); build_native("core", "debug"); build_native("core", "release")

if __name__ == "__main__":
    try: setup() if sys.argv[1] == "--setup" else main()
    except NoAnswer as e: print("NO-ANSWER", e); sys.exit(2)
    except subprocess.TimeoutExpired as e: print("NO-ANSWER build timed out", e); sys.exit(2)
