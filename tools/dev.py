#!/usr/bin/env python3
"""Development aid: rebuild the IR and run harnesses whose names match the arguments (regexes)."""
import sys, subprocess, json, re, concurrent.futures, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]; lim = "120"
if args and args[0].startswith("-t"): lim = args[0][2:]; args = args[1:]
p = subprocess.run(["bash", V + "/tools/ir.sh", "400"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
errs = re.findall(r"^error.*?(?=\n\n|\Z)", p.stdout, re.S | re.M)
if errs: print("\n\n".join(errs)[:6000]); sys.exit(1)
sys.path.insert(0, V + "/tools"); import harnesses
names = sorted({(h["name"], int(h.get("shards", 1)), h.get("solver_ms", "30000"), h.get("depth", "4")) for h in harnesses.scan() if any(re.search(a, h["name"]) for a in args)})
names = [(f"{n}#{i}" if k > 1 else n, n, i, k, sm, dp) for n, k, sm, dp in names for i in range(k)]
def run(x):
    l, n, i, k, sm, dp = x
    q = subprocess.run(["bash", V + "/tools/sx.sh", n, "--time", lim, "--shard", str(i), "--shards", str(k), "--solver-ms", sm, "--depth", dp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return l, q
agg = {}
with concurrent.futures.ThreadPoolExecutor(7) as ex:
    for n, q in ex.map(run, names):
        try: r = json.loads(q.stdout)
        except Exception: print(n, "ERR", q.stderr[-800:]); continue
        a = agg.setdefault(n.split("#")[0], {"paths": 0, "assumed": 0, "violating_paths": 0, "queries": 0, "solver_s": 0, "wall_s": 0, "max": 0, "instructions": 0, "covers": {}})
        for k in ("paths", "assumed", "violating_paths", "queries", "solver_s", "wall_s", "instructions"): a[k] = round(a[k] + r.get(k, 0), 1)
        a["max"] = max(a["max"], r["wall_s"])
        for k, v in r["covers"].items(): a["covers"][k] = a["covers"].get(k, 0) + v["paths"]
        for i in r["incomplete"][:2]: print("   INCOMPLETE", n, i[:600])
        for v in r["violations"][:2]: print("   VIOL", n, v["kind"], v["msg"][:200], "|", v["site"][:500], "|", v["values"][:40])
for n, a in agg.items(): print(n, *(f"{k}={v}" for k, v in a.items()))
