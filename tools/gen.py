#!/usr/bin/env python3
"""Regenerates the crate that is symbolically executed from /repo's current sources.

Output: BUILD/core (the repository's own src/**, verbatim up to the mechanical rewrites listed in
REWRITES) and BUILD/env (the environment models of /verif/env plus the DataFusion sources that are
used verbatim from the cargo registry).
"""
import os, re, shutil, sys, glob, filecmp

VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

def registry():
    for p in sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/datafusion-common-55.0.0"))):
        return os.path.dirname(p)
    raise SystemExit("gen: cargo registry sources of datafusion 55 not found")

written = set()
def put(path, text):
    written.add(path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text: return
    with open(path, "w") as f: f.write(text)

def cut_tests(t):
    m = re.search(r"^#\[cfg\((?:all\()?test", t, re.M)
    return t[:m.start()] if m else t

# Paths of /repo/src that are outside the modelled crate.
SKIP = [r"^test_utils/", r"^protocol/grpc/", r"^execution_plans/benchmarks/", r"^worker/test_utils/"]

def rewrite(rel, t):
    """Mechanical, behaviour-preserving rewrites (see DESIGN.md)."""
    t = cut_tests_mod(t)
    # std's randomised hash maps -> association-list model with the same contract
    t = re.sub(r"\bstd::collections::(HashMap|HashSet)\b", r"datafusion::common::\1", t)
    t = re.sub(r"use std::collections::\{([^}]*)\};", split_collections, t)
    t = re.sub(r"\bstd::collections::hash_map::", "datafusion::common::hash_map::", t)
    # wall clock -> model clock
    t = re.sub(r"\bstd::time::(SystemTime|UNIX_EPOCH|Instant)\b", r"nd::time::\1", t)
    t = re.sub(r"use std::time::\{([^}]*)\};", split_time, t)
    # std locks -> single-threaded model locks with the same API
    t = re.sub(r"\bstd::sync::(Mutex|RwLock|OnceLock|LazyLock|MutexGuard)\b", r"nd::sync::\1", t)
    t = re.sub(r"use std::sync::\{([^}]*)\};", split_sync, t)
    # async closures (not supported by the symbolic executor's front end) -> closures returning async blocks
    t = re.sub(r"\basync (move )?\|([^|]*)\| *\{", r"\1|\2| async move {", t)
    # every module is visible to the harnesses
    t = re.sub(r"^(\s*)(?:pub(?:\([a-z ]+\))? )?mod (\w+);", r"\1pub mod \2;", t, flags=re.M)
    return t

def split_collections(m):
    names = [x.strip() for x in m.group(1).split(",") if x.strip()]
    a = [n for n in names if n.split(" ")[0] in ("HashMap", "HashSet")]
    b = [n for n in names if n not in a]
    return (f"use datafusion::common::{{{', '.join(a)}}};" if a else "") + (f"use std::collections::{{{', '.join(b)}}};" if b else "")
def split_time(m):
    names = [x.strip() for x in m.group(1).split(",") if x.strip()]
    a = [n for n in names if n.split(" ")[0] in ("SystemTime", "UNIX_EPOCH", "Instant")]
    b = [n for n in names if n not in a]
    return (f"use nd::time::{{{', '.join(a)}}};" if a else "") + (f"use std::time::{{{', '.join(b)}}};" if b else "")
def split_sync(m):
    inner = m.group(1)
    if "{" in inner: return m.group(0)
    names = [x.strip() for x in inner.split(",") if x.strip()]
    L = ("Mutex", "RwLock", "OnceLock", "LazyLock", "MutexGuard")
    a = [n for n in names if n.split(" ")[0] in L]
    b = [n for n in names if n not in a]
    return (f"use nd::sync::{{{', '.join(a)}}};" if a else "") + (f"use std::sync::{{{', '.join(b)}}};" if b else "")

def cut_tests_mod(t):
    # a trailing `#[cfg(test)] mod tests { … }` is dropped; other cfg(test) items are left to rustc
    m = re.search(r"^#\[cfg\(test\)\]\s*\n(?:#\[[^\]]*\]\s*\n)*mod tests \{", t, re.M)
    return t[:m.start()] if m else t

CORE_TOML = """[package]
name = "datafusion-distributed"
version = "4.0.0"
edition = "2024"
[lib]
doctest = false
[[bin]]
name = "replay"
path = "src/bin/replay.rs"
test = false
[features]
default = []
grpc = []
integration = []
sysinfo = []
system-metrics = []
parquet = []
sql = []
avro = []
[dependencies]
nd = {{ path = "{env}/nd" }}
datafusion = {{ path = "{env}/datafusion" }}
datafusion-proto = {{ path = "{env}/datafusion-proto" }}
tokio = {{ path = "{env}/tokio" }}
tokio-stream = {{ path = "{env}/tokio-stream" }}
tokio-util = {{ path = "{env}/tokio-util" }}
dashmap = {{ path = "{env}/dashmap" }}
moka = {{ path = "{env}/moka" }}
crossbeam-queue = {{ path = "{env}/crossbeam-queue" }}
rand = {{ path = "{env}/rand" }}
sketches-ddsketch = {{ version = "0.3", features = ["use_serde"] }}
async-trait = "0.1.89"
http = {{ path = "{env}/http" }}
itertools = "0.14.0"
futures = "0.3.31"
url = {{ path = "{env}/url" }}
uuid = "1.19"
delegate = "0.13.4"
prost = "0.14.1"
bytes = "1.11"
pin-project = "1.1.10"
num-traits = "0.2"
bincode = "1"
chrono = "0.4.44"
[profile.dev]
debug = 1
[profile.release]
debug = 0
[profile.ir]
inherits = "release"
opt-level = 2
panic = "abort"
overflow-checks = true
lto = "fat"
codegen-units = 1
debug = "line-tables-only"
[lints.rust]
unexpected_cfgs = "allow"
[workspace]
"""

def gen_env():
    env = os.path.join(BUILD, "env")
    for root, _, files in os.walk(os.path.join(VERIF, "env")):
        for f in files:
            p = os.path.join(root, f)
            put(os.path.join(env, os.path.relpath(p, os.path.join(VERIF, "env"))), open(p).read())
    reg = registry()
    t = open(f"{reg}/datafusion-common-55.0.0/src/tree_node.rs").read()
    t = cut_tests(t).replace("std::collections::HashMap", "crate::common::HashMap").replace("use crate::Result;", "use crate::error::Result;")
    put(f"{env}/datafusion/src/common/tree_node_upstream.rs", t)
    for f in glob.glob(f"{reg}/datafusion-physical-expr-common-55.0.0/src/metrics/*.rs"):
        t = cut_tests(open(f).read())
        t = (t.replace("use parking_lot::Mutex;", "use crate::shim::Mutex;").replace("crate::metrics::", "crate::physical_plan::metrics::")
              .replace("datafusion_common::", "crate::common::").replace("use arrow::", "use crate::arrow::"))
        put(f"{env}/datafusion/src/metrics_upstream/{os.path.basename(f)}", t)
    return env

def gen_core(unit, env, files, subs):
    """`files`: harness files to include (None = all); `subs`: source files taken from the baseline copy."""
    core = os.path.join(BUILD, unit)
    src = os.path.join(REPO, "src")
    for root, _, fs in os.walk(src):
        for f in sorted(fs):
            if not f.endswith(".rs"): continue
            p = os.path.join(root, f); rel = os.path.relpath(p, src)
            if any(re.match(s, rel) for s in SKIP): continue
            if rel in subs: p = os.path.join(VERIF, "baseline", rel)
            t = rewrite(rel, open(p).read())
            t = t.replace("Uuid::new_v4()", "Uuid::from_u128(nd::fresh())")
            if rel == "lib.rs":
                t = re.sub(r"^#!\[[^\]]*\]\s*$", "", t, flags=re.M)
                t = "#![allow(warnings)]\n#[path = \"verif_harness/mod.rs\"] pub mod verif;\n" + t
            put(os.path.join(core, "src", rel), t)
    mods, arms = [], []
    for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
        t = open(os.path.join(VERIF, "harness", f)).read()
        hs = re.findall(r"extern \"C\" fn (h_\w+)\(", t)
        if hs and files is not None and f not in files: continue
        put(os.path.join(core, "src", "verif_harness", f), t)
        mods.append(f"pub mod {f[:-3]};")
        arms += [f'        "{h}" => datafusion_distributed::verif::{f[:-3]}::{h}(),' for h in hs]
    put(os.path.join(core, "src", "verif_harness", "mod.rs"), "//! Harnesses.\nuse crate::*;\n" + "\n".join(mods) + "\n")
    put(os.path.join(core, "src", "bin", "replay.rs"), REPLAY.replace("//ARMS", "\n".join(arms)))
    put(os.path.join(core, "Cargo.toml"), CORE_TOML.format(env=env))
    return core

REPLAY = """//! Runs one harness natively on a recorded assignment.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    nd::load(&std::fs::read_to_string(&a[2]).unwrap());
    match a[1].as_str() {
//ARMS
        h => { eprintln!("no harness {h}"); std::process::exit(4) }
    }
}
"""

def generate(unit="core", files=None, subs=None):
    written.clear()
    env = gen_env()
    core = gen_core(unit, env, files, subs or {})
    for base in (core + "/src", env):
        for root, dirs, fs in os.walk(base):
            for f in fs:
                p = os.path.join(root, f)
                if p not in written: os.unlink(p)
    return core

if __name__ == "__main__": generate()
