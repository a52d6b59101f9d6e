mod exec; mod expr; mod ir; mod module; mod solver;
use std::collections::{BTreeMap, BTreeSet};
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }
fn vals(v: &[(u32, u128)]) -> String { format!("[{}]", v.iter().map(|(w, x)| js(&x.to_le_bytes()[..(*w / 8) as usize].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")) }
fn main() { std::thread::Builder::new().stack_size(2 << 30).spawn(real).unwrap().join().unwrap() }
fn real() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: f64| a.iter().position(|x| x == k).map(|i| a[i + 1].parse().unwrap()).unwrap_or(d);
    let m = module::load(&a[1]);
    if a[2] == "--list" { for (n, f) in &m.fidx { if m.funcs[*f].defined && n.starts_with("h_") { println!("{n}"); } } return; }
    let Some(&f) = m.fidx.get(&a[2]) else { eprintln!("no harness {}", a[2]); std::process::exit(4) };
    let mut en = exec::Engine::new(&m, opt("--solver-ms", 60000.0) as u32, exec::Limits { secs: opt("--time", 300.0), path_steps: opt("--path-steps", 20e6) as u64, max_violations: opt("--max-violations", 5.0) as usize, trace: false, shard: opt("--shard", 0.0) as u64, shards: opt("--shards", 1.0) as u64, depth: opt("--depth", 4.0) as u32 });
    let t = std::time::Instant::now();
    en.run(f);
    // executed lines of the crate under test
    let mut fns: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new(); let mut names: BTreeSet<String> = BTreeSet::new(); let mut seen = std::collections::HashSet::new();
    for b in m.bodies() { for (i, h) in b.code.iter().zip(&b.hit) { if h.get() && seen.insert(i.loc) { for (file, line, name) in m.places(i.loc) { if let Some(f) = module::crate_file(&file) { if !f.starts_with("verif_harness") { fns.entry(f.to_string()).or_default().insert(line); names.insert(format!("{f}::{name}")); } } } } } }
    let r = &en.rep;
    let lines = fns.iter().map(|(f, l)| format!("{}:[{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",");
    println!("{{\"harness\":{},\"paths\":{},\"assumed\":{},\"forks\":{},\"instructions\":{},\"by_interval\":{},\"cached\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"max_inputs\":{},\"max_path_steps\":{},\"violating_paths\":{},\"covers\":{{{}}},\"incomplete\":[{}],\"violations\":[{}],\"samples\":[{}],\"functions\":[{}],\"lines\":{{{}}}}}",
        js(&a[2]), r.paths, r.assumed, r.forks, r.steps, r.by_interval, r.cached, en.so.queries, en.so.sat, en.so.unsat, en.so.unknown, en.so.time, t.elapsed().as_secs_f64(), r.max_nd, r.max_steps, r.violating_paths,
        r.covers.iter().map(|(k, (n, v))| format!("{}:{{\"paths\":{n},\"values\":{}}}", js(k), vals(v))).collect::<Vec<_>>().join(","),
        r.incomplete.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
        r.violations.iter().map(|v| format!("{{\"kind\":{},\"site\":{},\"msg\":{},\"values\":{}}}", js(&v.kind), js(&v.site), js(&v.msg), vals(&v.values))).collect::<Vec<_>>().join(","),
        r.samples.iter().map(|v| vals(v)).collect::<Vec<_>>().join(","),
        names.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), lines);
}
