//! Path-wise symbolic execution of a decoded module.
use crate::expr::*;
use crate::ir::Ty;
use crate::module::*;
use crate::solver::{Solver, R};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { data: Vec<u8>, sym: Option<Box<BTreeMap<u32, (E, u8)>>>, heap: bool }
#[derive(Clone)]
struct Frame { f: usize, ip: usize, blk: usize, regs: Vec<V>, allocas: Vec<u64>, ret: u32, normal: Option<usize> }
#[derive(Clone)]
struct State {
    cur: Frame, stack: Vec<Rc<Frame>>, heap: Vec<(u64, u64, Option<Rc<Obj>>)>, dead: usize, next: u64, globals: HashMap<u64, Rc<Obj>>,
    pc: Vec<E>, known: Rc<HashMap<E, u128>>, bounds: Rc<HashMap<E, (u128, u128)>>, model: Vec<u128>, nd: Vec<E>, steps: u64, picks: u32, ph: u64, /** Expression whose value was being chosen when this state was queued. */ pend: Option<E> }
pub struct Violation { pub kind: String, pub site: String, pub values: Vec<(u32, u128)>, pub msg: String }
#[derive(Default)]
pub struct Report { pub paths: u64, pub assumed: u64, pub forks: u64, pub by_interval: u64, pub cached: u64, pub steps: u64, pub covers: BTreeMap<String, (u64, Vec<(u32, u128)>)>, pub violations: Vec<Violation>, pub violating_paths: u64, pub incomplete: Vec<String>, pub max_nd: usize, pub max_steps: u64, pub samples: Vec<Vec<(u32, u128)>> }
pub struct Limits { pub secs: f64, pub path_steps: u64, pub max_violations: usize, pub trace: bool, pub shard: u64, pub shards: u64, pub depth: u32 }
enum Stop { Done, Other, Killed, Viol(String, String), Unsup(String), Retry }
type Res<T> = Result<T, Stop>;
pub struct Engine<'m> { m: &'m Module, pub ar: Arena, pub so: Solver, work: Vec<State>, pub rep: Report, lim: Limits, memo: HashMap<E, u128>, sub: HashMap<E, E>, rmemo: HashMap<E, (u128, u128)>, sites: HashMap<String, usize>, gidx: Vec<(u64, u64, usize)>, start: Instant, unsup: HashSet<String>, sup: HashMap<E, Rc<[u32]>>, fp: HashMap<E, bool>, tables: HashMap<E, E>, cache: HashMap<Vec<E>, (R, Rc<Vec<u128>>)> }

fn norm(b: Option<E>) -> E { b.unwrap() }
impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, solver_ms: u32, lim: Limits) -> Self {
        let gidx = m.globals.iter().enumerate().map(|(i, g)| (g.base, g.size, i)).collect();
        Self { m, ar: Arena::new(), so: Solver::new(solver_ms), work: vec![], rep: Report::default(), lim, memo: HashMap::new(), sub: HashMap::new(), rmemo: HashMap::new(), sites: HashMap::new(), gidx, start: Instant::now(), unsup: HashSet::new(), sup: HashMap::new(), fp: HashMap::new(), tables: HashMap::new(), cache: HashMap::new() }
    }
    pub fn run(&mut self, entry: usize) {
        let b = self.m.body(entry);
        let st = State { cur: Frame { f: entry, ip: b.blocks[0], blk: 0, regs: vec![V::C(0); b.nregs], allocas: vec![], ret: NOREG, normal: None }, stack: vec![], heap: vec![], dead: 0, next: 0x1000_0000, globals: HashMap::new(), pc: vec![], known: Rc::new(HashMap::new()), bounds: Rc::new(HashMap::new()), model: vec![], nd: vec![], steps: 0, picks: 0, ph: 0, pend: None };
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            self.memo.clear(); self.sub.clear(); self.rmemo.clear();
            let stop = loop {
                match self.step(&mut st) { Ok(()) => {} Err(Stop::Retry) => {} Err(s) => break s }
                st.steps += 1; self.rep.steps += 1;
                if st.steps & 0xfff == 0 { if self.start.elapsed().as_secs_f64() > self.lim.secs { break Stop::Unsup("time limit reached".into()); } }
                if st.steps > self.lim.path_steps { break Stop::Unsup("step bound reached on one path (unbounded loop?)".into()); }
            };
            self.rep.max_nd = self.rep.max_nd.max(st.nd.len()); self.rep.max_steps = self.rep.max_steps.max(st.steps);
            if self.lim.shards > 1 && st.picks < self.lim.depth && !self.mine(&st) && !matches!(&stop, Stop::Unsup(s) if s.starts_with("time limit")) { continue; }
            match stop {
                Stop::Other => {}
                Stop::Done => { self.rep.paths += 1; if self.rep.samples.len() < 3 { let v = self.values(&st); self.rep.samples.push(v); } }
                Stop::Killed => self.rep.assumed += 1,
                Stop::Viol(kind, msg) => { self.rep.violating_paths += 1; let site = self.site(&st); let n = self.sites.entry(site.clone()).or_insert(0); *n += 1; if *n <= 2 { let values = self.values(&st); self.rep.violations.push(Violation { kind, site, values, msg }); } if self.rep.violations.len() >= self.lim.max_violations { self.incomplete("stopped after the violation cap".into()); return; } }
                Stop::Unsup(s) => { let s = if s.starts_with("time limit") { s } else { format!("{s} at {}", self.site(&st)) }; let t = s.starts_with("time limit"); self.incomplete(s); if t { return; } }
                Stop::Retry => unreachable!(),
            }
        }
    }
    /// Sharding: the first choices of a path (picks and branches) decide which process explores it.
    fn turn(&self, st: &mut State, x: u64) -> bool {
        if self.lim.shards <= 1 || st.picks >= self.lim.depth { return true; }
        st.picks += 1; st.ph = (st.ph ^ x ^ 0x9e37).wrapping_mul(0x100000001b3).rotate_left(29);
        st.picks < self.lim.depth || self.mine(st)
    }
    fn mine(&self, st: &State) -> bool { (st.ph.wrapping_mul(0x9e3779b97f4a7c15) >> 40) % self.lim.shards == self.lim.shard }
    fn incomplete(&mut self, s: String) { if self.unsup.insert(s.clone()) { self.rep.incomplete.push(s); } }
    fn values(&self, st: &State) -> Vec<(u32, u128)> { st.nd.iter().zip(&st.model).map(|(e, v)| (self.ar.w(*e), *v & mask(self.ar.w(*e)))).collect() }
    /// Innermost source places of the call stack that lie in the crate under test.
    fn site(&self, st: &State) -> String {
        let mut out = Vec::new();
        let mut frames: Vec<&Frame> = st.stack.iter().map(|f| &**f).collect(); frames.push(&st.cur);
        for f in frames.iter().rev() {
            let b = self.m.body(f.f); let loc = b.code.get(f.ip).map(|i| i.loc).unwrap_or(0);
            let pl = self.m.places(loc);
            if pl.is_empty() { if out.is_empty() { out.push(self.m.funcs[f.f].name.clone()); } continue; }
            for (file, line, _) in pl { if let Some(f) = crate::module::crate_file(&file) { let s = format!("src/{f}:{line}"); if out.last() != Some(&s) { out.push(s); } } }
            if out.len() >= 6 { break; }
        }
        out.truncate(6); out.join(" < ")
    }
    // ---- expressions
    fn e(&mut self, v: &V, w: u32) -> E { match v { V::C(c) => self.ar.c(w, *c), V::S(e) => { debug_assert_eq!(self.ar.w(*e), w); *e } V::A(_) => panic!("aggregate where a scalar is expected") } }
    fn v(&self, e: E) -> V { match self.ar.cst(e) { Some(c) => V::C(c), None => V::S(e) } }
    /// Rebuilds `e` with what the path condition fixes.
    fn subst(&mut self, st: &State, e: E) -> E {
        if st.known.is_empty() { return e; }
        if let Some(r) = self.sub.get(&e) { return *r; }
        if let Some(v) = st.known.get(&e) { let w = self.ar.w(e); let r = self.ar.c(w, *v); self.sub.insert(e, r); return r; }
        let k = self.ar.k(e);
        let r = match k.op {
            Op::Const | Op::Var => e,
            Op::Ite => { let c = self.subst(st, k.a); match self.ar.cst(c) { Some(1) => self.subst(st, k.b), Some(_) => self.subst(st, k.c), None => { let (a, b) = (self.subst(st, k.b), self.subst(st, k.c)); if c == k.a && a == k.b && b == k.c { e } else { self.ar.ite(c, a, b) } } } }
            Op::Extract => { let a = self.subst(st, k.a); if a == k.a { e } else { self.ar.extract(a, k.v as u32, k.w) } }
            Op::ZExt => { let a = self.subst(st, k.a); if a == k.a { e } else { self.ar.zext(a, k.w) } }
            Op::SExt | Op::FNan | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FExt | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::FTruncI | Op::FRoundAway | Op::FSqrt => { let a = self.subst(st, k.a); if a == k.a { e } else { self.ar.un(k.op, k.w, a) } }
            Op::Concat => { let (a, b) = (self.subst(st, k.a), self.subst(st, k.b)); if a == k.a && b == k.b { e } else { self.ar.concat(a, b) } }
            op => { let (a, b) = (self.subst(st, k.a), self.subst(st, k.b)); if a == k.a && b == k.b { e } else { self.ar.bin(op, a, b) } }
        };
        let r = if r != e { match st.known.get(&r) { Some(v) => { let w = self.ar.w(r); self.ar.c(w, *v) } None => r } } else { r };
        self.sub.insert(e, r); r
    }
    fn eval(&mut self, st: &State, e: E) -> u128 { let mut memo = std::mem::take(&mut self.memo); let r = self.ar.eval(e, &st.model, &mut memo); self.memo = memo; r }
    fn learn(&mut self, known: &mut HashMap<E, u128>, c: E, val: u128) {
        known.insert(c, val); let k = self.ar.k(c);
        match (k.op, val) {
            (Op::Eq, 1) => if let Some(v) = self.ar.cst(k.b) { known.insert(k.a, v); self.learn_parts(known, k.a, v); },
            (Op::Eq, 0) if self.ar.w(k.a) == 1 => {}
            (Op::Xor, v) if k.w == 1 && self.ar.cst(k.b) == Some(1) => self.learn(known, k.a, 1 - v),
            (Op::And, 1) if k.w == 1 => { self.learn(known, k.a, 1); self.learn(known, k.b, 1); }
            (Op::Or, 0) if k.w == 1 => { self.learn(known, k.a, 0); self.learn(known, k.b, 0); }
            (Op::Ult, v) => { let r = self.ar.bin(Op::Ule, k.b, k.a); if self.ar.cst(r).is_none() { known.insert(r, 1 - v); } }
            (Op::Ule, v) => { let r = self.ar.bin(Op::Ult, k.b, k.a); if self.ar.cst(r).is_none() { known.insert(r, 1 - v); } }
            _ => {}
        }
    }
    fn learn_parts(&mut self, known: &mut HashMap<E, u128>, e: E, v: u128) { let k = self.ar.k(e); match k.op { Op::ZExt => { known.insert(k.a, v); self.learn_parts(known, k.a, v); } Op::Concat => { let bw = self.ar.w(k.b); known.insert(k.a, v >> bw); known.insert(k.b, v & mask(bw)); self.learn_parts(known, k.a, v >> bw); self.learn_parts(known, k.b, v & mask(bw)); } _ => {} } }
    /// Adds the 1-bit condition `c == val` to the path condition.
    fn assert(&mut self, st: &mut State, c: E, val: u128) {
        let e = if val == 1 { c } else { self.ar.not1(c) };
        if self.ar.cst(e).is_some() { return; }
        let k = self.ar.k(e);
        if k.op == Op::And && k.w == 1 { let (a, b) = (k.a, k.b); st.pc.push(a); st.pc.push(b); } else { st.pc.push(e); }
        let mut known = std::mem::take(&mut st.known); self.learn(Rc::make_mut(&mut known), e, 1); if e != c { self.learn(Rc::make_mut(&mut known), c, val); } st.known = known;
        self.rmemo.clear(); self.bound(st, e, 1); self.sub.clear();
    }
    fn settle(&mut self, st: &mut State, e: E, v: u128) { let mut known = std::mem::take(&mut st.known); self.learn(Rc::make_mut(&mut known), e, v); st.known = known; self.bound(st, e, v); self.sub.clear(); }
    /// Variables an expression depends on.
    fn support(&mut self, e: E) -> Rc<[u32]> {
        if let Some(s) = self.sup.get(&e) { return s.clone(); }
        let k = self.ar.k(e); let mut v: Vec<u32> = Vec::new();
        match k.op {
            Op::Const => {} Op::Var => v.push(k.v as u32),
            Op::Ite => { for x in [k.a, k.b, k.c] { v.extend(self.support(x).iter()); } }
            Op::Extract | Op::ZExt | Op::SExt | Op::FNan | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FExt | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::FTruncI | Op::FRoundAway | Op::FSqrt => v.extend(self.support(k.a).iter()),
            _ => { v.extend(self.support(k.a).iter()); v.extend(self.support(k.b).iter()); }
        }
        v.sort_unstable(); v.dedup(); let r: Rc<[u32]> = v.into(); self.sup.insert(e, r.clone()); r
    }
    /// `pc ∧ extra`, restricted to the constraints connected to `extra` (the rest is satisfied by the
    /// state's model); verdicts of identical restricted problems are reused.
    fn query(&mut self, st: &State, extra: E, model: &mut Vec<u128>) -> R {
        let mut vars: std::collections::BTreeSet<u32> = self.support(extra).iter().copied().collect();
        let sups: Vec<Rc<[u32]>> = st.pc.iter().map(|e| self.support(*e)).collect();
        let mut take = vec![false; st.pc.len()];
        loop { let mut more = false; for i in 0..take.len() { if !take[i] && sups[i].iter().any(|v| vars.contains(v)) { take[i] = true; more = true; vars.extend(sups[i].iter()); } } if !more { break; } }
        let pc: Vec<E> = st.pc.iter().zip(&take).filter(|x| *x.1).map(|x| *x.0).collect();
        let mut key = pc.clone(); key.sort_unstable(); key.dedup(); key.push(extra);
        let vars: Vec<u32> = vars.into_iter().collect();
        let (r, part) = if let Some(x) = self.cache.get(&key) { self.rep.cached += 1; x.clone() } else {
            let es: Vec<E> = vars.iter().map(|v| st.nd[*v as usize]).collect(); let mut part = Vec::new();
            let r = self.so.check(&self.ar, &pc, extra, &es, &mut part);
            if r == R::Unknown { self.incomplete(format!("solver gave no answer within its limit at {}", self.site(st))); }
            let x = (r, Rc::new(part)); self.cache.insert(key, x.clone()); x
        };
        if r == R::Sat { *model = st.model.clone(); for (i, v) in vars.iter().enumerate() { model[*v as usize] = part[i]; } }
        r
    }
    fn has_fp(&mut self, e: E) -> bool {
        if let Some(r) = self.fp.get(&e) { return *r; }
        let k = self.ar.k(e);
        let r = match k.op {
            Op::Const | Op::Var => false,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FToU | Op::FToS => true,
            Op::Ite => self.has_fp(k.a) || self.has_fp(k.b) || self.has_fp(k.c),
            Op::Extract | Op::ZExt | Op::SExt | Op::FNan | Op::UToF | Op::SToF | Op::FExt | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::FTruncI | Op::FRoundAway => self.has_fp(k.a),
            _ => self.has_fp(k.a) || self.has_fp(k.b),
        };
        self.fp.insert(e, r); r
    }
    /// Floating-point arithmetic over few narrow inputs is encoded as a table: an equivalent
    /// expression made of comparisons of those inputs, without floating point.
    fn table(&mut self, st: &State, e: E) -> E {
        if !self.has_fp(e) { return e; }
        if let Some(t) = self.tables.get(&e) { return *t; }
        let vars = self.support(e); let mut dom = Vec::new(); let mut size = 1u128;
        for v in vars.iter() { let x = st.nd[*v as usize]; let (l, h) = self.ar.rng(x); size = size.saturating_mul(h - l + 1); dom.push((*v as usize, x, l, h)); }
        let r = if size > 4096 { e } else { let mut m = st.model.clone(); self.fill(&dom, 0, &mut m, e) };
        self.tables.insert(e, r); r
    }
    fn fill(&mut self, dom: &[(usize, E, u128, u128)], i: usize, m: &mut Vec<u128>, e: E) -> E {
        if i == dom.len() { let mut memo = HashMap::new(); let v = self.ar.eval(e, m, &mut memo); let w = self.ar.w(e); return self.ar.c(w, v); }
        let (v, x, l, h) = dom[i]; let mut rows: Vec<(u128, E)> = Vec::new();
        for k in l..=h { m[v] = k; let r = self.fill(dom, i + 1, m, e); match rows.last_mut() { Some(p) if p.1 == r => p.0 = k, _ => rows.push((k, r)) } }
        let mut out = rows.pop().unwrap().1; let w = self.ar.w(x);
        for (k, r) in rows.into_iter().rev() { let c = self.ar.c(w, k); let le = self.ar.bin(Op::Ule, x, c); out = self.ar.ite(le, r, out); }
        out
    }
    /// Decides a 1-bit condition on this path, queueing the other outcome when it is feasible.
    fn decide(&mut self, st: &mut State, c: &V) -> Res<bool> {
        let e = match c { V::C(v) => return Ok(*v & 1 == 1), V::S(e) => self.subst(st, *e), V::A(_) => return Err(Stop::Unsup("vector condition".into())) };
        let e = self.table(st, e);
        if let Some(v) = self.ar.cst(e) { return Ok(v == 1); }
        { let (l, h) = self.range(st, e); if l == h { self.settle(st, e, l); self.rep.by_interval += 1; return Ok(l == 1); } }
        let v = self.eval(st, e);
        let other = if v == 1 { self.ar.not1(e) } else { e };
        let mut model = Vec::new();
        match self.query(st, other, &mut model) {
            R::Sat => {
                let mut o = st.clone(); self.rep.forks += 1;
                if self.turn(&mut o, 2 + (1 - v) as u64) { self.assert(&mut o, e, 1 - v); o.model = model; self.work.push(o); self.sub.clear(); self.rmemo.clear(); }
                if !self.turn(st, 2 + v as u64) { return Err(Stop::Other); }
                self.assert(st, e, v);
            }
            R::Unsat => { self.settle(st, e, v) }
            R::Unknown => self.assert(st, e, v),
        }
        Ok(v == 1)
    }
    /// A concrete value for `x`; every other feasible value is explored by re-executing the instruction.
    fn concrete(&mut self, st: &mut State, x: &V) -> Res<u128> {
        let orig = match x { V::C(c) => return Ok(*c), V::S(e) => *e, V::A(_) => return Err(Stop::Unsup("aggregate address".into())) };
        let queued = st.pend == Some(orig);
        let (v, forked) = self.concrete_of(st, orig)?;
        if queued || forked { st.pend = None; if !self.turn(st, v as u64) { return Err(Stop::Other); } }
        Ok(v)
    }
    fn concrete_of(&mut self, st: &mut State, orig: E) -> Res<(u128, bool)> {
        let e = self.subst(st, orig);
        let e = self.table(st, e);
        if let Some(v) = self.ar.cst(e) { return Ok((v, false)); }
        { let (l, h) = self.range(st, e); if l == h { return Ok((l, false)); } }
        let v = self.eval(st, e); let w = self.ar.w(e); let cv = self.ar.c(w, v); let eq = self.ar.eq(e, cv); let ne = self.ar.not1(eq);
        let mut model = Vec::new(); let mut forked = false;
        match self.query(st, ne, &mut model) {
            R::Sat => { forked = true; let mut o = st.clone(); o.pend = Some(orig); self.assert(&mut o, eq, 0); o.model = model; self.work.push(o); self.rep.forks += 1; self.sub.clear(); self.rmemo.clear(); self.assert(st, eq, 1); }
            R::Unsat => { self.settle(st, eq, 1) }
            R::Unknown => self.assert(st, eq, 1),
        }
        Ok((v, forked))
    }
    fn assume(&mut self, st: &mut State, c: &V) -> Res<()> {
        let e = match c { V::C(1) => return Ok(()), V::C(_) => return Err(Stop::Killed), V::S(e) => self.subst(st, *e), _ => unreachable!() };
        let e = self.table(st, e);
        match self.ar.cst(e) { Some(1) => return Ok(()), Some(_) => return Err(Stop::Killed), None => {} }
        if self.eval(st, e) == 0 { let mut model = Vec::new(); match self.query(st, e, &mut model) { R::Sat => { st.model = model; self.memo.clear(); } R::Unsat => return Err(Stop::Killed), R::Unknown => return Err(Stop::Killed) } }
        self.assert(st, e, 1); Ok(())
    }
    fn nd(&mut self, st: &mut State, w: u32) -> V { let id = st.nd.len() as u32; let e = self.ar.var(w, id); st.nd.push(e); st.model.push(0); V::S(e) }
    /// `lo <= x <= hi`, read as `w` bits; the bounds also become the variable's static interval.
    fn nd_range(&mut self, st: &mut State, w: u32, lo: &V, hi: &V) -> Res<V> {
        let (l, h) = (self.e(lo, 64), self.e(hi, 64)); let (l, h) = (self.subst(st, l), self.subst(st, h));
        let (smin, smax) = (self.range(st, l).0, self.range(st, h).1.min(mask(w)));
        if smin > smax { return Err(Stop::Killed); }
        let id = st.nd.len() as u32; let e = if smax < u32::MAX as u128 { self.ar.var_in(w, id, smin, smax) } else { self.ar.var(w, id) };
        let init = self.eval(st, l); st.nd.push(e); st.model.push(init & mask(w));
        let (c1, c2) = (self.ar.c(w, smin), self.ar.c(w, smax));
        // the static interval is an assumption the solver has to see as well
        let x = self.ar.intern_raw(Op::Ule, c1, e); let y = self.ar.intern_raw(Op::Ule, e, c2);
        if smin > 0 { st.pc.push(x); } if smax < mask(w) { st.pc.push(y); }
        let z = self.ar.zext(e, 64);
        let c = self.ar.bin(Op::Ule, l, z); let v = self.v(c); self.assume(st, &v)?;
        let c = self.ar.bin(Op::Ule, z, h); let v = self.v(c); self.assume(st, &v)?;
        Ok(self.v(e))
    }
    /// Unsigned interval of `e` on this path.
    fn range(&mut self, st: &State, e: E) -> (u128, u128) {
        if st.bounds.is_empty() { return self.ar.rng(e); }
        if let Some(r) = self.rmemo.get(&e) { return *r; }
        let k = self.ar.k(e); let (mut lo, mut hi) = self.ar.rng(e); let m = mask(k.w);
        let (l2, h2) = match k.op {
            Op::Const | Op::Var => (lo, hi),
            Op::ZExt => self.range(st, k.a),
            Op::Add => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); match (a.0.checked_add(b.0), a.1.checked_add(b.1)) { (Some(l), Some(h)) if h <= m => (l, h), (Some(l), Some(h)) if l > m && h <= 2 * m + 1 && m < u128::MAX / 4 => (l - m - 1, h - m - 1), _ => (0, m) } }
            Op::Sub => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { (0, m) } }
            Op::Mul => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); match (a.0.checked_mul(b.0), a.1.checked_mul(b.1)) { (Some(l), Some(h)) if h <= m => (l, h), _ => (0, m) } }
            Op::UDiv => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); if b.0 > 0 { (a.0 / b.1, a.1 / b.0) } else { (0, m) } }
            Op::URem => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); if b.0 > 0 { if a.1 < b.0 { a } else { (0, (b.1 - 1).min(a.1)) } } else { (0, m) } }
            Op::And if k.w == 1 => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); (a.0 & b.0, a.1 & b.1) }
            Op::Or if k.w == 1 => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); (a.0 | b.0, a.1 | b.1) }
            Op::Xor if k.w == 1 => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); if a.0 == a.1 && b.0 == b.1 { (a.0 ^ b.0, a.0 ^ b.0) } else { (0, 1) } }
            Op::And => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); (0, a.1.min(b.1)) }
            Op::Ite => { let c = self.range(st, k.a); let (a, b) = (self.range(st, k.b), self.range(st, k.c)); if c == (1, 1) { a } else if c == (0, 0) { b } else { (a.0.min(b.0), a.1.max(b.1)) } }
            Op::Concat => { let bw = self.ar.w(k.b); let (a, b) = (self.range(st, k.a), self.range(st, k.b)); (a.0 << bw | b.0, a.1 << bw | b.1) }
            Op::Extract if k.v == 0 => { let a = self.range(st, k.a); if a.1 <= m { a } else { (0, m) } }
            Op::Extract => { let a = self.range(st, k.a); let (l, h) = (a.0 >> k.v, a.1 >> k.v); if h <= m { (l, h) } else { (0, m) } }
            Op::Eq => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); if a.1 < b.0 || b.1 < a.0 { (0, 0) } else if a.0 == a.1 && a == b { (1, 1) } else { (0, 1) } }
            Op::Ult => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); if a.1 < b.0 { (1, 1) } else if a.0 >= b.1 { (0, 0) } else { (0, 1) } }
            Op::Ule => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); if a.1 <= b.0 { (1, 1) } else if a.0 > b.1 { (0, 0) } else { (0, 1) } }
            _ => (lo, hi),
        };
        lo = lo.max(l2); hi = hi.min(h2);
        if let Some(b) = st.bounds.get(&e) { lo = lo.max(b.0); hi = hi.min(b.1); }
        if lo > hi { lo = hi; }
        self.rmemo.insert(e, (lo, hi)); (lo, hi)
    }
    /// Records interval facts implied by `c == val`.
    fn bound(&mut self, st: &mut State, c: E, val: u128) {
        let k = self.ar.k(c);
        match (k.op, val) {
            (Op::Eq, 1) => { let (a, b) = (self.range(st, k.a), self.range(st, k.b)); let r = (a.0.max(b.0), a.1.min(b.1)); self.narrow(st, k.a, r.0, r.1); self.narrow(st, k.b, r.0, r.1); }
            (Op::Eq, 0) => { for (x, y) in [(k.a, k.b), (k.b, k.a)] { let (a, b) = (self.range(st, x), self.range(st, y)); if b.0 == b.1 { if a.0 == b.0 && a.0 < a.1 { self.narrow(st, x, a.0 + 1, a.1); } else if a.1 == b.0 && a.0 < a.1 { self.narrow(st, x, a.0, a.1 - 1); } } } }
            (Op::Ult, 1) | (Op::Ule, 0) => { let (x, y) = if val == 1 { (k.a, k.b) } else { (k.b, k.a) }; let (a, b) = (self.range(st, x), self.range(st, y)); if b.1 > 0 { self.narrow(st, x, a.0, a.1.min(b.1 - 1)); } self.narrow(st, y, b.0.max(a.0 + 1), b.1); }
            (Op::Ule, 1) | (Op::Ult, 0) => { let (x, y) = if val == 1 { (k.a, k.b) } else { (k.b, k.a) }; let (a, b) = (self.range(st, x), self.range(st, y)); self.narrow(st, x, a.0, a.1.min(b.1)); self.narrow(st, y, b.0.max(a.0), b.1); }
            (Op::Xor, v) if k.w == 1 && self.ar.cst(k.b) == Some(1) => self.bound(st, k.a, 1 - v),
            (Op::And, 1) if k.w == 1 => { self.bound(st, k.a, 1); self.bound(st, k.b, 1); }
            (Op::Or, 0) if k.w == 1 => { self.bound(st, k.a, 0); self.bound(st, k.b, 0); }
            _ => {}
        }
    }
    fn narrow(&mut self, st: &mut State, e: E, lo: u128, hi: u128) {
        if lo > hi || self.ar.cst(e).is_some() { return; }
        let cur = self.range(st, e); if lo <= cur.0 && hi >= cur.1 { return; }
        let (lo, hi) = (lo.max(cur.0), hi.min(cur.1)); if lo > hi { return; }
        Rc::make_mut(&mut st.bounds).insert(e, (lo, hi)); self.rmemo.clear();
        if lo == hi { Rc::make_mut(&mut st.known).insert(e, lo); }
        let k = self.ar.k(e); let m = mask(k.w);
        match k.op {
            Op::ZExt => self.narrow(st, k.a, lo, hi),
            Op::Add => for (x, y) in [(k.a, k.b), (k.b, k.a)] { let (rx, ry) = (self.range(st, x), self.range(st, y)); if rx.1.checked_add(ry.1).is_some_and(|s| s <= m) { self.narrow(st, x, lo.saturating_sub(ry.1), hi.saturating_sub(ry.0)); } },
            Op::Ite => { let (a, b) = (self.range(st, k.b), self.range(st, k.c)); if a.1 < lo || a.0 > hi { self.narrow(st, k.a, 0, 0); self.narrow(st, k.c, lo, hi); } else if b.1 < lo || b.0 > hi { self.narrow(st, k.a, 1, 1); self.narrow(st, k.b, lo, hi); } }
            _ if k.w == 1 && lo == hi => self.bound(st, e, lo),
            _ => {}
        }
    }
    // ---- memory
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, heap: bool) -> u64 {
        let a = align.max(16); let base = st.next.next_multiple_of(a); st.next = base + size.max(1) + 16;
        st.heap.push((base, size, Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, heap })))); base
    }
    fn find(st: &State, a: u64) -> Option<usize> { let i = st.heap.partition_point(|o| o.0 <= a); if i == 0 { return None; } let o = &st.heap[i - 1]; if o.2.is_some() && a - o.0 <= o.1 { Some(i - 1) } else { None } }
    fn release(&mut self, st: &mut State, base: u64) { if let Ok(i) = st.heap.binary_search_by_key(&base, |o| o.0) { st.heap[i].2 = None; st.dead += 1; while matches!(st.heap.last(), Some(o) if o.2.is_none()) { st.heap.pop(); st.dead -= 1; } if st.dead > 64 && st.dead * 2 > st.heap.len() { st.heap.retain(|o| o.2.is_some()); st.dead = 0; } } }
    fn gfind(&self, a: u64) -> Option<usize> { let i = self.gidx.partition_point(|g| g.0 <= a); if i == 0 { return None; } let g = self.gidx[i - 1]; if a - g.0 <= g.1 { Some(g.2) } else { None } }
    fn bad<T>(&self, what: &str, a: u64, n: u64) -> Res<T> { Err(Stop::Viol("memory".into(), format!("invalid {what} of {n} byte(s) at {a:#x}"))) }
    fn read<T>(&mut self, st: &State, a: u64, n: u64, k: impl FnOnce(&mut Self, &[u8], Option<&BTreeMap<u32, (E, u8)>>, u32) -> T) -> Res<T> {
        if n == 0 { return Ok(k(self, &[], None, 0)); }
        if let Some(i) = Self::find(st, a) { let o = st.heap[i].2.clone().unwrap(); let off = (a - st.heap[i].0) as usize; if off + n as usize > o.data.len() { return self.bad("read", a, n); } return Ok(k(self, &o.data[off..off + n as usize], o.sym.as_deref(), off as u32)); }
        if let Some(g) = self.gfind(a) { let m = self.m; let g = &m.globals[g]; let off = (a - g.base) as usize; if off + n as usize > g.data.len() { return self.bad("read", a, n); } 
            if let Some(o) = st.globals.get(&g.base) { let o = o.clone(); return Ok(k(self, &o.data[off..off + n as usize], o.sym.as_deref(), off as u32)); }
            return Ok(k(self, &g.data[off..off + n as usize], None, off as u32)); }
        self.bad("read", a, n)
    }
    fn obj_mut<'s>(&mut self, st: &'s mut State, a: u64, n: u64) -> Res<(&'s mut Obj, usize)> {
        if let Some(i) = Self::find(st, a) { let off = (a - st.heap[i].0) as usize; if off + n as usize > st.heap[i].1 as usize { return self.bad("write", a, n); } return Ok((Rc::make_mut(st.heap[i].2.as_mut().unwrap()), off)); }
        if let Some(g) = self.gfind(a) { let g = &self.m.globals[g]; let off = (a - g.base) as usize; if off + n as usize > g.data.len() || g.constant { return self.bad("write", a, n); } let o = st.globals.entry(g.base).or_insert_with(|| Rc::new(Obj { data: g.data.clone(), sym: None, heap: false })); return Ok((Rc::make_mut(o), off)); }
        self.bad("write", a, n)
    }
    fn byte(&mut self, d: &[u8], sym: Option<&BTreeMap<u32, (E, u8)>>, off: u32, i: usize) -> E { if let Some(&(e, k)) = sym.and_then(|s| s.get(&(off + i as u32))) { let w = self.ar.w(e); let lo = k as u32 * 8; if lo + 8 <= w { self.ar.extract(e, lo, 8) } else { let x = self.ar.extract(e, lo, w - lo); self.ar.zext(x, 8) } } else { self.ar.c(8, d[i] as u128) } }
    fn load_int(&mut self, st: &State, a: u64, n: u64, w: u32) -> Res<V> {
        self.read(st, a, n, |s, d, sym, off| {
            let any = sym.map_or(false, |m| m.range(off..off + n as u32).next().is_some());
            if !any { let mut b = [0u8; 16]; b[..n as usize].copy_from_slice(d); return V::C(u128::from_le_bytes(b) & mask(w)); }
            let m = sym.unwrap();
            if let Some(&(e, 0)) = m.get(&off) { let ew = s.ar.w(e); if (ew as u64).div_ceil(8) >= n && (0..n as u32).all(|i| m.get(&(off + i)) == Some(&(e, i as u8))) { let r = if ew >= w { s.ar.extract(e, 0, w) } else { s.ar.zext(e, w) }; return s.v(r); } }
            let mut r = s.byte(d, sym, off, 0);
            for i in 1..n as usize { let b = s.byte(d, sym, off, i); r = s.ar.concat(b, r); }
            let r = s.ar.extract(r, 0, w); s.v(r)
        })
    }
    fn load(&mut self, st: &State, t: &Ty, a: u64) -> Res<V> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => { let w = t.bits(); if w > 128 { return Err(Stop::Unsup(format!("load of i{w}"))); } self.load_int(st, a, t.size().min((w as u64).div_ceil(8)), w) }
            Ty::Vec(n, et) if et.bits() % 8 == 0 => { let sz = et.size(); let mut v = Vec::new(); for i in 0..*n { v.push(self.load(st, et, a + i * sz)?); } Ok(V::A(Rc::new(v))) }
            Ty::St(..) | Ty::Arr(..) => { let mut v = Vec::new(); for i in 0..t.len() { v.push(self.load(st, t.elem(i), a + t.off(i))?); } Ok(V::A(Rc::new(v))) }
            _ => Err(Stop::Unsup(format!("load of {t:?}"))),
        }
    }
    fn store(&mut self, st: &mut State, t: &Ty, v: &V, a: u64) -> Res<()> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = t.bits(); if w > 128 { return Err(Stop::Unsup(format!("store of i{w}"))); }
                let n = t.size().min((w as u64).div_ceil(8)) as usize;
                let v = match v { V::S(e) => { let e = self.subst_leaf(st, *e); self.v(e) } v => v.clone() };
                let (o, off) = self.obj_mut(st, a, n as u64)?;
                match v {
                    V::C(c) => { o.data[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]); if let Some(m) = o.sym.as_mut() { for i in 0..n { m.remove(&((off + i) as u32)); } if m.is_empty() { o.sym = None; } } }
                    V::S(e) => { let m = o.sym.get_or_insert_with(Default::default); for i in 0..n { m.insert((off + i) as u32, (e, i as u8)); } }
                    V::A(_) => return Err(Stop::Unsup("scalar store of an aggregate".into())),
                }
                Ok(())
            }
            Ty::Vec(_, et) if et.bits() % 8 == 0 => { let V::A(x) = v else { return self.store_zero(st, t, a) }; let sz = et.size(); for (i, y) in x.iter().enumerate() { self.store(st, et, y, a + i as u64 * sz)?; } Ok(()) }
            Ty::St(..) | Ty::Arr(..) => { let V::A(x) = v else { return self.store_zero(st, t, a) }; for (i, y) in x.iter().enumerate() { self.store(st, t.elem(i), y, a + t.off(i))?; } Ok(()) }
            _ => Err(Stop::Unsup(format!("store of {t:?}"))),
        }
    }
    fn store_zero(&mut self, st: &mut State, t: &Ty, a: u64) -> Res<()> { let (o, off) = self.obj_mut(st, a, t.size())?; let n = t.size() as usize; o.data[off..off + n].fill(0); Ok(()) }
    fn subst_leaf(&mut self, st: &State, e: E) -> E { match st.known.get(&e) { Some(v) => { let w = self.ar.w(e); self.ar.c(w, *v) } None => e } }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> Res<()> {
        if n == 0 { return Ok(()); }
        let (bytes, sy) = self.read(st, s, n, |_, b, sym, off| (b.to_vec(), sym.map(|m| m.range(off..off + n as u32).map(|(k, v)| (k - off, *v)).collect::<Vec<_>>()).unwrap_or_default()))?;
        let (o, off) = self.obj_mut(st, d, n)?;
        o.data[off..off + n as usize].copy_from_slice(&bytes);
        if let Some(m) = o.sym.as_mut() { let ks: Vec<u32> = m.range(off as u32..off as u32 + n as u32).map(|x| *x.0).collect(); for k in ks { m.remove(&k); } }
        if !sy.is_empty() { let m = o.sym.get_or_insert_with(Default::default); for (k, v) in sy { m.insert(off as u32 + k, v); } } else if o.sym.as_ref().is_some_and(|m| m.is_empty()) { o.sym = None; }
        Ok(())
    }
    fn bytes(&mut self, st: &State, a: u64, n: u64) -> Res<Vec<E>> { self.read(st, a, n, |s, d, sym, off| (0..n as usize).map(|i| s.byte(d, sym, off, i)).collect()) }
    // ---- instructions
    fn o(&self, st: &State, o: &O) -> V { match o { O::R(r) => st.cur.regs[*r as usize].clone(), O::C(v) => v.clone() } }
    fn lanes(v: &V, n: usize) -> Vec<V> { match v { V::A(x) => x.to_vec(), V::C(0) => vec![V::C(0); n], v => vec![v.clone(); n] } }
    fn bin(&mut self, op: Bop, t: &Ty, a: &V, b: &V) -> Res<V> {
        if let Ty::Vec(n, et) = t { let (x, y) = (Self::lanes(a, *n as usize), Self::lanes(b, *n as usize)); let mut r = Vec::new(); for (p, q) in x.iter().zip(&y) { r.push(self.bin(op, et, p, q)?); } return Ok(V::A(Rc::new(r))); }
        let w = t.bits(); if w > 128 { return Err(Stop::Unsup(format!("arithmetic on i{w}"))); }
        let eop = match op { Bop::Add => Op::Add, Bop::Sub => Op::Sub, Bop::Mul => Op::Mul, Bop::UDiv => Op::UDiv, Bop::SDiv => Op::SDiv, Bop::URem => Op::URem, Bop::SRem => Op::SRem, Bop::Shl => Op::Shl, Bop::LShr => Op::LShr, Bop::AShr => Op::AShr, Bop::And => Op::And, Bop::Or => Op::Or, Bop::Xor => Op::Xor, Bop::FAdd => Op::FAdd, Bop::FSub => Op::FSub, Bop::FMul => Op::FMul, Bop::FDiv => Op::FDiv, Bop::FRem => Op::FRem };
        if let (V::C(x), V::C(y)) = (a, b) { return Ok(V::C(apply(eop, w, w, *x, *y))); }
        let (x, y) = (self.e(a, w), self.e(b, w)); let r = self.ar.bin(eop, x, y); Ok(self.v(r))
    }
    fn cmp(&mut self, p: &str, w: u32, a: &V, b: &V) -> V {
        let (op, sw, neg) = match p { "eq" => (Op::Eq, false, false), "ne" => (Op::Eq, false, true), "ult" => (Op::Ult, false, false), "ule" => (Op::Ule, false, false), "ugt" => (Op::Ult, true, false), "uge" => (Op::Ule, true, false), "slt" => (Op::Slt, false, false), "sle" => (Op::Sle, false, false), "sgt" => (Op::Slt, true, false), _ => (Op::Sle, true, false) };
        let (a, b) = if sw { (b, a) } else { (a, b) };
        if let (V::C(x), V::C(y)) = (a, b) { let r = apply(op, 1, w, *x, *y); return V::C(r ^ neg as u128); }
        let (x, y) = (self.e(a, w), self.e(b, w)); let mut r = self.ar.bin(op, x, y); if neg { r = self.ar.not1(r); } self.v(r)
    }
    fn icmp(&mut self, p: &str, t: &Ty, a: &V, b: &V) -> V { if let Ty::Vec(n, et) = t { let (x, y) = (Self::lanes(a, *n as usize), Self::lanes(b, *n as usize)); return V::A(Rc::new(x.iter().zip(&y).map(|(p1, q)| self.cmp(p, et.bits(), p1, q)).collect())); } self.cmp(p, t.bits(), a, b) }
    fn fcmp(&mut self, p: &str, w: u32, a: &V, b: &V) -> V {
        let (x, y) = (self.e(a, w), self.e(b, w));
        let un = |s: &mut Self| { let a = s.ar.un(Op::FNan, 1, x); let b = s.ar.un(Op::FNan, 1, y); s.ar.bin(Op::Or, a, b) };
        let r = match p {
            "oeq" => self.ar.bin(Op::FEq, x, y), "olt" => self.ar.bin(Op::FLt, x, y), "ole" => self.ar.bin(Op::FLe, x, y), "ogt" => self.ar.bin(Op::FLt, y, x), "oge" => self.ar.bin(Op::FLe, y, x),
            "une" => { let r = self.ar.bin(Op::FEq, x, y); self.ar.not1(r) } "uge" => { let r = self.ar.bin(Op::FLt, x, y); self.ar.not1(r) } "ugt" => { let r = self.ar.bin(Op::FLe, x, y); self.ar.not1(r) } "ule" => { let r = self.ar.bin(Op::FLt, y, x); self.ar.not1(r) } "ult" => { let r = self.ar.bin(Op::FLe, y, x); self.ar.not1(r) }
            "uno" => un(self), "ord" => { let r = un(self); self.ar.not1(r) } "ueq" => { let r = self.ar.bin(Op::FEq, x, y); let u = un(self); self.ar.bin(Op::Or, r, u) } "one" => { let r = self.ar.bin(Op::FEq, x, y); let u = un(self); let z = self.ar.bin(Op::Or, r, u); self.ar.not1(z) }
            "true" => self.ar.c(1, 1), _ => self.ar.c(1, 0) };
        self.v(r)
    }
    fn cast(&mut self, k: Cast, f: &Ty, t: &Ty, v: &V) -> Res<V> {
        if k == Cast::Bit { return self.bitcast(f, t, v); }
        if let (Ty::Vec(n, fe), Ty::Vec(_, te)) = (f, t) { let x = Self::lanes(v, *n as usize); let mut r = Vec::new(); for p in &x { r.push(self.cast(k, fe, te, p)?); } return Ok(V::A(Rc::new(r))); }
        let (fw, tw) = (f.bits(), t.bits()); if fw > 128 || tw > 128 { return Err(Stop::Unsup("wide cast".into())); }
        let e = self.e(v, fw);
        let r = match k { Cast::Trunc => self.ar.extract(e, 0, tw), Cast::ZExt => self.ar.zext(e, tw), Cast::SExt => self.ar.sext(e, tw), Cast::PtrInt => if tw < fw { self.ar.extract(e, 0, tw) } else { self.ar.zext(e, tw) }, Cast::UToF => self.ar.un(Op::UToF, tw, e), Cast::SToF => self.ar.un(Op::SToF, tw, e), Cast::FToU => self.ar.un(Op::FToU, tw, e), Cast::FToS => self.ar.un(Op::FToS, tw, e), Cast::FExt => self.ar.un(Op::FExt, tw, e), Cast::FTrunc => self.ar.un(Op::FTrunc, tw, e), Cast::Bit => unreachable!() };
        Ok(self.v(r))
    }
    fn bitcast(&mut self, f: &Ty, t: &Ty, v: &V) -> Res<V> {
        if !f.agg() && !t.agg() { return Ok(v.clone()); }
        let tot = f.bits(); if tot > 128 { return Err(Stop::Unsup("wide bitcast".into())); }
        let whole = if let Ty::Vec(n, et) = f { let mut r: Option<E> = None; for x in Self::lanes(v, *n as usize) { let e = self.e(&x, et.bits()); r = Some(match r { None => e, Some(l) => self.ar.concat(e, l) }); } norm(r) } else { self.e(v, tot) };
        if let Ty::Vec(n, et) = t { let w = et.bits(); let mut r = Vec::new(); for i in 0..*n as u32 { let e = self.ar.extract(whole, i * w, w); r.push(self.v(e)); } Ok(V::A(Rc::new(r))) } else { Ok(self.v(whole)) }
    }
    fn sel(&mut self, c: E, t: &Ty, a: &V, b: &V) -> V {
        if t.agg() { let n = t.len(); let (x, y) = (Self::lanes(a, n), Self::lanes(b, n)); return V::A(Rc::new((0..n).map(|i| self.sel(c, t.elem(i), &x[i], &y[i])).collect())); }
        let w = t.bits(); let (x, y) = (self.e(a, w), self.e(b, w)); let r = self.ar.ite(c, x, y); self.v(r)
    }
    fn jump(&mut self, st: &mut State, to: usize) {
        let b = self.m.body(st.cur.f); let from = st.cur.blk;
        let ph = &b.phis[to];
        if !ph.is_empty() { let vals: Vec<V> = ph.iter().map(|p| self.o(st, p.src.get(&from).unwrap_or_else(|| panic!("phi")))).collect(); for (p, v) in ph.iter().zip(vals) { st.cur.regs[p.d as usize] = v; } }
        st.cur.blk = to; st.cur.ip = b.blocks[to];
    }
    fn step(&mut self, st: &mut State) -> Res<()> {
        let m = self.m; let b = m.body(st.cur.f); let ip = st.cur.ip; let ins = &b.code[ip]; b.hit[ip].set(true);
        let d = ins.d;
        macro_rules! set { ($v:expr) => {{ let x = $v; if d != NOREG { st.cur.regs[d as usize] = x; } st.cur.ip += 1; return Ok(()); }} }
        match &ins.i {
            I::Bin(op, t, a, b) => { let (x, y) = (self.o(st, a), self.o(st, b)); set!(self.bin(*op, t, &x, &y)?) }
            I::ICmp(p, t, a, b) => { let (x, y) = (self.o(st, a), self.o(st, b)); set!(self.icmp(p, t, &x, &y)) }
            I::FCmp(p, t, a, b) => { if t.agg() { return Err(Stop::Unsup("vector fcmp".into())); } let (x, y) = (self.o(st, a), self.o(st, b)); set!(self.fcmp(p, t.bits(), &x, &y)) }
            I::FNeg(t, a) => { let x = self.o(st, a); if t.agg() { return Err(Stop::Unsup("vector fneg".into())); } let w = t.bits(); let it = Ty::Int(w); set!(self.bin(Bop::Xor, &it, &x, &V::C(1 << (w - 1)))?) }
            I::Cast(k, f, t, a) => { let x = self.o(st, a); set!(self.cast(*k, f, t, &x)?) }
            I::Alloca(n) => { let a = self.alloc(st, *n, 16, false); st.cur.allocas.push(a); set!(V::C(a as u128)) }
            I::Load(t, p) => { let x = self.o(st, p); let a = self.concrete(st, &x)? as u64; let v = self.load(st, t, a)?; set!(v) }
            I::Store(t, v, p) => { let x = self.o(st, p); let a = self.concrete(st, &x)? as u64; let v = self.o(st, v); self.store(st, t, &v, a)?; set!(V::C(0)) }
            I::Gep(bs, off, idx) => {
                let mut acc = self.o(st, bs); let t = Ty::Int(64);
                if *off != 0 { acc = self.bin(Bop::Add, &t, &acc, &V::C(*off as u64 as u128))?; }
                for (o, w, sc) in idx { let x = self.o(st, o); let e = self.e(&x, *w); let e = if *w < 64 { self.ar.sext(e, 64) } else { e }; let x = self.v(e); let y = self.bin(Bop::Mul, &t, &x, &V::C(*sc as u64 as u128))?; acc = self.bin(Bop::Add, &t, &acc, &y)?; }
                set!(acc)
            }
            I::Br(t) => { self.jump(st, *t); Ok(()) }
            I::CBr(c, t, f) => { let c = self.o(st, c); let r = self.decide(st, &c)?; self.jump(st, if r { *t } else { *f }); Ok(()) }
            I::Switch(o, w, dflt, cases) => {
                let x = self.o(st, o);
                let e = match x { V::S(e) => self.subst(st, e), V::C(c) => { let t = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*dflt); self.jump(st, t); return Ok(()); } _ => unreachable!() };
                // one decision per distinct target
                let mut targets: Vec<(usize, E)> = Vec::new();
                for (v, t) in cases { let c = self.ar.c(*w, *v); let q = self.ar.eq(e, c); if self.ar.cst(q) == Some(0) { continue; } if let Some(x) = targets.iter_mut().find(|x| x.0 == *t) { x.1 = self.ar.bin(Op::Or, x.1, q); } else { targets.push((*t, q)); } }
                for (t, c) in targets { let c = self.v(c); if self.decide(st, &c)? { self.jump(st, t); return Ok(()); } }
                self.jump(st, *dflt); Ok(())
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.o(st, o));
                let al = std::mem::take(&mut st.cur.allocas); for a in al.into_iter().rev() { self.release(st, a); }
                let Some(p) = st.stack.pop() else { return Err(Stop::Done) };
                let (r, n) = (st.cur.ret, st.cur.normal);
                st.cur = Rc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
                if r != NOREG { st.cur.regs[r as usize] = v.unwrap_or(V::C(0)); }
                match n { Some(t) => self.jump(st, t), None => st.cur.ip += 1 }
                Ok(())
            }
            I::Unreachable => Err(Stop::Viol("unreachable".into(), "unreachable code reached".into())),
            I::Call { callee, args, tys, ret, normal } => {
                let (callee, args) = (callee, args);
                let f = match callee { Callee::Fn(f) => *f, Callee::Ext(n) => { let a: Vec<V> = args.iter().map(|o| self.o(st, o)).collect(); return self.ext(st, n, a, tys, ret, d, *normal); }
                    Callee::Ind(o) => { let x = self.o(st, o); let a = self.concrete(st, &x)? as u64; if a < FBASE || (a - FBASE) / 16 >= m.funcs.len() as u64 || a % 16 != 0 { return Err(Stop::Viol("memory".into(), format!("call through invalid pointer {a:#x}"))); } let f = ((a - FBASE) / 16) as usize; if !m.funcs[f].defined { let av: Vec<V> = args.iter().map(|o| self.o(st, o)).collect(); let n = m.funcs[f].name.clone(); return self.ext(st, &n, av, tys, ret, d, *normal); } f } };
                if m.funcs[f].panic { let a: Vec<V> = args.iter().map(|o| self.o(st, o)).collect(); let msg = self.panic_msg(st, f, &a); return Err(Stop::Viol("panic".into(), msg)); }
                if st.stack.len() > 3000 { return Err(Stop::Unsup("call depth bound reached".into())); }
                let nb = m.body(f); let mut regs = vec![V::C(0); nb.nregs];
                for (i, p) in nb.params.iter().enumerate() { if let Some(o) = args.get(i) { regs[*p as usize] = self.o(st, o); } }
                let fr = Frame { f, ip: nb.blocks[0], blk: 0, regs, allocas: vec![], ret: d, normal: *normal };
                let old = std::mem::replace(&mut st.cur, fr); st.stack.push(Rc::new(old)); Ok(())
            }
            I::Select(c, t, a, b) => {
                let (c, x, y) = (self.o(st, c), self.o(st, a), self.o(st, b));
                if let V::A(cs) = &c { let n = t.len(); let (p, q) = (Self::lanes(&x, n), Self::lanes(&y, n)); let mut r = Vec::new(); for i in 0..n { let ce = self.e(&cs[i], 1); r.push(self.sel(ce, t.elem(i), &p[i], &q[i])); } set!(V::A(Rc::new(r))) }
                match c { V::C(v) => set!(if v & 1 == 1 { x } else { y }), V::S(e) => { let e = self.subst(st, e); match self.ar.cst(e) { Some(v) => set!(if v == 1 { x } else { y }), None => {
                    // a symbolic choice between pointers or wide aggregates becomes two paths
                    if *t == Ty::Ptr { let r = self.decide(st, &V::S(e))?; set!(if r { x } else { y }) }
                    set!(self.sel(e, t, &x, &y)) } } } _ => unreachable!() }
            }
            I::XVal(a, p) => { let mut v = self.o(st, a); for i in p { v = match &v { V::A(x) => x[*i].clone(), _ => V::C(0) }; } set!(v) }
            I::IVal(t, a, v, p) => { let (x, y) = (self.o(st, a), self.o(st, v)); set!(ival(t, &x, y, p)) }
            I::XElem(a, i) => { let (x, i) = (self.o(st, a), self.o(st, i)); let i = self.concrete(st, &i)? as usize; set!(match &x { V::A(v) => v[i].clone(), v => v.clone() }) }
            I::IElem(t, a, v, i) => { let (x, y, i) = (self.o(st, a), self.o(st, v), self.o(st, i)); let i = self.concrete(st, &i)? as usize; let mut l = Self::lanes(&x, t.len()); l[i] = y; set!(V::A(Rc::new(l))) }
            I::Shuffle(t, a, b, mk) => { let (x, y) = (self.o(st, a), self.o(st, b)); let n = t.len(); let (x, y) = (Self::lanes(&x, n), Self::lanes(&y, n)); set!(V::A(Rc::new(mk.iter().map(|i| if *i < n { x[*i].clone() } else { y[*i - n].clone() }).collect()))) }
            I::CmpXchg(t, p, a, b) => { let pv = self.o(st, p); let ad = self.concrete(st, &pv)? as u64; let (x, y) = (self.o(st, a), self.o(st, b)); let old = self.load(st, t, ad)?; let c = self.cmp("eq", t.bits(), &old, &x); let ok = self.decide(st, &c)?; if ok { self.store(st, t, &y, ad)?; } set!(V::A(Rc::new(vec![old, V::C(ok as u128)]))) }
            I::Rmw(op, t, p, v) => { let pv = self.o(st, p); let ad = self.concrete(st, &pv)? as u64; let x = self.o(st, v); let old = self.load(st, t, ad)?;
                let nv = match op.as_str() { "xchg" => x, "add" => self.bin(Bop::Add, t, &old, &x)?, "sub" => self.bin(Bop::Sub, t, &old, &x)?, "and" => self.bin(Bop::And, t, &old, &x)?, "or" => self.bin(Bop::Or, t, &old, &x)?, "xor" => self.bin(Bop::Xor, t, &old, &x)?,
                    "umax" | "umin" | "max" | "min" => { let p = match op.as_str() { "umax" => "ugt", "umin" => "ult", "max" => "sgt", _ => "slt" }; let c = self.cmp(p, t.bits(), &old, &x); let ce = self.e(&c, 1); self.sel(ce, t, &old, &x) } o => return Err(Stop::Unsup(format!("atomicrmw {o}"))) };
                self.store(st, t, &nv, ad)?; set!(old) }
            I::Copy(a) => { let x = self.o(st, a); set!(x) }
            I::Nop => set!(V::C(0)),
            I::Bad(s) => Err(Stop::Unsup(format!("instruction {s}"))),
        }
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> Option<String> { if n > 4096 { return None; } self.read(st, a, n, |_, d, sym, _| if sym.is_some() { None } else { Some(String::from_utf8_lossy(d).into_owned()) }).ok().flatten() }
    fn panic_msg(&mut self, st: &State, f: usize, a: &[V]) -> String {
        let name = self.m.funcs[f].name.clone(); let short = name.split("17h").next().unwrap_or("").trim_start_matches("_ZN").to_string();
        let mut s = String::new();
        if let (Some(V::C(p)), Some(V::C(n))) = (a.first(), a.get(1)) { if name.contains("panicking5panic17") || name.contains("begin_panic") { if let Some(t) = self.cstr(st, *p as u64, *n as u64) { s = t; } } }
        for v in a.iter().rev() { if let V::C(p) = v { let l: Option<Vec<u64>> = self.read(st, *p as u64, 24, |_, d, _, _| d.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()).ok(); if let Some(l) = l { if let Some(file) = self.cstr(st, l[0], l[1].saturating_sub((l[1] > 0) as u64 * 0)) { if file.contains(".rs") { return format!("{short} {s} at {file}:{}", l[2] as u32); } } } } }
        format!("{short} {s}")
    }
    fn ext(&mut self, st: &mut State, n: &str, a: Vec<V>, tys: &[Ty], ret: &Ty, d: u32, normal: Option<usize>) -> Res<()> {
        let r = self.ext_val(st, n, &a, tys, ret)?;
        if d != NOREG { st.cur.regs[d as usize] = r; }
        match normal { Some(t) => self.jump(st, t), None => st.cur.ip += 1 }
        Ok(())
    }
    fn ext_val(&mut self, st: &mut State, n: &str, a: &[V], tys: &[Ty], ret: &Ty) -> Res<V> {
        let z = V::C(0);
        if let Some(x) = n.strip_prefix("llvm.") { return self.intrinsic(st, x, a, tys, ret); }
        Ok(match n {
            "__nd_u8" => self.nd(st, 8), "__nd_u16" => self.nd(st, 16), "__nd_u32" => self.nd(st, 32), "__nd_u64" => self.nd(st, 64),
            "__nd_range8" => self.nd_range(st, 8, &a[0].clone(), &a[1].clone())?, "__nd_range64" => self.nd_range(st, 64, &a[0].clone(), &a[1].clone())?,
            "__nd_concrete" => {
                let a0 = a[0].clone(); let x = self.concrete(st, &a0)?;
                
                V::C(x)
            }
            "__nd_assume" => { self.assume(st, &a[0])?; z }
            "__nd_cover" => { let p = self.concrete(st, &a[0])? as u64; let l = self.concrete(st, &a[1])? as u64; let s = self.cstr(st, p, l).unwrap_or_default(); let v = self.values(st); self.rep.covers.entry(s).or_insert((0, v)).0 += 1; z }
            "malloc" => { let s = self.concrete(st, &a[0])? as u64; if s > 1 << 28 { return Err(Stop::Viol("memory".into(), format!("allocation of {s} bytes"))); } V::C(self.alloc(st, s, 16, true) as u128) }
            "calloc" => { let x = self.concrete(st, &a[0])? as u64; let y = self.concrete(st, &a[1])? as u64; V::C(self.alloc(st, x.saturating_mul(y).min(1 << 28), 16, true) as u128) }
            "posix_memalign" => { let al = self.concrete(st, &a[1])? as u64; let s = self.concrete(st, &a[2])? as u64; let p = self.concrete(st, &a[0])? as u64; let b = self.alloc(st, s, al, true); self.store(st, &Ty::Ptr, &V::C(b as u128), p)?; z }
            "aligned_alloc" => { let al = self.concrete(st, &a[0])? as u64; let s = self.concrete(st, &a[1])? as u64; V::C(self.alloc(st, s, al, true) as u128) }
            "realloc" => { let p = self.concrete(st, &a[0])? as u64; let s = self.concrete(st, &a[1])? as u64; if s > 1 << 28 { return Err(Stop::Viol("memory".into(), format!("allocation of {s} bytes"))); }
                let old = match st.heap.binary_search_by_key(&p, |o| o.0) { Ok(i) if st.heap[i].2.as_ref().is_some_and(|o| o.heap) => st.heap[i].1, _ => return self.bad("realloc", p, s) }; let q = self.alloc(st, s, 16, true); self.copy(st, q, p, old.min(s))?; self.release(st, p); V::C(q as u128) }
            "free" => { let p = self.concrete(st, &a[0])? as u64; if p != 0 { match st.heap.binary_search_by_key(&p, |o| o.0) { Ok(i) if st.heap[i].2.as_ref().is_some_and(|o| o.heap) => self.release(st, p), _ => return self.bad("free", p, 0) } } z }
            "memcpy" | "memmove" => { let l = self.concrete(st, &a[2])? as u64; let p = self.concrete(st, &a[0])? as u64; let q = self.concrete(st, &a[1])? as u64; self.copy(st, p, q, l)?; a[0].clone() }
            "memset" => { let (x, y) = (a[0].clone(), a[2].clone()); self.memset(st, &x, &a[1].clone(), &y)?; x }
            "bcmp" | "memcmp" => {
                let l = self.concrete(st, &a[2])? as u64; let p = self.concrete(st, &a[0])? as u64; let q = self.concrete(st, &a[1])? as u64;
                let (x, y) = (self.bytes(st, p, l)?, self.bytes(st, q, l)?);
                let mut r = self.ar.c(32, 0);
                if n == "bcmp" { let mut eq = self.ar.c(1, 1); for (i, j) in x.iter().zip(&y) { let c = self.ar.eq(*i, *j); eq = self.ar.bin(Op::And, eq, c); if self.ar.cst(eq) == Some(0) { break; } } let one = self.ar.c(32, 1); r = self.ar.ite(eq, r, one); }
                else { for (i, j) in x.iter().zip(&y).rev() { let (lt, eq) = (self.ar.bin(Op::Ult, *i, *j), self.ar.eq(*i, *j)); let (m1, p1) = (self.ar.c(32, u32::MAX as u128), self.ar.c(32, 1)); let t = self.ar.ite(lt, m1, p1); r = self.ar.ite(eq, r, t); } }
                self.v(r)
            }
            "strlen" => { let p = self.concrete(st, &a[0])? as u64; let mut k = 0; loop { let b = self.load_int(st, p + k, 1, 8)?; if self.concrete(st, &b)? == 0 { break; } k += 1; } V::C(k as u128) }
            "getenv" => z,
            "write" => a[2].clone(),
            "clock_gettime" => { let p = self.concrete(st, &a[1])? as u64; self.store(st, &Ty::Int(64), &V::C(1), p)?; self.store(st, &Ty::Int(64), &V::C(0), p + 8)?; z }
            "gettid" => V::C(1), "__cxa_thread_atexit_impl" => z,
            "syscall" => V::C(mask(64)),
            // hash seeds; maps do not depend on them
            "getrandom" => { let l = self.concrete(st, &a[1])?; let p = a[0].clone(); self.memset(st, &p, &V::C(0), &V::C(l))?; V::C(l) }
            "__errno_location" => { let b = self.alloc(st, 4, 16, true); V::C(b as u128) }
            "abort" => return Err(Stop::Viol("abort".into(), "abort".into())),
            _ => return Err(Stop::Unsup(format!("external function {n}"))),
        })
    }
    fn memset(&mut self, st: &mut State, p: &V, v: &V, l: &V) -> Res<()> { let l = self.concrete(st, l)? as u64; if l == 0 { return Ok(()); } let p = self.concrete(st, p)? as u64; match v { V::C(c) => { let c = *c as u8; let (o, off) = self.obj_mut(st, p, l)?; o.data[off..off + l as usize].fill(c); if let Some(m) = o.sym.as_mut() { let ks: Vec<u32> = m.range(off as u32..off as u32 + l as u32).map(|x| *x.0).collect(); for k in ks { m.remove(&k); } } } v => { for i in 0..l { self.store(st, &Ty::Int(8), v, p + i)?; } } } Ok(()) }
    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[V], tys: &[Ty], ret: &Ty) -> Res<V> {
        let z = V::C(0);
        for p in ["lifetime.", "assume", "experimental.noalias", "x86.sse2.pause", "dbg.", "donothing", "prefetch", "invariant.", "sideeffect"] { if n.starts_with(p) { return Ok(z); } }
        if n.starts_with("memcpy") || n.starts_with("memmove") { let l = self.concrete(st, &a[2])? as u64; if l == 0 { return Ok(z); } let p = self.concrete(st, &a[0])? as u64; let q = self.concrete(st, &a[1])? as u64; self.copy(st, p, q, l)?; return Ok(z); }
        if n.starts_with("memset") { self.memset(st, &a[0], &a[1], &a[2])?; return Ok(z); }
        if n.starts_with("trap") { return Err(Stop::Viol("abort".into(), "trap".into())); }
        if n.starts_with("threadlocal.address") || n.starts_with("expect") || n.starts_with("launder") || n.starts_with("strip.inv") { return Ok(a[0].clone()); }
        if n.starts_with("is.constant") { return Ok(z); }
        if n.starts_with("load.relative") { let p = self.concrete(st, &a[0])? as u64; let o = self.concrete(st, &a[1])? as u64; let v = self.load_int(st, p.wrapping_add(o), 4, 32)?; let x = self.concrete(st, &v)?; return Ok(V::C(p.wrapping_add(sx(x, 32) as u64) as u128)); }
        if let Some(Ty::Vec(k, et)) = tys.first() { if let Ty::Vec(..) = ret { let k = *k as usize; let ls: Vec<Vec<V>> = a.iter().map(|v| Self::lanes(v, k)).collect(); let et2 = (**et).clone(); let mut r = Vec::new(); for i in 0..k { let args: Vec<V> = ls.iter().map(|l| l[i].clone()).collect(); let tt: Vec<Ty> = args.iter().map(|_| et2.clone()).collect(); r.push(self.intrinsic(st, n, &args, &tt, ret.elem(0))?); } return Ok(V::A(Rc::new(r))); }
            if n.starts_with("vector.reduce.") { let op = &n[14..]; let (k, et) = (*k as usize, (**et).clone()); let l = Self::lanes(&a[0], k); let mut r = l[0].clone(); for x in &l[1..] { r = if op.starts_with("add") { self.bin(Bop::Add, &et, &r, x)? } else if op.starts_with("or") { self.bin(Bop::Or, &et, &r, x)? } else if op.starts_with("and") { self.bin(Bop::And, &et, &r, x)? } else if op.starts_with("xor") { self.bin(Bop::Xor, &et, &r, x)? } else if op.starts_with("mul") { self.bin(Bop::Mul, &et, &r, x)? } else { let p = if op.starts_with("umax") { "ugt" } else if op.starts_with("umin") { "ult" } else if op.starts_with("smax") { "sgt" } else if op.starts_with("smin") { "slt" } else { return Err(Stop::Unsup(format!("intrinsic {n}"))) }; let c = self.cmp(p, et.bits(), &r, x); let ce = self.e(&c, 1); self.sel(ce, &et, &r, x) }; } return Ok(r); } }
        let Some(t0) = tys.first().cloned() else { return Err(Stop::Unsup(format!("intrinsic {n}"))) };
        if t0.agg() || matches!(t0, Ty::Other | Ty::Void) { return Err(Stop::Unsup(format!("intrinsic {n}"))); }
        let w = t0.bits(); if w > 128 { return Err(Stop::Unsup(format!("intrinsic {n}"))); }
        let x = self.e(&a[0], w);
        let starts = |p: &str| n.starts_with(p);
        for (p, c) in [("umax", "ugt"), ("umin", "ult"), ("smax", "sgt"), ("smin", "slt")] { if starts(p) { let c = self.cmp(c, w, &a[0], &a[1]); let ce = self.e(&c, 1); return Ok(self.sel(ce, &t0, &a[0], &a[1])); } }
        if n.contains(".with.overflow") {
            let y = self.e(&a[1], w); let op = match &n[1..4] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul }; let r = self.ar.bin(op, x, y);
            let signed = starts("s");
            let ov = match (op, signed) {
                (Op::Add, false) => self.ar.bin(Op::Ult, r, x), (Op::Sub, false) => self.ar.bin(Op::Ult, x, y),
                _ => { let ww = if op == Op::Mul { 2 * w } else { w + 1 }; if ww > 128 {
                        // 64x64 -> 128 bits still fits; wider is out of reach
                        if w > 64 { return Err(Stop::Unsup(format!("intrinsic {n}"))); } }
                    let ext = |s: &mut Self, e: E| if signed { s.ar.sext(e, ww) } else { s.ar.zext(e, ww) };
                    let (p, q) = (ext(self, x), ext(self, y)); let big = self.ar.bin(op, p, q); let back = ext(self, r); let e = self.ar.eq(big, back); self.ar.not1(e) }
            };
            let (rv, ov) = (self.v(r), self.v(ov)); return Ok(V::A(Rc::new(vec![rv, ov])));
        }
        if starts("uadd.sat") { let y = self.e(&a[1], w); let r = self.ar.bin(Op::Add, x, y); let o = self.ar.bin(Op::Ult, r, x); let m = self.ar.c(w, mask(w)); let r = self.ar.ite(o, m, r); return Ok(self.v(r)); }
        if starts("usub.sat") { let y = self.e(&a[1], w); let r = self.ar.bin(Op::Sub, x, y); let o = self.ar.bin(Op::Ult, x, y); let m = self.ar.c(w, 0); let r = self.ar.ite(o, m, r); return Ok(self.v(r)); }
        if starts("sadd.sat") || starts("ssub.sat") { let y = self.e(&a[1], w); let (p, q) = (self.ar.sext(x, w + 1), self.ar.sext(y, w + 1)); let big = self.ar.bin(if starts("sadd") { Op::Add } else { Op::Sub }, p, q); let (mx, mn) = (mask(w) >> 1, (1u128 << (w - 1)) | (1u128 << w)); let (cmx, cmn) = (self.ar.c(w + 1, mx), self.ar.c(w + 1, mn)); let hi = self.ar.bin(Op::Slt, cmx, big); let lo = self.ar.bin(Op::Slt, big, cmn); let r = self.ar.ite(hi, cmx, big); let r = self.ar.ite(lo, cmn, r); let r = self.ar.extract(r, 0, w); return Ok(self.v(r)); }
        if starts("ctlz") || starts("cttz") || starts("ctpop") {
            if let Some(c) = self.ar.cst(x) { let v = if starts("ctlz") { c.leading_zeros() - (128 - w) } else if starts("cttz") { c.trailing_zeros().min(w) } else { c.count_ones() }; return Ok(V::C(v as u128)); }
            let mut r = if starts("ctpop") { self.ar.c(w, 0) } else { self.ar.c(w, w as u128) };
            if starts("ctpop") { for i in 0..w { let b = self.ar.extract(x, i, 1); let b = self.ar.zext(b, w); r = self.ar.bin(Op::Add, r, b); } }
            else { for k in 0..w { let i = if starts("ctlz") { k } else { w - 1 - k }; let v = if starts("ctlz") { w - 1 - i } else { i }; let b = self.ar.extract(x, i, 1); let c = self.ar.c(w, v as u128); r = self.ar.ite(b, c, r); } }
            return Ok(self.v(r));
        }
        if starts("bswap") { let mut r: Option<E> = None; for i in 0..w / 8 { let b = self.ar.extract(x, i * 8, 8); r = Some(match r { None => b, Some(h) => self.ar.concat(h, b) }); } return Ok(self.v(norm(r))); }
        if starts("bitreverse") { let mut r: Option<E> = None; for i in 0..w { let b = self.ar.extract(x, i, 1); r = Some(match r { None => b, Some(h) => self.ar.concat(h, b) }); } return Ok(self.v(norm(r))); }
        if starts("abs") { let zc = self.ar.c(w, 0); let ng = self.ar.bin(Op::Sub, zc, x); let c = self.ar.bin(Op::Slt, x, zc); let r = self.ar.ite(c, ng, x); return Ok(self.v(r)); }
        if starts("fshl") || starts("fshr") { let y = self.e(&a[1], w); let s = self.e(&a[2], w); let wc = self.ar.c(w, w as u128); let s = self.ar.bin(Op::URem, s, wc); let zero = self.ar.c(w, 0); let is0 = self.ar.eq(s, zero); let inv = self.ar.bin(Op::Sub, wc, s);
            let (ls, rs) = if starts("fshl") { (s, inv) } else { (inv, s) }; let l = self.ar.bin(Op::Shl, x, ls); let r = self.ar.bin(Op::LShr, y, rs); let o = self.ar.bin(Op::Or, l, r); let r = self.ar.ite(is0, if starts("fshl") { x } else { y }, o); return Ok(self.v(r)); }
        if starts("ucmp") || starts("scmp") { let rw = ret.bits(); let p = if starts("ucmp") { "ult" } else { "slt" }; let lt = self.cmp(p, w, &a[0], &a[1]); let eq = self.cmp("eq", w, &a[0], &a[1]); let (lt, eq) = (self.e(&lt, 1), self.e(&eq, 1)); let (m1, p1, ze) = (self.ar.c(rw, mask(rw)), self.ar.c(rw, 1), self.ar.c(rw, 0)); let r = self.ar.ite(eq, ze, p1); let r = self.ar.ite(lt, m1, r); return Ok(self.v(r)); }
        let fop = if starts("fptoui.sat") { Some(Op::FToU) } else if starts("fptosi.sat") { Some(Op::FToS) } else if starts("floor") { Some(Op::FFloor) } else if starts("ceil") { Some(Op::FCeil) } else if starts("rint") || starts("nearbyint") || starts("roundeven") { Some(Op::FRint) } else if starts("trunc") { Some(Op::FTruncI) } else if starts("round") { Some(Op::FRoundAway) } else if starts("sqrt") { Some(Op::FSqrt) } else { None };
        if let Some(o) = fop { let r = self.ar.un(o, ret.bits(), x); return Ok(self.v(r)); }
        if starts("fabs") { let m = self.ar.c(w, mask(w) >> 1); let r = self.ar.bin(Op::And, x, m); return Ok(self.v(r)); }
        if starts("copysign") { let y = self.e(&a[1], w); let m = self.ar.c(w, mask(w) >> 1); let s = self.ar.c(w, 1 << (w - 1)); let p = self.ar.bin(Op::And, x, m); let q = self.ar.bin(Op::And, y, s); let r = self.ar.bin(Op::Or, p, q); return Ok(self.v(r)); }
        if starts("fma.") || starts("fmuladd") { let y = self.e(&a[1], w); let zz = self.e(&a[2], w); let r = self.ar.bin(Op::FMul, x, y); let r = self.ar.bin(Op::FAdd, r, zz); if starts("fma.") && self.ar.cst(r).is_none() { return Err(Stop::Unsup("symbolic fma".into())); } return Ok(self.v(r)); }
        if starts("minnum") || starts("maxnum") || starts("minimumnum") || starts("maximumnum") { let y = self.e(&a[1], w); let lt = if starts("min") { self.ar.bin(Op::FLt, x, y) } else { self.ar.bin(Op::FLt, y, x) }; let yn = self.ar.un(Op::FNan, 1, y); let c = self.ar.bin(Op::Or, lt, yn); let r = self.ar.ite(c, x, y); return Ok(self.v(r)); }
        if starts("is.fpclass") {
            let V::C(m) = a[1] else { return Err(Stop::Unsup("is.fpclass".into())) };
            let (mb, eb) = if w == 32 { (23, 8) } else { (52, 11) }; let man = self.ar.extract(x, 0, mb); let ex = self.ar.extract(x, mb, eb); let sg = self.ar.extract(x, w - 1, 1);
            let zm = self.ar.c(mb, 0); let ze = self.ar.c(eb, 0); let fe = self.ar.c(eb, mask(eb)); let mz = self.ar.eq(man, zm); let mnz = self.ar.not1(mz); let e0 = self.ar.eq(ex, ze); let ef = self.ar.eq(ex, fe); let q = self.ar.extract(x, mb - 1, 1); let ns = self.ar.not1(sg); let nq = self.ar.not1(q); let n0 = self.ar.not1(e0); let nf = self.ar.not1(ef);
            let and = |s: &mut Self, v: &[E]| { let mut r = v[0]; for e in &v[1..] { r = s.ar.bin(Op::And, r, *e); } r };
            let cls = [and(self, &[ef, mnz, nq]), and(self, &[ef, mnz, q]), and(self, &[ef, mz, sg]), and(self, &[n0, nf, sg]), and(self, &[e0, mnz, sg]), and(self, &[e0, mz, sg]), and(self, &[e0, mz, ns]), and(self, &[e0, mnz, ns]), and(self, &[n0, nf, ns]), and(self, &[ef, mz, ns])];
            let mut r = self.ar.c(1, 0); for (i, c) in cls.iter().enumerate() { if m >> i & 1 == 1 { r = self.ar.bin(Op::Or, r, *c); } } return Ok(self.v(r));
        }
        if let V::C(c) = a[0] { let g = |f32f: fn(f32) -> f32, f64f: fn(f64) -> f64| V::C(if w == 32 { f32f(f32::from_bits(c as u32)).to_bits() as u128 } else { f64f(f64::from_bits(c as u64)).to_bits() as u128 });
            if starts("log2") { return Ok(g(f32::log2, f64::log2)); } if starts("log10") { return Ok(g(f32::log10, f64::log10)); } if starts("log") { return Ok(g(f32::ln, f64::ln)); } if starts("exp2") { return Ok(g(f32::exp2, f64::exp2)); } if starts("exp") { return Ok(g(f32::exp, f64::exp)); }
            if starts("powi") { if let V::C(p) = a[1] { let p = p as i32; return Ok(V::C(if w == 32 { f32::from_bits(c as u32).powi(p).to_bits() as u128 } else { f64::from_bits(c as u64).powi(p).to_bits() as u128 })); } }
        }
        Err(Stop::Unsup(format!("intrinsic {n}{}", if a.iter().any(|v| matches!(v, V::S(_))) { " on symbolic values" } else { "" })))
    }
}
fn ival(t: &Ty, a: &V, v: V, p: &[usize]) -> V {
    if p.is_empty() { return v; }
    let mut x = match a { V::A(x) => x.to_vec(), _ => match zero(t) { V::A(x) => x.to_vec(), _ => panic!("insertvalue") } };
    let i = p[0]; x[i] = ival(t.elem(i), &x[i], v, &p[1..]); V::A(Rc::new(x))
}
