//! Decoded program: functions, globals, debug locations.
use crate::expr::{mask, sx};
use crate::ir::*;
use std::cell::{Cell, OnceCell};
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Clone, Debug)]
pub enum V { C(u128), S(u32), A(Rc<Vec<V>>) }
#[derive(Clone, Debug)] pub enum O { R(u32), C(V) }
#[derive(Clone, Copy, Debug, PartialEq)] pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)] pub enum Cast { Trunc, ZExt, SExt, Bit, PtrInt, UToF, SToF, FToU, FToS, FExt, FTrunc }
#[derive(Clone, Debug)] pub enum Callee { Fn(usize), Ext(String), Ind(O) }
#[derive(Clone, Debug)]
pub enum I {
    Bin(Bop, Ty, O, O), ICmp(&'static str, Ty, O, O), FCmp(String, Ty, O, O), FNeg(Ty, O), Cast(Cast, Ty, Ty, O), Alloca(u64), Load(Ty, O), Store(Ty, O, O), Gep(O, i64, Vec<(O, u32, i64)>),
    Br(usize), CBr(O, usize, usize), Switch(O, u32, usize, Vec<(u128, usize)>), Ret(Option<O>), Unreachable,
    Call { callee: Callee, args: Vec<O>, tys: Vec<Ty>, ret: Ty, normal: Option<usize> },
    Select(O, Ty, O, O), XVal(O, Vec<usize>), IVal(Ty, O, O, Vec<usize>), XElem(O, O), IElem(Ty, O, O, O), Shuffle(Ty, O, O, Vec<usize>),
    CmpXchg(Ty, O, O, O), Rmw(String, Ty, O, O), Copy(O), Nop, Bad(String),
}
pub struct Inst { pub i: I, pub d: u32, pub loc: u32 }
pub struct Phi { pub d: u32, pub src: HashMap<usize, O> }
pub struct Func { pub name: String, pub defined: bool, pub panic: bool, src: (usize, usize), body: OnceCell<Body> }
/// Decoded on first execution.
pub struct Body { pub code: Vec<Inst>, pub blocks: Vec<usize>, pub phis: Vec<Vec<Phi>>, pub nregs: usize, pub params: Vec<u32>, pub sp: u32, pub hit: Vec<Cell<bool>> }
pub struct GObj { pub base: u64, pub name: String, pub size: u64, pub data: Vec<u8>, pub constant: bool }
pub struct Module { pub funcs: Vec<Func>, pub fidx: HashMap<String, usize>, pub globals: Vec<GObj>, pub gaddr: HashMap<String, u64>, meta: HashMap<u32, &'static str>, lines: Vec<&'static str>, named: HashMap<String, Ty> }
#[derive(Clone, Debug, Default)] pub struct Dbg { pub kind: char, pub line: u32, pub scope: u32, pub at: u32, pub file: u32, pub name: String, pub dir: String }
pub const FBASE: u64 = 0x7000_0000_0000;
pub const NOREG: u32 = u32::MAX;
fn is_panic(n: &str) -> bool { n.starts_with("_ZN4core9panicking") || n.starts_with("_ZN3std9panicking") && (n.contains("begin_panic") || n.contains("panic_with_hook") || n.contains("rust_panic") || n.contains("panic_handler")) || n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") || n.contains("core..panicking..panic") }
pub fn load(path: &str) -> Module {
    let text: &'static str = Box::leak(std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("{path}: {e}"); std::process::exit(4) }).into_boxed_str());
    let lines: Vec<&'static str> = text.lines().collect();
    let mut named: HashMap<String, Ty> = HashMap::new();
    // named types (in dependency order by repeated attempts)
    let mut pend: Vec<(String, Vec<T>)> = lines.iter().filter(|l| l.starts_with('%')).map(|l| { let t = lex(l); (match &t[0] { T::L(n) => n.clone(), _ => unreachable!() }, t[3..].to_vec()) }).collect();
    loop { let n = pend.len(); let mut rest = Vec::new(); for (nm, t) in pend { let r = { let mut c = Cur { t: &t, i: 0, named: &named }; c.ty_opt() }; match r { Some(ty) => { named.insert(nm, ty); } None => rest.push((nm, t)) } } if rest.is_empty() || rest.len() == n { break; } pend = rest; }
    let mut m = Module { funcs: Vec::new(), fidx: HashMap::new(), globals: Vec::new(), gaddr: HashMap::new(), meta: HashMap::new(), lines: Vec::new(), named: HashMap::new() };
    // pass 1: symbols
    let mut i = 0; let mut ginit: Vec<(usize, Ty, K)> = Vec::new(); let mut next = 0x10000u64; let mut aliases = Vec::new();
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define ") || l.starts_with("declare ") {
            let def = l.starts_with("define "); let at = l.find('@').unwrap(); let name = match &lex(&l[at..l[at..].find('(').map(|x| at + x).unwrap_or(l.len())])[0] { T::G(n) => n.clone(), _ => unreachable!() };
            let f = m.funcs.len(); m.fidx.insert(name.clone(), f);
            let s = i; if def { while lines[i] != "}" { i += 1; } }
            let _ = f; m.funcs.push(Func { panic: is_panic(&name), name, defined: def, src: (s, i), body: OnceCell::new() });
        } else if l.starts_with('@') {
            let t = lex(l); let name = match &t[0] { T::G(n) => n.clone(), _ => unreachable!() };
            let mut c = Cur { t: &t, i: 2, named: &named }; let mut ext = false; let mut constant = false;
            loop { match c.peek() { Some(T::Id(s)) if s == "alias" => { aliases.push((name.clone(), t.clone())); break; } Some(T::Id(s)) if s == "global" || s == "constant" => { constant = s == "constant"; c.i += 1; break; } Some(T::Id(s)) if s == "external" || s == "extern_weak" => { ext = true; c.i += 1; } Some(T::Id(s)) if s == "thread_local" => { c.i += 1; if c.isp('(') { c.skip_parens(); } } Some(T::Id(s)) if is_attr(s) || s == "appending" || s == "externally_initialized" => c.i += 1, x => panic!("global {x:?} in {l}") } }
            if t[c.i.min(t.len() - 1)] == T::Id("alias".into()) { i += 1; continue; }
            let ty = c.ty(); let k = if ext { K::Zero } else { c.konst(&ty) };
            let size = ty.size(); next = next.next_multiple_of(64); m.gaddr.insert(name.clone(), next); let gi = m.globals.len();
            m.globals.push(GObj { base: next, name, size, data: vec![0; size as usize], constant }); ginit.push((gi, ty, k)); next += size + 64;
        } else if l.starts_with('!') { if let Some(e) = l.find(" = ") { if let Ok(id) = l[1..e].parse::<u32>() { m.meta.insert(id, l); } } }
        i += 1;
    }
    for (n, t) in aliases { let g = t.iter().rev().find_map(|x| if let T::G(n) = x { Some(n.clone()) } else { None }).unwrap(); if let Some(a) = m.gaddr.get(&g) { let a = *a; m.gaddr.insert(n, a); } else if let Some(f) = m.fidx.get(&g) { let f = *f; m.fidx.insert(n, f); } }
    for (g, ty, k) in ginit { let mut d = std::mem::take(&mut m.globals[g].data); init(&m, &ty, &k, &mut d, 0); m.globals[g].data = d; }
    m.lines = lines; m.named = named;
    m
}
fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> { let p = format!("{k}: "); let mut from = 0; loop { let i = l[from..].find(&p)? + from; let b = l.as_bytes()[i - 1]; if b == b'(' || b == b' ' { let r = &l[i + p.len()..]; return Some(if let Some(q) = r.strip_prefix('"') { &q[..q.find('"')?] } else { &r[..r.find([',', ')']).unwrap_or(r.len())] }); } from = i + 1; } }
fn parse_dbg(l: &str) -> Option<Dbg> {
    let kind = if l.contains("!DILocation(") { 'L' } else if l.contains("!DISubprogram(") { 'S' } else if l.contains("!DILexicalBlock") { 'B' } else if l.contains("!DIFile(") { 'F' } else { return None };
    let n = |k: &str| field(l, k).and_then(|s| s.trim_start_matches('!').parse().ok()).unwrap_or(0);
    Some(Dbg { kind, line: n("line"), scope: n("scope"), at: n("inlinedAt"), file: n("file"), name: field(l, if kind == 'F' { "filename" } else { "name" }).unwrap_or("").to_string(), dir: field(l, "directory").unwrap_or("").to_string() })
}
impl Module {
    pub fn body(&self, f: usize) -> &Body { self.funcs[f].body.get_or_init(|| { let (s, e) = self.funcs[f].src; func(self, &self.named, &self.lines[s..e]) }) }
    pub fn bodies(&self) -> impl Iterator<Item = &Body> { self.funcs.iter().filter_map(|f| f.body.get()) }
    pub fn dbg(&self, id: u32) -> Option<Dbg> { self.meta.get(&id).and_then(|l| parse_dbg(l)) }
    /// (file, line, function) of a location and of everything it was inlined into, innermost first.
    pub fn places(&self, mut loc: u32) -> Vec<(String, u32, String)> {
        let mut out = Vec::new();
        while loc != 0 { let Some(l) = self.dbg(loc) else { break }; let mut sc = l.scope; let mut name = String::new(); let mut file = 0;
            for _ in 0..200 { let Some(s) = self.dbg(sc) else { break }; if file == 0 { file = s.file; } if s.kind == 'S' { name = s.name; break; } sc = s.scope; }
            let f = self.dbg(file).map(|f| if f.name.starts_with('/') || f.dir.is_empty() { f.name } else { format!("{}/{}", f.dir, f.name) }).unwrap_or_default();
            out.push((f, l.line, name)); loc = l.at; }
        out
    }
}
fn kval(m: &Module, t: &Ty, k: &K) -> V {
    match k {
        K::Int(v) => V::C(*v),
        K::Global(n) => V::C(addr(m, n) as u128),
        K::Zero | K::Undef => zero(t),
        K::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u128)).collect())),
        K::Agg(v) => V::A(Rc::new(v.iter().map(|(t, k)| kval(m, t, k)).collect())),
        K::Splat(b) => { let v = kval(m, &b.0, &b.1); V::A(Rc::new(vec![v; t.len()])) }
        K::Gep(et, b, idx) => { let V::C(mut a) = kval(m, &Ty::Ptr, b) else { panic!() }; let mut cur = et.clone(); for (n, (it, ik)) in idx.iter().enumerate() { let V::C(x) = kval(m, it, ik) else { panic!() }; let x = sx(x, it.bits()); if n == 0 { a = a.wrapping_add((x * cur.size() as i128) as u128); } else { a = a.wrapping_add(match &cur { Ty::St(..) => cur.off(x as usize) as u128, _ => (x * cur.elem(0).size() as i128) as u128 }); cur = cur.elem(x as usize).clone(); } } V::C(a & mask(64)) }
        K::Cast(f, k, to) => { let V::C(x) = kval(m, f, k) else { panic!() }; V::C(x & mask(to.bits())) }
        K::Bin(op, t, a, b) => { let (V::C(x), V::C(y)) = (kval(m, t, a), kval(m, t, b)) else { panic!() }; V::C(match op.as_str() { "add" => x.wrapping_add(y), "sub" => x.wrapping_sub(y), "mul" => x.wrapping_mul(y), _ => x ^ y } & mask(t.bits())) }
    }
}
pub fn zero(t: &Ty) -> V { if t.agg() { V::A(Rc::new((0..t.len()).map(|i| zero(t.elem(i))).collect())) } else { V::C(0) } }
fn addr(m: &Module, n: &str) -> u64 { if let Some(a) = m.gaddr.get(n) { return *a; } if let Some(f) = m.fidx.get(n) { if !m.funcs[*f].defined && n == "gettid" { return 0; } return FBASE + *f as u64 * 16; } panic!("unknown symbol {n}") }
fn init(m: &Module, t: &Ty, k: &K, d: &mut [u8], off: usize) {
    match k { K::Zero | K::Undef => {} K::Bytes(b) => d[off..off + b.len()].copy_from_slice(b),
        K::Agg(v) => for (i, (et, ek)) in v.iter().enumerate() { init(m, et, ek, d, off + t.off(i) as usize) },
        _ => { if t.agg() { if let V::A(v) = kval(m, t, k) { for (i, x) in v.iter().enumerate() { if let V::C(c) = x { let et = t.elem(i); let o = off + t.off(i) as usize; let n = et.size() as usize; d[o..o + n].copy_from_slice(&c.to_le_bytes()[..n]); } } } return; } let V::C(c) = kval(m, t, k) else { panic!() }; let n = t.size() as usize; d[off..off + n].copy_from_slice(&c.to_le_bytes()[..n]); } }
}
struct Fx<'a> { m: &'a Module, regs: HashMap<String, u32>, labels: HashMap<String, usize> }
impl<'a> Fx<'a> {
    fn reg(&mut self, n: &str) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n.to_string()).or_insert(k) }
    fn op(&mut self, t: &Ty, o: Opnd) -> O { match o { Opnd::L(n) => O::R(self.reg(&n)), Opnd::K(k) => O::C(kval(self.m, t, &k)), Opnd::Meta => O::C(V::C(0)) } }
    fn label(&self, n: &str) -> usize { *self.labels.get(n).unwrap_or_else(|| panic!("label {n}")) }
}
fn func(m: &Module, named: &HashMap<String, Ty>, src: &[&str]) -> Body {
    let mut fx = Fx { m, regs: HashMap::new(), labels: HashMap::new() };
    // header
    let ht = lex(src[0]); let mut sp = 0;
    { let mut j = 0; while j < ht.len() { if let T::Meta(s) = &ht[j] { if s == "!dbg" { if let Some(T::Meta(x)) = ht.get(j + 1) { sp = x[1..].parse().unwrap_or(0); } } } j += 1; } }
    let mut params = Vec::new(); let mut unnamed = 0u32;
    { let mut c = Cur { t: &ht, i: 0, named }; while !matches!(c.peek(), Some(T::G(_))) { c.i += 1; } c.i += 1; c.need('('); if !c.isp(')') { loop { if c.isp('.') || c.eat("...") { break; } let _t = c.ty(); c.attrs(); let n = match c.peek() { Some(T::L(n)) => { let n = n.clone(); c.i += 1; n } _ => { let n = unnamed.to_string(); n } }; if n.bytes().all(|b| b.is_ascii_digit()) { unnamed = n.parse::<u32>().unwrap() + 1; } params.push(fx.reg(&n)); if !c.p(',') { break; } } } }
    // logical lines
    let mut ll: Vec<String> = Vec::new();
    for l in &src[1..] { let tr = l.trim_start(); if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") { continue; } if l.starts_with("   ") || tr.starts_with(']') { let n = ll.len() - 1; ll[n].push(' '); ll[n].push_str(tr); } else { ll.push(l.to_string()); } }
    // labels
    let mut nb = 0; if !ll.first().map(|l| !l.starts_with(' ')).unwrap_or(false) { fx.labels.insert(unnamed.to_string(), 0); nb = 1; }
    for l in &ll { if !l.starts_with(' ') { fx.labels.insert(label_name(l), nb); nb += 1; } }
    let mut code: Vec<Inst> = Vec::new(); let mut blocks = vec![0usize; nb]; let mut phis: Vec<Vec<Phi>> = (0..nb).map(|_| Vec::new()).collect(); let mut cur = 0usize; let mut first = true;
    for l in &ll {
        if !l.starts_with(' ') { cur = fx.labels[&label_name(l)]; blocks[cur] = code.len(); first = false; continue; }
        if first { blocks[0] = 0; first = false; }
        let t = lex(l); let mut c = Cur { t: &t, i: 0, named };
        let mut d = NOREG; if let (Some(T::L(n)), Some(T::P('='))) = (t.first(), t.get(1)) { d = fx.reg(&n.clone()); c.i = 2; }
        let mut loc = 0; { let mut j = c.i; while j + 1 < t.len() { if let (T::Meta(a), T::Meta(b)) = (&t[j], &t[j + 1]) { if a == "!dbg" { loc = b[1..].parse().unwrap_or(0); } } j += 1; } }
        let mn = c.id();
        if mn == "phi" { while c.ty_opt_is_fmf() {} let ty = c.ty(); let mut src = HashMap::new(); loop { c.need('['); let o = c.opnd(&ty); let o = fx.op(&ty, o); c.need(','); let T::L(b) = c.next() else { panic!() }; c.need(']'); src.insert(fx.label(&b), o); if !c.p(',') || !c.isp('[') { break; } } phis[cur].push(Phi { d, src }); continue; }
        let i = inst(&mut fx, &mut c, &mn);
        code.push(Inst { i, d, loc });
    }
    let hit = (0..code.len()).map(|_| Cell::new(false)).collect();
    Body { code, blocks, phis, nregs: fx.regs.len(), params, sp, hit }
}
fn label_name(l: &str) -> String { let l = l.trim(); if l.starts_with('"') { match &lex(l)[0] { T::Str(b) => String::from_utf8_lossy(b).into_owned(), _ => panic!() } } else { l[..l.find(':').unwrap()].to_string() } }
impl<'a> Cur<'a> { fn ty_opt_is_fmf(&mut self) -> bool { matches!(self.peek(), Some(T::Id(s)) if matches!(s.as_str(), "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast")) && { self.i += 1; true } } }
fn inst(fx: &mut Fx, c: &mut Cur, mn: &str) -> I {
    let flags = |c: &mut Cur| while matches!(c.peek(), Some(T::Id(s)) if matches!(s.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "inbounds" | "nusw" | "volatile" | "atomic" | "weak")) { c.i += 1; if c.isp('(') { c.skip_parens(); } };
    let two = |fx: &mut Fx, c: &mut Cur| { flags(c); let t = c.ty(); let a = c.opnd(&t); c.need(','); let b = c.opnd(&t); let a = fx.op(&t, a); let b = fx.op(&t, b); (t, a, b) };
    let tv = |fx: &mut Fx, c: &mut Cur| { let (t, o) = c.tyop(); let o = fx.op(&t, o); (t, o) };
    let bop = match mn { "add" => Some(Bop::Add), "sub" => Some(Bop::Sub), "mul" => Some(Bop::Mul), "udiv" => Some(Bop::UDiv), "sdiv" => Some(Bop::SDiv), "urem" => Some(Bop::URem), "srem" => Some(Bop::SRem), "shl" => Some(Bop::Shl), "lshr" => Some(Bop::LShr), "ashr" => Some(Bop::AShr), "and" => Some(Bop::And), "or" => Some(Bop::Or), "xor" => Some(Bop::Xor), "fadd" => Some(Bop::FAdd), "fsub" => Some(Bop::FSub), "fmul" => Some(Bop::FMul), "fdiv" => Some(Bop::FDiv), "frem" => Some(Bop::FRem), _ => None };
    if let Some(b) = bop { let (t, x, y) = two(fx, c); return I::Bin(b, t, x, y); }
    let cast = match mn { "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "bitcast" => Some(Cast::Bit), "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(Cast::PtrInt), "uitofp" => Some(Cast::UToF), "sitofp" => Some(Cast::SToF), "fptoui" => Some(Cast::FToU), "fptosi" => Some(Cast::FToS), "fpext" => Some(Cast::FExt), "fptrunc" => Some(Cast::FTrunc), _ => None };
    if let Some(k) = cast { flags(c); let (t, o) = tv(fx, c); assert!(c.eat("to")); let to = c.ty(); return I::Cast(k, t, to, o); }
    match mn {
        "icmp" => { flags(c); let p = c.id(); let p: &'static str = match p.as_str() { "eq" => "eq", "ne" => "ne", "ult" => "ult", "ule" => "ule", "ugt" => "ugt", "uge" => "uge", "slt" => "slt", "sle" => "sle", "sgt" => "sgt", "sge" => "sge", x => panic!("{x}") }; let (t, a, b) = two(fx, c); I::ICmp(p, t, a, b) }
        "fcmp" => { flags(c); let p = c.id(); let (t, a, b) = two(fx, c); I::FCmp(p, t, a, b) }
        "fneg" => { flags(c); let (t, a) = tv(fx, c); I::FNeg(t, a) }
        "alloca" => { let t = c.ty(); let mut n = 1; if c.p(',') { if let Some(Ty::Int(_)) = { let s = c.i; let r = c.ty_opt(); if r.is_none() { c.i = s; } r } { if let T::Int(x) = c.next() { n = x.parse::<u64>().unwrap(); } } } I::Alloca(t.size() * n) }
        "load" => { flags(c); let t = c.ty(); c.need(','); let (_, p) = tv(fx, c); I::Load(t, p) }
        "store" => { flags(c); let (t, v) = tv(fx, c); c.need(','); let (_, p) = tv(fx, c); I::Store(t, v, p) }
        "getelementptr" => { flags(c); let et = c.ty(); c.need(','); let (bt, b) = tv(fx, c); if bt != Ty::Ptr { return I::Bad("vector gep".into()); } let mut off = 0i64; let mut v = Vec::new(); let mut cur = et; let mut n = 0;
            while c.p(',') { if matches!(c.peek(), Some(T::Meta(_))) { break; } let (it, io) = tv(fx, c);
                if n > 0 { if let Ty::St(..) = cur { let O::C(V::C(x)) = io else { panic!() }; off += cur.off(x as usize) as i64; cur = cur.elem(x as usize).clone(); n += 1; continue; } cur = cur.elem(0).clone(); }
                let sc = cur.size() as i64; match io { O::C(V::C(x)) => off += sx(x, it.bits()) as i64 * sc, o => v.push((o, it.bits(), sc)) } n += 1; }
            I::Gep(b, off, v) }
        "br" => { if c.eat("label") { let T::L(n) = c.next() else { panic!() }; return I::Br(fx.label(&n)); } let (_, cond) = tv(fx, c); c.need(','); c.eat("label"); let T::L(a) = c.next() else { panic!() }; c.need(','); c.eat("label"); let T::L(b) = c.next() else { panic!() }; I::CBr(cond, fx.label(&a), fx.label(&b)) }
        "switch" => { let (t, o) = tv(fx, c); c.need(','); c.eat("label"); let T::L(d) = c.next() else { panic!() }; let d = fx.label(&d); c.need('['); let mut v = Vec::new(); while !c.p(']') { let (_, k) = tv(fx, c); let O::C(V::C(x)) = k else { panic!() }; c.need(','); c.eat("label"); let T::L(b) = c.next() else { panic!() }; v.push((x, fx.label(&b))); } I::Switch(o, t.bits(), d, v) }
        "ret" => { if c.eat("void") { I::Ret(None) } else { let (_, o) = tv(fx, c); I::Ret(Some(o)) } }
        "unreachable" => I::Unreachable,
        "call" | "tail" | "musttail" | "notail" | "invoke" => {
            if mn != "call" && mn != "invoke" { assert!(c.eat("call")); }
            c.attrs(); if c.eat("cc") { c.i += 1; c.attrs(); } let ret = c.ty();
            if c.isp('(') { c.skip_parens(); }
            if c.is("asm") { return if ret == Ty::Void { I::Nop } else { I::Bad("asm".into()) }; }
            let callee = match c.next() { T::G(n) => match fx.m.fidx.get(&n) { Some(f) if fx.m.funcs[*f].defined => Callee::Fn(*f), _ => Callee::Ext(n) }, T::L(n) => Callee::Ind(O::R(fx.reg(&n))), x => return I::Bad(format!("callee {x:?}")) };
            c.need('('); let (mut args, mut tys) = (Vec::new(), Vec::new());
            if !c.isp(')') { loop { let (t, o) = tv(fx, c); args.push(o); tys.push(t); if !c.p(',') { break; } } } c.need(')');
            let mut normal = None; if mn == "invoke" { while !c.is("to") { c.i += 1; } c.i += 1; assert!(c.eat("label")); let T::L(n) = c.next() else { panic!() }; normal = Some(fx.label(&n)); }
            I::Call { callee, args, tys, ret, normal } }
        "select" => { flags(c); let (_, cond) = tv(fx, c); c.need(','); let (t, a) = tv(fx, c); c.need(','); let (_, b) = tv(fx, c); I::Select(cond, t, a, b) }
        "extractvalue" => { let (_, a) = tv(fx, c); let mut p = Vec::new(); while c.p(',') { match c.next() { T::Int(x) => p.push(x.parse().unwrap()), _ => break } } I::XVal(a, p) }
        "insertvalue" => { let (t, a) = tv(fx, c); c.need(','); let (_, v) = tv(fx, c); let mut p = Vec::new(); while c.p(',') { match c.next() { T::Int(x) => p.push(x.parse().unwrap()), _ => break } } I::IVal(t, a, v, p) }
        "extractelement" => { let (_, a) = tv(fx, c); c.need(','); let (_, i) = tv(fx, c); I::XElem(a, i) }
        "insertelement" => { let (t, a) = tv(fx, c); c.need(','); let (_, v) = tv(fx, c); c.need(','); let (_, i) = tv(fx, c); I::IElem(t, a, v, i) }
        "shufflevector" => { let (t, a) = tv(fx, c); c.need(','); let (_, b) = tv(fx, c); c.need(','); let (_, mk) = tv(fx, c); let O::C(V::A(mk)) = mk else { panic!() }; let v = mk.iter().map(|x| if let V::C(x) = x { *x as usize } else { 0 }).collect(); I::Shuffle(t, a, b, v) }
        "cmpxchg" => { flags(c); let (_, p) = tv(fx, c); c.need(','); let (t, a) = tv(fx, c); c.need(','); let (_, b) = tv(fx, c); I::CmpXchg(t, p, a, b) }
        "atomicrmw" => { flags(c); let op = c.id(); let (_, p) = tv(fx, c); c.need(','); let (t, v) = tv(fx, c); I::Rmw(op, t, p, v) }
        "fence" => I::Nop,
        "freeze" => { let (_, a) = tv(fx, c); I::Copy(a) }
        "landingpad" | "resume" | "cleanupret" | "va_arg" => I::Bad(mn.into()),
        x => I::Bad(x.into()),
    }
}

/// Path below `src/` of a source file of the generated crate (any unit).
pub fn crate_file(f: &str) -> Option<&str> {
    let i = f.find("/build/")? + 7; let r = &f[i..];
    if !(r.starts_with("core") || r.starts_with("grpc")) { return None; }
    let k = r.find("/src/")?; if r[..k].contains('/') { return None; } Some(&r[k + 5..])
}
