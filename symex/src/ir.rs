//! Reader for the textual LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Int(u32), Ptr, F32, F64, Void, Arr(u64, Rc<Ty>), Vec(u64, Rc<Ty>), St(Rc<Vec<Ty>>, bool), Other }
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(n, t) => *n as u32 * t.bits(), _ => panic!("bits of {self:?}") } }
    pub fn size(&self) -> u64 { match self { Ty::Int(w) => { let b = (*w as u64).div_ceil(8); b.next_power_of_two().max(1).min(b.div_ceil(8) * 8).max(b) } Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Void | Ty::Other => 0, Ty::Arr(n, t) => n * t.size(), Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8), Ty::St(f, p) => { let mut o = 0u64; let mut al = 1; for t in f.iter() { let a = if *p { 1 } else { t.align() }; al = al.max(a); o = o.next_multiple_of(a) + t.size(); } o.next_multiple_of(al) } } }
    pub fn align(&self) -> u64 { match self { Ty::Int(w) => (*w as u64).div_ceil(8).next_power_of_two().min(16), Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4, Ty::Void | Ty::Other => 1, Ty::Arr(_, t) => t.align(), Ty::Vec(..) => self.size().next_power_of_two().max(1), Ty::St(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) } } }
    pub fn off(&self, i: usize) -> u64 { match self { Ty::St(f, p) => { let mut o = 0u64; for (j, t) in f.iter().enumerate() { let a = if *p { 1 } else { t.align() }; o = o.next_multiple_of(a); if j == i { return o; } o += t.size(); } panic!("off") } Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(), _ => panic!("off of {self:?}") } }
    pub fn elem(&self, i: usize) -> &Ty { match self { Ty::St(f, _) => &f[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!("elem") } }
    pub fn len(&self) -> usize { match self { Ty::St(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => panic!("len") } }
    pub fn agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::St(..)) }
}
/// Constant expressions, resolved once global addresses are known.
#[derive(Clone, Debug)]
pub enum K { Int(u128), Global(String), Zero, Undef, Bytes(Vec<u8>), Agg(Vec<(Ty, K)>), Splat(Box<(Ty, K)>), Gep(Ty, Box<K>, Vec<(Ty, K)>), Cast(Ty, Box<K>, Ty), Bin(String, Ty, Box<K>, Box<K>) }
#[derive(Clone, Debug)] pub enum Opnd { L(String), K(K), Meta }
#[derive(Clone, Debug, PartialEq)]
pub enum T { Id(String), L(String), G(String), Int(String), Str(Vec<u8>), P(char), Meta(String), Attr(u32) }
pub fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes(); let mut i = 0; let mut o = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-');
    let quoted = |i: &mut usize| -> Vec<u8> { let mut v = Vec::new(); *i += 1; while b[*i] != b'"' { if b[*i] == b'\\' && b[*i + 1] != b'\\' { v.push(u8::from_str_radix(&s[*i + 1..*i + 3], 16).unwrap()); *i += 3; } else if b[*i] == b'\\' { v.push(b'\\'); *i += 2; } else { v.push(b[*i]); *i += 1; } } *i += 1; v };
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            c @ (b'%' | b'@') => { i += 1; let n = if b[i] == b'"' { String::from_utf8_lossy(&quoted(&mut i)).into_owned() } else { let st = i; while i < b.len() && idc(b[i]) { i += 1; } s[st..i].to_string() }; o.push(if c == b'%' { T::L(n) } else { T::G(n) }); }
            b'!' => { let st = i; i += 1; if i < b.len() && b[i] == b'"' { quoted(&mut i); } else { while i < b.len() && idc(b[i]) { i += 1; } } o.push(T::Meta(s[st..i].to_string())); }
            b'#' => { i += 1; let st = i; while i < b.len() && (b[i].is_ascii_digit()) { i += 1; } o.push(T::Attr(s[st..i].parse().unwrap_or(0))); }
            b'"' => { let v = quoted(&mut i); o.push(T::Str(v)); }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { i += 1; let v = quoted(&mut i); o.push(T::Str(v)); }
            c if c.is_ascii_digit() || (c == b'-' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) => { let st = i; i += 1; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && b[i - 1] == b'e')) { i += 1; } o.push(T::Int(s[st..i].to_string())); }
            c if idc(c) => { let st = i; while i < b.len() && idc(b[i]) { i += 1; } o.push(T::Id(s[st..i].to_string())); }
            c => { o.push(T::P(c as char)); i += 1; }
        }
    }
    o
}
pub struct Cur<'a> { pub t: &'a [T], pub i: usize, pub named: &'a HashMap<String, Ty> }
impl<'a> Cur<'a> {
    pub fn peek(&self) -> Option<&T> { self.t.get(self.i) }
    pub fn next(&mut self) -> T { let r = self.t[self.i].clone(); self.i += 1; r }
    pub fn is(&self, s: &str) -> bool { matches!(self.peek(), Some(T::Id(x)) if x == s) }
    pub fn eat(&mut self, s: &str) -> bool { if self.is(s) { self.i += 1; true } else { false } }
    pub fn p(&mut self, c: char) -> bool { if self.peek() == Some(&T::P(c)) { self.i += 1; true } else { false } }
    pub fn isp(&self, c: char) -> bool { self.peek() == Some(&T::P(c)) }
    pub fn need(&mut self, c: char) { if !self.p(c) { panic!("expected {c} at {:?}", &self.t[self.i.saturating_sub(6)..(self.i + 4).min(self.t.len())]); } }
    pub fn id(&mut self) -> String { match self.next() { T::Id(s) => s, t => panic!("expected identifier, got {t:?} in {:?}", &self.t[..self.t.len().min(20)]) } }
    /// A type, if one starts here.
    pub fn ty_opt(&mut self) -> Option<Ty> {
        let save = self.i;
        let t = match self.peek()? {
            T::Id(s) => match s.as_str() { "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "void" => Ty::Void, "metadata" | "token" | "label" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                s if s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(s[1..].parse().unwrap()), _ => return None },
            T::L(n) => { let n = n.clone(); match self.named.get(&n) { Some(t) => t.clone(), None => return None } }
            T::P('[') => { self.i += 1; let n = match self.next() { T::Int(s) => s.parse().unwrap(), _ => { self.i = save; return None } }; if !self.eat("x") { self.i = save; return None; } let e = self.ty(); self.need(']'); return Some(Ty::Arr(n, Rc::new(e))); }
            T::P('{') => { self.i += 1; let mut v = Vec::new(); if !self.isp('}') { loop { match self.ty_opt() { Some(t) => v.push(t), None => { self.i = save; return None } } if !self.p(',') { break; } } } self.need('}'); return Some(Ty::St(Rc::new(v), false)); }
            T::P('<') => { self.i += 1;
                if self.p('{') { let mut v = Vec::new(); if !self.isp('}') { loop { match self.ty_opt() { Some(t) => v.push(t), None => { self.i = save; return None } } if !self.p(',') { break; } } } self.need('}'); self.need('>'); return Some(Ty::St(Rc::new(v), true)); }
                let n = match self.next() { T::Int(s) => s.parse().unwrap(), _ => { self.i = save; return None } }; if !self.eat("x") { self.i = save; return None; } let e = self.ty(); self.need('>'); return Some(Ty::Vec(n, Rc::new(e))); }
            _ => return None,
        };
        self.i += 1; Some(t)
    }
    pub fn ty(&mut self) -> Ty { self.ty_opt().unwrap_or_else(|| panic!("expected a type at {:?} in {:?}", self.t.get(self.i), &self.t[..self.t.len().min(30)])) }
    /// Skips parameter/return attributes.
    pub fn attrs(&mut self) {
        loop { match self.peek() {
            Some(T::Id(s)) if is_attr(s) => { let al = s == "align"; self.i += 1; if al && matches!(self.peek(), Some(T::Int(_))) { self.i += 1; } if self.isp('(') { self.skip_parens(); } }
            Some(T::Str(_)) => { self.i += 1; if self.p('=') { self.i += 1; } }
            Some(T::Attr(_)) => self.i += 1,
            _ => return } }
    }
    pub fn skip_parens(&mut self) { let mut d = 0; loop { match self.next() { T::P('(') => d += 1, T::P(')') => { d -= 1; if d == 0 { return; } } _ => {} } } }
    pub fn opnd(&mut self, t: &Ty) -> Opnd { match self.peek() { Some(T::L(n)) => { let n = n.clone(); self.i += 1; Opnd::L(n) } Some(T::Meta(_)) => { self.i += 1; if self.isp('(') { self.skip_parens(); } Opnd::Meta } _ => Opnd::K(self.konst(t)) } }
    pub fn tyop(&mut self) -> (Ty, Opnd) { let t = self.ty(); self.attrs(); if t == Ty::Other { self.i += 1; if self.isp('(') { self.skip_parens(); } return (t, Opnd::Meta); } let o = self.opnd(&t); (t, o) }
    fn list(&mut self, end: char) -> Vec<(Ty, K)> { let mut v = Vec::new(); if !self.isp(end) { loop { let t = self.ty(); let k = self.konst(&t); v.push((t, k)); if !self.p(',') { break; } } } self.need(end); v }
    pub fn konst(&mut self, t: &Ty) -> K {
        match self.next() {
            T::Int(s) => K::Int(match t { Ty::F64 | Ty::F32 => { let x = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse::<f64>().unwrap() }; if *t == Ty::F32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 } }
                Ty::Int(w) => { let v = if let Some(n) = s.strip_prefix('-') { (n.parse::<u128>().unwrap()).wrapping_neg() } else { s.parse::<u128>().unwrap() }; v & crate::expr::mask(*w) } _ => panic!("int literal for {t:?}") }),
            T::G(n) => K::Global(n),
            T::Str(b) => K::Bytes(b),
            T::P('[') => K::Agg(self.list(']')),
            T::P('{') => K::Agg(self.list('}')),
            T::P('<') => { if self.p('{') { let v = self.list('}'); self.need('>'); K::Agg(v) } else { K::Agg(self.list('>')) } }
            T::Id(s) => match s.as_str() {
                "true" => K::Int(1), "false" => K::Int(0), "null" | "zeroinitializer" | "none" => K::Zero, "undef" | "poison" => K::Undef,
                "splat" => { self.need('('); let t = self.ty(); let k = self.konst(&t); self.need(')'); K::Splat(Box::new((t, k))) }
                "getelementptr" => { while !self.isp('(') { self.i += 1; if self.isp('(') { break; } } 
                    // `inrange(a, b)` may precede the operand list
                    self.need('('); if self.ty_opt().is_none() { while !self.p(')') { self.i += 1; } while !self.isp('(') { self.i += 1; } self.need('('); } else { self.i -= 0; }
                    let et = self.last_ty(); self.need(','); let bt = self.ty(); let b = self.konst(&bt); let mut idx = Vec::new(); while self.p(',') { let t = self.ty(); let k = self.konst(&t); idx.push((t, k)); } self.need(')'); K::Gep(et, Box::new(b), idx) }
                "ptrtoint" | "inttoptr" | "trunc" | "bitcast" | "zext" | "sext" | "addrspacecast" => { while !self.isp('(') { self.i += 1; } self.need('('); let t = self.ty(); let k = self.konst(&t); assert!(self.eat("to")); let to = self.ty(); self.need(')'); K::Cast(t, Box::new(k), to) }
                "add" | "sub" | "xor" | "mul" => { while !self.isp('(') { self.i += 1; } self.need('('); let t = self.ty(); let a = self.konst(&t); self.need(','); let t2 = self.ty(); let b = self.konst(&t2); self.need(')'); K::Bin(s, t, Box::new(a), Box::new(b)) }
                x => panic!("constant {x} in {:?}", &self.t[..self.t.len().min(30)]) },
            x => panic!("constant {x:?} in {:?}", &self.t[..self.t.len().min(30)]),
        }
    }
    fn last_ty(&mut self) -> Ty { // the type just consumed by ty_opt: re-parse backwards from the opening parenthesis
        let end = self.i; let mut j = end; let mut d = 0i32; loop { j -= 1; match &self.t[j] { T::P(')') | T::P(']') | T::P('}') => d += 1, T::P('[') | T::P('{') => d -= 1, T::P('(') if d == 0 => break, _ => {} } } self.i = j + 1; let t = self.ty(); t
    }
}
pub fn is_attr(s: &str) -> bool { matches!(s, "noundef" | "nonnull" | "noalias" | "readonly" | "writeonly" | "readnone" | "align" | "dereferenceable" | "dereferenceable_or_null" | "zeroext" | "signext" | "inreg" | "captures" | "nocapture" | "nofree" | "returned" | "sret" | "byval" | "range" | "immarg" | "initializes" | "allocptr" | "allocalign" | "dead_on_unwind" | "dead_on_return" | "writable" | "noext" | "nofpclass" | "swiftself" | "nest" | "allocsize" | "elementtype" | "preallocated" | "inalloca" | "unnamed_addr" | "local_unnamed_addr" | "nounwind" | "cold" | "dso_local" | "hidden" | "fastcc" | "ccc" | "coldcc" | "preserve_mostcc" | "preserve_allcc" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "internal" | "private" | "external" | "linkonce_odr" | "weak" | "weak_odr" | "available_externally" | "extern_weak" | "protected" | "default" | "cfguard" | "noinline" | "memory" | "willreturn" | "noreturn" | "mustprogress") }
