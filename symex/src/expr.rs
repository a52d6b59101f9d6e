//! Hash-consed bit-vector expressions with simplification and unsigned interval bounds.
use std::collections::HashMap;
pub type E = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Extract, Concat, ZExt, SExt,
    // floating point over bit patterns; the operand width selects f32/f64
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FNan, UToF, SToF, FToU, FToS, FExt, FTrunc, FFloor, FCeil, FRint, FTruncI, FRoundAway, FSqrt,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Key { pub op: Op, pub a: E, pub b: E, pub c: E, pub w: u32, pub v: u128 }
#[derive(Clone, Copy)]
pub struct Node { pub k: Key, pub lo: u128, pub hi: u128 }
pub struct Arena { pub n: Vec<Node>, map: HashMap<Key, E> }
pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w == 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }
fn bits(v: u128) -> u32 { 128 - v.leading_zeros() }
pub fn f(v: u128, w: u32) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }
fn rint(x: f64) -> f64 { x.round_ties_even() }
/// Concrete semantics of every operator.
pub fn apply(op: Op, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let ff = |x32: f32, x64: f64| -> u128 { if aw == 32 { x32.to_bits() as u128 } else { x64.to_bits() as u128 } };
    let (a32, b32) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
    let (a64, b64) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
    let r = match op {
        Op::Add => a.wrapping_add(b), Op::Sub => a.wrapping_sub(b), Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b }, Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b }, Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sx(a, w) >> s) as u128 }
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128, Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::ZExt => a, Op::SExt => sx(a, aw) as u128,
        Op::FAdd => ff(a32 + b32, a64 + b64), Op::FSub => ff(a32 - b32, a64 - b64), Op::FMul => ff(a32 * b32, a64 * b64), Op::FDiv => ff(a32 / b32, a64 / b64), Op::FRem => ff(a32 % b32, a64 % b64),
        Op::FEq => (f(a, aw) == f(b, aw)) as u128, Op::FLt => (f(a, aw) < f(b, aw)) as u128, Op::FLe => (f(a, aw) <= f(b, aw)) as u128, Op::FNan => f(a, aw).is_nan() as u128,
        Op::UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::SToF => { let s = sx(a, aw); if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        Op::FToU => { let x = f(a, aw); if w >= 128 { x as u128 } else { (x as u128).min(m) } }
        Op::FToS => { let x = f(a, aw) as i128; if w >= 128 { x as u128 } else { let lim = 1i128 << (w - 1); x.clamp(-lim, lim - 1) as u128 } }
        Op::FExt => (a32 as f64).to_bits() as u128, Op::FTrunc => (a64 as f32).to_bits() as u128,
        Op::FFloor => ff(a32.floor(), a64.floor()), Op::FCeil => ff(a32.ceil(), a64.ceil()), Op::FTruncI => ff(a32.trunc(), a64.trunc()), Op::FRoundAway => ff(a32.round(), a64.round()), Op::FSqrt => ff(a32.sqrt(), a64.sqrt()),
        Op::FRint => if aw == 32 { (rint(a32 as f64) as f32).to_bits() as u128 } else { rint(a64).to_bits() as u128 },
        _ => unreachable!("{:?}", op),
    };
    r & m
}
impl Arena {
    pub fn new() -> Self { Self { n: Vec::new(), map: HashMap::new() } }
    pub fn w(&self, e: E) -> u32 { self.n[e as usize].k.w }
    pub fn k(&self, e: E) -> Key { self.n[e as usize].k }
    pub fn cst(&self, e: E) -> Option<u128> { let k = self.k(e); if k.op == Op::Const { Some(k.v) } else { None } }
    pub fn rng(&self, e: E) -> (u128, u128) { let n = &self.n[e as usize]; (n.lo, n.hi) }
    fn intern(&mut self, k: Key, lo: u128, hi: u128) -> E {
        if let Some(&e) = self.map.get(&k) { return e; }
        let e = self.n.len() as E; self.n.push(Node { k, lo, hi }); self.map.insert(k, e); e
    }
    pub fn c(&mut self, w: u32, v: u128) -> E { let v = v & mask(w); self.intern(Key { op: Op::Const, a: 0, b: 0, c: 0, w, v }, v, v) }
    pub fn var(&mut self, w: u32, id: u32) -> E { self.intern(Key { op: Op::Var, a: 0, b: 0, c: 0, w, v: id as u128 }, 0, mask(w)) }
    pub fn var_in(&mut self, w: u32, id: u32, lo: u128, hi: u128) -> E { self.intern(Key { op: Op::Var, a: lo as u32, b: hi as u32, c: 1, w, v: id as u128 }, lo, hi) }
    /// A comparison kept as written (used for interval assumptions, which simplification would discharge).
    pub fn intern_raw(&mut self, op: Op, a: E, b: E) -> E { self.intern(Key { op, a, b, c: 7, w: 1, v: 0 }, 0, 1) }
    pub fn un(&mut self, op: Op, w: u32, a: E) -> E {
        let aw = self.w(a);
        if let Some(x) = self.cst(a) { let v = apply(op, w, aw, x, 0); return self.c(w, v); }
        let (lo, hi) = match op { Op::ZExt => self.rng(a), Op::SExt if self.rng(a).1 < 1u128 << (aw - 1) => return self.zext(a, w), _ => (0, mask(w)) };
        self.intern(Key { op, a, b: 0, c: 0, w, v: 0 }, lo, hi)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a); if aw == w { return a; }
        let k = self.k(a); if k.op == Op::ZExt { return self.zext(k.a, w); }
        self.un(Op::ZExt, w, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E { if self.w(a) == w { a } else { self.un(Op::SExt, w, a) } }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let k = self.k(a);
        if lo == 0 && w == k.w { return a; }
        match k.op {
            Op::Const => return self.c(w, k.v >> lo),
            Op::Extract => return self.extract(k.a, lo + k.v as u32, w),
            Op::ZExt => { let iw = self.w(k.a); if lo >= iw { return self.c(w, 0); } if lo + w <= iw { return self.extract(k.a, lo, w); } let x = self.extract(k.a, lo, iw - lo); return self.zext(x, w); }
            Op::SExt => { let iw = self.w(k.a); if lo + w <= iw { return self.extract(k.a, lo, w); } }
            Op::Concat => { let bw = self.w(k.b); if lo + w <= bw { return self.extract(k.b, lo, w); } if lo >= bw { return self.extract(k.a, lo - bw, w); } let h = self.extract(k.a, 0, lo + w - bw); let l = self.extract(k.b, lo, bw - lo); return self.concat(h, l); }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(k.a, lo, w); let y = self.extract(k.b, lo, w); return self.bin(k.op, x, y); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(k.a, 0, w); let y = self.extract(k.b, 0, w); return self.bin(k.op, x, y); }
            Op::Ite => { if self.cst(k.b).is_some() || self.cst(k.c).is_some() { let x = self.extract(k.b, lo, w); let y = self.extract(k.c, lo, w); return self.ite(k.a, x, y); } }
            Op::LShr => { if let Some(s) = self.cst(k.b) { if s + (lo + w) as u128 <= k.w as u128 { return self.extract(k.a, lo + s as u32, w); } } }
            _ => {}
        }
        let (rl, rh) = self.rng(a);
        let (l, h) = if lo == 0 && rh <= mask(w) { (rl, rh) } else { (0, mask(w)) };
        self.intern(Key { op: Op::Extract, a, b: 0, c: 0, w, v: lo as u128 }, l, h)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hk, lk) = (self.k(h), self.k(l)); let w = hk.w + lk.w;
        if let (Some(a), Some(b)) = (self.cst(h), self.cst(l)) { return self.c(w, a << lk.w | b); }
        if self.cst(h) == Some(0) { return self.zext(l, w); }
        if hk.op == Op::Extract && lk.op == Op::Extract && hk.a == lk.a && hk.v == lk.v + lk.w as u128 { return self.extract(hk.a, lk.v as u32, w); }
        // (extract over a zero-extended value that was folded to its operand)
        if hk.op == Op::Extract && hk.v == lk.w as u128 && hk.a == l { return self.extract(hk.a, 0, w); }
        // concat of a zero-extended byte's low part: zext(x) split in bytes
        if hk.op == Op::ZExt && self.w(hk.a) + lk.w <= w { let x = self.concat(hk.a, l); return self.zext(x, w); }
        let (a, b) = (self.rng(h), self.rng(l));
        self.intern(Key { op: Op::Concat, a: h, b: l, c: 0, w, v: 0 }, a.0 << lk.w | b.0, a.1 << lk.w | b.1)
    }
    pub fn not1(&mut self, a: E) -> E { let one = self.c(1, 1); self.bin(Op::Xor, a, one) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cst(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let ck = self.k(c);
        if ck.op == Op::Xor && self.cst(ck.b) == Some(1) { return self.ite(ck.a, b, a); }
        if w == 1 {
            if self.cst(a) == Some(1) { return self.bin(Op::Or, c, b); } if self.cst(a) == Some(0) { let n = self.not1(c); return self.bin(Op::And, n, b); }
            if self.cst(b) == Some(0) { return self.bin(Op::And, c, a); } if self.cst(b) == Some(1) { let n = self.not1(c); return self.bin(Op::Or, n, a); }
        }
        let (x, y) = (self.rng(a), self.rng(b));
        self.intern(Key { op: Op::Ite, a: c, b: a, c: b, w, v: 0 }, x.0.min(y.0), x.1.max(y.1))
    }
    /// Narrows `e` to `w` bits (its interval is known to fit).
    fn narrow(&mut self, e: E, w: u32) -> E { self.extract(e, 0, w) }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        use Op::*;
        let aw = self.w(a); debug_assert_eq!(aw, self.w(b), "{:?}", op);
        let w = if matches!(op, Eq | Ult | Ule | Slt | Sle | FEq | FLt | FLe) { 1 } else { aw };
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) { let v = apply(op, w, aw, x, y); return self.c(w, v); }
        if matches!(op, Add | Mul | And | Or | Xor | Eq) && (self.cst(a).is_some() || (self.cst(b).is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let (ca, cb) = (self.cst(a), self.cst(b)); let m = mask(aw);
        let (ra, rb) = (self.rng(a), self.rng(b));
        let ka = self.k(a);
        match op {
            Add => { if cb == Some(0) { return a; } if let (Add, Some(y), Some(x)) = (ka.op, cb, self.cst(ka.b)) { let c = self.c(w, x.wrapping_add(y)); return self.bin(Add, ka.a, c); } }
            Sub => { if cb == Some(0) { return a; } if a == b { return self.c(w, 0); } if let Some(y) = cb { let c = self.c(w, y.wrapping_neg()); return self.bin(Add, a, c); }
                if ka.op == Add && ka.a == b { return ka.b; } if ka.op == Add && ka.b == b { return ka.a; } }
            Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; } }
            UDiv => { if cb == Some(1) { return a; } if let Some(y) = cb { if y.is_power_of_two() { let s = self.c(w, y.trailing_zeros() as u128); return self.bin(LShr, a, s); } } if rb.0 > ra.1 { return self.c(w, 0); } }
            URem => { if cb == Some(1) { return self.c(w, 0); } if let Some(y) = cb { if y.is_power_of_two() { let s = self.c(w, y - 1); return self.bin(And, a, s); } } if rb.0 > ra.1 { return a; } }
            And => { if cb == Some(0) { return b; } if cb == Some(m) || a == b { return a; } if let Some(y) = cb { if (y + 1).is_power_of_two() && ra.1 <= y { return a; }
                    if y.wrapping_add(1).is_power_of_two() && y != m { let k = bits(y); let x = self.extract(a, 0, k); return self.zext(x, w); }
                    if ka.op == And { if let Some(x) = self.cst(ka.b) { let c = self.c(w, x & y); return self.bin(And, ka.a, c); } } } }
            Or => { if cb == Some(0) || a == b { return a; } if cb == Some(m) { return b; } }
            Xor => { if cb == Some(0) { return a; } if a == b { return self.c(w, 0); } if let (Xor, Some(x), Some(y)) = (ka.op, self.cst(ka.b), cb) { let c = self.c(w, x ^ y); return self.bin(Xor, ka.a, c); }
                if w == 1 && cb == Some(1) { match ka.op { Ult => return self.bin(Ule, ka.b, ka.a), Ule => return self.bin(Ult, ka.b, ka.a), Slt => return self.bin(Sle, ka.b, ka.a), Sle => return self.bin(Slt, ka.b, ka.a), _ => {} } } }
            Shl => { if cb == Some(0) { return a; } if let Some(y) = cb { if y >= w as u128 { return self.c(w, 0); } let x = self.extract(a, 0, w - y as u32); let z = self.c(y as u32, 0); return self.concat(x, z); } }
            LShr => { if cb == Some(0) { return a; } if let Some(y) = cb { if y >= w as u128 { return self.c(w, 0); } let x = self.extract(a, y as u32, w - y as u32); return self.zext(x, w); } }
            AShr => { if cb == Some(0) { return a; } if ra.1 < 1u128 << (w - 1) { return self.bin(LShr, a, b); } }
            Eq => {
                if a == b { return self.c(1, 1); } if ra.1 < rb.0 || rb.1 < ra.0 { return self.c(1, 0); }
                if aw == 1 { if cb == Some(1) { return a; } if cb == Some(0) { return self.not1(a); } }
                if let Some(y) = cb { match ka.op {
                    ZExt => { let iw = self.w(ka.a); let c = self.c(iw, y); return self.bin(Eq, ka.a, c); }
                    Add => if let Some(x) = self.cst(ka.b) { let c = self.c(aw, y.wrapping_sub(x)); return self.bin(Eq, ka.a, c); },
                    Xor => if let Some(x) = self.cst(ka.b) { let c = self.c(aw, y ^ x); return self.bin(Eq, ka.a, c); },
                    Ite => { if self.cst(ka.b).is_some() && self.cst(ka.c).is_some() { let x = self.bin(Eq, ka.b, b); let z = self.bin(Eq, ka.c, b); return self.ite(ka.a, x, z); } }
                    Concat => { let bw = self.w(ka.b); let hw = aw - bw; if self.cst(ka.b).is_some() || self.cst(ka.a).is_some() || y == 0 { let h = self.c(hw, y >> bw); let l = self.c(bw, y); let x = self.bin(Eq, ka.a, h); let z = self.bin(Eq, ka.b, l); return self.bin(And, x, z); } }
                    _ => {} } }
            }
            Ult => { if a == b { return self.c(1, 0); } if ra.1 < rb.0 { return self.c(1, 1); } if ra.0 >= rb.1 { return self.c(1, 0); } if cb == Some(1) { let z = self.c(aw, 0); return self.bin(Eq, a, z); } }
            Ule => { if a == b { return self.c(1, 1); } if ra.1 <= rb.0 { return self.c(1, 1); } if ra.0 > rb.1 { return self.c(1, 0); } if let Some(y) = cb { let c = self.c(aw, y + 1); return self.bin(Ult, a, c); } if let Some(x) = ca { if x > 0 { let c = self.c(aw, x - 1); return self.bin(Ult, c, b); } } }
            Slt | Sle => { if a == b { return self.c(1, (op == Sle) as u128); } let h = 1u128 << (aw - 1); if (ra.1 < h && rb.1 < h) || (ra.0 >= h && rb.0 >= h) { return self.bin(if op == Slt { Ult } else { Ule }, a, b); } if ra.1 < h && rb.0 >= h { return self.c(1, 0); } if ra.0 >= h && rb.1 < h { return self.c(1, 1); } }
            _ => {}
        }
        // width reduction when both operands are known to be small
        if aw > 1 && (matches!(op, UDiv | URem | Mul | Eq | Ult | Ule | Add) || op == Sub && ra.0 >= rb.1) {
            let need = match op { Mul => bits(ra.1) + bits(rb.1), Add => match ra.1.checked_add(rb.1) { Some(s) => bits(s), None => 128 }, _ => bits(ra.1.max(rb.1)) }.max(1);
            if need < aw { let (x, y) = (self.narrow(a, need), self.narrow(b, need)); let r = self.bin(op, x, y); return if w == 1 { r } else { self.zext(r, w) }; }
        }
        if matches!(op, SDiv | SRem) { let h = 1u128 << (aw - 1); if ra.1 < h && rb.1 < h { return self.bin(if op == SDiv { UDiv } else { URem }, a, b); } }
        let full = (0, mask(w));
        let (lo, hi) = match op {
            Add => match (ra.1.checked_add(rb.1), ra.0.checked_add(rb.0)) { (Some(h), Some(l)) if h <= m => (l, h), _ => full },
            Sub => if ra.0 >= rb.1 { (ra.0 - rb.1, ra.1 - rb.0) } else { full },
            Mul => match (ra.1.checked_mul(rb.1), ra.0.checked_mul(rb.0)) { (Some(h), Some(l)) if h <= m => (l, h), _ => full },
            UDiv => if rb.0 > 0 { (ra.0 / rb.1, ra.1 / rb.0) } else { full },
            URem => if rb.0 > 0 { (0, (rb.1 - 1).min(ra.1)) } else { (0, ra.1.max(rb.1)) },
            And => (0, ra.1.min(rb.1)),
            Or | Xor => (0, mask(bits(ra.1.max(rb.1)).max(1)) & m),
            LShr => (0, ra.1),
            _ => full,
        };
        if lo == hi { return self.c(w, lo); }
        self.intern(Key { op, a, b, c: 0, w, v: 0 }, lo, hi)
    }
    /// Value of `e` under an assignment of the variables.
    pub fn eval(&self, e: E, m: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        let k = self.k(e);
        match k.op { Op::Const => return k.v, Op::Var => return m.get(k.v as usize).copied().unwrap_or(0) & mask(k.w), _ => {} }
        if let Some(v) = memo.get(&e) { return *v; }
        let v = match k.op {
            Op::Ite => if self.eval(k.a, m, memo) == 1 { self.eval(k.b, m, memo) } else { self.eval(k.c, m, memo) },
            Op::Extract => (self.eval(k.a, m, memo) >> k.v) & mask(k.w),
            Op::Concat => self.eval(k.a, m, memo) << self.w(k.b) | self.eval(k.b, m, memo),
            Op::ZExt | Op::SExt | Op::FNan | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FExt | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::FTruncI | Op::FRoundAway | Op::FSqrt => { let a = self.eval(k.a, m, memo); apply(k.op, k.w, self.w(k.a), a, 0) }
            _ => { let a = self.eval(k.a, m, memo); let b = self.eval(k.b, m, memo); apply(k.op, k.w, self.w(k.a), a, b) }
        };
        memo.insert(e, v); v
    }
}
