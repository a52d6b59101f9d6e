//! z3 behind its C API. The assertion stack mirrors the path condition of the state being explored.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::time::Instant;
type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P; fn Z3_solver_to_string(c: P, s: P) -> *const c_char; fn Z3_mk_context(c: P) -> P; fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_simple_solver(c: P) -> P; fn Z3_mk_solver_for_logic(c: P, s: P) -> P; fn Z3_solver_inc_ref(c: P, s: P); fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P; fn Z3_params_inc_ref(c: P, p: P); fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint); fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P); fn Z3_solver_pop(c: P, s: P, n: c_uint); fn Z3_solver_assert(c: P, s: P, a: P); fn Z3_solver_check(c: P, s: P) -> c_int; fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P); fn Z3_model_dec_ref(c: P, m: P); fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char; fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P; fn Z3_mk_const(c: P, s: P, t: P) -> P; fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P; fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P; fn Z3_mk_bvsub(c: P, a: P, b: P) -> P; fn Z3_mk_bvmul(c: P, a: P, b: P) -> P; fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvurem(c: P, a: P, b: P) -> P; fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P; fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P; fn Z3_mk_bvor(c: P, a: P, b: P) -> P; fn Z3_mk_bvxor(c: P, a: P, b: P) -> P; fn Z3_mk_bvshl(c: P, a: P, b: P) -> P; fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P; fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P; fn Z3_mk_bvule(c: P, a: P, b: P) -> P; fn Z3_mk_bvslt(c: P, a: P, b: P) -> P; fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P; fn Z3_mk_concat(c: P, a: P, b: P) -> P; fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P; fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P; fn Z3_mk_fpa_sort_64(c: P) -> P; fn Z3_mk_fpa_rne(c: P) -> P; fn Z3_mk_fpa_rtz(c: P) -> P; fn Z3_mk_fpa_rtn(c: P) -> P; fn Z3_mk_fpa_rtp(c: P) -> P; fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, b: P, s: P) -> P; fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P; fn Z3_mk_fpa_sqrt(c: P, r: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P; fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, t: P, s: P) -> P; fn Z3_mk_fpa_to_fp_signed(c: P, r: P, t: P, s: P) -> P; fn Z3_mk_fpa_to_fp_float(c: P, r: P, t: P, s: P) -> P; fn Z3_mk_fpa_to_ubv(c: P, r: P, t: P, n: c_uint) -> P; fn Z3_mk_fpa_to_sbv(c: P, r: P, t: P, n: c_uint) -> P; fn Z3_mk_fpa_round_to_integral(c: P, r: P, t: P) -> P; fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum R { Sat, Unsat, Unknown }
pub struct Solver { c: P, s: P, memo: Vec<P>, stack: Vec<E>, pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub time: f64, pub timeout_ms: u32, has_fp: Vec<bool> }
extern "C" fn on_err(_: P, e: c_int) { eprintln!("z3 error {e}"); std::process::exit(4); }
impl Solver {
    pub fn new(timeout_ms: u32) -> Self { unsafe { let c = Z3_mk_context(Z3_mk_config()); Z3_set_error_handler(c, Some(on_err)); let l = CString::new("QF_BV").unwrap(); let s = if std::env::var("SX_QFBV").is_err() { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr())) }; Z3_solver_inc_ref(c, s);
        let mut me = Self { c, s, memo: Vec::new(), stack: Vec::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, timeout_ms, has_fp: Vec::new() }; me.params(s, 3000.min(timeout_ms)); me } }
    fn params(&mut self, s: P, ms: u32) { unsafe { let p = Z3_mk_params(self.c); Z3_params_inc_ref(self.c, p); let k = CString::new("timeout").unwrap(); Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), ms); Z3_solver_set_params(self.c, s, p); } }
    unsafe fn fp(&self, bv: P, w: u32) -> P { Z3_mk_fpa_to_fp_bv(self.c, bv, self.fs(w)) }
    unsafe fn fs(&self, w: u32) -> P { if w == 32 { Z3_mk_fpa_sort_32(self.c) } else { Z3_mk_fpa_sort_64(self.c) } }
    unsafe fn b2bv(&self, b: P) -> P { let s = Z3_mk_bv_sort(self.c, 1); Z3_mk_ite(self.c, b, self.num(1, s), self.num(0, s)) }
    unsafe fn num(&self, v: u128, s: P) -> P { let t = CString::new(v.to_string()).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
    pub fn tr(&mut self, ar: &Arena, e: E) -> P {
        if self.memo.len() <= e as usize { self.memo.resize(ar.n.len().max(e as usize + 1), std::ptr::null_mut()); self.has_fp.resize(self.memo.len(), false); }
        if !self.memo[e as usize].is_null() { return self.memo[e as usize]; }
        let k = ar.k(e); let c = self.c;
        unsafe {
            let bin = |s: &mut Self| { let a = s.tr(ar, k.a); let b = s.tr(ar, k.b); (a, b) };
            let aw = if k.op == Op::Const || k.op == Op::Var { 0 } else { ar.w(k.a) };
            let r = match k.op {
                Op::Const => self.num(k.v, Z3_mk_bv_sort(c, k.w)),
                Op::Var => { let n = CString::new(format!("v{}_{}", k.v, k.w)).unwrap(); Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, k.w)) }
                Op::Add => { let (a, b) = bin(self); Z3_mk_bvadd(c, a, b) } Op::Sub => { let (a, b) = bin(self); Z3_mk_bvsub(c, a, b) } Op::Mul => { let (a, b) = bin(self); Z3_mk_bvmul(c, a, b) }
                Op::UDiv => { let (a, b) = bin(self); Z3_mk_bvudiv(c, a, b) } Op::URem => { let (a, b) = bin(self); Z3_mk_bvurem(c, a, b) } Op::SDiv => { let (a, b) = bin(self); Z3_mk_bvsdiv(c, a, b) } Op::SRem => { let (a, b) = bin(self); Z3_mk_bvsrem(c, a, b) }
                Op::And => { let (a, b) = bin(self); Z3_mk_bvand(c, a, b) } Op::Or => { let (a, b) = bin(self); Z3_mk_bvor(c, a, b) } Op::Xor => { let (a, b) = bin(self); Z3_mk_bvxor(c, a, b) }
                Op::Shl => { let (a, b) = bin(self); Z3_mk_bvshl(c, a, b) } Op::LShr => { let (a, b) = bin(self); Z3_mk_bvlshr(c, a, b) } Op::AShr => { let (a, b) = bin(self); Z3_mk_bvashr(c, a, b) }
                Op::Eq => { let (a, b) = bin(self); let x = Z3_mk_eq(c, a, b); self.b2bv(x) } Op::Ult => { let (a, b) = bin(self); let x = Z3_mk_bvult(c, a, b); self.b2bv(x) } Op::Ule => { let (a, b) = bin(self); let x = Z3_mk_bvule(c, a, b); self.b2bv(x) }
                Op::Slt => { let (a, b) = bin(self); let x = Z3_mk_bvslt(c, a, b); self.b2bv(x) } Op::Sle => { let (a, b) = bin(self); let x = Z3_mk_bvsle(c, a, b); self.b2bv(x) }
                Op::Ite => { let b = self.boolean(ar, k.a); let x = self.tr(ar, k.b); let y = self.tr(ar, k.c); Z3_mk_ite(c, b, x, y) }
                Op::Extract => { let a = self.tr(ar, k.a); Z3_mk_extract(c, k.v as u32 + k.w - 1, k.v as u32, a) }
                Op::Concat => { let (a, b) = bin(self); Z3_mk_concat(c, a, b) }
                Op::ZExt => { let a = self.tr(ar, k.a); Z3_mk_zero_ext(c, k.w - aw, a) } Op::SExt => { let a = self.tr(ar, k.a); Z3_mk_sign_ext(c, k.w - aw, a) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => { let (a, b) = bin(self); let (a, b) = (self.fp(a, aw), self.fp(b, aw)); let r = Z3_mk_fpa_rne(c); let x = match k.op { Op::FAdd => Z3_mk_fpa_add(c, r, a, b), Op::FSub => Z3_mk_fpa_sub(c, r, a, b), Op::FMul => Z3_mk_fpa_mul(c, r, a, b), _ => Z3_mk_fpa_div(c, r, a, b) }; Z3_mk_fpa_to_ieee_bv(c, x) }
                Op::FEq | Op::FLt | Op::FLe => { let (a, b) = bin(self); let (a, b) = (self.fp(a, aw), self.fp(b, aw)); let x = match k.op { Op::FEq => Z3_mk_fpa_eq(c, a, b), Op::FLt => Z3_mk_fpa_lt(c, a, b), _ => Z3_mk_fpa_leq(c, a, b) }; self.b2bv(x) }
                Op::FNan => { let a = self.tr(ar, k.a); let a = self.fp(a, aw); let x = Z3_mk_fpa_is_nan(c, a); self.b2bv(x) }
                Op::UToF => { let a = self.tr(ar, k.a); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fs(k.w))) }
                Op::SToF => { let a = self.tr(ar, k.a); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fs(k.w))) }
                Op::FExt | Op::FTrunc => { let a = self.tr(ar, k.a); let a = self.fp(a, aw); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fs(k.w))) }
                Op::FSqrt => { let a = self.tr(ar, k.a); let a = self.fp(a, aw); Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, Z3_mk_fpa_rne(c), a)) }
                Op::FFloor | Op::FCeil | Op::FRint | Op::FTruncI | Op::FRoundAway => { let a = self.tr(ar, k.a); let a = self.fp(a, aw); let r = match k.op { Op::FFloor => Z3_mk_fpa_rtn(c), Op::FCeil => Z3_mk_fpa_rtp(c), Op::FTruncI => Z3_mk_fpa_rtz(c), Op::FRoundAway => Z3_mk_fpa_rna(c), _ => Z3_mk_fpa_rne(c) }; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, r, a)) }
                // saturating conversions
                Op::FToU => { let a = self.tr(ar, k.a); let a = self.fp(a, aw); let s = self.fs(aw); let bs = Z3_mk_bv_sort(c, k.w); let lim = Z3_mk_fpa_numeral_double(c, 2f64.powi(k.w as i32), s); let zero = Z3_mk_fpa_numeral_double(c, 0.0, s);
                    let conv = Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, k.w); let ge = Z3_mk_fpa_leq(c, lim, a); let neg = Z3_mk_fpa_lt(c, a, zero); let nan = Z3_mk_fpa_is_nan(c, a);
                    Z3_mk_ite(c, nan, self.num(0, bs), Z3_mk_ite(c, ge, self.num(mask(k.w), bs), Z3_mk_ite(c, neg, self.num(0, bs), conv))) }
                Op::FToS => { let a = self.tr(ar, k.a); let a = self.fp(a, aw); let s = self.fs(aw); let bs = Z3_mk_bv_sort(c, k.w); let l = 2f64.powi(k.w as i32 - 1); let lim = Z3_mk_fpa_numeral_double(c, l, s); let low = Z3_mk_fpa_numeral_double(c, -l, s);
                    let conv = Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, k.w); let ge = Z3_mk_fpa_leq(c, lim, a); let lt = Z3_mk_fpa_lt(c, a, low); let nan = Z3_mk_fpa_is_nan(c, a);
                    Z3_mk_ite(c, nan, self.num(0, bs), Z3_mk_ite(c, ge, self.num(mask(k.w) >> 1, bs), Z3_mk_ite(c, lt, self.num(1 << (k.w - 1), bs), conv))) }
                Op::FRem => { eprintln!("symbolic frem is not supported"); std::process::exit(4) }
            };
            self.memo[e as usize] = r; r
        }
    }
    fn boolean(&mut self, ar: &Arena, e: E) -> P { unsafe { let b = self.tr(ar, e); let s = Z3_mk_bv_sort(self.c, 1); Z3_mk_eq(self.c, b, self.num(1, s)) } }
    /// Decides `pc ∧ extra`; on `Sat` fills `model` (one value per variable id in `vars`).
    pub fn check(&mut self, ar: &Arena, pc: &[E], extra: E, vars: &[E], model: &mut Vec<u128>) -> R {
        let t = Instant::now(); self.queries += 1;
        let common = self.stack.iter().zip(pc.iter()).take_while(|(a, b)| a == b).count();
        unsafe {
            if self.stack.len() > common { Z3_solver_pop(self.c, self.s, (self.stack.len() - common) as u32); self.stack.truncate(common); }
            for &e in &pc[common..] { let b = self.boolean(ar, e); Z3_solver_push(self.c, self.s); Z3_solver_assert(self.c, self.s, b); self.stack.push(e); }
            let b = self.boolean(ar, extra);
            Z3_solver_push(self.c, self.s); Z3_solver_assert(self.c, self.s, b);
            let t1 = Instant::now(); let mut s = self.s; let mut r = Z3_solver_check(self.c, s); let mut fresh = false; if let Ok(v) = std::env::var("SX_SLOW") { if t1.elapsed().as_secs_f64() > v.parse::<f64>().unwrap() { eprintln!("; {:?} {r}\n{}", t1.elapsed(), CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy()); } }
            if r == 0 && self.timeout_ms > 3000 {
                let l = CString::new("QF_BV").unwrap(); let fp = pc.iter().chain([&extra]).any(|e| has_fp(ar, *e));
                let l = if fp { CString::new("QF_BVFP").unwrap() } else { l };
                s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr())); Z3_solver_inc_ref(self.c, s); fresh = true;
                let ms = self.timeout_ms; self.params(s, ms);
                for &e in pc { let b = self.boolean(ar, e); Z3_solver_assert(self.c, s, b); } Z3_solver_assert(self.c, s, b);
                r = Z3_solver_check(self.c, s);
            }
            let out = match r { 1 => R::Sat, -1 => R::Unsat, _ => R::Unknown };
            if out == R::Sat {
                let m = Z3_solver_get_model(self.c, s); Z3_model_inc_ref(self.c, m);
                model.clear();
                for &v in vars { let t = self.tr(ar, v); let mut o: P = std::ptr::null_mut(); Z3_model_eval(self.c, m, t, true, &mut o); let st = CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy().into_owned(); model.push(st.parse::<u128>().unwrap_or_else(|_| { eprintln!("z3 model: {st}"); std::process::exit(4) })); }
                Z3_model_dec_ref(self.c, m);
            }
            if fresh { Z3_solver_dec_ref(self.c, s); }
            Z3_solver_pop(self.c, self.s, 1);
            match out { R::Sat => self.sat += 1, R::Unsat => self.unsat += 1, R::Unknown => self.unknown += 1 }
            self.time += t.elapsed().as_secs_f64();
            out
        }
    }
}
fn has_fp(ar: &Arena, e: E) -> bool { let mut seen = std::collections::HashSet::new(); let mut st = vec![e]; while let Some(e) = st.pop() { if !seen.insert(e) { continue; } let k = ar.k(e); match k.op { Op::Const | Op::Var => {} Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FEq | Op::FLt | Op::FLe | Op::FNan | Op::UToF | Op::SToF | Op::FToU | Op::FToS | Op::FExt | Op::FTrunc | Op::FFloor | Op::FCeil | Op::FRint | Op::FTruncI | Op::FRoundAway | Op::FSqrt => return true, _ => { st.push(k.a); st.push(k.b); st.push(k.c); } } } false }
