//! Z3 back end: translation of the expression DAG to bit-vector / IEEE-754 terms and bounded queries.
#![allow(non_snake_case, non_camel_case_types)]
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, n: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_min(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_max(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, o: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_get_full_version() -> *const c_char;
}
static mut Z3_ERR: bool = false;
extern "C" fn on_err(_c: P, e: c_uint) {
    unsafe { Z3_ERR = true; }
    eprintln!("z3 error code {e}");
}
pub fn version() -> String { unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().to_string() } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat { Sat, Unsat, Unknown }

pub struct Solver {
    ctx: P,
    simple: P,
    full: P,
    fp: P,
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
    cache: HashMap<(Vec<E>, Vec<(u16, [u64; 4])>), (Sat, Vec<(u16, u8)>)>,
    pub rlimit: u32,
}

impl Solver {
    pub fn new() -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(), simple: std::ptr::null_mut(), full: std::ptr::null_mut(), fp: std::ptr::null_mut(),
            bv: HashMap::new(), bl: HashMap::new(), queries: 0, sat: 0, unsat: 0, unknown: 0, cached: 0, time: 0.0, max_time: 0.0,
            cache: HashMap::new(), rlimit: 60_000_000,
        };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            self.simple = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, self.simple);
            let l = CString::new("QF_BV").unwrap();
            self.full = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, self.full);
            let l = CString::new("QF_BVFP").unwrap();
            self.fp = Z3_mk_solver_for_logic(self.ctx, Z3_mk_string_symbol(self.ctx, l.as_ptr()));
            Z3_solver_inc_ref(self.ctx, self.fp);
            let rl = CString::new("rlimit").unwrap();
            for (s, lim) in [(self.simple, 2_000_000u32), (self.full, self.rlimit), (self.fp, self.rlimit)] {
                let p = Z3_mk_params(self.ctx);
                Z3_params_inc_ref(self.ctx, p);
                Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, rl.as_ptr()), lim);
                Z3_solver_set_params(self.ctx, s, p);
            }
        }
    }
    /// A forked child must not reuse the parent's context (Z3 keeps per-context state shared copy-on-write; a
    /// fresh one is simply cleaner) and drops the statistics it inherited.
    pub fn reset_for_child(&mut self) {
        self.bv.clear();
        self.bl.clear();
        self.queries = 0; self.sat = 0; self.unsat = 0; self.unknown = 0; self.cached = 0; self.time = 0.0; self.max_time = 0.0;
        self.init();
    }
    fn maybe_gc(&mut self) {
        if self.bv.len() + self.bl.len() > 400_000 {
            unsafe { Z3_del_context(self.ctx); }
            self.bv.clear();
            self.bl.clear();
            self.init();
        }
    }
    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as u32);
            if w <= 64 { Z3_mk_unsigned_int64(self.ctx, v as u64, s) } else {
                let c = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, c.as_ptr(), s)
            }
        }
    }
    fn varp(&self, v: u32) -> P {
        unsafe { Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, v as c_int), Z3_mk_bv_sort(self.ctx, 8)) }
    }
    fn to_bool(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) { return p; }
        let c = self.ctx;
        let p = unsafe {
            match a.node(e).clone() {
                Node::Const(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                Node::Bin(op, x, y) if is_cmp(op) => match op {
                    Op::Eq => if a.w(x) == 1 {
                        let (p, q) = (self.to_bool(a, x), self.to_bool(a, y));
                        Z3_mk_eq(c, p, q)
                    } else { let (p, q) = (self.to_bv(a, x), self.to_bv(a, y)); Z3_mk_eq(c, p, q) },
                    Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                        let (p, q) = (self.to_bv(a, x), self.to_bv(a, y));
                        match op { Op::Ult => Z3_mk_bvult(c, p, q), Op::Ule => Z3_mk_bvule(c, p, q), Op::Slt => Z3_mk_bvslt(c, p, q), _ => Z3_mk_bvsle(c, p, q) }
                    }
                    _ => {
                        let (p, q) = (self.to_fp(a, x), self.to_fp(a, y));
                        match op {
                            Op::FOeq => Z3_mk_fpa_eq(c, p, q),
                            Op::FOlt => Z3_mk_fpa_lt(c, p, q),
                            Op::FOle => Z3_mk_fpa_leq(c, p, q),
                            _ => { let v = [Z3_mk_fpa_is_nan(c, p), Z3_mk_fpa_is_nan(c, q)]; Z3_mk_or(c, 2, v.as_ptr()) }
                        }
                    }
                },
                Node::Bin(Op::And, x, y) => { let v = [self.to_bool(a, x), self.to_bool(a, y)]; Z3_mk_and(c, 2, v.as_ptr()) }
                Node::Bin(Op::Or, x, y) => { let v = [self.to_bool(a, x), self.to_bool(a, y)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Node::Bin(Op::Xor, x, y) => {
                    let p = self.to_bool(a, x);
                    if a.as_const(y) == Some(1) { Z3_mk_not(c, p) } else { let q = self.to_bool(a, y); Z3_mk_xor(c, p, q) }
                }
                Node::Ite(k, x, y) => { let (k, x, y) = (self.to_bool(a, k), self.to_bool(a, x), self.to_bool(a, y)); Z3_mk_ite(c, k, x, y) }
                _ => { let p = self.to_bv(a, e); let one = self.num(1, 1); Z3_mk_eq(c, p, one) }
            }
        };
        self.bl.insert(e, p);
        p
    }
    fn fsort(&self, w: u16) -> P { unsafe { if w == 32 { Z3_mk_fpa_sort_32(self.ctx) } else { Z3_mk_fpa_sort_64(self.ctx) } } }
    fn to_fp(&mut self, a: &Arena, e: E) -> P {
        // avoid bv round trips for nested float operations
        let c = self.ctx;
        unsafe {
            let w = a.w(e);
            let rne = Z3_mk_fpa_rne(c);
            match a.node(e).clone() {
                Node::Bin(op @ (Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FMin | Op::FMax), x, y) => {
                    let (p, q) = (self.to_fp(a, x), self.to_fp(a, y));
                    match op {
                        Op::FAdd => Z3_mk_fpa_add(c, rne, p, q),
                        Op::FSub => Z3_mk_fpa_sub(c, rne, p, q),
                        Op::FMul => Z3_mk_fpa_mul(c, rne, p, q),
                        Op::FDiv => Z3_mk_fpa_div(c, rne, p, q),
                        Op::FMin => Z3_mk_fpa_min(c, p, q),
                        _ => Z3_mk_fpa_max(c, p, q),
                    }
                }
                Node::Un(u, x) if matches!(u, Un::UiToFp | Un::SiToFp | Un::FpExt | Un::FpTrunc | Un::FRound | Un::FRoundEven | Un::FFloor | Un::FCeil | Un::FTrunc | Un::FSqrt) => {
                    let s = self.fsort(w);
                    match u {
                        Un::UiToFp => { let p = self.to_bv(a, x); Z3_mk_fpa_to_fp_unsigned(c, rne, p, s) }
                        Un::SiToFp => { let p = self.to_bv(a, x); Z3_mk_fpa_to_fp_signed(c, rne, p, s) }
                        Un::FpExt | Un::FpTrunc => { let p = self.to_fp(a, x); Z3_mk_fpa_to_fp_float(c, rne, p, s) }
                        Un::FSqrt => { let p = self.to_fp(a, x); Z3_mk_fpa_sqrt(c, rne, p) }
                        _ => {
                            let p = self.to_fp(a, x);
                            let rm = match u {
                                Un::FRound => Z3_mk_fpa_rna(c), Un::FRoundEven => rne, Un::FFloor => Z3_mk_fpa_rtn(c),
                                Un::FCeil => Z3_mk_fpa_rtp(c), _ => Z3_mk_fpa_rtz(c),
                            };
                            Z3_mk_fpa_round_to_integral(c, rm, p)
                        }
                    }
                }
                Node::Ite(k, x, y) => { let k = self.to_bool(a, k); let (x, y) = (self.to_fp(a, x), self.to_fp(a, y)); Z3_mk_ite(c, k, x, y) }
                _ => { let p = self.to_bv(a, e); let s = self.fsort(w); Z3_mk_fpa_to_fp_bv(c, p, s) }
            }
        }
    }
    fn to_bv(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) { return p; }
        let c = self.ctx;
        let w = a.w(e);
        let p = unsafe {
            match a.node(e).clone() {
                Node::Const(v) => self.num(v, w),
                Node::Var(v) => self.varp(v),
                Node::Bin(op, x, y) => {
                    if is_cmp(op) || (w == 1 && matches!(op, Op::And | Op::Or | Op::Xor)) {
                        let b = self.to_bool(a, e);
                        let (o, z) = (self.num(1, 1), self.num(0, 1));
                        Z3_mk_ite(c, b, o, z)
                    } else if matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FMin | Op::FMax) {
                        let f = self.to_fp(a, e);
                        Z3_mk_fpa_to_ieee_bv(c, f)
                    } else {
                        let (p, q) = (self.to_bv(a, x), self.to_bv(a, y));
                        match op {
                            Op::Add => Z3_mk_bvadd(c, p, q), Op::Sub => Z3_mk_bvsub(c, p, q), Op::Mul => Z3_mk_bvmul(c, p, q),
                            Op::UDiv => Z3_mk_bvudiv(c, p, q), Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                            Op::URem => Z3_mk_bvurem(c, p, q), Op::SRem => Z3_mk_bvsrem(c, p, q),
                            Op::And => Z3_mk_bvand(c, p, q), Op::Or => Z3_mk_bvor(c, p, q), Op::Xor => Z3_mk_bvxor(c, p, q),
                            Op::Shl => Z3_mk_bvshl(c, p, q), Op::LShr => Z3_mk_bvlshr(c, p, q), Op::AShr => Z3_mk_bvashr(c, p, q),
                            _ => { Z3_ERR = true; self.num(0, w) } // FRem: not encodable
                        }
                    }
                }
                Node::Un(u, x) => match u {
                    Un::ZExt => { let p = self.to_bv(a, x); Z3_mk_zero_ext(c, (w - a.w(x)) as u32, p) }
                    Un::SExt => { let p = self.to_bv(a, x); Z3_mk_sign_ext(c, (w - a.w(x)) as u32, p) }
                    Un::Ctpop => {
                        let p = self.to_bv(a, x);
                        let mut acc = self.num(0, w);
                        for i in 0..a.w(x) as u32 {
                            let b = Z3_mk_zero_ext(c, w as u32 - 1, Z3_mk_extract(c, i, i, p));
                            acc = Z3_mk_bvadd(c, acc, b);
                        }
                        acc
                    }
                    Un::Ctlz | Un::Cttz => {
                        let p = self.to_bv(a, x);
                        let n = a.w(x) as u32;
                        let mut acc = self.num(n as u128, w);
                        // last written wins: iterate from least to most significant in priority
                        for k in 0..n {
                            let (bit, val) = if u == Un::Cttz { (n - 1 - k, n - 1 - k) } else { (k, n - 1 - k) };
                            let b = Z3_mk_eq(c, Z3_mk_extract(c, bit, bit, p), self.num(1, 1));
                            acc = Z3_mk_ite(c, b, self.num(val as u128, w), acc);
                        }
                        acc
                    }
                    Un::FpToUi | Un::FpToSi => {
                        // saturating semantics (the plain LLVM cast is poison outside the range)
                        let f = self.to_fp(a, x);
                        let s = self.fsort(a.w(x));
                        let rtz = Z3_mk_fpa_rtz(c);
                        let (lo, hi, lov, hiv) = if u == Un::FpToUi {
                            (0.0, (2f64).powi(w as i32), 0u128, mask(w))
                        } else {
                            (-(2f64).powi(w as i32 - 1), (2f64).powi(w as i32 - 1), 1u128 << (w - 1), mask(w) >> 1)
                        };
                        let raw = if u == Un::FpToUi { Z3_mk_fpa_to_ubv(c, rtz, f, w as u32) } else { Z3_mk_fpa_to_sbv(c, rtz, f, w as u32) };
                        let lof = Z3_mk_fpa_numeral_double(c, lo, s);
                        let hif = Z3_mk_fpa_numeral_double(c, hi, s);
                        let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, hif, f), self.num(hiv, w), raw);
                        let r = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, lof), self.num(lov, w), r);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), self.num(0, w), r)
                    }
                    _ => { let f = self.to_fp(a, e); Z3_mk_fpa_to_ieee_bv(c, f) }
                },
                Node::Extract(x, lo) => { let p = self.to_bv(a, x); Z3_mk_extract(c, (lo + w - 1) as u32, lo as u32, p) }
                Node::Concat(h, l) => { let (h, l) = (self.to_bv(a, h), self.to_bv(a, l)); Z3_mk_concat(c, h, l) }
                Node::Ite(k, x, y) => { let k = self.to_bool(a, k); let (x, y) = (self.to_bv(a, x), self.to_bv(a, y)); Z3_mk_ite(c, k, x, y) }
                Node::Table(i, t) => {
                    let ip = self.to_bv(a, i);
                    let iw = a.w(i);
                    let es = &a.tables[t as usize].entries;
                    let mut runs: Vec<(u128, u128)> = vec![];
                    for &(k, v) in es { if runs.last().map_or(true, |r| r.1 != v) { runs.push((k, v)); } }
                    self.tree(ip, iw, &runs, w)
                }
            }
        };
        self.bv.insert(e, p);
        p
    }
    fn tree(&mut self, ip: P, iw: u16, runs: &[(u128, u128)], w: u16) -> P {
        if runs.len() == 1 { return self.num(runs[0].1, w); }
        let m = runs.len() / 2;
        let l = self.tree(ip, iw, &runs[..m], w);
        let r = self.tree(ip, iw, &runs[m..], w);
        unsafe {
            let k = self.num(runs[m].0, iw);
            Z3_mk_ite(self.ctx, Z3_mk_bvult(self.ctx, ip, k), l, r)
        }
    }
    fn dom(&mut self, v: u16, d: &[u64; 4]) -> P {
        // membership of byte variable v in the set d, as a union of intervals
        let mut parts = vec![];
        let p = self.varp(v as u32);
        let bit = |i: usize| (d[i >> 6] >> (i & 63)) & 1 == 1;
        let mut i = 0;
        unsafe {
            while i < 256 {
                if !bit(i) { i += 1; continue; }
                let s = i;
                while i < 256 && bit(i) { i += 1; }
                let (a, b) = (self.num(s as u128, 8), self.num((i - 1) as u128, 8));
                parts.push(if s == i - 1 { Z3_mk_eq(self.ctx, p, a) } else {
                    let v = [Z3_mk_bvule(self.ctx, a, p), Z3_mk_bvule(self.ctx, p, b)];
                    Z3_mk_and(self.ctx, 2, v.as_ptr())
                });
            }
            if parts.len() == 1 { parts[0] } else { Z3_mk_or(self.ctx, parts.len() as u32, parts.as_ptr()) }
        }
    }
    /// Decide satisfiability of the conjunction of `cs` with every variable restricted to its domain.
    /// Returns a model for the variables listed in `doms`.
    pub fn check(&mut self, a: &Arena, cs: &[E], doms: &[(u16, [u64; 4])]) -> (Sat, Vec<(u16, u8)>) {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        let k = (key, doms.to_vec());
        if let Some(r) = self.cache.get(&k) { self.cached += 1; return r.clone(); }
        self.maybe_gc();
        let t0 = std::time::Instant::now();
        let fp = cs.iter().any(|&e| a.has_fp[e as usize]);
        let mut asts = vec![];
        for &e in &k.0 { asts.push(self.to_bool(a, e)); }
        for (v, d) in doms { if *d != [u64::MAX; 4] { asts.push(self.dom(*v, d)); } }
        let mut res = Sat::Unknown;
        let mut model = vec![];
        unsafe {
            Z3_ERR = Z3_ERR || false;
            let tries: &[P] = &if fp { vec![self.fp] } else { match std::env::var("MVS").as_deref() { Ok("full") => vec![self.full], Ok("simple") => vec![self.simple], _ => vec![self.simple, self.full] } };
            for &s in tries {
                Z3_solver_reset(self.ctx, s);
                for &x in &asts { Z3_solver_assert(self.ctx, s, x); }
                let r = Z3_solver_check(self.ctx, s);
                if Z3_ERR { res = Sat::Unknown; Z3_ERR = false; break; }
                if r == 0 { continue; }
                if r < 0 { res = Sat::Unsat; break; }
                res = Sat::Sat;
                let m = Z3_solver_get_model(self.ctx, s);
                Z3_model_inc_ref(self.ctx, m);
                for (v, _) in doms {
                    let p = self.varp(*v as u32);
                    let mut o = std::ptr::null_mut();
                    let mut n = 0u64;
                    if Z3_model_eval(self.ctx, m, p, true, &mut o) { Z3_get_numeral_uint64(self.ctx, o, &mut n); }
                    model.push((*v, n as u8));
                }
                Z3_model_dec_ref(self.ctx, m);
                break;
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        if std::env::var("MVT").is_ok() { eprintln!("q {:.1}ms n={} {:?} {}", dt*1e3, cs.len(), res, a.show(cs[0], 7)); }
        self.time += dt;
        if dt > self.max_time { self.max_time = dt; }
        self.queries += 1;
        match res { Sat::Sat => self.sat += 1, Sat::Unsat => self.unsat += 1, Sat::Unknown => self.unknown += 1 }
        if self.cache.len() > 200_000 { self.cache.clear(); }
        self.cache.insert(k, (res, model.clone()));
        (res, model)
    }
}
#[allow(dead_code)]
unsafe fn _unused(c: P) -> P { Z3_mk_solver(c) }
