//! The symbolic interpreter: one `State` per path, forking on undetermined decisions.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::models::Model;
use crate::solver::{Sat, Solver};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub block: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u64>,
    pub ret: Option<u32>,
    pub then: Option<u32>,
}
#[derive(Clone, Default)]
pub struct HashTab {
    pub seqs: Vec<(u64, Rc<Vec<E>>)>,
    pub keys: Vec<(u64, Rc<Vec<E>>, u64)>,
    pub used: Vec<(u64, u64)>,
}
#[derive(Clone, Debug)]
pub enum Draw { Bytes(u32, u32), Choice(u32) }

#[derive(Clone)]
pub struct State {
    pub top: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub doms: Rc<Vec<[u64; 4]>>,
    pub multi: Rc<Vec<E>>,
    pub bounds: Rc<HashMap<E, (u128, u128)>>,
    pub mvars: Rc<Vec<u64>>,
    pub model: Rc<Vec<u8>>,
    pub nvars: u32,
    pub draws: Rc<Vec<Draw>>,
    pub trace: Rc<Vec<(u8, u64, E)>>, // kind: 0 reach, 1 report ; value ; expr (0 = none)
    pub hash: Rc<HashTab>,
    pub hash_mode: u32,
    pub nkeys: u64,
    pub dlog: Vec<u128>,
    pub dpos: usize,
    pub enums: u32,
    pub steps: u64,
    pub forks: u32,
    pub known: [u32; 64], // conditions lately decided on this path (2e + value)
}

#[derive(Debug)]
pub enum End {
    Ok,
    Assumed,
    Viol(String, String), // kind, detail
    Unsupported(String),
    Unknown,
    Limit,
}
type R<T> = Result<T, End>;

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub detail: String, pub draws: String, pub stack: String, pub trace: String }

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub assumed: u64, pub viols: u64, pub unsupported: u64, pub unknown: u64, pub limit: u64, pub dropped: u64,
    pub steps: u64, pub forks: u64, pub branches_sym: u64, pub checks: u64, pub checks_z3: u64, pub domq: u64, pub ivalq: u64, pub guessq: u64, pub auditq: u64, pub audit_bad: u64,
    pub max_depth: u64, pub maxpathsteps: u64,
}

pub struct Exec {
    pub prog: Rc<Program>,
    pub a: Arena,
    pub sol: Solver,
    pub pending: Vec<State>,
    pub st: Stats,
    pub viols: Vec<Violation>,
    pub samples: Vec<(String, String)>,
    pub sample_rate: u64,
    pub max_samples: usize,
    pub reach: HashMap<u64, u64>,
    pub unsup: HashMap<String, u64>,
    pub cov: Vec<Vec<bool>>,
    audit: HashSet<([u64; 4], [u64; 4])>,
    rcache: HashMap<(E, [u64; 4]), (u128, u128)>,
    pub step_limit: u64,
    /// Only panics and the like count in this job: a path on which an assertion fails ends there.
    pub quiet: bool,
    pub mem_limit: u64,
    pub file: Vec<u8>,
    pub deadline: std::time::Instant,
    pub expired: bool,
    pub argv: Vec<u64>,
    pub log: bool,
}

const MAGIC: u64 = 0x4d56_4453_0000_0000;

#[inline]
fn m64(w: u16) -> u64 { if w >= 64 { u64::MAX } else { (1u64 << w) - 1 } }

impl Exec {
    pub fn new(prog: Rc<Program>) -> Self {
        let cov = prog.funcs.iter().map(|f| vec![false; f.blocks.len()]).collect();
        let mut a = Arena::new();
        a.c(0, 8); // node 0 is reserved ("concrete byte")
        Exec {
            prog, a, sol: Solver::new(), pending: vec![], st: Stats::default(), viols: vec![], samples: vec![],
            sample_rate: 1, max_samples: 40, reach: HashMap::new(), unsup: HashMap::new(), cov, audit: HashSet::new(), rcache: HashMap::new(),
            step_limit: 100_000_000, quiet: false, mem_limit: 256 << 20, file: vec![], deadline: std::time::Instant::now() + std::time::Duration::from_secs(3600),
            expired: false, argv: vec![], log: false,
        }
    }
    pub fn initial(&mut self, func: &str, args: &[u64]) -> Option<State> {
        let fi = *self.prog.by_name.get(func)?;
        let f = &self.prog.funcs[fi as usize];
        let mut mem = Mem::new();
        for g in &self.prog.globals { mem.add(g.data.clone(), g.ro, false); }
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, a) in args.iter().enumerate() { if i < f.nparams as usize { regs[i] = V::C(*a); } }
        Some(State {
            top: Frame { func: fi, block: 0, ip: 0, prev: 0, regs, allocas: vec![], ret: None, then: None },
            stack: vec![], mem, doms: Rc::new(vec![]), multi: Rc::new(vec![]), bounds: Rc::new(HashMap::new()), mvars: Rc::new(vec![]), model: Rc::new(vec![]), nvars: 0,
            draws: Rc::new(vec![]), trace: Rc::new(vec![]), hash: Rc::new(HashTab::default()), hash_mode: 0, nkeys: 0,
            dlog: vec![], dpos: 0, enums: 0, steps: 0, forks: 0, known: [0; 64],
        })
    }

    // ---------------------------------------------------------------- values
    #[inline]
    fn get(&self, s: &State, o: Opd) -> V {
        if o & KC != 0 { self.prog.consts[(o & !KC) as usize].clone() } else { s.top.regs[o as usize].clone() }
    }
    #[inline]
    fn get_c(&self, s: &State, o: Opd) -> Option<u64> {
        match if o & KC != 0 { &self.prog.consts[(o & !KC) as usize] } else { &s.top.regs[o as usize] } { V::C(x) => Some(*x), _ => None }
    }
    pub fn to_e(&mut self, v: &V, w: u16) -> E {
        match v {
            V::C(x) => self.a.c(*x as u128, w),
            V::W(x) => self.a.c(**x, w),
            V::S(e) => { debug_assert_eq!(self.a.w(*e), w); *e }
            V::Agg(_) => panic!("aggregate as scalar"),
        }
    }
    pub fn from_e(&self, e: E) -> V {
        if let Some(c) = self.a.as_const(e) { if self.a.w(e) <= 64 { V::C(c as u64) } else { V::W(Box::new(c)) } } else { V::S(e) }
    }
    fn wide(v: &V) -> Option<u128> { match v { V::C(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }
    fn mkc(v: u128, w: u16) -> V { let v = v & mask(w); if w <= 64 { V::C(v as u64) } else { V::W(Box::new(v)) } }

    // ---------------------------------------------------------------- constraints
    fn eval_model(&mut self, s: &State, e: E) -> u128 {
        if let Some(c) = self.a.as_const(e) { return c; }
        if let Some(v) = self.a.single_var(e) {
            let f = self.a.full(e);
            return f[s.model[v as usize] as usize];
        }
        self.a.eval(e, &s.model)
    }
    fn is_multi(&self, s: &State, v: u16) -> bool {
        let i = v as usize >> 6;
        i < s.mvars.len() && (s.mvars[i] >> (v & 63)) & 1 == 1
    }
    // Domain-aware simplification: everything below is implied by the current one-byte domains.
    fn full_dom(d: &[u64; 4]) -> bool { *d == [u64::MAX; 4] }
    fn range1(&mut self, e: E, d: &[u64; 4]) -> (u128, u128) {
        if let Some(&r) = self.rcache.get(&(e, *d)) { return r; }
        let f = self.a.full(e);
        let (mut lo, mut hi) = (u128::MAX, 0);
        for i in 0..256usize { if (d[i >> 6] >> (i & 63)) & 1 == 1 { lo = lo.min(f[i]); hi = hi.max(f[i]); } }
        if self.rcache.len() > 2_000_000 { self.rcache.clear(); }
        self.rcache.insert((e, *d), (lo, hi));
        (lo, hi)
    }
    fn dsimp(&mut self, s: &State, e: E, memo: &mut HashMap<E, E>) -> E {
        if self.a.as_const(e).is_some() { return e; }
        let vs = self.a.varset(e);
        if vs.len() == 1 {
            let d = s.doms[vs[0] as usize];
            if Self::full_dom(&d) { return e; }
            let (lo, hi) = self.range1(e, &d);
            return if lo == hi { let w = self.a.w(e); self.a.c(lo, w) } else { e };
        }
        if vs.iter().all(|&v| Self::full_dom(&s.doms[v as usize])) { return e; }
        if let Some(&r) = memo.get(&e) { return r; }
        let w = self.a.w(e);
        let r = match self.a.node(e).clone() {
            Node::Bin(op, x, y) => { let (p, q) = (self.dsimp(s, x, memo), self.dsimp(s, y, memo)); if (p, q) == (x, y) { e } else { self.a.bin(op, p, q) } }
            Node::Un(u, x) => { let p = self.dsimp(s, x, memo); if p == x { e } else { self.a.un(u, p, w) } }
            Node::Extract(x, lo) => { let p = self.dsimp(s, x, memo); if p == x { e } else { self.a.extract(p, lo, w) } }
            Node::Concat(x, y) => { let (p, q) = (self.dsimp(s, x, memo), self.dsimp(s, y, memo)); if (p, q) == (x, y) { e } else { self.a.concat(p, q) } }
            Node::Ite(c, x, y) => {
                let k = self.dsimp(s, c, memo);
                match self.a.as_const(k) {
                    Some(1) => self.dsimp(s, x, memo),
                    Some(_) => self.dsimp(s, y, memo),
                    None => { let (p, q) = (self.dsimp(s, x, memo), self.dsimp(s, y, memo)); if (k, p, q) == (c, x, y) { e } else { self.a.ite(k, p, q) } }
                }
            }
            Node::Table(i, t) => {
                let p = self.dsimp(s, i, memo);
                if p == i { e } else {
                    let ents = self.a.tables[t as usize].entries.clone();
                    if let Some(c) = self.a.as_const(p) { let v = self.a.table_lookup(t, c); self.a.c(v, w) } else { self.a.table(p, ents, w) }
                }
            }
            _ => e,
        };
        // the rebuilt term may have lost variables
        let r = if r != e && self.a.as_const(r).is_none() && self.a.varset(r).len() == 1 { self.dsimp(s, r, memo) } else { r };
        memo.insert(e, r);
        r
    }
    /// Unsigned interval of `e` over the current domains.
    fn range(&mut self, s: &State, e: E, memo: &mut HashMap<E, (u128, u128)>) -> (u128, u128) {
        if let Some(c) = self.a.as_const(e) { return (c, c); }
        if let Some(v) = self.a.single_var(e) { let d = s.doms[v as usize]; return self.range1(e, &d); }
        if let Some(&r) = memo.get(&e) { return r; }
        let w = self.a.w(e);
        let m = mask(w);
        let top = (0, self.a.umaxs[e as usize]);
        let r = match self.a.node(e).clone() {
            Node::Bin(op, x, y) => {
                let wx = self.a.w(x);
                let (a, b) = (self.range(s, x, memo), self.range(s, y, memo));
                let tri = |t: bool, f: bool| if t { (1, 1) } else if f { (0, 0) } else { (0, 1) };
                let h = mask(wx) >> 1;
                match op {
                    Op::Add => match a.1.checked_add(b.1) { Some(t) if t <= m => (a.0 + b.0, t), _ => {
                        // x + (-k): no borrow when min(x) >= k
                        if let Some(c) = self.a.as_const(y) { let k = (m - c).wrapping_add(1) & m; if c > h && a.0 >= k { (a.0 - k, a.1 - k) } else { top } } else { top } } },
                    Op::Sub => if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { top },
                    Op::Mul => match a.1.checked_mul(b.1) { Some(t) if t <= m => (a.0 * b.0, t), _ => top },
                    Op::UDiv if b.0 > 0 => (a.0 / b.1, a.1 / b.0),
                    Op::And => (if w == 1 { a.0 & b.0 } else { 0 }, a.1.min(b.1)),
                    Op::Or if w == 1 => (a.0 | b.0, a.1 | b.1),
                    Op::Eq => tri(a.0 == a.1 && a == b, a.1 < b.0 || b.1 < a.0),
                    Op::Ult => tri(a.1 < b.0, a.0 >= b.1),
                    Op::Ule => tri(a.1 <= b.0, a.0 > b.1),
                    Op::Slt if a.1 <= h && b.1 <= h => tri(a.1 < b.0, a.0 >= b.1),
                    Op::Sle if a.1 <= h && b.1 <= h => tri(a.1 <= b.0, a.0 > b.1),
                    Op::Xor if w == 1 && self.a.as_const(y) == Some(1) => (1 - a.1, 1 - a.0),
                    Op::LShr if b.0 == b.1 => if b.0 < w as u128 { (a.0 >> b.0, a.1 >> b.0) } else { (0, 0) },
                    Op::Shl if b.0 == b.1 && b.0 < w as u128 && a.1 <= m >> b.0 => (a.0 << b.0, a.1 << b.0),
                    // non-negative floats are ordered like their bit patterns, and rounding is monotone
                    Op::FAdd if Self::fpos(a, w) && Self::fpos(b, w) => (eval_bin(op, a.0, b.0, w), eval_bin(op, a.1, b.1, w)),
                    Op::FMul | Op::FDiv if Self::fpos(a, w) && b.0 == b.1 && Self::fpos(b, w) && b.0 != 0 => (eval_bin(op, a.0, b.0, w), eval_bin(op, a.1, b.0, w)),
                    Op::FOlt if Self::fpos(a, wx) && Self::fpos(b, wx) => tri(a.1 < b.0, a.0 >= b.1),
                    Op::FOle if Self::fpos(a, wx) && Self::fpos(b, wx) => tri(a.1 <= b.0, a.0 > b.1),
                    Op::FOeq if Self::fpos(a, wx) && Self::fpos(b, wx) => tri(a.0 == a.1 && a == b, a.1 < b.0 || b.1 < a.0),
                    Op::FUno if Self::fpos(a, wx) && Self::fpos(b, wx) => (0, 0),
                    _ => top,
                }
            }
            Node::Un(Un::ZExt, x) => self.range(s, x, memo),
            Node::Un(Un::SExt, x) => { let wx = self.a.w(x); let a = self.range(s, x, memo); if a.1 <= mask(wx) >> 1 { a } else { top } }
            Node::Un(u @ (Un::UiToFp | Un::SiToFp), x) => { let wx = self.a.w(x); let a = self.range(s, x, memo);
                if u == Un::SiToFp && a.1 > mask(wx) >> 1 { top } else { (eval_un(u, a.0, wx, w), eval_un(u, a.1, wx, w)) } }
            Node::Un(u @ (Un::FpExt | Un::FpTrunc | Un::FpToUi | Un::FpToSi | Un::FRound | Un::FRoundEven | Un::FFloor | Un::FCeil | Un::FTrunc | Un::FSqrt), x) => {
                let wx = self.a.w(x); let a = self.range(s, x, memo);
                if Self::fpos(a, wx) { (eval_un(u, a.0, wx, w), eval_un(u, a.1, wx, w)) } else { top } }
            Node::Extract(x, lo) => { let a = self.range(s, x, memo); if lo < 128 && (a.1 >> lo) <= m { (a.0 >> lo, a.1 >> lo) } else { top } }
            Node::Concat(x, y) => { let lw = self.a.w(y); let (a, b) = (self.range(s, x, memo), self.range(s, y, memo)); ((a.0 << lw) | b.0, (a.1 << lw) | b.1) }
            Node::Ite(c, x, y) => {
                let k = self.range(s, c, memo);
                let (a, b) = (self.range(s, x, memo), self.range(s, y, memo));
                match k { (1, _) => a, (_, 0) => b, _ => (a.0.min(b.0), a.1.max(b.1)) }
            }
            _ => top,
        };
        let r = match s.bounds.get(&e) { Some(b) if b.0.max(r.0) <= b.1.min(r.1) => (b.0.max(r.0), b.1.min(r.1)), _ => r };
        memo.insert(e, r);
        r
    }
    /// Both ends are non-negative finite floats.
    fn fpos(a: (u128, u128), w: u16) -> bool { a.1 < if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 } }
    /// The inputs in [a.0, a.1] that the monotone `f` maps into [lo, hi].
    fn inverse(a: (u128, u128), lo: u128, hi: u128, f: impl Fn(u128) -> u128) -> Option<(u128, u128)> {
        if f(a.0) > hi || f(a.1) < lo { return None; }
        let (mut l, mut h) = a;
        while l < h { let m = l + (h - l) / 2; if f(m) >= lo { h = m } else { l = m + 1 } }
        let first = l;
        let (mut l, mut h) = (first, a.1);
        while l < h { let m = l + (h - l + 1) / 2; if f(m) <= hi { l = m } else { h = m - 1 } }
        if f(first) > hi { None } else { Some((first, l)) }
    }
    /// Narrow one-byte domains by the implied constraint lo <= e <= hi.
    fn narrow(&mut self, s: &mut State, e: E, lo: u128, hi: u128, ch: &mut Vec<u16>) {
        if self.a.as_const(e).is_some() { return; }
        if let Some(v) = self.a.single_var(e) {
            let f = self.a.full(e);
            let mut d = s.doms[v as usize];
            for i in 0..256usize { if f[i] < lo || f[i] > hi { d[i >> 6] &= !(1 << (i & 63)); } }
            if d != s.doms[v as usize] { Rc::make_mut(&mut s.doms)[v as usize] = d; ch.push(v); }
            return;
        }
        let w = self.a.w(e);
        let m = mask(w);
        if w > 1 {
            let mut memo = HashMap::new();
            let r = self.range(s, e, &mut memo);
            let n = (lo.max(r.0), hi.min(r.1));
            if n.0 <= n.1 && n != r { Rc::make_mut(&mut s.bounds).insert(e, n); }
        }
        match self.a.node(e).clone() {
            Node::Un(u @ (Un::UiToFp | Un::SiToFp | Un::FpExt | Un::FpTrunc | Un::FpToUi | Un::FpToSi | Un::FRound | Un::FRoundEven | Un::FFloor | Un::FCeil | Un::FTrunc), x) => {
                let wx = self.a.w(x);
                let a = self.range(s, x, &mut HashMap::new());
                let ok = match u { Un::UiToFp => true, Un::SiToFp => a.1 <= mask(wx) >> 1, _ => Self::fpos(a, wx) };
                if ok { if let Some((l, h)) = Self::inverse(a, lo, hi, |v| eval_un(u, v, wx, w)) { self.narrow(s, x, l, h, ch); } }
            }
            Node::Bin(op @ (Op::FMul | Op::FDiv | Op::LShr), x, y) if self.a.as_const(y).is_some() => {
                let b = self.a.as_const(y).unwrap();
                let a = self.range(s, x, &mut HashMap::new());
                let ok = if op == Op::LShr { b < w as u128 } else { Self::fpos(a, w) && Self::fpos((b, b), w) && b != 0 };
                if ok { if let Some((l, h)) = Self::inverse(a, lo, hi, |v| eval_bin(op, v, b, w)) { self.narrow(s, x, l, h, ch); } }
            }
            Node::Extract(x, k) => {
                let a = self.range(s, x, &mut HashMap::new());
                if k < 128 && (a.1 >> k) <= m { if let Some((l, h)) = Self::inverse(a, lo, hi, |v| v >> k) { self.narrow(s, x, l, h, ch); } }
            }
            Node::Un(Un::ZExt, x) => { let hi = hi.min(mask(self.a.w(x))); self.narrow(s, x, lo, hi, ch) }
            Node::Concat(h, l) => {
                let lw = self.a.w(l);
                self.narrow(s, h, lo >> lw, hi >> lw, ch);
                if lo >> lw == hi >> lw { self.narrow(s, l, lo & mask(lw), hi & mask(lw), ch); }
                else {
                    let mut memo = HashMap::new();
                    let r = self.range(s, h, &mut memo);
                    if r.0 == r.1 {
                        let l2 = if lo >> lw == r.0 { lo & mask(lw) } else { 0 };
                        let h2 = if hi >> lw == r.0 { hi & mask(lw) } else { mask(lw) };
                        self.narrow(s, l, l2, h2, ch);
                    }
                }
            }
            Node::Bin(Op::Add, x, y) => {
                let mut memo = HashMap::new();
                let (a, b) = (self.range(s, x, &mut memo), self.range(s, y, &mut memo));
                if let Some(t) = a.1.checked_add(b.1) { if t <= m {
                    self.narrow(s, x, lo.saturating_sub(b.1), hi.saturating_sub(b.0), ch);
                    self.narrow(s, y, lo.saturating_sub(a.1), hi.saturating_sub(a.0), ch);
                    return;
                } }
                if let Some(c) = self.a.as_const(y) {
                    let k = (m - c).wrapping_add(1) & m;
                    if c > m >> 1 && a.0 >= k { if let (Some(l), Some(h)) = (lo.checked_add(k), hi.checked_add(k)) { self.narrow(s, x, l, h, ch); } }
                }
            }
            Node::Bin(op, x, y) if w == 1 && lo == hi => self.narrow_bool(s, op, x, y, lo == 1, ch),
            _ => {}
        }
    }
    fn narrow_bool(&mut self, s: &mut State, op: Op, x: E, y: E, t: bool, ch: &mut Vec<u16>) {
        let mut memo = HashMap::new();
        let (a, b) = (self.range(s, x, &mut memo), self.range(s, y, &mut memo));
        let m = mask(self.a.w(x));
        let op = match (op, t) {
            (Op::Xor, _) if self.a.w(x) == 1 && self.a.as_const(y) == Some(1) => { let v = !t as u128; self.narrow(s, x, v, v, ch); return; }
            (Op::And, true) | (Op::Or, false) if self.a.w(x) == 1 => { let v = t as u128; self.narrow(s, x, v, v, ch); self.narrow(s, y, v, v, ch); return; }
            (Op::Eq, true) => { let (l, h) = (a.0.max(b.0), a.1.min(b.1)); self.narrow(s, x, l, h, ch); self.narrow(s, y, l, h, ch); return; }
            (Op::Slt | Op::Sle, _) if a.1 > m >> 1 || b.1 > m >> 1 => return,
            (Op::FOlt | Op::FOle | Op::FOeq, _) if !Self::fpos(a, self.a.w(x)) || !Self::fpos(b, self.a.w(x)) => return,
            (Op::FOeq, true) => { let (l, h) = (a.0.max(b.0), a.1.min(b.1)); self.narrow(s, x, l, h, ch); self.narrow(s, y, l, h, ch); return; }
            (Op::FOlt, true) => 0, (Op::FOle, true) => 1, (Op::FOlt, false) => 2, (Op::FOle, false) => 3,
            (Op::Ult | Op::Slt, true) => 0, (Op::Ule | Op::Sle, true) => 1,
            (Op::Ult | Op::Slt, false) => 2, (Op::Ule | Op::Sle, false) => 3,
            _ => return,
        };
        match op {
            0 => { self.narrow(s, x, 0, b.1.saturating_sub(1), ch); self.narrow(s, y, (a.0 + 1).min(m), m, ch); }
            1 => { self.narrow(s, x, 0, b.1, ch); self.narrow(s, y, a.0, m, ch); }
            2 => { self.narrow(s, x, b.0, m, ch); self.narrow(s, y, 0, a.1, ch); }
            _ => { self.narrow(s, x, (b.0 + 1).min(m), m, ch); self.narrow(s, y, 0, a.1.saturating_sub(1), ch); }
        }
    }
    fn assert_e(&mut self, s: &mut State, e: E) {
        let mut ch = vec![];
        self.assert_in(s, e, &mut ch);
        while !ch.is_empty() {
            ch.sort_unstable();
            ch.dedup();
            let vars = std::mem::take(&mut ch);
            if !vars.iter().any(|&v| self.is_multi(s, v)) { continue; }
            let old: Vec<E> = s.multi.to_vec();
            let mut keep = vec![];
            let mut redo = vec![];
            for c in old {
                let vs = self.a.varset(c);
                if !vs.iter().any(|v| vars.contains(v)) { keep.push(c); continue; }
                let n = self.dsimp(s, c, &mut HashMap::new());
                // a constraint may only be dropped when the domains alone imply it (the bounds come from constraints)
                let b = std::mem::take(&mut s.bounds);
                let r = self.range(s, n, &mut HashMap::new());
                s.bounds = b;
                if r.0 == 1 { continue; }
                redo.push(n);
            }
            s.multi = Rc::new(keep);
            s.mvars = Rc::new(vec![]);
            let cs = s.multi.clone();
            for &c in cs.iter() { self.mark_multi(s, c); }
            for c in redo { self.assert_in(s, c, &mut ch); }
        }
    }
    fn mark_multi(&mut self, s: &mut State, e: E) {
        let vs = self.a.varset(e);
        let mv = Rc::make_mut(&mut s.mvars);
        for &v in vs.iter() {
            let i = v as usize >> 6;
            while mv.len() <= i { mv.push(0); }
            mv[i] |= 1 << (v & 63);
        }
    }
    fn assert_in(&mut self, s: &mut State, e: E, ch: &mut Vec<u16>) {
        let e = self.dsimp(s, e, &mut HashMap::new());
        if self.a.as_const(e).is_some() { return; }
        match self.a.node(e).clone() {
            Node::Bin(Op::And, x, y) if self.a.w(e) == 1 => { self.assert_in(s, x, ch); self.assert_in(s, y, ch); return; }
            Node::Bin(Op::Xor, x, y) if self.a.w(e) == 1 && self.a.as_const(y) == Some(1) => {
                if let Node::Bin(Op::Or, p, q) = self.a.node(x).clone() {
                    let (np, nq) = (self.a.not1(p), self.a.not1(q));
                    self.assert_in(s, np, ch);
                    self.assert_in(s, nq, ch);
                    return;
                }
            }
            _ => {}
        }
        if let Some(v) = self.a.single_var(e) {
            let t = self.a.truth(e);
            let mut d = s.doms[v as usize];
            for i in 0..4 { d[i] &= t[i]; }
            if d != s.doms[v as usize] { Rc::make_mut(&mut s.doms)[v as usize] = d; ch.push(v); }
            return;
        }
        if s.multi.contains(&e) { return; }
        self.narrow(s, e, 1, 1, ch);
        Rc::make_mut(&mut s.multi).push(e);
        self.mark_multi(s, e);
    }
    /// Cheap model search: change one variable of `e` at a time to a few interesting values.
    fn guess(&mut self, s: &State, e: E, cs: &[E]) -> Option<Vec<u8>> {
        let vs = self.a.varset(e);
        if vs.len() > 12 { return None; }
        let mut m = (*s.model).clone();
        let mut memo = HashMap::new();
        for low in [true, false] {
            let mut k = m.clone();
            for &v in vs.iter() {
                let d = s.doms[v as usize];
                k[v as usize] = if low { (0..4).find(|&i| d[i] != 0).map(|i| i * 64 + d[i].trailing_zeros() as usize) }
                    else { (0..4).rev().find(|&i| d[i] != 0).map(|i| i * 64 + 63 - d[i].leading_zeros() as usize) }.unwrap_or(0) as u8;
            }
            memo.clear();
            if cs.iter().all(|&c| self.a.eval_m(c, &k, &mut memo) == 1) { return Some(k); }
        }
        for &v in vs.iter() {
            let d = s.doms[v as usize];
            let old = m[v as usize];
            let mut cand: Vec<u8> = vec![];
            let fst = (0..4).find(|&i| d[i] != 0).map(|i| (i * 64 + d[i].trailing_zeros() as usize) as u8);
            let lst = (0..4).rev().find(|&i| d[i] != 0).map(|i| (i * 64 + 63 - d[i].leading_zeros() as usize) as u8);
            cand.extend(fst);
            cand.extend(lst);
            for &u in vs.iter() { if u != v { let x = m[u as usize]; cand.extend([x, x.wrapping_add(1), x.wrapping_sub(1)]); } }
            cand.extend([old.wrapping_add(1), old.wrapping_sub(1)]);
            let mut seen = [0u64; 4];
            for c in cand {
                let (i, b) = ((c >> 6) as usize, 1u64 << (c & 63));
                if c == old || d[i] & b == 0 || seen[i] & b != 0 { continue; }
                seen[i] |= b;
                m[v as usize] = c;
                memo.clear();
                if cs.iter().all(|&k| self.a.eval_m(k, &m, &mut memo) == 1) { return Some(m); }
            }
            m[v as usize] = old;
        }
        // a few pseudo-random points (fixed seed: the answer depends on the query only)
        let lists: Vec<(u16, Vec<u8>)> = vs.iter().map(|&v| { let d = s.doms[v as usize]; (v, (0..=255u8).filter(|&c| d[(c >> 6) as usize] >> (c & 63) & 1 == 1).collect()) }).collect();
        let mut x = 0x9e37_79b9_7f4a_7c15u64;
        for _ in 0..60 {
            for (v, l) in &lists {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                m[*v as usize] = l[(x >> 20) as usize % l.len()];
            }
            memo.clear();
            if cs.iter().all(|&k| self.a.eval_m(k, &m, &mut memo) == 1) { return Some(m); }
        }
        None
    }
    fn slice(&self, s: &State, e: E) -> (Vec<E>, Vec<(u16, [u64; 4])>) {
        let mut vars: Vec<u16> = self.a.varset(e).to_vec();
        let mut inset: HashSet<u16> = vars.iter().cloned().collect();
        let mut used = vec![false; s.multi.len()];
        let mut cs = vec![e];
        loop {
            let mut changed = false;
            for (i, &c) in s.multi.iter().enumerate() {
                if used[i] { continue; }
                let vs = self.a.varset(c);
                if vs.iter().any(|v| inset.contains(v)) {
                    used[i] = true;
                    cs.push(c);
                    for &v in vs.iter() { if inset.insert(v) { vars.push(v); changed = true; } }
                }
            }
            if !changed { break; }
        }
        vars.sort_unstable();
        let doms = vars.into_iter().map(|v| (v, s.doms[v as usize])).collect();
        (cs, doms)
    }
    /// Is `e` satisfiable together with the path condition?  Some(model) if so.
    fn feasible(&mut self, s: &State, e: E) -> R<Option<Rc<Vec<u8>>>> {
        let e = self.dsimp(s, e, &mut HashMap::new());
        if let Some(c) = self.a.as_const(e) {
            self.st.ivalq += 1;
            return Ok(if c == 1 { Some(s.model.clone()) } else { None });
        }
        if let Some(v) = self.a.single_var(e) {
            let t = self.a.truth(e);
            let d = s.doms[v as usize];
            let r = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
            let empty = r == [0; 4];
            self.st.domq += 1;
            // every distinct one-byte query is also discharged by Z3 (the bitmap answer is a cache of it)
            if self.audit.insert((d, t)) {
                self.st.auditq += 1;
                let (z, _) = self.sol.check(&self.a, &[e], &[(v, d)]);
                if z == Sat::Unknown { return Err(End::Unknown); }
                if (z == Sat::Unsat) != empty { self.st.audit_bad += 1; eprintln!("ENGINE: z3 and bitmap disagree on {}", self.a.show(e, 6)); return Err(End::Unknown); }
            }
            if empty { return Ok(None); }
            if !self.is_multi(s, v) {
                let i = (0..4).find(|&i| r[i] != 0).unwrap();
                let val = (i * 64 + r[i].trailing_zeros() as usize) as u8;
                let mut m = (*s.model).clone();
                m[v as usize] = val;
                return Ok(Some(Rc::new(m)));
            }
        } else {
            if s.multi.contains(&e) { return Ok(Some(s.model.clone())); }
            let r = self.range(s, e, &mut HashMap::new());
            if r.0 == r.1 {
                self.st.ivalq += 1;
                // interval verdicts are sampled against Z3
                if r.0 == 0 && (self.st.ivalq < 16 || self.st.ivalq % 128 == 0) {
                    let (cs, doms) = self.slice(s, e);
                    let (z, _) = self.sol.check(&self.a, &cs, &doms);
                    if z == Sat::Sat { self.st.audit_bad += 1; eprintln!("ENGINE: z3 and interval disagree on {}", self.a.show(e, 6)); return Err(End::Unknown); }
                }
                return Ok(if r.0 == 1 { Some(s.model.clone()) } else { None });
            }
        }
        let (cs, doms) = self.slice(s, e);
        if let Some(m) = self.guess(s, e, &cs) { self.st.guessq += 1; return Ok(Some(Rc::new(m))); }
        let (r, upd) = self.sol.check(&self.a, &cs, &doms);
        match r {
            Sat::Unsat => Ok(None),
            Sat::Unknown => { if self.log { eprintln!("unknown: {}", self.a.show(e, 12)); } Err(End::Unknown) }
            Sat::Sat => {
                let mut m = (*s.model).clone();
                for (v, x) in upd { m[v as usize] = x; }
                // cross-check Z3's model against the interpreter's own semantics
                for &c in &cs {
                    if self.a.eval(c, &m) != 1 {
                        eprintln!("ENGINE: z3 model does not satisfy constraint {}", self.a.show(c, 8));
                        self.st.audit_bad += 1;
                        return Err(End::Unknown);
                    }
                }
                Ok(Some(Rc::new(m)))
            }
        }
    }
    fn fork(&mut self, s: &mut State) {
        s.forks += 1;
        self.st.forks += 1;
        if s.forks as u64 > self.st.max_depth { self.st.max_depth = s.forks as u64; }
    }
    pub fn decide(&mut self, s: &mut State, cond: E) -> R<bool> {
        if let Some(c) = self.a.as_const(cond) { return Ok(c == 1); }
        if s.dpos < s.dlog.len() { let v = s.dlog[s.dpos]; s.dpos += 1; return Ok(v == 1); }
        let slot = cond as usize % 64;
        if s.known[slot] >> 1 == cond {
            // decided before on this path
            let v = s.known[slot] & 1;
            s.dlog.push(v as u128);
            s.dpos += 1;
            return Ok(v == 1);
        }
        self.st.branches_sym += 1;
        let m = self.eval_model(s, cond) == 1;
        let nc = self.a.not1(cond);
        let (this, other) = if m { (cond, nc) } else { (nc, cond) };
        if let Some(mo) = self.feasible(s, other)? {
            self.fork(s);
            let mut sib = s.clone();
            sib.dlog.push(!m as u128);
            sib.dpos = 0;
            sib.model = mo;
            self.assert_e(&mut sib, other);
            sib.known[slot] = cond << 1 | !m as u32;
            self.pending.push(sib);
            self.assert_e(s, this);
        }
        s.known[slot] = cond << 1 | m as u32;
        s.dlog.push(m as u128);
        s.dpos += 1;
        Ok(m)
    }
    fn decide_n(&mut self, s: &mut State, n: u64) -> u64 {
        if s.dpos < s.dlog.len() { let v = s.dlog[s.dpos]; s.dpos += 1; return v as u64; }
        for i in (1..n).rev() {
            self.fork(s);
            let mut sib = s.clone();
            sib.dlog.push(i as u128);
            sib.dpos = 0;
            self.pending.push(sib);
        }
        s.dlog.push(0);
        s.dpos += 1;
        0
    }
    /// Enumerate the feasible values of `e` (forking).
    pub fn concretize(&mut self, s: &mut State, e: E) -> R<u128> {
        if let Some(c) = self.a.as_const(e) { return Ok(c); }
        if s.dpos < s.dlog.len() { let v = s.dlog[s.dpos]; s.dpos += 1; return Ok(v); }
        let e = self.dsimp(s, e, &mut HashMap::new());
        let v = self.eval_model(s, e);
        let w = self.a.w(e);
        let k = self.a.c(v, w);
        let eq = self.a.eq(e, k);
        let ne = self.a.not1(eq);
        if let Some(mo) = self.feasible(s, ne)? {
            if s.enums > 600 { return Err(End::Unsupported("enumeration fan-out above 600".into())); }
            self.fork(s);
            let mut sib = s.clone();
            sib.dpos = 0;
            sib.enums += 1;
            sib.model = mo;
            self.assert_e(&mut sib, ne);
            self.pending.push(sib);
            self.assert_e(s, eq);
        }
        s.dlog.push(v);
        s.dpos += 1;
        Ok(v)
    }
    fn conc(&mut self, s: &mut State, v: &V) -> R<u64> {
        match v { V::C(x) => Ok(*x), V::W(x) => Ok(**x as u64), V::S(e) => Ok(self.concretize(s, *e)? as u64), V::Agg(_) => Err(End::Unsupported("agg".into())) }
    }
    fn cop(&mut self, s: &mut State, o: Opd) -> R<u64> { if let Some(x) = self.get_c(s, o) { return Ok(x); } let v = self.get(s, o); self.conc(s, &v) }

    // ---------------------------------------------------------------- memory
    fn oob(&self, s: &State, p: u64, n: u64, what: &str) -> End {
        let id = p >> 32;
        let sz = s.mem.get(id).map(|o| o.data.len() as i64).unwrap_or(-1);
        End::Viol("memory".into(), format!("{} of {} bytes at object {} offset {} (size {})", what, n, id, p & 0xffff_ffff, sz))
    }
    fn load_scalar(&mut self, s: &State, p: u64, n: u64, w: u16) -> R<V> {
        let id = p >> 32;
        let off = (p & 0xffff_ffff) as usize;
        let o = match s.mem.get(id) { Some(o) if off + n as usize <= o.data.len() => o, _ => return Err(self.oob(s, p, n, "read")) };
        let d = &o.data[off..off + n as usize];
        let any_sym = !o.sym.is_empty() && o.sym[off..off + n as usize].iter().any(|&e| e != 0);
        if !any_sym {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(d);
                return Ok(V::C(u64::from_le_bytes(b) & m64(w)));
            }
            let mut b = [0u8; 16];
            b[..n as usize].copy_from_slice(d);
            return Ok(Self::mkc(u128::from_le_bytes(b), w));
        }
        let mut e: Option<E> = None;
        for i in 0..n as usize {
            let se = o.sym[off + i];
            let be = if se != 0 { se } else { self.a.c(d[i] as u128, 8) };
            e = Some(match e { None => be, Some(l) => self.a.concat(be, l) });
        }
        let e = e.unwrap();
        let e = if self.a.w(e) > w { self.a.extract(e, 0, w) } else { e };
        Ok(self.from_e(e))
    }
    fn load_ty(&mut self, s: &State, p: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Vec(n, t) => {
                let mut r = vec![];
                if t.bits() % 8 != 0 {
                    let whole = self.load_scalar(s, p, ty.size(), (*n as u16) * t.bits())?;
                    let e = self.to_e(&whole, *n as u16 * t.bits());
                    for i in 0..*n { let x = self.a.extract(e, i as u16 * t.bits(), t.bits()); r.push(self.from_e(x)); }
                } else {
                    for i in 0..*n { r.push(self.load_scalar(s, p + i as u64 * t.size(), t.size(), t.bits())?); }
                }
                Ok(V::Agg(Rc::new(r)))
            }
            Ty::Arr(n, t, st) => {
                let mut r = vec![];
                for i in 0..*n { r.push(self.load_ty(s, p + i * st, t)?); }
                Ok(V::Agg(Rc::new(r)))
            }
            Ty::Struct(f, _) => {
                let mut r = vec![];
                for (o, t) in f.iter() { r.push(self.load_ty(s, p + o, t)?); }
                Ok(V::Agg(Rc::new(r)))
            }
            _ => self.load_scalar(s, p, ty.size(), ty.bits()),
        }
    }
    fn wr_obj<'b>(&self, s: &'b mut State, p: u64, n: u64) -> R<(&'b mut Obj, usize)> {
        let id = p >> 32;
        let off = (p & 0xffff_ffff) as usize;
        let bad = match s.mem.get(id) { Some(o) => off + n as usize > o.data.len() || o.ro, None => true };
        if bad { return Err(self.oob(s, p, n, "write")); }
        Ok((s.mem.get_mut(id).unwrap(), off))
    }
    fn store_scalar(&mut self, s: &mut State, p: u64, n: u64, v: &V, w: u16) -> R<()> {
        let mut bytes: [E; 16] = [0; 16];
        let mut symb = false;
        let mut cb = [0u8; 16];
        match v {
            V::C(x) => cb[..8].copy_from_slice(&x.to_le_bytes()),
            V::W(x) => cb.copy_from_slice(&x.to_le_bytes()),
            V::S(e) => {
                symb = true;
                let full = (n * 8) as u16;
                let e = if w < full { self.a.zext(*e, full) } else { *e };
                for i in 0..n as usize {
                    let b = self.a.extract(e, i as u16 * 8, 8);
                    if let Some(c) = self.a.as_const(b) { cb[i] = c as u8; } else { bytes[i] = b; }
                }
            }
            V::Agg(_) => return Err(End::Unsupported("agg scalar store".into())),
        }
        let (o, off) = self.wr_obj(s, p, n)?;
        o.data[off..off + n as usize].copy_from_slice(&cb[..n as usize]);
        if symb {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[off..off + n as usize].copy_from_slice(&bytes[..n as usize]);
        } else if !o.sym.is_empty() {
            for e in &mut o.sym[off..off + n as usize] { *e = 0; }
        }
        Ok(())
    }
    fn store_ty(&mut self, s: &mut State, p: u64, v: &V, ty: &Ty) -> R<()> {
        match (ty, v) {
            (Ty::Vec(n, t), V::Agg(xs)) => {
                if t.bits() % 8 != 0 {
                    let e = self.vec_to_int(xs, t.bits());
                    let w = *n as u16 * t.bits();
                    let v = self.from_e(e);
                    return self.store_scalar(s, p, ty.size(), &v, w);
                }
                for i in 0..*n { self.store_scalar(s, p + i as u64 * t.size(), t.size(), &xs[i as usize], t.bits())?; }
                Ok(())
            }
            (Ty::Arr(n, t, st), V::Agg(xs)) => { for i in 0..*n { self.store_ty(s, p + i * st, &xs[i as usize], t)?; } Ok(()) }
            (Ty::Struct(f, _), V::Agg(xs)) => { for (i, (o, t)) in f.iter().enumerate() { self.store_ty(s, p + o, &xs[i], t)?; } Ok(()) }
            _ => self.store_scalar(s, p, ty.size(), v, ty.bits()),
        }
    }
    fn vec_to_int(&mut self, xs: &[V], w: u16) -> E {
        let mut e: Option<E> = None;
        for x in xs { let b = self.to_e(x, w); e = Some(match e { None => b, Some(l) => self.a.concat(b, l) }); }
        e.unwrap()
    }
    /// Load through a symbolic address.
    fn load_sym(&mut self, s: &mut State, addr: E, ty: &Ty) -> R<V> {
        if !ty.scalar() { let p = self.concretize(s, addr)? as u64; return self.load_ty(s, p, ty); }
        let n = ty.size();
        let w = ty.bits();
        let a0 = if s.dpos < s.dlog.len() { s.dlog[s.dpos] as u64 } else { self.eval_model(s, addr) as u64 };
        if s.dpos >= s.dlog.len() { s.dlog.push(a0 as u128); }
        s.dpos += 1;
        let id = a0 >> 32;
        let size = match s.mem.get(id) { Some(o) => o.data.len() as u64, None => 0 };
        if size >= n && size > 0 {
            let base = self.a.c((id << 32) as u128, 64);
            let rel = self.a.bin(Op::Sub, addr, base);
            let lim = self.a.c((size - n) as u128, 64);
            let inb = self.a.bin(Op::Ule, rel, lim);
            if self.decide(s, inb)? {
                // collect the possible offsets
                let mut offs: Vec<u64> = vec![];
                let mut idx = rel;
                let rel = self.dsimp(s, rel, &mut HashMap::new());
                if let Some(c) = self.a.as_const(rel) { return self.load_ty(s, (id << 32) + c as u64, ty); }
                idx = rel;
                if let Some(v) = self.a.single_var(rel) {
                    let f = self.a.full(rel);
                    let d = s.doms[v as usize];
                    for b in 0..256usize { if (d[b >> 6] >> (b & 63)) & 1 == 1 { let o = f[b] as u64; if o <= size - n { offs.push(o); } } }
                    offs.sort_unstable();
                    offs.dedup();
                } else if size <= 8192 {
                    idx = self.a.extract(rel, 0, 32);
                    offs = (0..=size - n).collect();
                }
                if !offs.is_empty() {
                    let mut vals = vec![];
                    let mut nsym = 0;
                    for &o in &offs {
                        let v = self.load_scalar(s, (id << 32) + o, n, w)?;
                        if matches!(v, V::S(_)) { nsym += 1; }
                        vals.push(v);
                    }
                    if nsym == 0 {
                        let ents = offs.iter().zip(&vals).map(|(o, v)| (*o as u128, Self::wide(v).unwrap())).collect();
                        let e = self.a.table(idx, ents, w);
                        return Ok(self.from_e(e));
                    }
                }
            }
        }
        let p = self.concretize(s, addr)? as u64;
        self.load_ty(s, p, ty)
    }
    pub fn read_bytes(&mut self, s: &State, p: u64, n: u64) -> R<Vec<E>> {
        if n == 0 { return Ok(vec![]); }
        let id = p >> 32;
        let off = (p & 0xffff_ffff) as usize;
        let (d, sy) = match s.mem.get(id) {
            Some(o) if off + n as usize <= o.data.len() => (&o.data[off..off + n as usize], if o.sym.is_empty() { &[][..] } else { &o.sym[off..off + n as usize] }),
            _ => return Err(self.oob(s, p, n, "read")),
        };
        let mut r = Vec::with_capacity(n as usize);
        for i in 0..n as usize {
            let e = if sy.is_empty() { 0 } else { sy[i] };
            r.push(if e != 0 { e } else { self.a.c(d[i] as u128, 8) });
        }
        Ok(r)
    }
    fn concrete_slice<'b>(&self, s: &'b State, p: u64, n: u64) -> Option<&'b [u8]> {
        if n == 0 { return Some(&[]); }
        let off = (p & 0xffff_ffff) as usize;
        let o = s.mem.get(p >> 32)?;
        if off + n as usize > o.data.len() { return None; }
        if !o.sym.is_empty() && o.sym[off..off + n as usize].iter().any(|&e| e != 0) { return None; }
        Some(&o.data[off..off + n as usize])
    }
    fn copy(&mut self, s: &mut State, d: u64, src: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let off = (src & 0xffff_ffff) as usize;
        let nn = n as usize;
        let (data, sy) = match s.mem.get(src >> 32) {
            Some(o) if off + nn <= o.data.len() => (
                o.data[off..off + nn].to_vec(),
                if o.sym.is_empty() || o.sym[off..off + nn].iter().all(|&e| e == 0) { vec![] } else { o.sym[off..off + nn].to_vec() },
            ),
            _ => return Err(self.oob(s, src, n, "copy read")),
        };
        let (o, doff) = self.wr_obj(s, d, n)?;
        o.data[doff..doff + nn].copy_from_slice(&data);
        if !sy.is_empty() {
            if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
            o.sym[doff..doff + nn].copy_from_slice(&sy);
        } else if !o.sym.is_empty() {
            for e in &mut o.sym[doff..doff + nn] { *e = 0; }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- scalar operations
    fn bin1(&mut self, op: BOp, a: &V, b: &V, w: u16) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            if w <= 64 {
                return V::C(match op {
                    BOp::Add => x.wrapping_add(y) & m,
                    BOp::Sub => x.wrapping_sub(y) & m,
                    BOp::Mul => x.wrapping_mul(y) & m,
                    BOp::And => x & y,
                    BOp::Or => x | y,
                    BOp::Xor => x ^ y,
                    BOp::Shl => if y >= w as u64 { 0 } else { (x << y) & m },
                    BOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BOp::UDiv if y != 0 => x / y,
                    BOp::URem if y != 0 => x % y,
                    _ => { let o = Self::bop(op); return Self::mkc(eval_bin(o, x as u128, y as u128, w), w); }
                });
            }
        }
        let o = Self::bop(op);
        if let (Some(x), Some(y)) = (Self::wide(a), Self::wide(b)) { return Self::mkc(eval_bin(o, x, y, w), w); }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let e = self.a.bin(o, x, y);
        self.from_e(e)
    }
    fn bop(op: BOp) -> Op {
        match op {
            BOp::Add => Op::Add, BOp::Sub => Op::Sub, BOp::Mul => Op::Mul, BOp::UDiv => Op::UDiv, BOp::SDiv => Op::SDiv,
            BOp::URem => Op::URem, BOp::SRem => Op::SRem, BOp::Shl => Op::Shl, BOp::LShr => Op::LShr, BOp::AShr => Op::AShr,
            BOp::And => Op::And, BOp::Or => Op::Or, BOp::Xor => Op::Xor, BOp::FAdd => Op::FAdd, BOp::FSub => Op::FSub,
            BOp::FMul => Op::FMul, BOp::FDiv => Op::FDiv, BOp::FRem => Op::FRem,
        }
    }
    fn icmp1(&mut self, pred: u8, a: &V, b: &V, w: u16) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let sh = 64 - w;
                let (sx, sy) = (((x << sh) as i64) >> sh, ((y << sh) as i64) >> sh);
                return V::C(match pred {
                    32 => x == y, 33 => x != y, 34 => x > y, 35 => x >= y, 36 => x < y, 37 => x <= y,
                    38 => sx > sy, 39 => sx >= sy, 40 => sx < sy, _ => sx <= sy,
                } as u64);
            }
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let e = match pred {
            32 => self.a.eq(x, y),
            33 => { let t = self.a.eq(x, y); self.a.not1(t) }
            34 => self.a.bin(Op::Ult, y, x), 35 => self.a.bin(Op::Ule, y, x),
            36 => self.a.bin(Op::Ult, x, y), 37 => self.a.bin(Op::Ule, x, y),
            38 => self.a.bin(Op::Slt, y, x), 39 => self.a.bin(Op::Sle, y, x),
            40 => self.a.bin(Op::Slt, x, y), _ => self.a.bin(Op::Sle, x, y),
        };
        self.from_e(e)
    }
    fn fcmp1(&mut self, pred: u8, a: &V, b: &V, w: u16) -> V {
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let ar = &mut self.a;
        let e = match pred {
            0 => ar.fls(), 15 => ar.tru(),
            1 => ar.bin(Op::FOeq, x, y), 2 => ar.bin(Op::FOlt, y, x), 3 => ar.bin(Op::FOle, y, x),
            4 => ar.bin(Op::FOlt, x, y), 5 => ar.bin(Op::FOle, x, y),
            6 => { let q = ar.bin(Op::FOeq, x, y); let u = ar.bin(Op::FUno, x, y); let o = ar.or(q, u); ar.not1(o) }
            7 => { let u = ar.bin(Op::FUno, x, y); ar.not1(u) }
            8 => ar.bin(Op::FUno, x, y),
            9 => { let q = ar.bin(Op::FOeq, x, y); let u = ar.bin(Op::FUno, x, y); ar.or(q, u) }
            10 => { let q = ar.bin(Op::FOle, x, y); ar.not1(q) }
            11 => { let q = ar.bin(Op::FOlt, x, y); ar.not1(q) }
            12 => { let q = ar.bin(Op::FOle, y, x); ar.not1(q) }
            13 => { let q = ar.bin(Op::FOlt, y, x); ar.not1(q) }
            _ => { let q = ar.bin(Op::FOeq, x, y); ar.not1(q) }
        };
        self.from_e(e)
    }
    fn cast1(&mut self, k: CastK, a: &V, fw: u16, tw: u16) -> V {
        match (k, a) {
            (CastK::Move, _) => return a.clone(),
            (CastK::Trunc, V::C(x)) => return V::C(x & m64(tw)),
            (CastK::ZExt, V::C(x)) if tw <= 64 => return V::C(*x),
            (CastK::SExt, V::C(x)) if tw <= 64 => { let sh = 64 - fw; return V::C(((((x << sh) as i64) >> sh) as u64) & m64(tw)); }
            _ => {}
        }
        let e = self.to_e(a, fw);
        let r = match k {
            CastK::Trunc => self.a.extract(e, 0, tw),
            CastK::ZExt => self.a.zext(e, tw),
            CastK::SExt => self.a.sext(e, tw),
            CastK::FPToUI => self.a.un(Un::FpToUi, e, tw),
            CastK::FPToSI => self.a.un(Un::FpToSi, e, tw),
            CastK::UIToFP => self.a.un(Un::UiToFp, e, tw),
            CastK::SIToFP => self.a.un(Un::SiToFp, e, tw),
            CastK::FPTrunc => self.a.un(Un::FpTrunc, e, tw),
            CastK::FPExt => self.a.un(Un::FpExt, e, tw),
            CastK::Move => e,
        };
        self.from_e(r)
    }
    fn ite_v(&mut self, c: E, a: &V, b: &V, ty: &Ty) -> V {
        match ty {
            Ty::Vec(_, t) => {
                if let (V::Agg(x), V::Agg(y)) = (a, b) { let r = (0..x.len()).map(|i| self.ite_v(c, &x[i], &y[i], t)).collect(); return V::Agg(Rc::new(r)); }
                a.clone()
            }
            Ty::Arr(_, t, _) => {
                if let (V::Agg(x), V::Agg(y)) = (a, b) { let r = (0..x.len()).map(|i| self.ite_v(c, &x[i], &y[i], t)).collect(); return V::Agg(Rc::new(r)); }
                a.clone()
            }
            Ty::Struct(f, _) => {
                if let (V::Agg(x), V::Agg(y)) = (a, b) { let r = (0..x.len()).map(|i| self.ite_v(c, &x[i], &y[i], &f[i].1)).collect(); return V::Agg(Rc::new(r)); }
                a.clone()
            }
            _ => { let w = ty.bits(); let (x, y) = (self.to_e(a, w), self.to_e(b, w)); let e = self.a.ite(c, x, y); self.from_e(e) }
        }
    }

    // ---------------------------------------------------------------- intrinsics
    fn intr1(&mut self, k: Intr, a: &[V], w: u16, tw: u16) -> R<V> {
        use Intr::*;
        let ar = &mut self.a;
        let _ = &ar;
        let e: Vec<E> = a.iter().enumerate().map(|(i, v)| {
            // boolean flag operands (ctlz/cttz/abs) have width 1
            let ww = if i == 1 && matches!(k, Ctlz | Cttz | Abs) { 1 } else { w };
            match v { V::C(x) => self.a.c(*x as u128, ww), V::W(x) => self.a.c(**x, ww), V::S(e) => *e, V::Agg(_) => 0 }
        }).collect();
        let ar = &mut self.a;
        let x = e[0];
        let y = if e.len() > 1 { e[1] } else { 0 };
        let pair = |s: &Self, r: E, o: E| V::Agg(Rc::new(vec![s.from_e(r), s.from_e(o)]));
        let r = match k {
            UAddO => { let r = ar.bin(Op::Add, x, y); 
                let (mx, my) = (ar.umaxs[x as usize], ar.umaxs[y as usize]);
                let o = if mx.checked_add(my).map_or(false, |t| t <= mask(w)) { ar.fls() } else { ar.bin(Op::Ult, r, x) }; return Ok(pair(self, r, o)); }
            USubO => { let r = ar.bin(Op::Sub, x, y); let o = ar.bin(Op::Ult, x, y); return Ok(pair(self, r, o)); }
            UMulO => {
                let r = ar.bin(Op::Mul, x, y);
                let (mx, my) = (ar.umaxs[x as usize], ar.umaxs[y as usize]);
                let o = if mx.checked_mul(my).map_or(false, |t| t <= mask(w)) { ar.fls() } else {
                    if w > 64 { return Err(End::Unsupported("umul.with.overflow.i128 symbolic".into())); }
                    let (xe, ye) = (ar.zext(x, 2 * w), ar.zext(y, 2 * w));
                    let p = ar.bin(Op::Mul, xe, ye);
                    let hi = ar.extract(p, w, w);
                    let z = ar.c(0, w);
                    let q = ar.eq(hi, z);
                    ar.not1(q)
                };
                return Ok(pair(self, r, o));
            }
            SAddO | SSubO => {
                if w > 126 { 
                    // sign-bit formula
                }
                let r = ar.bin(if k == SAddO { Op::Add } else { Op::Sub }, x, y);
                let (sx, sy, sr) = (ar.extract(x, w - 1, 1), ar.extract(y, w - 1, 1), ar.extract(r, w - 1, 1));
                let d1 = ar.bin(Op::Xor, sx, sr);
                let same = ar.bin(Op::Xor, sx, sy);
                let same = if k == SAddO { ar.not1(same) } else { same };
                let o = ar.and(same, d1);
                return Ok(pair(self, r, o));
            }
            SMulO => {
                let r = ar.bin(Op::Mul, x, y);
                if w > 64 { 
                    if let (Some(p), Some(q)) = (ar.as_const(x), ar.as_const(y)) {
                        let o = (p as i128).checked_mul(q as i128).is_none();
                        let o = ar.c(o as u128, 1);
                        return Ok(pair(self, r, o));
                    }
                    return Err(End::Unsupported("smul.with.overflow.i128 symbolic".into()));
                }
                let (xe, ye) = (ar.sext(x, 2 * w), ar.sext(y, 2 * w));
                let p = ar.bin(Op::Mul, xe, ye);
                let re = ar.sext(r, 2 * w);
                let q = ar.eq(p, re);
                let o = ar.not1(q);
                return Ok(pair(self, r, o));
            }
            UAddS => { let r = ar.bin(Op::Add, x, y); let o = ar.bin(Op::Ult, r, x); let m = ar.c(mask(w), w); ar.ite(o, m, r) }
            USubS => { let r = ar.bin(Op::Sub, x, y); let o = ar.bin(Op::Ult, x, y); let z = ar.c(0, w); ar.ite(o, z, r) }
            SAddS | SSubS => {
                let r = ar.bin(if k == SAddS { Op::Add } else { Op::Sub }, x, y);
                let (sx, sy, sr) = (ar.extract(x, w - 1, 1), ar.extract(y, w - 1, 1), ar.extract(r, w - 1, 1));
                let d1 = ar.bin(Op::Xor, sx, sr);
                let same = ar.bin(Op::Xor, sx, sy);
                let same = if k == SAddS { ar.not1(same) } else { same };
                let o = ar.and(same, d1);
                let (mx, mn) = (ar.c(mask(w) >> 1, w), ar.c(1u128 << (w - 1), w));
                let sat = ar.ite(sx, mn, mx);
                ar.ite(o, sat, r)
            }
            UMax => { let c = ar.bin(Op::Ult, x, y); ar.ite(c, y, x) }
            UMin => { let c = ar.bin(Op::Ult, x, y); ar.ite(c, x, y) }
            SMax => { let c = ar.bin(Op::Slt, x, y); ar.ite(c, y, x) }
            SMin => { let c = ar.bin(Op::Slt, x, y); ar.ite(c, x, y) }
            Abs => { let z = ar.c(0, w); let c = ar.bin(Op::Slt, x, z); let n = ar.bin(Op::Sub, z, x); ar.ite(c, n, x) }
            UCmp | SCmp => {
                let op = if k == UCmp { Op::Ult } else { Op::Slt };
                let lt = ar.bin(op, x, y);
                let eq = ar.eq(x, y);
                let (m1, z, o) = (ar.c(mask(tw), tw), ar.c(0, tw), ar.c(1, tw));
                let t = ar.ite(eq, z, o);
                ar.ite(lt, m1, t)
            }
            Ctpop => ar.un(Un::Ctpop, x, w),
            Ctlz => ar.un(Un::Ctlz, x, w),
            Cttz => ar.un(Un::Cttz, x, w),
            Bswap => {
                let mut r: Option<E> = None;
                for i in 0..w / 8 { let b = ar.extract(x, i * 8, 8); r = Some(match r { None => b, Some(p) => ar.concat(p, b) }); }
                r.unwrap()
            }
            Bitrev => {
                let mut r: Option<E> = None;
                for i in 0..w { let b = ar.extract(x, i, 1); r = Some(match r { None => b, Some(p) => ar.concat(p, b) }); }
                r.unwrap()
            }
            Fshl | Fshr => {
                let sh = e[2];
                let sh = match ar.as_const(sh) { Some(c) => (c % w as u128) as u16, None => return Err(End::Unsupported("funnel shift by symbolic amount".into())) };
                if sh == 0 { if k == Fshl { x } else { y } } else {
                    // result = high part of (x:y) << sh (fshl) / low part of (x:y) >> sh (fshr)
                    let l = if k == Fshl { w - sh } else { sh };
                    let lo = ar.extract(y, l, w - l);
                    let hi = ar.extract(x, 0, l);
                    ar.concat(hi, lo)
                }
            }
            FAbs => { let m = ar.c(mask(w) >> 1, w); ar.and(x, m) }
            CopySign => { let m = ar.c(mask(w) >> 1, w); let a1 = ar.and(x, m); let sgn = ar.c(1u128 << (w - 1), w); let b1 = ar.and(y, sgn); ar.or(a1, b1) }
            FMin => ar.bin(Op::FMin, x, y),
            FMax => ar.bin(Op::FMax, x, y),
            Floor => ar.un(Un::FFloor, x, w), Ceil => ar.un(Un::FCeil, x, w), TruncF => ar.un(Un::FTrunc, x, w),
            Round => ar.un(Un::FRound, x, w), RoundEven => ar.un(Un::FRoundEven, x, w), Sqrt => ar.un(Un::FSqrt, x, w),
            FMulAdd => { let p = ar.bin(Op::FMul, x, y); ar.bin(Op::FAdd, p, e[2]) }
            FpToUiSat => ar.un(Un::FpToUi, x, tw),
            FpToSiSat => ar.un(Un::FpToSi, x, tw),
            Expect | Copy => x,
            PtrMask => ar.and(x, y),
            _ => return Err(End::Unsupported(format!("intrinsic {:?}", k))),
        };
        Ok(self.from_e(r))
    }

    fn intrinsic(&mut self, s: &mut State, k: Intr, ty: &Ty, args: &[Opd]) -> R<Option<V>> {
        use Intr::*;
        match k {
            Zero | ObjSize => return Ok(Some(if k == ObjSize { V::C(u64::MAX) } else { V::C(0) })),
            One => return Ok(Some(V::C(1))),
            Trap => return Err(End::Viol("trap".into(), "llvm.trap".into())),
            Copy | Expect => return Ok(Some(self.get(s, args[0]))),
            MemCpy | MemMove => {
                let n = self.cop(s, args[2])?;
                if n == 0 { return Ok(None); }
                let (d, sr) = (self.cop(s, args[0])?, self.cop(s, args[1])?);
                self.copy(s, d, sr, n)?;
                return Ok(None);
            }
            MemSet => {
                let n = self.cop(s, args[2])?;
                if n == 0 { return Ok(None); }
                let d = self.cop(s, args[0])?;
                let v = self.get(s, args[1]);
                let ve = self.to_e(&v, 8);
                let cv = self.a.as_const(ve);
                let (o, off) = self.wr_obj(s, d, n)?;
                let r = off..off + n as usize;
                if let Some(c) = cv {
                    o.data[r.clone()].fill(c as u8);
                    if !o.sym.is_empty() { o.sym[r].fill(0); }
                } else {
                    if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                    o.sym[r].fill(ve);
                }
                return Ok(None);
            }
            PMovMskB => {
                if let V::Agg(xs) = self.get(s, args[0]) {
                    let mut e: Option<E> = None;
                    for x in xs.iter() {
                        let b = self.to_e(x, 8);
                        let t = self.a.extract(b, 7, 1);
                        e = Some(match e { None => t, Some(l) => self.a.concat(t, l) });
                    }
                    let e = self.a.zext(e.unwrap(), 32);
                    return Ok(Some(self.from_e(e)));
                }
                return Err(End::Unsupported("pmovmskb".into()));
            }
            RedAdd | RedOr | RedAnd | RedXor | RedUMax | RedUMin | RedSMax | RedSMin => {
                let w = if let Ty::Struct(f, _) = ty { f[0].1.elem().bits() } else { 0 };
                if let V::Agg(xs) = self.get(s, args[0]) {
                    let mut acc = xs[0].clone();
                    for x in &xs[1..] {
                        acc = match k {
                            RedAdd => self.bin1(BOp::Add, &acc, x, w), RedOr => self.bin1(BOp::Or, &acc, x, w),
                            RedAnd => self.bin1(BOp::And, &acc, x, w), RedXor => self.bin1(BOp::Xor, &acc, x, w),
                            RedUMax => self.intr1(UMax, &[acc, x.clone()], w, w)?, RedUMin => self.intr1(UMin, &[acc, x.clone()], w, w)?,
                            RedSMax => self.intr1(SMax, &[acc, x.clone()], w, w)?, _ => self.intr1(SMin, &[acc, x.clone()], w, w)?,
                        };
                    }
                    return Ok(Some(acc));
                }
                return Err(End::Unsupported("reduce".into()));
            }
            _ => {}
        }
        // element-wise intrinsics; `ty` is the result type, or {operand type, result type}
        let (ot, rt) = match (k, ty) {
            (UCmp | SCmp | FpToUiSat | FpToSiSat, Ty::Struct(f, _)) => (f[0].1.clone(), f[1].1.clone()),
            (UAddO | SAddO | USubO | SSubO | UMulO | SMulO, Ty::Struct(f, _)) => (f[0].1.clone(), f[0].1.clone()),
            _ => (ty.clone(), ty.clone()),
        };
        let av: Vec<V> = args.iter().map(|&o| self.get(s, o)).collect();
        let lanes = ot.lanes();
        let (w, tw) = (ot.elem().bits(), rt.elem().bits());
        if lanes == 0 {
            // fast paths on concrete operands
            if w <= 64 {
                if let (Some(V::C(x)), Some(V::C(y))) = (av.get(0), av.get(1)) {
                    let (x, y) = (*x, *y);
                    let sh = 64 - w;
                    let (sx, sy) = (((x << sh) as i64) >> sh, ((y << sh) as i64) >> sh);
                    match k {
                        UMax => return Ok(Some(V::C(x.max(y)))),
                        UMin => return Ok(Some(V::C(x.min(y)))),
                        SMax => return Ok(Some(V::C(if sx > sy { x } else { y }))),
                        SMin => return Ok(Some(V::C(if sx < sy { x } else { y }))),
                        USubS => return Ok(Some(V::C(x.saturating_sub(y)))),
                        UAddO | USubO | UMulO => {
                            let (r, o) = match k {
                                UAddO => { let t = x as u128 + y as u128; (t as u64 & m64(w), t > m64(w) as u128) }
                                USubO => (x.wrapping_sub(y) & m64(w), x < y),
                                _ => { let t = x as u128 * y as u128; (t as u64 & m64(w), t > m64(w) as u128) }
                            };
                            return Ok(Some(V::Agg(Rc::new(vec![V::C(r), V::C(o as u64)]))));
                        }
                        _ => {}
                    }
                }
            } else if k == UMulO {
                if let (Some(x), Some(y)) = (Self::wide(&av[0]), Self::wide(&av[1])) {
                    let (r, o) = x.overflowing_mul(y);
                    return Ok(Some(V::Agg(Rc::new(vec![Self::mkc(r, w), V::C(o as u64)]))));
                }
            }
            return Ok(Some(self.intr1(k, &av, w, tw)?));
        }
        let mut r = vec![];
        for i in 0..lanes as usize {
            let l: Vec<V> = av.iter().map(|v| if let V::Agg(x) = v { x[i].clone() } else { v.clone() }).collect();
            r.push(self.intr1(k, &l, w, tw)?);
        }
        Ok(Some(V::Agg(Rc::new(r))))
    }

    // ---------------------------------------------------------------- search models
    fn eq_at(&mut self, h: &[E], i: usize, n: &[E]) -> E {
        let mut c = self.a.tru();
        for j in 0..n.len() {
            let q = self.a.eq(h[i + j], n[j]);
            if self.a.as_const(q) == Some(0) { return q; }
            c = self.a.and(c, q);
        }
        c
    }
    fn find(&mut self, s: &mut State, hp: u64, hl: u64, np: u64, nl: u64, rev: bool) -> R<Option<u64>> {
        if nl > hl { return Ok(None); }
        if nl == 0 { return Ok(Some(if rev { hl } else { 0 })); }
        if let (Some(h), Some(n)) = (self.concrete_slice(s, hp, hl), self.concrete_slice(s, np, nl)) {
            let it = h.windows(n.len());
            return Ok(if rev { h.windows(n.len()).rposition(|w| w == n) } else { let mut it = it; it.position(|w| w == n) }.map(|x| x as u64));
        }
        let h = self.read_bytes(s, hp, hl)?;
        let n = self.read_bytes(s, np, nl)?;
        let last = (hl - nl) as usize;
        for k in 0..=last {
            let i = if rev { last - k } else { k };
            let c = self.eq_at(&h, i, &n);
            if self.decide(s, c)? { return Ok(Some(i as u64)); }
        }
        Ok(None)
    }
    fn find_byte(&mut self, s: &mut State, ns: &[E], hp: u64, hl: u64, rev: bool) -> R<Option<u64>> {
        let h = self.read_bytes(s, hp, hl)?;
        for k in 0..h.len() {
            let i = if rev { h.len() - 1 - k } else { k };
            let mut c = self.a.fls();
            for &n in ns { let q = self.a.eq(h[i], n); c = self.a.or(c, q); }
            if self.decide(s, c)? { return Ok(Some(i as u64)); }
        }
        Ok(None)
    }
    fn opt(v: Option<u64>) -> Option<V> {
        Some(V::Agg(Rc::new(match v { Some(x) => vec![V::C(1), V::C(x)], None => vec![V::C(0), V::C(0)] })))
    }
    fn memcmp_e(&mut self, s: &State, p: u64, q: u64, n: u64, ord: bool) -> R<V> {
        if let (Some(a), Some(b)) = (self.concrete_slice(s, p, n), self.concrete_slice(s, q, n)) {
            let r: i32 = match a.cmp(b) { std::cmp::Ordering::Less => -1, std::cmp::Ordering::Equal => 0, _ => 1 };
            return Ok(V::C(r as u32 as u64));
        }
        let a = self.read_bytes(s, p, n)?;
        let b = self.read_bytes(s, q, n)?;
        if !ord {
            let c = self.eq_at(&a, 0, &b);
            let (z, o) = (self.a.c(0, 32), self.a.c(1, 32));
            let e = self.a.ite(c, z, o);
            return Ok(self.from_e(e));
        }
        let mut r = self.a.c(0, 32);
        for i in (0..n as usize).rev() {
            let q = self.a.eq(a[i], b[i]);
            let lt = self.a.bin(Op::Ult, a[i], b[i]);
            let (m1, o) = (self.a.c(0xffff_ffff, 32), self.a.c(1, 32));
            let d = self.a.ite(lt, m1, o);
            r = self.a.ite(q, r, d);
        }
        Ok(self.from_e(r))
    }

    fn do_alloc(&mut self, s: &mut State, n: u64) -> R<u64> {
        if n > self.mem_limit { return Err(End::Viol("steps".into(), format!("allocation of {} bytes", n))); }
        Ok(s.mem.add(vec![0; n as usize], false, true) << 32)
    }
    fn dealloc(&mut self, s: &mut State, p: u64) -> R<()> {
        if p & 0xffff_ffff != 0 { return Err(End::Viol("memory".into(), "free of interior pointer".into())); }
        match s.mem.get(p >> 32) { Some(o) if o.heap => {} _ => return Err(End::Viol("memory".into(), "invalid free".into())) }
        s.mem.free(p >> 32);
        Ok(())
    }

    fn panic_loc(&self, s: &State, args: &[V]) -> String {
        // the last pointer argument of the panic entry points is a &core::panic::Location
        for v in args.iter().rev() {
            if let V::C(p) = v {
                if let Some(o) = s.mem.get(p >> 32) {
                    let off = (p & 0xffff_ffff) as usize;
                    if off + 24 <= o.data.len() {
                        let rd = |k: usize| u64::from_le_bytes(o.data[off + k..off + k + 8].try_into().unwrap());
                        let (fp, fl) = (rd(0), rd(8));
                        let line = rd(16) as u32;
                        if fl < 400 {
                            if let Some(b) = self.concrete_slice(s, fp, fl) {
                                if let Ok(f) = std::str::from_utf8(b) { if f.ends_with(".rs") || f.ends_with(".rs\0") { return format!("{}:{}", f.trim_end_matches('\0'), line); } }
                            }
                        }
                    }
                }
            }
        }
        "?".into()
    }
    pub fn stack_str(&self, s: &State) -> String {
        let mut r = vec![];
        for f in std::iter::once(&s.top).chain(s.stack.iter().rev().map(|x| &**x)) {
            let d = &self.prog.funcs[f.func as usize].dem;
            r.push(d.clone());
            if r.len() > 14 { break; }
        }
        r.join(" < ")
    }

    fn model_call(&mut self, s: &mut State, m: Model, fi: u32, args: &[Opd]) -> R<Option<V>> {
        use Model::*;
        let av: Vec<V> = args.iter().map(|&o| self.get(s, o)).collect();
        macro_rules! c { ($i:expr) => { { let v = av[$i].clone(); self.conc(s, &v)? } } }
        match m {
            Panic => {
                let name = self.prog.funcs[fi as usize].dem.clone();
                let loc = self.panic_loc(s, &av);
                Err(End::Viol("panic".into(), format!("{} at {}", name, loc)))
            }
            Abort => Err(End::Viol("abort".into(), "abort".into())),
            Alloc => { let n = c!(0); Ok(Some(V::C(self.do_alloc(s, n)?))) }
            AllocZeroed => { let n = c!(0); Ok(Some(V::C(self.do_alloc(s, n)?))) }
            Malloc => { let n = c!(0); Ok(Some(V::C(self.do_alloc(s, n)?))) }
            Calloc => { let (a, b) = (c!(0), c!(1)); Ok(Some(V::C(self.do_alloc(s, a * b)?))) }
            Realloc | CRealloc => {
                let p = c!(0);
                let n = if m == Realloc { c!(3) } else { c!(1) };
                let np = self.do_alloc(s, n)?;
                if p != 0 {
                    let old = match s.mem.get(p >> 32) { Some(o) => o.data.len() as u64, None => return Err(self.oob(s, p, 0, "realloc")) };
                    self.copy(s, np, p, old.min(n))?;
                    self.dealloc(s, p)?;
                }
                Ok(Some(V::C(np)))
            }
            Dealloc | Free => { let p = c!(0); if p != 0 { self.dealloc(s, p)?; } Ok(None) }
            PosixMemalign => { let p = c!(0); let n = c!(2); let q = self.do_alloc(s, n)?; self.store_scalar(s, p, 8, &V::C(q), 64)?; Ok(Some(V::C(0))) }
            Memcmp | Bcmp => {
                let n = c!(2);
                if n == 0 { return Ok(Some(V::C(0))); }
                let (p, q) = (c!(0), c!(1));
                Ok(Some(self.memcmp_e(s, p, q, n, m == Memcmp)?))
            }
            Strlen => {
                let p = c!(0);
                let o = match s.mem.get(p >> 32) { Some(o) => o, None => return Err(self.oob(s, p, 1, "strlen")) };
                let off = (p & 0xffff_ffff) as usize;
                let total = o.data.len();
                let z = self.a.c(0, 8);
                for i in off..total {
                    let e = self.read_bytes(s, ((p >> 32) << 32) + i as u64, 1)?[0];
                    let q = self.a.eq(e, z);
                    if self.decide(s, q)? { return Ok(Some(V::C((i - off) as u64))); }
                }
                Err(self.oob(s, p, total as u64 + 1, "strlen"))
            }
            CMemchr => {
                let n = c!(2);
                let p = c!(0);
                let b = self.to_e(&av[1], 32);
                let b = self.a.extract(b, 0, 8);
                let r = self.find_byte(s, &[b], p, n, false)?;
                Ok(Some(V::C(r.map_or(0, |i| p + i))))
            }
            MemchrFind | SliceMemchr | MemrchrFind | SliceMemrchr => {
                let (p, n) = (c!(1), c!(2));
                let b = self.to_e(&av[0], 8);
                let r = self.find_byte(s, &[b], p, n, matches!(m, MemrchrFind | SliceMemrchr))?;
                Ok(Self::opt(r))
            }
            Memchr2Find => {
                let (p, n) = (c!(2), c!(3));
                let b = [self.to_e(&av[0], 8), self.to_e(&av[1], 8)];
                let r = self.find_byte(s, &b, p, n, false)?;
                Ok(Self::opt(r))
            }
            Memchr3Find => {
                let (p, n) = (c!(3), c!(4));
                let b = [self.to_e(&av[0], 8), self.to_e(&av[1], 8), self.to_e(&av[2], 8)];
                let r = self.find_byte(s, &b, p, n, false)?;
                Ok(Self::opt(r))
            }
            SearcherKind => { let (hp, hl, np, nl) = (c!(2), c!(3), c!(4), c!(5)); let r = self.find(s, hp, hl, np, nl, false)?; Ok(Self::opt(r)) }
            RabinKarp => { let (hp, hl, np, nl) = (c!(1), c!(2), c!(3), c!(4)); let r = self.find(s, hp, hl, np, nl, false)?; Ok(Self::opt(r)) }
            SearcherRev => { let (hp, hl, np, nl) = (c!(1), c!(2), c!(3), c!(4)); let r = self.find(s, hp, hl, np, nl, true)?; Ok(Self::opt(r)) }
            HashKeys => {
                s.nkeys += 1;
                Ok(Some(V::Agg(Rc::new(vec![V::C(s.nkeys << 20), V::C(0)]))))
            }
            HasherWrite | HasherWriteStr => {
                let (p, n) = (c!(1), c!(2));
                let h = c!(0);
                let tag = match self.load_scalar(s, h, 8, 64)? { V::C(x) => x, _ => return Err(End::Unsupported("symbolic hasher".into())) };
                let mut b = self.read_bytes(s, p, n)?;
                if m == HasherWriteStr { b.push(self.a.c(0xff, 8)); }
                let ht = Rc::make_mut(&mut s.hash);
                let (k0, mut seq) = if tag & 0xffff_ffff_0000_0000 == MAGIC {
                    let (k, q) = &ht.seqs[(tag & 0xffff_ffff) as usize];
                    (*k, (**q).clone())
                } else { (tag, vec![]) };
                seq.extend(b);
                let id = ht.seqs.len() as u64;
                ht.seqs.push((k0, Rc::new(seq)));
                self.store_scalar(s, h, 8, &V::C(MAGIC | id), 64)?;
                Ok(None)
            }
            HasherFinish => {
                let h = c!(0);
                let tag = match self.load_scalar(s, h, 8, 64)? { V::C(x) => x, _ => return Err(End::Unsupported("symbolic hasher".into())) };
                let (k0, seq) = if tag & 0xffff_ffff_0000_0000 == MAGIC { s.hash.seqs[(tag & 0xffff_ffff) as usize].clone() } else { (tag, Rc::new(vec![])) };
                let ht = s.hash.clone();
                for (k, q, hv) in &ht.keys {
                    if *k != k0 || q.len() != seq.len() { continue; }
                    let c = self.eq_at(q, 0, &seq);
                    if self.decide(s, c)? { return Ok(Some(V::C(*hv))); }
                }
                let n = ht.keys.iter().filter(|x| x.0 == k0).count() as u64;
                let slot = if (n as u32) < s.hash_mode {
                    let free: Vec<u64> = (0..s.hash_mode as u64).filter(|x| !ht.used.contains(&(k0, *x))).collect();
                    free[self.decide_n(s, free.len() as u64) as usize]
                } else { n };
                let hv = slot | ((n & 0x7f) << 57);
                let ht = Rc::make_mut(&mut s.hash);
                ht.used.push((k0, slot));
                ht.keys.push((k0, seq, hv));
                Ok(Some(V::C(hv)))
            }
            RetZero | StdDetectInit => Ok(Some(V::C(0))),
            RetVoid => Ok(None),
            MvBytes => {
                let (p, n) = (c!(0), c!(1));
                let first = s.nvars;
                if n > 0 {
                    let es: Vec<E> = (0..n as u32).map(|i| self.a.var(first + i)).collect();
                    let (o, off) = self.wr_obj(s, p, n)?;
                    if o.sym.is_empty() { o.sym = vec![0; o.data.len()]; }
                    o.sym[off..off + n as usize].copy_from_slice(&es);
                }
                s.nvars += n as u32;
                let d = Rc::make_mut(&mut s.doms);
                let m = Rc::make_mut(&mut s.model);
                for _ in 0..n { d.push([u64::MAX; 4]); m.push(b'a'); }
                Rc::make_mut(&mut s.draws).push(Draw::Bytes(first, n as u32));
                Ok(None)
            }
            MvChoice => {
                let n = c!(0);
                if n == 0 { return Err(End::Unsupported("choice of 0".into())); }
                let k = self.decide_n(s, n);
                Rc::make_mut(&mut s.draws).push(Draw::Choice(k as u32));
                Ok(Some(V::C(k)))
            }
            MvAssume => {
                let v = self.bool_arg(&av[0]);
                if let Some(c) = self.a.as_const(v) { return if c == 1 { Ok(None) } else { Err(End::Assumed) }; }
                let m = self.eval_model(s, v) == 1;
                if m { self.assert_e(s, v); return Ok(None); }
                match self.feasible(s, v)? {
                    Some(mo) => { s.model = mo; self.assert_e(s, v); Ok(None) }
                    None => Err(End::Assumed),
                }
            }
            MvCheck => {
                let id = c!(1);
                let v = self.bool_arg(&av[0]);
                if self.quiet {
                    if let Some(c) = self.a.as_const(v) { return if c == 1 { Ok(None) } else { Err(End::Assumed) }; }
                    if self.eval_model(s, v) == 1 { self.assert_e(s, v); return Ok(None); }
                    return match self.feasible(s, v)? {
                        Some(mo) => { s.model = mo; self.assert_e(s, v); Ok(None) }
                        None => Err(End::Assumed),
                    };
                }
                self.st.checks += 1;
                if let Some(c) = self.a.as_const(v) {
                    return if c == 1 { Ok(None) } else { Err(End::Viol("check".into(), format!("id {}", id))) };
                }
                self.st.checks_z3 += 1;
                let nv = self.a.not1(v);
                if let Some(mo) = self.feasible(s, nv)? {
                    s.model = mo;
                    self.assert_e(s, nv);
                    return Err(End::Viol("check".into(), format!("id {}", id)));
                }
                Ok(None)
            }
            MvFail if self.quiet => Err(End::Assumed),
            MvFail => { let id = c!(0); Err(End::Viol("check".into(), format!("id {}", id))) }
            MvReach => { let id = c!(0); Rc::make_mut(&mut s.trace).push((0, id, 0)); Ok(None) }
            MvReport => {
                let t = match &av[0] { V::C(x) => (1u8, *x, 0), V::S(e) => (1u8, 0, *e), _ => (1u8, 0, 0) };
                Rc::make_mut(&mut s.trace).push(t);
                Ok(None)
            }
            MvHashMode => { let k = c!(0); s.hash_mode = k as u32; Ok(None) }
            MvConc => { let v = c!(0); Ok(Some(V::C(v))) }
            MvConcBytes => {
                let (p, cap) = (c!(0), c!(1));
                let n = (self.file.len() as u64).min(cap);
                if cap > 0 {
                    let f = std::mem::take(&mut self.file);
                    let (o, off) = self.wr_obj(s, p, n)?;
                    o.data[off..off + n as usize].copy_from_slice(&f[..n as usize]);
                    self.file = f;
                }
                Ok(Some(V::C(self.file.len() as u64)))
            }
        }
    }
    fn bool_arg(&mut self, v: &V) -> E {
        match v {
            V::C(x) => self.a.c((*x & 1) as u128, 1),
            V::S(e) => if self.a.w(*e) == 1 { *e } else { self.a.extract(*e, 0, 1) },
            _ => self.a.fls(),
        }
    }

    // ---------------------------------------------------------------- main loop
    fn set(&self, s: &mut State, d: u32, v: V) { s.top.regs[d as usize] = v; }
    fn jump(&mut self, s: &mut State, b: u32) {
        let prog = self.prog.clone();
        let cur = s.top.block;
        let blk = &prog.funcs[s.top.func as usize].blocks[b as usize];
        self.cov[s.top.func as usize][b as usize] = true;
        match blk.phis.len() {
            0 => {}
            1 => {
                let (d, inc) = &blk.phis[0];
                let o = inc.iter().find(|x| x.0 == cur).unwrap().1;
                let v = self.get(s, o);
                s.top.regs[*d as usize] = v;
            }
            _ => {
                let vals: Vec<(u32, V)> = blk.phis.iter().map(|(d, inc)| (*d, self.get(s, inc.iter().find(|x| x.0 == cur).unwrap().1))).collect();
                for (d, v) in vals { s.top.regs[d as usize] = v; }
            }
        }
        s.top.prev = cur;
        s.top.block = b;
        s.top.ip = 0;
    }

    /// Execute one path until it ends; siblings are pushed on `pending`.
    pub fn run(&mut self, s: &mut State) -> End {
        let prog = self.prog.clone();
        loop {
            // inner loop over the current block
            let f = &prog.funcs[s.top.func as usize];
            let blk = &f.blocks[s.top.block as usize];
            let inst = &blk.insts[s.top.ip as usize];
            s.steps += 1;
            self.st.steps += 1;
            if self.st.steps & 0xffff == 0 {
                if s.steps > self.step_limit || s.mem.live > self.mem_limit { return End::Limit; }
                if std::time::Instant::now() > self.deadline { self.expired = true; return End::Limit; }
            }
            match self.step(&prog, s, inst) {
                Ok(true) => { s.top.ip += 1; }
                Ok(false) => {}
                Err(e) => return e,
            }
            if !s.dlog.is_empty() { s.dlog.clear(); }
            s.dpos = 0;
            s.enums = 0;
        }
    }
    fn lanes2(&mut self, a: V, b: V, mut f: impl FnMut(&mut Self, &V, &V) -> V) -> V {
        match (&a, &b) {
            (V::Agg(x), V::Agg(y)) => { let r = (0..x.len()).map(|i| f(self, &x[i], &y[i])).collect(); V::Agg(Rc::new(r)) }
            _ => f(self, &a, &b),
        }
    }

    fn step(&mut self, prog: &Rc<Program>, s: &mut State, inst: &Inst) -> R<bool> {
        match inst {
            Inst::Bin { dst, op, a, b, w, lanes } => {
                if *lanes == 0 {
                    let r = {
                        let va = if a & KC != 0 { &prog.consts[(a & !KC) as usize] } else { &s.top.regs[*a as usize] };
                        let vb = if b & KC != 0 { &prog.consts[(b & !KC) as usize] } else { &s.top.regs[*b as usize] };
                        // integer division by a possibly-zero symbolic divisor never happens unguarded in safe Rust
                        self.bin1(*op, va, vb, *w)
                    };
                    s.top.regs[*dst as usize] = r;
                } else {
                    let (x, y) = (self.get(s, *a), self.get(s, *b));
                    let (op, w) = (*op, *w);
                    let r = self.lanes2(x, y, |m, p, q| m.bin1(op, p, q, w));
                    self.set(s, *dst, r);
                }
            }
            Inst::FNeg { dst, a, w, .. } => {
                let v = self.get(s, *a);
                let k = Self::mkc(1u128 << (w - 1), *w);
                let w = *w;
                let r = match &v {
                    V::Agg(x) => { let r = x.iter().map(|p| self.bin1(BOp::Xor, p, &k, w)).collect(); V::Agg(Rc::new(r)) }
                    _ => self.bin1(BOp::Xor, &v, &k, w),
                };
                self.set(s, *dst, r);
            }
            Inst::ICmp { dst, pred, a, b, w, lanes } => {
                if *lanes == 0 {
                    let r = {
                        let va = if a & KC != 0 { &prog.consts[(a & !KC) as usize] } else { &s.top.regs[*a as usize] };
                        let vb = if b & KC != 0 { &prog.consts[(b & !KC) as usize] } else { &s.top.regs[*b as usize] };
                        self.icmp1(*pred, va, vb, *w)
                    };
                    s.top.regs[*dst as usize] = r;
                } else {
                    let (x, y) = (self.get(s, *a), self.get(s, *b));
                    let (p_, w) = (*pred, *w);
                    let r = self.lanes2(x, y, |m, p, q| m.icmp1(p_, p, q, w));
                    self.set(s, *dst, r);
                }
            }
            Inst::FCmp { dst, pred, a, b, w, .. } => {
                let (x, y) = (self.get(s, *a), self.get(s, *b));
                let (p_, w) = (*pred, *w);
                let r = self.lanes2(x, y, |m, p, q| m.fcmp1(p_, p, q, w));
                self.set(s, *dst, r);
            }
            Inst::Cast { dst, k, a, fw, tw, .. } => {
                let v = self.get(s, *a);
                let r = if *k == CastK::Move { v } else {
                    match &v {
                        V::Agg(x) => { let r = x.iter().map(|p| self.cast1(*k, p, *fw, *tw)).collect(); V::Agg(Rc::new(r)) }
                        V::S(e) if *k == CastK::ZExt && *fw == 1 && *tw == 64 => V::C(self.decide(s, *e)? as u64),
                        _ => self.cast1(*k, &v, *fw, *tw),
                    }
                };
                self.set(s, *dst, r);
            }
            Inst::BitCast { dst, a, from, to } => {
                let v = self.get(s, *a);
                let e = match &v { V::Agg(xs) => {
                    let total = xs.len() as u16 * from.elem().bits();
                    if total > 128 { return Err(End::Unsupported("bitcast >128".into())); }
                    self.vec_to_int(xs, from.elem().bits())
                } _ => self.to_e(&v, from.bits()) };
                let r = if let Ty::Vec(n, t) = to {
                    let w = t.bits();
                    let r = (0..*n).map(|i| { let x = self.a.extract(e, i as u16 * w, w); self.from_e(x) }).collect();
                    V::Agg(Rc::new(r))
                } else { self.from_e(e) };
                self.set(s, *dst, r);
            }
            Inst::Select { dst, c, a, b, ty, clanes } => {
                let cv = self.get(s, *c);
                let r = match &cv {
                    V::C(x) => self.get(s, if *x & 1 == 1 { *a } else { *b }),
                    V::Agg(cs) => {
                        let (x, y) = (self.get(s, *a), self.get(s, *b));
                        if let (V::Agg(x), V::Agg(y)) = (x, y) {
                            let t = ty.elem().clone();
                            let mut r = vec![];
                            for i in 0..*clanes as usize {
                                let ce = self.to_e(&cs[i], 1);
                                r.push(self.ite_v(ce, &x[i], &y[i], &t));
                            }
                            V::Agg(Rc::new(r))
                        } else { return Err(End::Unsupported("vector select".into())) }
                    }
                    V::S(e) => {
                        // selecting between pointers or word-sized integers (offsets, lengths): fork, so that
                        // addresses stay concrete
                        if *ty == Ty::Ptr || (*ty == Ty::Int(64)) {
                            let k = self.decide(s, *e)?;
                            self.get(s, if k { *a } else { *b })
                        } else {
                            let (x, y) = (self.get(s, *a), self.get(s, *b));
                            self.ite_v(*e, &x, &y, ty)
                        }
                    }
                    _ => return Err(End::Unsupported("select".into())),
                };
                self.set(s, *dst, r);
            }
            Inst::Alloca { dst, size, n } => {
                let k = self.cop(s, *n)?;
                let id = s.mem.add(vec![0; (*size * k) as usize], false, false);
                s.top.allocas.push(id);
                self.set(s, *dst, V::C(id << 32));
            }
            Inst::Load { dst, p, ty } => {
                let r = match self.get_c(s, *p) {
                    Some(a) => self.load_ty(s, a, ty)?,
                    None => match self.get(s, *p) { V::S(e) => self.load_sym(s, e, ty)?, _ => return Err(End::Unsupported("load ptr".into())) },
                };
                self.set(s, *dst, r);
            }
            Inst::Store { p, v, ty } => {
                let a = self.cop(s, *p)?;
                let v = self.get(s, *v);
                self.store_ty(s, a, &v, ty)?;
            }
            Inst::Gep { dst, base, off, idx } => {
                let bv = self.get(s, *base);
                let mut conc = if let V::C(x) = bv { Some(x.wrapping_add(*off as u64)) } else { None };
                if conc.is_some() {
                    for (o, w, sc) in idx.iter() {
                        match self.get_c(s, *o) {
                            Some(k) => {
                                let sh = 64 - *w;
                                let k = ((k << sh) as i64) >> sh;
                                conc = conc.map(|c| c.wrapping_add(k.wrapping_mul(*sc) as u64));
                            }
                            None => { conc = None; break; }
                        }
                    }
                }
                let r = if let Some(c) = conc { V::C(c) } else {
                    let mut e = self.to_e(&bv, 64);
                    for (o, w, sc) in idx.iter() {
                        let v = self.get(s, *o);
                        let x = self.to_e(&v, *w);
                        let x = self.a.sext(x, 64);
                        let k = self.a.c(*sc as u64 as u128, 64);
                        let x = self.a.bin(Op::Mul, x, k);
                        e = self.a.bin(Op::Add, e, x);
                    }
                    let k = self.a.c(*off as u64 as u128, 64);
                    let e = self.a.bin(Op::Add, e, k);
                    self.from_e(e)
                };
                self.set(s, *dst, r);
            }
            Inst::Br(b) => { self.jump(s, *b); return Ok(false); }
            Inst::CondBr(c, t, f) => {
                let k = match self.get_c(s, *c) {
                    Some(x) => x & 1 == 1,
                    None => match self.get(s, *c) { V::S(e) => self.decide(s, e)?, _ => return Err(End::Unsupported("br".into())) },
                };
                self.jump(s, if k { *t } else { *f });
                return Ok(false);
            }
            Inst::Switch { v, w, cases, def } => {
                let x = self.get(s, *v);
                let mut tgt = *def;
                if let Some(k) = Self::wide(&x) {
                    for (c, b) in cases.iter() { if *c == k { tgt = *b; break; } }
                } else {
                    let e = self.to_e(&x, *w);
                    // group cases by target so that e.g. `b' ' | b'\t'` is one decision
                    let mut seen: Vec<u32> = vec![];
                    for (_, b) in cases.iter() {
                        if *b == *def || seen.contains(b) { continue; }
                        seen.push(*b);
                        let mut c = self.a.fls();
                        for (cv, b2) in cases.iter() { if b2 == b { let k = self.a.c(*cv, *w); let q = self.a.eq(e, k); c = self.a.or(c, q); } }
                        if self.decide(s, c)? { tgt = *b; break; }
                    }
                }
                self.jump(s, tgt);
                return Ok(false);
            }
            Inst::Ret(v) => {
                let r = v.map(|o| self.get(s, o));
                for &id in &s.top.allocas { s.mem.free(id); }
                match s.stack.pop() {
                    None => return Err(End::Ok),
                    Some(fr) => {
                        let (ret, then) = (s.top.ret, s.top.then);
                        s.top = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        if let (Some(d), Some(v)) = (ret, r) { s.top.regs[d as usize] = v; }
                        if let Some(b) = then { self.jump(s, b); } else { s.top.ip += 1; }
                        return Ok(false);
                    }
                }
            }
            Inst::Unreachable => return Err(End::Viol("unreachable".into(), "unreachable executed".into())),
            Inst::Call { dst, callee, args, then, .. } => {
                let fi = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Ind(o) => {
                        let p = self.cop(s, *o)?;
                        let id = p >> 32;
                        if id < FN_ID || (id - FN_ID) as usize >= prog.funcs.len() { return Err(End::Viol("memory".into(), format!("call through bad pointer {:x}", p))); }
                        (id - FN_ID) as u32
                    }
                    Callee::Intr(k, ty) => {
                        let r = self.intrinsic(s, *k, ty, args)?;
                        if let (Some(d), Some(v)) = (dst, r) { self.set(s, *d, v); }
                        if let Some(b) = then { self.jump(s, *b); return Ok(false); }
                        return Ok(true);
                    }
                    Callee::Bad(n) => return Err(End::Unsupported(format!("call {}", n))),
                };
                let f = &prog.funcs[fi as usize];
                if f.blocks.is_empty() {
                    let r = match f.model {
                        Some(m) => self.model_call(s, m, fi, args)?,
                        None => self.extern_call(s, &f.name, args)?,
                    };
                    if let (Some(d), Some(v)) = (dst, r) { self.set(s, *d, v); }
                    if let Some(b) = then { self.jump(s, *b); return Ok(false); }
                    return Ok(true);
                }
                let mut regs = vec![V::C(0); f.nregs as usize];
                for (i, &o) in args.iter().enumerate() { if i < f.nparams as usize { regs[i] = self.get(s, o); } }
                if s.stack.len() > 400 { return Err(End::Viol("stack".into(), "recursion deeper than 400 frames".into())); }
                let nf = Frame { func: fi, block: 0, ip: 0, prev: 0, regs, allocas: vec![], ret: *dst, then: *then };
                let old = std::mem::replace(&mut s.top, nf);
                s.stack.push(Rc::new(old));
                self.cov[fi as usize][0] = true;
                return Ok(false);
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut v = self.get(s, *a);
                for &i in path.iter() { v = match &v { V::Agg(x) => x[i as usize].clone(), _ => return Err(End::Unsupported("extractvalue".into())) }; }
                self.set(s, *dst, v);
            }
            Inst::InsertValue { dst, a, v, path } => {
                let base = self.get(s, *a);
                let x = self.get(s, *v);
                fn ins(b: V, p: &[u32], x: V) -> V {
                    if p.is_empty() { return x; }
                    if let V::Agg(mut r) = b {
                        let m = Rc::make_mut(&mut r);
                        let i = p[0] as usize;
                        let old = std::mem::replace(&mut m[i], V::C(0));
                        m[i] = ins(old, &p[1..], x);
                        V::Agg(r)
                    } else { b }
                }
                let r = ins(base, path, x);
                self.set(s, *dst, r);
            }
            Inst::ExtractElem { dst, a, i } => {
                let k = self.cop(s, *i)?;
                if let V::Agg(x) = self.get(s, *a) { let v = x.get(k as usize).cloned().unwrap_or(V::C(0)); self.set(s, *dst, v); }
                else { return Err(End::Unsupported("extractelement".into())); }
            }
            Inst::InsertElem { dst, a, v, i } => {
                let k = self.cop(s, *i)? as usize;
                let x = self.get(s, *v);
                if let V::Agg(mut r) = self.get(s, *a) { Rc::make_mut(&mut r)[k] = x; self.set(s, *dst, V::Agg(r)); }
                else { return Err(End::Unsupported("insertelement".into())); }
            }
            Inst::Shuffle { dst, a, b, mask } => {
                if let (V::Agg(x), V::Agg(y)) = (self.get(s, *a), self.get(s, *b)) {
                    let n = x.len() as i32;
                    let r = mask.iter().map(|&m| if m < 0 { x[0].clone() } else if m < n { x[m as usize].clone() } else { y[(m - n) as usize].clone() }).collect();
                    self.set(s, *dst, V::Agg(Rc::new(r)));
                } else { return Err(End::Unsupported("shuffle".into())); }
            }
            Inst::CmpXchg { dst, p, cmp, new, ty } => {
                let a = self.cop(s, *p)?;
                let old = self.load_ty(s, a, ty)?;
                let (c, n) = (self.get(s, *cmp), self.get(s, *new));
                let q = self.icmp1(32, &old, &c, ty.bits());
                let ok = match q { V::C(x) => x == 1, V::S(e) => self.decide(s, e)?, _ => false };
                if ok { self.store_ty(s, a, &n, ty)?; }
                self.set(s, *dst, V::Agg(Rc::new(vec![old, V::C(ok as u64)])));
            }
            Inst::Rmw { dst, op, p, v, ty } => {
                let a = self.cop(s, *p)?;
                let old = self.load_ty(s, a, ty)?;
                let x = self.get(s, *v);
                let w = ty.bits();
                let n = match op {
                    0 => x, 1 => self.bin1(BOp::Add, &old, &x, w), 2 => self.bin1(BOp::Sub, &old, &x, w),
                    3 => self.bin1(BOp::And, &old, &x, w), 5 => self.bin1(BOp::Or, &old, &x, w), 6 => self.bin1(BOp::Xor, &old, &x, w),
                    _ => return Err(End::Unsupported("atomicrmw".into())),
                };
                self.store_ty(s, a, &n, ty)?;
                self.set(s, *dst, old);
            }
            Inst::Nop => {}
            Inst::Unsupported(w) => return Err(End::Unsupported(w.to_string())),
        }
        Ok(true)
    }
    fn extern_call(&mut self, _s: &mut State, name: &str, _args: &[Opd]) -> R<Option<V>> {
        Err(End::Unsupported(format!("external function {}", name)))
    }

    // ---------------------------------------------------------------- path ends
    pub fn draws_str(&self, s: &State) -> String {
        let mut r = vec![];
        for d in s.draws.iter() {
            match d {
                Draw::Bytes(f, n) => {
                    let h: String = (0..*n).map(|i| format!("{:02x}", s.model[(f + i) as usize])).collect();
                    r.push(format!("b:{}", h));
                }
                Draw::Choice(k) => r.push(format!("c:{}", k)),
            }
        }
        r.join(" ")
    }
    pub fn trace_str(&mut self, s: &State) -> String {
        let mut r = vec![];
        let t = s.trace.clone();
        for (k, v, e) in t.iter() {
            let x = if *e != 0 { self.eval_model(s, *e) as u64 } else { *v };
            r.push(format!("{}{}", if *k == 0 { "r" } else { "v" }, x));
        }
        r.join(" ")
    }
    pub fn finish(&mut self, mut s: State, e: End) {
        if s.steps > self.st.maxpathsteps { self.st.maxpathsteps = s.steps; }
        for (k, id, _) in s.trace.iter() { if *k == 0 && !matches!(e, End::Assumed) { *self.reach.entry(*id).or_insert(0) += 1; } }
        match e {
            End::Ok => {
                self.st.paths += 1;
                // representative of this path: solve the whole residual path condition once (counted) and keep a sample
                if self.st.paths % self.sample_rate == 0 && self.samples.len() < self.max_samples {
                    let d = self.draws_str(&s);
                    let t = self.trace_str(&s);
                    self.samples.push((d, t));
                    if self.samples.len() == self.max_samples / 2 { self.sample_rate *= 4; }
                }
            }
            End::Assumed => self.st.assumed += 1,
            End::Viol(k, d) => {
                self.st.viols += 1;
                if self.viols.len() < 6 {
                    let st = self.stack_str(&s);
                    let dr = self.draws_str(&s);
                    let tr = self.trace_str(&s);
                    self.viols.push(Violation { kind: k, detail: d, draws: dr, stack: st, trace: tr });
                }
            }
            End::Unsupported(w) => { self.st.unsupported += 1; let st = self.stack_str(&s); *self.unsup.entry(format!("{} @ {}", w, st)).or_insert(0) += 1; }
            End::Unknown => self.st.unknown += 1,
            End::Limit => {
                if self.expired { self.st.dropped += 1; } else {
                    self.st.limit += 1;
                    if self.viols.len() < 6 {
                        let st = self.stack_str(&s);
                        let dr = self.draws_str(&s);
                        self.viols.push(Violation { kind: "steps".into(), detail: if s.mem.live > self.mem_limit { format!("more than {} MB allocated", self.mem_limit >> 20) } else { format!("more than {} instructions", self.step_limit) }, draws: dr, stack: st, trace: String::new() });
                    }
                }
            }
        }
        s.dlog.clear();
    }
}
