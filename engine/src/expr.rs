//! Hash-consed bit-vector (and IEEE float) expression DAG with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;
pub type VS = u32; // interned variable set

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    FAdd, FSub, FMul, FDiv, FRem, FMin, FMax,
    // float comparisons: ordered eq/lt/le and unordered test
    FOeq, FOlt, FOle, FUno,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Un {
    ZExt, SExt,
    FpToUi, FpToSi, UiToFp, SiToFp, FpExt, FpTrunc,
    FRound, FRoundEven, FFloor, FCeil, FTrunc, FSqrt,
    Ctpop, Ctlz, Cttz,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Un(Un, E),
    Extract(E, u16),
    Concat(E, E), // hi, lo
    Ite(E, E, E),
    Table(E, u32), // index expr, table id: total map index -> value (default for others)
}

pub struct TableDef {
    pub entries: Vec<(u128, u128)>, // sorted by index
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u16>,
    pub vars: Vec<VS>,
    pub umaxs: Vec<u128>,
    pub has_fp: Vec<bool>,
    map: HashMap<(Node, u16), E>,
    pub vsets: Vec<Rc<Vec<u16>>>,
    vmap: HashMap<Vec<u16>, VS>,
    vunion: HashMap<(VS, VS), VS>,
    pub tables: Vec<TableDef>,
    tmap: HashMap<Vec<(u128, u128)>, u32>,
    pub tt: HashMap<E, Rc<[u128; 256]>>,
    pub ttb: HashMap<E, [u64; 4]>,
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) }
}

fn f32b(v: u128) -> f32 { f32::from_bits(v as u32) }
fn f64b(v: u128) -> f64 { f64::from_bits(v as u64) }

pub fn eval_bin(op: Op, a: u128, b: u128, w: u16) -> u128 {
    // w: operand width
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            if b == 0 { if sx(a, w) < 0 { 1 } else { m } } else { (sx(a, w).wrapping_div(sx(b, w)) as u128) & m }
        }
        Op::SRem => if b == 0 { a } else { (sx(a, w).wrapping_rem(sx(b, w)) as u128) & m },
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = sx(a, w);
            let sh = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((s >> sh) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => {
            if w == 32 {
                let (x, y) = (f32b(a), f32b(b));
                match op {
                    Op::FAdd => (x + y).to_bits() as u128,
                    Op::FSub => (x - y).to_bits() as u128,
                    Op::FMul => (x * y).to_bits() as u128,
                    Op::FDiv => (x / y).to_bits() as u128,
                    Op::FRem => (x % y).to_bits() as u128,
                    Op::FMin => x.min(y).to_bits() as u128,
                    Op::FMax => x.max(y).to_bits() as u128,
                    Op::FOeq => (x == y) as u128,
                    Op::FOlt => (x < y) as u128,
                    Op::FOle => (x <= y) as u128,
                    Op::FUno => (x.is_nan() || y.is_nan()) as u128,
                    _ => unreachable!(),
                }
            } else {
                let (x, y) = (f64b(a), f64b(b));
                match op {
                    Op::FAdd => (x + y).to_bits() as u128,
                    Op::FSub => (x - y).to_bits() as u128,
                    Op::FMul => (x * y).to_bits() as u128,
                    Op::FDiv => (x / y).to_bits() as u128,
                    Op::FRem => (x % y).to_bits() as u128,
                    Op::FMin => x.min(y).to_bits() as u128,
                    Op::FMax => x.max(y).to_bits() as u128,
                    Op::FOeq => (x == y) as u128,
                    Op::FOlt => (x < y) as u128,
                    Op::FOle => (x <= y) as u128,
                    Op::FUno => (x.is_nan() || y.is_nan()) as u128,
                    _ => unreachable!(),
                }
            }
        }
    }
}

pub fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FOeq | Op::FOlt | Op::FOle | Op::FUno)
}

pub fn eval_un(u: Un, a: u128, w: u16, rw: u16) -> u128 {
    match u {
        Un::ZExt => a,
        Un::SExt => (sx(a, w) as u128) & mask(rw),
        Un::Ctpop => a.count_ones() as u128,
        Un::Ctlz => (a.leading_zeros() - (128 - w as u32)) as u128,
        Un::Cttz => if a == 0 { w as u128 } else { a.trailing_zeros() as u128 },
        Un::FpToUi => {
            let x = if w == 32 { f32b(a) as f64 } else { f64b(a) };
            let m = mask(rw);
            if x.is_nan() { 0 } else { let t = x as u128; if t > m { m } else { t } }
        }
        Un::FpToSi => {
            let x = if w == 32 { f32b(a) as f64 } else { f64b(a) };
            if x.is_nan() { 0 } else {
                let t = x as i128;
                let hi = (mask(rw) >> 1) as i128;
                let lo = -hi - 1;
                (t.clamp(lo, hi) as u128) & mask(rw)
            }
        }
        Un::UiToFp => if rw == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Un::SiToFp => {
            let s = sx(a, w);
            if rw == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }
        }
        Un::FpExt => (f32b(a) as f64).to_bits() as u128,
        Un::FpTrunc => (f64b(a) as f32).to_bits() as u128,
        _ => {
            if w == 32 {
                let x = f32b(a);
                (match u {
                    Un::FRound => x.round(),
                    Un::FRoundEven => x.round_ties_even(),
                    Un::FFloor => x.floor(),
                    Un::FCeil => x.ceil(),
                    Un::FTrunc => x.trunc(),
                    Un::FSqrt => x.sqrt(),
                    _ => unreachable!(),
                }).to_bits() as u128
            } else {
                let x = f64b(a);
                (match u {
                    Un::FRound => x.round(),
                    Un::FRoundEven => x.round_ties_even(),
                    Un::FFloor => x.floor(),
                    Un::FCeil => x.ceil(),
                    Un::FTrunc => x.trunc(),
                    Un::FSqrt => x.sqrt(),
                    _ => unreachable!(),
                }).to_bits() as u128
            }
        }
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![], width: vec![], vars: vec![], umaxs: vec![], has_fp: vec![],
            map: HashMap::new(), vsets: vec![Rc::new(vec![])], vmap: HashMap::new(), vunion: HashMap::new(),
            tables: vec![], tmap: HashMap::new(), tt: HashMap::new(), ttb: HashMap::new(),
        };
        a.vmap.insert(vec![], 0);
        a
    }
    fn vs_single(&mut self, v: u16) -> VS {
        self.vs_intern(vec![v])
    }
    fn vs_intern(&mut self, v: Vec<u16>) -> VS {
        if let Some(&x) = self.vmap.get(&v) { return x; }
        let id = self.vsets.len() as VS;
        self.vsets.push(Rc::new(v.clone()));
        self.vmap.insert(v, id);
        id
    }
    pub fn vs_union(&mut self, a: VS, b: VS) -> VS {
        if a == b || b == 0 { return a; }
        if a == 0 { return b; }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&x) = self.vunion.get(&k) { return x; }
        let (x, y) = (self.vsets[a as usize].clone(), self.vsets[b as usize].clone());
        let mut r: Vec<u16> = x.iter().chain(y.iter()).cloned().collect();
        r.sort_unstable();
        r.dedup();
        let id = self.vs_intern(r);
        self.vunion.insert(k, id);
        id
    }
    pub fn w(&self, e: E) -> u16 { self.width[e as usize] }
    pub fn node(&self, e: E) -> &Node { &self.nodes[e as usize] }
    pub fn as_const(&self, e: E) -> Option<u128> {
        if let Node::Const(c) = self.nodes[e as usize] { Some(c) } else { None }
    }
    pub fn varset(&self, e: E) -> Rc<Vec<u16>> { self.vsets[self.vars[e as usize] as usize].clone() }
    pub fn single_var(&self, e: E) -> Option<u16> {
        let s = &self.vsets[self.vars[e as usize] as usize];
        if s.len() == 1 { Some(s[0]) } else { None }
    }

    fn mk(&mut self, n: Node, w: u16) -> E {
        if let Some(&e) = self.map.get(&(n.clone(), w)) { return e; }
        let id = self.nodes.len() as E;
        let (vs, umax, fp) = match &n {
            Node::Const(c) => (0, *c, false),
            Node::Var(v) => (self.vs_single(*v as u16), mask(w), false),
            Node::Bin(op, a, b) => {
                let (a, b) = (*a, *b);
                let vs = { let (x, y) = (self.vars[a as usize], self.vars[b as usize]); self.vs_union(x, y) };
                let (ma, mb) = (self.umaxs[a as usize], self.umaxs[b as usize]);
                let m = mask(w);
                let um = match op {
                    Op::Add => ma.checked_add(mb).map_or(m, |x| x.min(m).max(if x > m { m } else { x })),
                    Op::Mul => ma.checked_mul(mb).map_or(m, |x| if x > m { m } else { x }),
                    Op::And => ma.min(mb),
                    Op::Or | Op::Xor => {
                        let t = ma | mb;
                        if t == 0 { 0 } else { (mask(128 - t.leading_zeros() as u16)).min(m) }
                    }
                    Op::UDiv => if let Node::Const(c) = self.nodes[b as usize] { if c > 0 { ma / c } else { m } } else { m },
                    Op::URem => if let Node::Const(c) = self.nodes[b as usize] { if c > 0 { ma.min(c - 1) } else { m } } else { ma },
                    Op::LShr => if let Node::Const(c) = self.nodes[b as usize] { if c < 128 { ma >> c } else { 0 } } else { ma },
                    Op::Shl => if let Node::Const(c) = self.nodes[b as usize] {
                        if c < 64 && ma < (1u128 << 63) { let x = ma << c; if x > m { m } else { x } } else { m } } else { m },
                    _ => m,
                };
                let fp = self.has_fp[a as usize] || self.has_fp[b as usize]
                    || matches!(op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FMin | Op::FMax | Op::FOeq | Op::FOlt | Op::FOle | Op::FUno);
                (vs, um, fp)
            }
            Node::Un(u, a) => {
                let ma = self.umaxs[*a as usize];
                let wa = self.width[*a as usize];
                let um = match u {
                    Un::ZExt => ma,
                    Un::SExt => if ma <= mask(wa) >> 1 { ma } else { mask(w) },
                    Un::Ctpop | Un::Ctlz | Un::Cttz => wa as u128,
                    _ => mask(w),
                };
                let fp = self.has_fp[*a as usize] || !matches!(u, Un::ZExt | Un::SExt | Un::Ctpop | Un::Ctlz | Un::Cttz);
                (self.vars[*a as usize], um, fp)
            }
            Node::Extract(a, lo) => {
                let ma = self.umaxs[*a as usize];
                let um = (if *lo < 128 { ma >> *lo } else { 0 }).min(mask(w));
                (self.vars[*a as usize], um, self.has_fp[*a as usize])
            }
            Node::Concat(h, l) => {
                let vs = { let (x, y) = (self.vars[*h as usize], self.vars[*l as usize]); self.vs_union(x, y) };
                let lw = self.width[*l as usize];
                let mh = self.umaxs[*h as usize];
                let um = if mh == 0 { self.umaxs[*l as usize] } else { (mh << lw) | mask(lw) };
                (vs, um, self.has_fp[*h as usize] || self.has_fp[*l as usize])
            }
            Node::Ite(c, a, b) => {
                let (c, a, b) = (*c, *a, *b);
                let x = self.vars[c as usize];
                let y = self.vars[a as usize];
                let z = self.vars[b as usize];
                let t = self.vs_union(x, y);
                let vs = self.vs_union(t, z);
                (vs, self.umaxs[a as usize].max(self.umaxs[b as usize]),
                 self.has_fp[a as usize] || self.has_fp[b as usize] || self.has_fp[c as usize])
            }
            Node::Table(i, t) => {
                let um = self.tables[*t as usize].entries.iter().map(|x| x.1).max().unwrap_or(0);
                (self.vars[*i as usize], um, self.has_fp[*i as usize])
            }
        };
        self.nodes.push(n.clone());
        self.width.push(w);
        self.vars.push(vs);
        self.umaxs.push(umax);
        self.has_fp.push(fp);
        self.map.insert((n, w), id);
        id
    }

    pub fn c(&mut self, v: u128, w: u16) -> E { self.mk(Node::Const(v & mask(w)), w) }
    pub fn tru(&mut self) -> E { self.c(1, 1) }
    pub fn fls(&mut self) -> E { self.c(0, 1) }
    pub fn var(&mut self, v: u32) -> E { self.mk(Node::Var(v), 8) }

    pub fn not1(&mut self, e: E) -> E {
        // boolean not (width 1)
        debug_assert_eq!(self.w(e), 1);
        if let Some(c) = self.as_const(e) { return self.c(1 - c, 1); }
        match self.node(e).clone() {
            Node::Bin(Op::Ult, a, b) => self.bin(Op::Ule, b, a),
            Node::Bin(Op::Ule, a, b) => self.bin(Op::Ult, b, a),
            Node::Bin(Op::Slt, a, b) => self.bin(Op::Sle, b, a),
            Node::Bin(Op::Sle, a, b) => self.bin(Op::Slt, b, a),
            Node::Bin(Op::Xor, a, b) if self.as_const(b) == Some(1) => a,
            _ => {
                let one = self.c(1, 1);
                self.mk(Node::Bin(Op::Xor, e, one), 1)
            }
        }
    }

    /// x - x / k * k (`b` is the product, with -k if `neg`), possibly truncated: the remainder.
    fn rem(&mut self, a: E, b: E, neg: bool) -> Option<E> {
        let w = self.w(a);
        let Node::Bin(Op::Mul, q, k) = *self.node(b) else { return None };
        let k = self.as_const(k)?;
        let k = if neg { 0u128.wrapping_sub(k) & mask(w) } else { k };
        let d = match *self.node(q) { Node::Extract(d, 0) => d, _ => q };
        let Node::Bin(Op::UDiv, x, k2) = *self.node(d) else { return None };
        if self.as_const(k2)? != k { return None; }
        let xw = self.w(x);
        let xe = if xw == w { x } else { self.extract(x, 0, w) };
        if xe != a { return None; }
        let r = self.bin(Op::URem, x, k2);
        Some(if xw == w { r } else { self.extract(r, 0, w) })
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if is_cmp(op) { 1 } else { w };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = eval_bin(op, x, y, w);
            return self.c(v, rw);
        }
        let m = mask(w);
        // canonical: const on the right for commutative ops
        if ca.is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            return self.bin(op, b, a);
        }
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let (Some(k), Node::Bin(Op::Add, x, y)) = (cb, self.node(a).clone()) {
                    if let Some(k2) = self.as_const(y) {
                        let kk = self.c(k.wrapping_add(k2), w);
                        return self.bin(Op::Add, x, kk);
                    }
                }
                if w == 1 { return self.bin(Op::Xor, a, b); }
                for (x, y) in [(a, b), (b, a)] { if let Some(r) = self.rem(x, y, true) { return r; } }
            }
            Op::Sub => {
                if let Some(r) = self.rem(a, b, false) { return r; }
                if cb == Some(0) { return a; }
                if a == b { return self.c(0, w); }
                if let Some(k) = cb {
                    let kk = self.c(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, kk);
                }
                if let Node::Bin(Op::Add, x, y) = self.node(a).clone() {
                    if x == b { return y; }
                    if y == b { return x; }
                }
            }
            Op::Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, s);
                } }
            }
            Op::UDiv => {
                if cb == Some(1) { return a; }
                if let Some(k) = cb { if k.is_power_of_two() {
                    let s = self.c(k.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, s);
                }
                if self.umaxs[a as usize] < k { return self.c(0, w); } }
            }
            Op::URem => {
                if let Some(k) = cb { if k.is_power_of_two() {
                    let s = self.c(k - 1, w);
                    return self.bin(Op::And, a, s);
                }
                if self.umaxs[a as usize] < k { return a; } }
            }
            Op::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if a == b { return a; }
                if let Some(k) = cb {
                    // low mask -> zext(extract)
                    if k != 0 && (k & (k + 1)) == 0 {
                        let n = 128 - k.leading_zeros() as u16;
                        if self.umaxs[a as usize] <= k { return a; }
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    if let Node::Un(Un::ZExt, x) = *self.node(a) {
                        let xw = self.w(x);
                        let kk = self.c(k, xw);
                        let y = self.bin(Op::And, x, kk);
                        return self.zext(y, w);
                    }
                    if let Node::Bin(Op::And, x, y) = *self.node(a) {
                        if let Some(k2) = self.as_const(y) {
                            let kk = self.c(k & k2, w);
                            return self.bin(Op::And, x, kk);
                        }
                    }
                }
                if w == 1 {
                    if self.is_neg_of(a, b) { return self.c(0, 1); }
                }
            }
            Op::Or => {
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                if a == b { return a; }
                if w == 1 && self.is_neg_of(a, b) { return self.c(1, 1); }
                // disjoint concat: (zext x) | (y << k) with width(x) <= k
                if let Some(r) = self.or_concat(a, b, w) { return r; }
                if let Some(r) = self.or_concat(b, a, w) { return r; }
            }
            Op::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.c(0, w); }
                if w == 1 && cb == Some(1) { return self.not1_raw(a); }
                if let (Some(k), Node::Bin(Op::Xor, x, y)) = (cb, self.node(a).clone()) {
                    if let Some(k2) = self.as_const(y) {
                        let kk = self.c(k ^ k2, w);
                        return self.bin(Op::Xor, x, kk);
                    }
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        if op != Op::AShr { return self.c(0, w); }
                    } else {
                        let k = k as u16;
                        match op {
                            Op::Shl => {
                                let lo = self.extract(a, 0, w - k);
                                let z = self.c(0, k);
                                return self.concat(lo, z);
                            }
                            Op::LShr => {
                                let hi = self.extract(a, k, w - k);
                                return self.zext(hi, w);
                            }
                            _ => {
                                let hi = self.extract(a, k, w - k);
                                return self.sext(hi, w);
                            }
                        }
                    }
                }
                if ca == Some(0) { return a; }
            }
            Op::Eq => {
                if a == b { return self.tru(); }
                if w == 1 {
                    if let Some(k) = cb {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                }
                if let Some(k) = cb {
                    if k > self.umaxs[a as usize] { return self.fls(); }
                    match self.node(a).clone() {
                        Node::Un(Un::ZExt, x) => {
                            let xw = self.w(x);
                            let kk = self.c(k, xw);
                            return self.bin(Op::Eq, x, kk);
                        }
                        Node::Un(Un::SExt, x) => {
                            let xw = self.w(x);
                            let kv = k & mask(xw);
                            if (sx(kv, xw) as u128) & m != k { return self.fls(); }
                            let kk = self.c(kv, xw);
                            return self.bin(Op::Eq, x, kk);
                        }
                        Node::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.c(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, x, kk);
                            }
                        }
                        Node::Bin(Op::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.c(k ^ k2, w);
                                return self.bin(Op::Eq, x, kk);
                            }
                        }
                        Node::Ite(c, x, y) => {
                            if let (Some(x), Some(y)) = (self.as_const(x), self.as_const(y)) {
                                return match (x == k, y == k) {
                                    (true, true) => self.tru(),
                                    (true, false) => c,
                                    (false, true) => self.not1(c),
                                    _ => self.fls(),
                                };
                            }
                            let xe = self.bin(Op::Eq, x, b);
                            let ye = self.bin(Op::Eq, y, b);
                            return self.ite(c, xe, ye);
                        }
                        Node::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kh = self.c(k >> lw, hw);
                            let kl = self.c(k, lw);
                            let x = self.bin(Op::Eq, h, kh);
                            let y = self.bin(Op::Eq, l, kl);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                }
                if let (Node::Un(Un::ZExt, x), Node::Un(Un::ZExt, y)) = (self.node(a).clone(), self.node(b).clone()) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Eq, x, y); }
                }
                if a > b { return self.mk(Node::Bin(Op::Eq, b, a), 1); }
            }
            Op::Ult => {
                if a == b { return self.fls(); }
                if let Some(k) = cb {
                    if k == 0 { return self.fls(); }
                    if self.umaxs[a as usize] < k { return self.tru(); }
                    if k == 1 { let z = self.c(0, w); return self.bin(Op::Eq, a, z); }
                    if let Node::Un(Un::ZExt, x) = *self.node(a) {
                        let xw = self.w(x);
                        let kk = self.c(k, xw);
                        return self.bin(Op::Ult, x, kk);
                    }
                    if let Node::Ite(c, x, y) = self.node(a).clone() {
                        let xe = self.bin(Op::Ult, x, b);
                        let ye = self.bin(Op::Ult, y, b);
                        return self.ite(c, xe, ye);
                    }
                }
                if let Some(k) = ca {
                    if k == m { return self.fls(); }
                    if k >= self.umaxs[b as usize] { return self.fls(); }
                    if let Node::Un(Un::ZExt, x) = *self.node(b) {
                        let xw = self.w(x);
                        let kk = self.c(k, xw);
                        return self.bin(Op::Ult, kk, x);
                    }
                    if let Node::Ite(c, x, y) = self.node(b).clone() {
                        let xe = self.bin(Op::Ult, a, x);
                        let ye = self.bin(Op::Ult, a, y);
                        return self.ite(c, xe, ye);
                    }
                }
                if let (Node::Un(Un::ZExt, x), Node::Un(Un::ZExt, y)) = (self.node(a).clone(), self.node(b).clone()) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Ult, x, y); }
                }
                if w == 1 {
                    let na = self.not1(a);
                    return self.bin(Op::And, na, b);
                }
            }
            Op::Ule => {
                if a == b { return self.tru(); }
                if let Some(k) = cb {
                    if k == m || self.umaxs[a as usize] <= k { return self.tru(); }
                    let kk = self.c(k + 1, w);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ca {
                    if k == 0 { return self.tru(); }
                    if k > self.umaxs[b as usize] { return self.fls(); }
                    let kk = self.c(k - 1, w);
                    return self.bin(Op::Ult, kk, b);
                }
                if let (Node::Un(Un::ZExt, x), Node::Un(Un::ZExt, y)) = (self.node(a).clone(), self.node(b).clone()) {
                    if self.w(x) == self.w(y) { return self.bin(Op::Ule, x, y); }
                }
                if w == 1 {
                    let na = self.not1(a);
                    return self.bin(Op::Or, na, b);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.c((op == Op::Sle) as u128, 1); }
                // both known non-negative -> unsigned
                let h = m >> 1;
                if self.umaxs[a as usize] <= h && self.umaxs[b as usize] <= h {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                // sign test: a < 0  <=> msb(a) = 1 ; -1 < a <=> msb(a)=0
                if op == Op::Slt && cb == Some(0) { return self.extract(a, w - 1, 1); }
                if op == Op::Slt && ca == Some(m) { let s = self.extract(b, w - 1, 1); return self.not1(s); }
                if op == Op::Sle && ca == Some(0) { let s = self.extract(b, w - 1, 1); return self.not1(s); }
                if op == Op::Sle && cb == Some(m) { return self.extract(a, w - 1, 1); }
            }
            _ => {}
        }
        self.mk(Node::Bin(op, a, b), rw)
    }

    fn not1_raw(&mut self, a: E) -> E {
        match self.node(a).clone() {
            Node::Bin(Op::Ult, ..) | Node::Bin(Op::Ule, ..) | Node::Bin(Op::Slt, ..) | Node::Bin(Op::Sle, ..) => self.not1(a),
            Node::Bin(Op::Xor, x, y) if self.as_const(y) == Some(1) => x,
            _ => {
                let one = self.c(1, 1);
                self.mk(Node::Bin(Op::Xor, a, one), 1)
            }
        }
    }

    fn is_neg_of(&mut self, a: E, b: E) -> bool {
        if let Node::Bin(Op::Xor, x, y) = *self.node(a) { if x == b && self.as_const(y) == Some(1) { return true; } }
        if let Node::Bin(Op::Xor, x, y) = *self.node(b) { if x == a && self.as_const(y) == Some(1) { return true; } }
        false
    }

    fn or_concat(&mut self, a: E, b: E, w: u16) -> Option<E> {
        // b = concat(h, 0_k), a fits in k bits
        if let Node::Concat(h, l) = *self.node(b) {
            if self.as_const(l) == Some(0) {
                let k = self.w(l);
                if self.umaxs[a as usize] <= mask(k) {
                    let lo = self.extract(a, 0, k);
                    return Some(self.concat(h, lo));
                }
            }
        }
        // b = zext(concat(h,0_k))
        if let Node::Un(Un::ZExt, x) = *self.node(b) {
            if let Node::Concat(h, l) = *self.node(x) {
                if self.as_const(l) == Some(0) {
                    let k = self.w(l);
                    if self.umaxs[a as usize] <= mask(k) {
                        let lo = self.extract(a, 0, k);
                        let c = self.concat(h, lo);
                        return Some(self.zext(c, w));
                    }
                }
            }
        }
        None
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if aw > w { return self.extract(a, 0, w); }
        if let Some(c) = self.as_const(a) { return self.c(c, w); }
        if let Node::Un(Un::ZExt, x) = *self.node(a) { return self.zext(x, w); }
        self.mk(Node::Un(Un::ZExt, a), w)
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(c) = self.as_const(a) { return self.c(sx(c, aw) as u128, w); }
        if self.umaxs[a as usize] <= mask(aw) >> 1 { return self.zext(a, w); }
        if let Node::Un(Un::SExt, x) = *self.node(a) { return self.sext(x, w); }
        self.mk(Node::Un(Un::SExt, a), w)
    }
    pub fn un(&mut self, u: Un, a: E, rw: u16) -> E {
        match u {
            Un::ZExt => return self.zext(a, rw),
            Un::SExt => return self.sext(a, rw),
            _ => {}
        }
        if let Some(c) = self.as_const(a) {
            let v = eval_un(u, c, self.w(a), rw);
            return self.c(v, rw);
        }
        self.mk(Node::Un(u, a), rw)
    }
    pub fn extract(&mut self, a: E, lo: u16, n: u16) -> E {
        let aw = self.w(a);
        if lo == 0 && n == aw { return a; }
        debug_assert!(lo + n <= aw);
        if let Some(c) = self.as_const(a) { return self.c(c >> lo, n); }
        if lo < 128 && (self.umaxs[a as usize] >> lo) == 0 { return self.c(0, n); }
        match self.node(a).clone() {
            Node::Extract(x, l2) => return self.extract(x, lo + l2, n),
            Node::Un(Un::ZExt, x) => {
                let xw = self.w(x);
                if lo >= xw { return self.c(0, n); }
                if lo + n <= xw { return self.extract(x, lo, n); }
                let y = self.extract(x, lo, xw - lo);
                return self.zext(y, n);
            }
            Node::Un(Un::SExt, x) => {
                let xw = self.w(x);
                if lo + n <= xw { return self.extract(x, lo, n); }
            }
            Node::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw { return self.extract(h, lo - lw, n); }
                if lo + n <= lw { return self.extract(l, lo, n); }
                let x = self.extract(l, lo, lw - lo);
                let y = self.extract(h, 0, lo + n - lw);
                return self.concat(y, x);
            }
            Node::Ite(c, x, y) => {
                if self.as_const(x).is_some() || self.as_const(y).is_some() {
                    let xe = self.extract(x, lo, n);
                    let ye = self.extract(y, lo, n);
                    return self.ite(c, xe, ye);
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y) => {
                let xe = self.extract(x, lo, n);
                let ye = self.extract(y, lo, n);
                return self.bin(op, xe, ye);
            }
            Node::Bin(op @ (Op::Add | Op::Mul | Op::Sub), x, y) if lo == 0 => {
                let xe = self.extract(x, 0, n);
                let ye = self.extract(y, 0, n);
                return self.bin(op, xe, ye);
            }
            _ => {}
        }
        self.mk(Node::Extract(a, lo), n)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.as_const(h), self.as_const(l)) {
            return self.c((x << lw) | y, hw + lw);
        }
        if self.as_const(h) == Some(0) { return self.zext(l, hw + lw); }
        if let Node::Un(Un::ZExt, x) = *self.node(h) {
            let c = self.concat(x, l);
            return self.zext(c, hw + lw);
        }
        // adjacent extracts
        if let (Node::Extract(x, lo1), Node::Extract(y, lo2)) = (self.node(h).clone(), self.node(l).clone()) {
            if x == y && lo1 == lo2 + lw { return self.extract(x, lo2, hw + lw); }
        }
        if let Node::Extract(x, lo1) = *self.node(h) {
            if x == l && lo1 == lw { return self.extract(x, 0, hw + lw); }
            // right-nested: concat(ext, concat(ext', rest))
            if let Node::Concat(h2, l2) = *self.node(l) {
                if let Node::Extract(y, lo2) = *self.node(h2) {
                    if x == y && lo1 == lo2 + self.w(h2) {
                        let h2w = self.w(h2);
                        let hh = self.extract(x, lo2, hw + h2w);
                        return self.concat(hh, l2);
                    }
                }
            }
        }
        self.mk(Node::Concat(h, l), hw + lw)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        if let Node::Bin(Op::Xor, x, y) = *self.node(c) {
            if self.as_const(y) == Some(1) { return self.ite(x, b, a); }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn table(&mut self, idx: E, mut entries: Vec<(u128, u128)>, w: u16) -> E {
        entries.sort();
        entries.dedup_by_key(|e| e.0);
        if entries.iter().all(|e| e.1 == entries[0].1) {
            let v = entries[0].1;
            return self.c(v, w);
        }
        let id = if let Some(&t) = self.tmap.get(&entries) { t } else {
            let t = self.tables.len() as u32;
            self.tmap.insert(entries.clone(), t);
            self.tables.push(TableDef { entries });
            t
        };
        self.mk(Node::Table(idx, id), w)
    }
    pub fn table_lookup(&self, t: u32, i: u128) -> u128 {
        let es = &self.tables[t as usize].entries;
        match es.binary_search_by_key(&i, |e| e.0) {
            Ok(k) => es[k].1,
            Err(k) => if k == 0 { es[0].1 } else { es[k - 1].1 },
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(Op::Or, a, b) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(Op::Eq, a, b) }

    /// Evaluate under an assignment of the byte variables.
    pub fn eval(&self, e: E, model: &[u8]) -> u128 {
        let mut memo = HashMap::new();
        self.eval_m(e, model, &mut memo)
    }
    pub fn eval_m(&self, e: E, model: &[u8], memo: &mut HashMap<E, u128>) -> u128 {
        match &self.nodes[e as usize] {
            Node::Const(c) => return *c,
            Node::Var(v) => return *model.get(*v as usize).unwrap_or(&0) as u128,
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let v = match &self.nodes[e as usize] {
            Node::Bin(op, a, b) => {
                let x = self.eval_m(*a, model, memo);
                let y = self.eval_m(*b, model, memo);
                eval_bin(*op, x, y, self.width[*a as usize])
            }
            Node::Un(u, a) => {
                let x = self.eval_m(*a, model, memo);
                eval_un(*u, x, self.width[*a as usize], self.width[e as usize])
            }
            Node::Extract(a, lo) => (self.eval_m(*a, model, memo) >> lo) & mask(self.width[e as usize]),
            Node::Concat(h, l) => {
                let lw = self.width[*l as usize];
                (self.eval_m(*h, model, memo) << lw) | self.eval_m(*l, model, memo)
            }
            Node::Ite(c, a, b) => {
                if self.eval_m(*c, model, memo) == 1 { self.eval_m(*a, model, memo) } else { self.eval_m(*b, model, memo) }
            }
            Node::Table(i, t) => { let x = self.eval_m(*i, model, memo); self.table_lookup(*t, x) }
            _ => unreachable!(),
        };
        memo.insert(e, v);
        v
    }

    /// Truth table of a width-1 expression that depends on exactly one byte variable.
    pub fn truth(&mut self, e: E) -> [u64; 4] {
        if let Some(t) = self.ttb.get(&e) { return *t; }
        let v = self.full(e);
        let mut r = [0u64; 4];
        for i in 0..256 { if v[i] & 1 == 1 { r[i >> 6] |= 1 << (i & 63); } }
        self.ttb.insert(e, r);
        r
    }
    /// All 256 values of a single-variable expression.
    pub fn full(&mut self, e: E) -> Rc<[u128; 256]> {
        if let Some(t) = self.tt.get(&e) { return t.clone(); }
        let mut r = [0u128; 256];
        match self.nodes[e as usize].clone() {
            Node::Const(c) => { return Rc::new([c; 256]); }
            Node::Var(_) => for i in 0..256 { r[i] = i as u128; },
            Node::Bin(op, a, b) => {
                let (x, y) = (self.full(a), self.full(b));
                let w = self.width[a as usize];
                for i in 0..256 { r[i] = eval_bin(op, x[i], y[i], w); }
            }
            Node::Un(u, a) => {
                let x = self.full(a);
                let (w, rw) = (self.width[a as usize], self.width[e as usize]);
                for i in 0..256 { r[i] = eval_un(u, x[i], w, rw); }
            }
            Node::Extract(a, lo) => {
                let x = self.full(a);
                let m = mask(self.width[e as usize]);
                for i in 0..256 { r[i] = (x[i] >> lo) & m; }
            }
            Node::Concat(h, l) => {
                let (x, y) = (self.full(h), self.full(l));
                let lw = self.width[l as usize];
                for i in 0..256 { r[i] = (x[i] << lw) | y[i]; }
            }
            Node::Ite(c, a, b) => {
                let (c, x, y) = (self.full(c), self.full(a), self.full(b));
                for i in 0..256 { r[i] = if c[i] & 1 == 1 { x[i] } else { y[i] }; }
            }
            Node::Table(ix, t) => {
                let x = self.full(ix);
                for i in 0..256 { r[i] = self.table_lookup(t, x[i]); }
            }
        }
        let r = Rc::new(r);
        self.tt.insert(e, r.clone());
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        if depth == 0 { return "..".into(); }
        match &self.nodes[e as usize] {
            Node::Const(c) => format!("{}", c),
            Node::Var(v) => format!("b{}", v),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::Un(o, a) => format!("({:?}{} {})", o, self.w(e), self.show(*a, depth - 1)),
            Node::Extract(a, lo) => format!("{}[{}+:{}]", self.show(*a, depth - 1), lo, self.w(e)),
            Node::Concat(h, l) => format!("{{{},{}}}", self.show(*h, depth - 1), self.show(*l, depth - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, depth - 1), self.show(*a, depth - 1), self.show(*b, depth - 1)),
            Node::Table(i, t) => format!("T{}[{}]", t, self.show(*i, depth - 1)),
        }
    }
}
