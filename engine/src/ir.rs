//! Loads rustc-produced LLVM bitcode into a compact IR for the interpreter.
use crate::llvm::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    W(Box<u128>),
    S(u32),
    Agg(Rc<Vec<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F32,
    F64,
    Ptr,
    Vec(u32, Rc<Ty>),
    Arr(u64, Rc<Ty>, u64),                 // n, elem, stride
    Struct(Rc<Vec<(u64, Ty)>>, u64),       // (offset, ty), size
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => 0,
        }
    }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr) }
    pub fn lanes(&self) -> u32 { if let Ty::Vec(n, _) = self { *n } else { 0 } }
    pub fn elem(&self) -> &Ty { match self { Ty::Vec(_, t) => t, _ => self } }
    pub fn is_fp(&self) -> bool { matches!(self.elem(), Ty::F32 | Ty::F64) }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Arr(n, _, s) => n * s,
            Ty::Struct(_, s) => *s,
        }
    }
}

pub type Opd = u32; // high bit set: constant index
pub const KC: u32 = 0x8000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK { Trunc, ZExt, SExt, FPToUI, FPToSI, UIToFP, SIToFP, FPTrunc, FPExt, Move }

#[derive(Clone, Debug)]
pub enum Callee { Direct(u32), Intr(Intr, Ty), Ind(Opd), Bad(Rc<str>) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    Nop, Zero, One, Trap, Copy, Expect,
    MemCpy, MemMove, MemSet,
    UAddO, SAddO, USubO, SSubO, UMulO, SMulO,
    UAddS, SAddS, USubS, SSubS,
    UMax, UMin, SMax, SMin, Abs, UCmp, SCmp,
    Ctpop, Ctlz, Cttz, Bswap, Bitrev, Fshl, Fshr,
    FAbs, FMin, FMax, Floor, Ceil, TruncF, Round, RoundEven, Sqrt, CopySign, FMulAdd,
    FpToUiSat, FpToSiSat,
    RedAdd, RedOr, RedAnd, RedXor, RedUMax, RedUMin, RedSMax, RedSMin,
    PMovMskB, PtrMask, ObjSize,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { dst: u32, op: BOp, a: Opd, b: Opd, w: u16, lanes: u32 },
    FNeg { dst: u32, a: Opd, w: u16, lanes: u32 },
    ICmp { dst: u32, pred: u8, a: Opd, b: Opd, w: u16, lanes: u32 },
    FCmp { dst: u32, pred: u8, a: Opd, b: Opd, w: u16, lanes: u32 },
    Cast { dst: u32, k: CastK, a: Opd, fw: u16, tw: u16, lanes: u32 },
    BitCast { dst: u32, a: Opd, from: Ty, to: Ty },
    Select { dst: u32, c: Opd, a: Opd, b: Opd, ty: Ty, clanes: u32 },
    Alloca { dst: u32, size: u64, n: Opd },
    Load { dst: u32, p: Opd, ty: Ty },
    Store { p: Opd, v: Opd, ty: Ty },
    Gep { dst: u32, base: Opd, off: i64, idx: Box<[(Opd, u16, i64)]> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch { v: Opd, w: u16, cases: Box<[(u128, u32)]>, def: u32 },
    Ret(Option<Opd>),
    Unreachable,
    Call { dst: Option<u32>, callee: Callee, args: Box<[Opd]>, then: Option<u32>, noret: bool },
    ExtractValue { dst: u32, a: Opd, path: Box<[u32]> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Box<[u32]> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Box<[i32]> },
    CmpXchg { dst: u32, p: Opd, cmp: Opd, new: Opd, ty: Ty },
    Rmw { dst: u32, op: u8, p: Opd, v: Opd, ty: Ty },
    Nop,
    Unsupported(Rc<str>),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}
pub struct Func {
    pub name: String,
    pub dem: String,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub model: Option<crate::models::Model>,
    pub param_tys: Vec<Ty>,
    pub ninst: usize,
}
pub struct GlobalObj { pub data: Vec<u8>, pub ro: bool, pub name: String }
pub struct Program {
    pub funcs: Vec<Func>,
    pub globals: Vec<GlobalObj>, // object id = index + 1
    pub consts: Vec<V>,
    pub by_name: HashMap<String, u32>,
    pub load_s: f64,
}
pub const FN_ID: u64 = 0x4000_0000;

struct Loader {
    dl: *mut std::ffi::c_void,
    gaddr: HashMap<usize, u64>,
    consts: Vec<V>,
    cmap: HashMap<(usize, usize), u32>,
    tcache: HashMap<usize, Ty>,
    fidx: HashMap<usize, u32>,
}

fn ssuffix<'a>(n: &'a str, p: &str) -> Option<&'a str> { n.strip_prefix(p) }

impl Loader {
    fn ty(&mut self, t: Type) -> Ty {
        if let Some(x) = self.tcache.get(&(t as usize)) { return x.clone(); }
        let r = unsafe {
            match LLVMGetTypeKind(t) {
                0 => Ty::Void,
                2 => Ty::F32,
                3 => Ty::F64,
                8 => Ty::Int(LLVMGetIntTypeWidth(t) as u16),
                12 => Ty::Ptr,
                13 => { let e = self.ty(LLVMGetElementType(t)); Ty::Vec(LLVMGetVectorSize(t), Rc::new(e)) }
                11 => {
                    let et = LLVMGetElementType(t);
                    let e = self.ty(et);
                    Ty::Arr(LLVMGetArrayLength2(t), Rc::new(e), LLVMABISizeOfType(self.dl, et))
                }
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let mut v = vec![];
                    for i in 0..n {
                        let et = LLVMStructGetTypeAtIndex(t, i);
                        v.push((LLVMOffsetOfElement(self.dl, t, i), self.ty(et)));
                    }
                    Ty::Struct(Rc::new(v), LLVMABISizeOfType(self.dl, t))
                }
                _ => Ty::Other,
            }
        };
        self.tcache.insert(t as usize, r.clone());
        r
    }
    fn zero(&self, t: &Ty) -> V {
        match t {
            Ty::Int(w) if *w > 64 => V::W(Box::new(0)),
            Ty::Vec(n, e) => V::Agg(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Arr(n, e, _) => V::Agg(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(|x| self.zero(&x.1)).collect())),
            _ => V::C(0),
        }
    }
    fn gep_parts(&mut self, v: Val) -> (i64, Vec<(Val, u16, i64)>) {
        unsafe {
            let mut off = 0i64;
            let mut idx = vec![];
            let n = LLVMGetNumOperands(v) as u32;
            let mut t = LLVMGetGEPSourceElementType(v);
            for i in 1..n {
                let o = LLVMGetOperand(v, i);
                if i == 1 {
                    self.gep_idx(o, LLVMABISizeOfType(self.dl, t) as i64, &mut off, &mut idx);
                } else {
                    match LLVMGetTypeKind(t) {
                        10 => {
                            let k = LLVMConstIntGetZExtValue(o) as u32;
                            off += LLVMOffsetOfElement(self.dl, t, k) as i64;
                            t = LLVMStructGetTypeAtIndex(t, k);
                        }
                        _ => {
                            t = LLVMGetElementType(t);
                            self.gep_idx(o, LLVMABISizeOfType(self.dl, t) as i64, &mut off, &mut idx);
                        }
                    }
                }
            }
            (off, idx)
        }
    }
    fn gep_idx(&mut self, o: Val, scale: i64, off: &mut i64, idx: &mut Vec<(Val, u16, i64)>) {
        unsafe {
            let w = LLVMGetIntTypeWidth(LLVMTypeOf(o)) as u16;
            if !LLVMIsAConstantInt(o).is_null() {
                let k = LLVMConstIntGetZExtValue(o);
                let k = crate::expr::sx(k as u128, w) as i64;
                *off = off.wrapping_add(k.wrapping_mul(scale));
            } else {
                idx.push((o, w, scale));
            }
        }
    }
    fn const_int(&self, v: Val) -> u128 {
        unsafe {
            let w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
            if w <= 64 { return LLVMConstIntGetZExtValue(v) as u128; }
            let s = show(v);
            let t = s.split_whitespace().last().unwrap().to_string();
            let m = crate::expr::mask(w as u16);
            if let Ok(x) = t.parse::<i128>() { return (x as u128) & m; }
            t.parse::<u128>().unwrap_or_else(|_| panic!("const {}", s)) & m
        }
    }
    fn cval(&mut self, v: Val) -> V {
        unsafe {
            let t = self.ty(LLVMTypeOf(v));
            if !LLVMIsAConstantInt(v).is_null() {
                let c = self.const_int(v);
                return if t.bits() > 64 { V::W(Box::new(c)) } else if t.lanes() > 0 {
                    let n = t.lanes() as usize;
                    V::Agg(Rc::new(vec![V::C(c as u64); n]))
                } else { V::C(c as u64) };
            }
            if !LLVMIsAConstantFP(v).is_null() {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                let s = match t.elem() { Ty::F32 => V::C((d as f32).to_bits() as u64), _ => V::C(d.to_bits()) };
                return if t.lanes() > 0 { V::Agg(Rc::new(vec![s; t.lanes() as usize])) } else { s };
            }
            if let Some(&a) = self.gaddr.get(&(v as usize)) { return V::C(a); }
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null()
                || !LLVMIsAConstantPointerNull(v).is_null() { return self.zero(&t); }
            if !LLVMIsAGlobalAlias(v).is_null() { return self.cval(LLVMAliasGetAliasee(v)); }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                match op {
                    29 => {
                        let base = match self.cval(LLVMGetOperand(v, 0)) { V::C(x) => x, _ => panic!() };
                        let (off, idx) = self.gep_parts(v);
                        let mut a = base.wrapping_add(off as u64);
                        for (o, w, s) in idx {
                            if let V::C(k) = self.cval(o) {
                                let k = crate::expr::sx(k as u128, w) as i64;
                                a = a.wrapping_add(k.wrapping_mul(s) as u64);
                            } else { panic!("gep ce") }
                        }
                        return V::C(a);
                    }
                    38..=42 | 60 | 69 | 30 => {
                        let x = self.cval(LLVMGetOperand(v, 0));
                        return match (x, t.bits()) { (V::C(k), w) if w <= 64 => V::C(k & crate::expr::mask(w) as u64), (y, _) => y };
                    }
                    8 | 10 | 25 => {
                        let x = self.cval(LLVMGetOperand(v, 0));
                        let y = self.cval(LLVMGetOperand(v, 1));
                        if let (V::C(x), V::C(y)) = (x, y) {
                            let m = crate::expr::mask(t.bits()) as u64;
                            return V::C(match op { 8 => x.wrapping_add(y), 10 => x.wrapping_sub(y), _ => x ^ y } & m);
                        }
                        panic!()
                    }
                    _ => { eprintln!("constexpr {} {}", op, show(v)); return self.zero(&t); }
                }
            }
            let n = match &t {
                Ty::Arr(n, _, _) => *n as u32,
                Ty::Struct(f, _) => f.len() as u32,
                Ty::Vec(n, _) => *n,
                _ => { eprintln!("unknown const {}", show(v)); return V::C(0); }
            };
            let mut r = vec![];
            for i in 0..n { let e = LLVMGetAggregateElement(v, i); r.push(self.cval(e)); }
            V::Agg(Rc::new(r))
        }
    }
    fn write_init(&mut self, v: Val, out: &mut [u8]) {
        unsafe {
            let t = self.ty(LLVMTypeOf(v));
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAConstantAggregateZero(v).is_null() { return; }
            if !LLVMIsAConstantDataSequential(v).is_null() {
                let mut l = 0;
                let p = LLVMGetRawDataValues(v, &mut l);
                let s = std::slice::from_raw_parts(p, l);
                let n = s.len().min(out.len());
                out[..n].copy_from_slice(&s[..n]);
                return;
            }
            match &t {
                Ty::Struct(f, _) => for (i, (o, et)) in f.iter().enumerate() {
                    let e = LLVMGetAggregateElement(v, i as u32);
                    let sz = et.size() as usize;
                    self.write_init(e, &mut out[*o as usize..*o as usize + sz]);
                },
                Ty::Arr(n, et, st) => for i in 0..*n {
                    let e = LLVMGetAggregateElement(v, i as u32);
                    let o = (i * st) as usize;
                    self.write_init(e, &mut out[o..o + et.size() as usize]);
                },
                Ty::Vec(n, et) => for i in 0..*n {
                    let e = LLVMGetAggregateElement(v, i);
                    let o = (i as u64 * et.size()) as usize;
                    self.write_init(e, &mut out[o..o + et.size() as usize]);
                },
                _ => {
                    let b: u128 = match self.cval(v) { V::C(x) => x as u128, V::W(x) => *x, _ => panic!() };
                    let sz = t.size() as usize;
                    out[..sz].copy_from_slice(&b.to_le_bytes()[..sz]);
                }
            }
        }
    }
    fn kconst(&mut self, v: Val) -> Opd {
        let k = (v as usize, 0usize);
        if let Some(&x) = self.cmap.get(&k) { return x; }
        let c = self.cval(v);
        let i = self.consts.len() as u32;
        self.consts.push(c);
        self.cmap.insert(k, i | KC);
        i | KC
    }
}

fn intr(n: &str) -> Option<Intr> {
    use Intr::*;
    let base = n;
    let table: &[(&str, Intr)] = &[
        ("llvm.lifetime.", Nop), ("llvm.dbg.", Nop), ("llvm.assume", Nop), ("llvm.experimental.noalias.scope.decl", Nop),
        ("llvm.x86.sse2.pause", Nop), ("llvm.prefetch", Nop), ("llvm.va_", Nop), ("llvm.donothing", Nop), ("llvm.fake.use", Nop),
        ("llvm.is.constant", Zero), ("llvm.stacksave", Zero), ("llvm.stackrestore", Nop),
        ("llvm.allow.", Zero),
        ("llvm.trap", Trap), ("llvm.debugtrap", Trap), ("llvm.ubsantrap", Trap),
        ("llvm.threadlocal.address", Copy), ("llvm.launder.invariant", Copy), ("llvm.strip.invariant", Copy), ("llvm.ssa.copy", Copy),
        ("llvm.expect", Expect), ("llvm.ptrmask", PtrMask), ("llvm.objectsize", ObjSize),
        ("llvm.memcpy", MemCpy), ("llvm.memmove", MemMove), ("llvm.memset", MemSet),
        ("llvm.uadd.with", UAddO), ("llvm.sadd.with", SAddO), ("llvm.usub.with", USubO), ("llvm.ssub.with", SSubO),
        ("llvm.umul.with", UMulO), ("llvm.smul.with", SMulO),
        ("llvm.uadd.sat", UAddS), ("llvm.sadd.sat", SAddS), ("llvm.usub.sat", USubS), ("llvm.ssub.sat", SSubS),
        ("llvm.umax", UMax), ("llvm.umin", UMin), ("llvm.smax", SMax), ("llvm.smin", SMin), ("llvm.abs", Abs),
        ("llvm.ucmp", UCmp), ("llvm.scmp", SCmp),
        ("llvm.ctpop", Ctpop), ("llvm.ctlz", Ctlz), ("llvm.cttz", Cttz), ("llvm.bswap", Bswap), ("llvm.bitreverse", Bitrev),
        ("llvm.fshl", Fshl), ("llvm.fshr", Fshr),
        ("llvm.fabs", FAbs), ("llvm.minnum", FMin), ("llvm.maxnum", FMax), ("llvm.minimumnum", FMin), ("llvm.maximumnum", FMax),
        ("llvm.floor", Floor), ("llvm.ceil", Ceil),
        ("llvm.trunc", TruncF), ("llvm.roundeven", RoundEven), ("llvm.rint", RoundEven), ("llvm.nearbyint", RoundEven),
        ("llvm.round", Round), ("llvm.sqrt", Sqrt), ("llvm.copysign", CopySign), ("llvm.fmuladd", FMulAdd),
        ("llvm.fptoui.sat", FpToUiSat), ("llvm.fptosi.sat", FpToSiSat),
        ("llvm.vector.reduce.add", RedAdd), ("llvm.vector.reduce.or", RedOr), ("llvm.vector.reduce.and", RedAnd),
        ("llvm.vector.reduce.xor", RedXor), ("llvm.vector.reduce.umax", RedUMax), ("llvm.vector.reduce.umin", RedUMin),
        ("llvm.vector.reduce.smax", RedSMax), ("llvm.vector.reduce.smin", RedSMin),
        ("llvm.x86.sse2.pmovmskb.128", PMovMskB),
    ];
    for (p, k) in table { if base.starts_with(p) { return Some(*k); } }
    None
}

pub struct LoadOpts { pub roots: Vec<String>, pub dump: Option<String>, pub passes: String }

pub fn load(path: &str, opts: &LoadOpts) -> Program {
    let t0 = std::time::Instant::now();
    unsafe {
        let ctx = LLVMContextCreate();
        let mut buf = std::ptr::null_mut();
        let mut msg = std::ptr::null_mut();
        let p = cs(path);
        if LLVMCreateMemoryBufferWithContentsOfFile(p.as_ptr(), &mut buf, &mut msg) != 0 { panic!("cannot read {path}"); }
        let mut m = std::ptr::null_mut();
        if LLVMParseBitcodeInContext2(ctx, buf, &mut m) != 0 { panic!("cannot parse {path}"); }
        LLVMStripModuleDebugInfo(m);
        // 1. strip bodies of modelled functions, keep mvdparser functions as separate units
        let noinline = { let n = "noinline"; LLVMGetEnumAttributeKindForName(n.as_ptr() as *const _, n.len()) };
        let alwaysinline = { let n = "alwaysinline"; LLVMGetEnumAttributeKindForName(n.as_ptr() as *const _, n.len()) };
        let inlinehint = { let n = "inlinehint"; LLVMGetEnumAttributeKindForName(n.as_ptr() as *const _, n.len()) };
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            let nm = name(f);
            if LLVMCountBasicBlocks(f) > 0 {
                let d = demangle(&nm);
                if crate::models::model_for(&nm, &d).is_some() {
                    let mut b = LLVMGetFirstBasicBlock(f);
                    while !b.is_null() {
                        loop {
                            let i = LLVMGetFirstInstruction(b);
                            if i.is_null() { break; }
                            let t = LLVMTypeOf(i);
                            if LLVMGetTypeKind(t) != 0 { LLVMReplaceAllUsesWith(i, LLVMGetUndef(t)); }
                            LLVMInstructionEraseFromParent(i);
                        }
                        b = LLVMGetNextBasicBlock(b);
                    }
                    loop {
                        let b = LLVMGetFirstBasicBlock(f);
                        if b.is_null() { break; }
                        LLVMDeleteBasicBlock(b);
                    }
                    if LLVMHasPersonalityFn(f) != 0 { LLVMSetPersonalityFn(f, std::ptr::null_mut()); }
                    LLVMSetComdat(f, std::ptr::null_mut());
                    LLVMSetLinkage(f, 0);
                } else if is_target_fn(&nm, &d) {
                    LLVMRemoveEnumAttributeAtIndex(f, u32::MAX, alwaysinline);
                    LLVMRemoveEnumAttributeAtIndex(f, u32::MAX, inlinehint);
                    LLVMAddAttributeAtIndex(f, u32::MAX, LLVMCreateEnumAttribute(ctx, noinline, 0));
                }
            }
            f = LLVMGetNextFunction(f);
        }
        let keep: Vec<String> = opts.roots.iter().map(|r| format!("preserve-gv={r}")).collect();
        let pipe = format!("internalize<{}>,globaldce,{}", keep.join(";"), opts.passes);
        let po = LLVMCreatePassBuilderOptions();
        let pc = cs(&pipe);
        let err = LLVMRunPasses(m, pc.as_ptr(), std::ptr::null_mut(), po);
        if !err.is_null() { panic!("passes: {}", std::ffi::CStr::from_ptr(LLVMGetErrorMessage(err)).to_string_lossy()); }
        if let Some(d) = &opts.dump {
            let c = cs(d);
            let mut e = std::ptr::null_mut();
            LLVMPrintModuleToFile(m, c.as_ptr(), &mut e);
        }
        let mut ld = Loader {
            dl: LLVMGetModuleDataLayout(m),
            gaddr: HashMap::new(), consts: vec![], cmap: HashMap::new(), tcache: HashMap::new(), fidx: HashMap::new(),
        };
        // 2. addresses
        let mut fvals = vec![];
        let mut f = LLVMGetFirstFunction(m);
        while !f.is_null() {
            ld.gaddr.insert(f as usize, (FN_ID + fvals.len() as u64) << 32);
            ld.fidx.insert(f as usize, fvals.len() as u32);
            fvals.push(f);
            f = LLVMGetNextFunction(f);
        }
        let mut gvals = vec![];
        let mut g = LLVMGetFirstGlobal(m);
        while !g.is_null() {
            ld.gaddr.insert(g as usize, ((gvals.len() as u64) + 1) << 32);
            gvals.push(g);
            g = LLVMGetNextGlobal(g);
        }
        let mut globals = vec![];
        for &g in &gvals {
            let t = LLVMGlobalGetValueType(g);
            let ty = ld.ty(t);
            let mut data = vec![0u8; ty.size() as usize];
            let init = LLVMGetInitializer(g);
            if !init.is_null() { ld.write_init(init, &mut data); }
            globals.push(GlobalObj { data, ro: LLVMIsGlobalConstant(g) != 0, name: name(g) });
        }
        // 3. functions
        let mut funcs = vec![];
        let mut by_name = HashMap::new();
        for (i, &f) in fvals.iter().enumerate() {
            let nm = name(f);
            let dem = demangle(&nm);
            by_name.insert(nm.clone(), i as u32);
            funcs.push(load_fn(&mut ld, f, nm, dem));
        }
        Program { funcs, globals, consts: std::mem::take(&mut ld.consts), by_name, load_s: t0.elapsed().as_secs_f64() }
    }
}

/// Functions defined by the crate under test itself (kept out-of-line for coverage accounting).
pub fn is_target_fn(nm: &str, dem: &str) -> bool {
    nm.contains("_9mvdparser") && (dem.starts_with("mvdparser::") || dem.starts_with("<mvdparser::")) && !dem.contains("{closure")
}

unsafe fn load_fn(ld: &mut Loader, f: Val, nm: String, dem: String) -> Func {
    let nparams = LLVMCountParams(f);
    let mut regs: HashMap<usize, u32> = HashMap::new();
    let mut param_tys = vec![];
    for i in 0..nparams {
        let p = LLVMGetParam(f, i);
        regs.insert(p as usize, i);
        param_tys.push(ld.ty(LLVMTypeOf(p)));
    }
    let mut nregs = nparams;
    let mut bbs: HashMap<usize, u32> = HashMap::new();
    let mut blist = vec![];
    if LLVMCountBasicBlocks(f) > 0 {
        let mut b = LLVMGetFirstBasicBlock(f);
        while !b.is_null() {
            bbs.insert(b as usize, blist.len() as u32);
            blist.push(b);
            let mut i = LLVMGetFirstInstruction(b);
            while !i.is_null() {
                if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 { regs.insert(i as usize, nregs); nregs += 1; }
                i = LLVMGetNextInstruction(i);
            }
            b = LLVMGetNextBasicBlock(b);
        }
    }
    let mut blocks = vec![];
    let mut ninst = 0;
    for &b in &blist {
        let mut phis = vec![];
        let mut insts = vec![];
        let mut i = LLVMGetFirstInstruction(b);
        while !i.is_null() {
            ninst += 1;
            if LLVMGetInstructionOpcode(i) == 44 {
                let n = LLVMCountIncoming(i);
                let mut inc = vec![];
                for k in 0..n {
                    inc.push((bbs[&(LLVMGetIncomingBlock(i, k) as usize)], opd(ld, &regs, LLVMGetIncomingValue(i, k))));
                }
                phis.push((regs[&(i as usize)], inc));
            } else {
                let x = load_inst(ld, &regs, &bbs, i);
                if !matches!(x, Inst::Nop) { insts.push(x); }
            }
            i = LLVMGetNextInstruction(i);
        }
        blocks.push(Block { phis, insts });
    }
    let model = if blocks.is_empty() { crate::models::model_for(&nm, &dem) } else { None };
    Func { name: nm, dem, nparams, nregs, blocks, model, param_tys, ninst }
}

unsafe fn opd(ld: &mut Loader, regs: &HashMap<usize, u32>, v: Val) -> Opd {
    if let Some(&r) = regs.get(&(v as usize)) { return r; }
    ld.kconst(v)
}

unsafe fn load_inst(ld: &mut Loader, regs: &HashMap<usize, u32>, bbs: &HashMap<usize, u32>, i: Val) -> Inst {
    let opc = LLVMGetInstructionOpcode(i);
    let ty = ld.ty(LLVMTypeOf(i));
    let dst = regs.get(&(i as usize)).cloned().unwrap_or(0);
    let bb = |b: BB| bbs[&(b as usize)];
    macro_rules! op { ($n:expr) => { opd(ld, regs, LLVMGetOperand(i, $n)) } }
    let unsup = |why: &str| Inst::Unsupported(format!("{}: {}", why, show(i)).into());
    let lanes = ty.lanes();
    match opc {
        1 => Inst::Ret(if LLVMGetNumOperands(i) == 0 { None } else { Some(op!(0)) }),
        2 | 70..=80 if LLVMGetNumSuccessors(i) > 0 => {
            if LLVMGetNumSuccessors(i) == 1 { Inst::Br(bb(LLVMGetSuccessor(i, 0))) }
            else {
                let c = opd(ld, regs, LLVMGetCondition(i));
                Inst::CondBr(c, bb(LLVMGetSuccessor(i, 0)), bb(LLVMGetSuccessor(i, 1)))
            }
        }
        3 => {
            let c = LLVMGetOperand(i, 0);
            let w = ld.ty(LLVMTypeOf(c)).bits();
            let v = opd(ld, regs, c);
            let n = LLVMGetNumSuccessors(i);
            let mut cases = vec![];
            for k in 1..n { cases.push((ld.const_int(LLVMGetSwitchCaseValue(i, k)), bb(LLVMGetSuccessor(i, k)))); }
            Inst::Switch { v, w, cases: cases.into(), def: bb(LLVMGetSwitchDefaultDest(i)) }
        }
        7 => Inst::Unreachable,
        66 => Inst::FNeg { dst, a: op!(0), w: ty.elem().bits(), lanes },
        8..=25 => {
            let o = match opc {
                8 => BOp::Add, 9 => BOp::FAdd, 10 => BOp::Sub, 11 => BOp::FSub, 12 => BOp::Mul, 13 => BOp::FMul,
                14 => BOp::UDiv, 15 => BOp::SDiv, 16 => BOp::FDiv, 17 => BOp::URem, 18 => BOp::SRem, 19 => BOp::FRem,
                20 => BOp::Shl, 21 => BOp::LShr, 22 => BOp::AShr, 23 => BOp::And, 24 => BOp::Or, _ => BOp::Xor,
            };
            if ty.elem().bits() == 0 || ty.elem().bits() > 128 { return unsup("width"); }
            Inst::Bin { dst, op: o, a: op!(0), b: op!(1), w: ty.elem().bits(), lanes }
        }
        26 => { let t = ld.ty(LLVMGetAllocatedType(i)); Inst::Alloca { dst, size: t.size(), n: op!(0) } }
        27 => if ty == Ty::Other || (ty.scalar() && ty.bits() > 128) { unsup("load type") } else { Inst::Load { dst, p: op!(0), ty } },
        28 => {
            let t = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
            if t == Ty::Other || (t.scalar() && t.bits() > 128) { return unsup("store type"); }
            Inst::Store { p: op!(1), v: op!(0), ty: t }
        }
        29 => {
            if lanes > 0 { return unsup("vector gep"); }
            let (off, idx) = ld.gep_parts(i);
            let idx: Vec<_> = idx.into_iter().map(|(v, w, s)| (opd(ld, regs, v), w, s)).collect();
            Inst::Gep { dst, base: op!(0), off, idx: idx.into() }
        }
        30..=40 | 60 | 69 => {
            let ft = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
            let k = match opc {
                30 => CastK::Trunc, 31 => CastK::ZExt, 32 => CastK::SExt, 33 => CastK::FPToUI, 34 => CastK::FPToSI,
                35 => CastK::UIToFP, 36 => CastK::SIToFP, 37 => CastK::FPTrunc, 38 => CastK::FPExt,
                _ => if ty.elem().bits() < ft.elem().bits() { CastK::Trunc } else if ty.elem().bits() > ft.elem().bits() { CastK::ZExt } else { CastK::Move },
            };
            if ty.elem().bits() > 128 || ft.elem().bits() > 128 || ty.elem().bits() == 0 { return unsup("cast width"); }
            Inst::Cast { dst, k, a: op!(0), fw: ft.elem().bits(), tw: ty.elem().bits(), lanes }
        }
        41 => {
            let ft = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
            let a = op!(0);
            if ft.scalar() && ty.scalar() { Inst::Cast { dst, k: CastK::Move, a, fw: ft.bits(), tw: ty.bits(), lanes: 0 } }
            else { Inst::BitCast { dst, a, from: ft, to: ty } }
        }
        42 => {
            let ft = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
            Inst::ICmp { dst, pred: LLVMGetICmpPredicate(i) as u8, a: op!(0), b: op!(1), w: ft.elem().bits(), lanes: ft.lanes() }
        }
        43 => {
            let ft = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
            Inst::FCmp { dst, pred: LLVMGetFCmpPredicate(i) as u8, a: op!(0), b: op!(1), w: ft.elem().bits(), lanes: ft.lanes() }
        }
        46 => {
            let ct = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 0)));
            Inst::Select { dst, c: op!(0), a: op!(1), b: op!(2), ty, clanes: ct.lanes() }
        }
        45 | 5 => {
            let n = LLVMGetNumArgOperands(i);
            let cv = LLVMGetCalledValue(i);
            let then = if opc == 5 { Some(bb(LLVMGetNormalDest(i))) } else { None };
            let d = if ty == Ty::Void { None } else { Some(dst) };
            if !LLVMIsAInlineAsm(cv).is_null() {
                // empty asm is used as an optimisation barrier (black_box); anything else is unsupported
                let s = show(i);
                if s.contains("asm sideeffect \"\"") || s.contains("asm \"\"") {
                    return Inst::Nop;
                }
                return Inst::Call { dst: d, callee: Callee::Bad(format!("asm {}", s).into()), args: [].into(), then, noret: false };
            }
            if !LLVMIsAFunction(cv).is_null() {
                let cn = name(cv);
                if cn.starts_with("llvm.") {
                    let it = if ty == Ty::Void { if n > 0 { ld.ty(LLVMTypeOf(LLVMGetOperand(i, 0))) } else { Ty::Void } } else { ty.clone() };
                    if let Some(k) = intr(&cn) {
                        if k == Intr::Nop { return Inst::Nop; }
                        let mut args = vec![];
                        for q in 0..n {
                            let o = LLVMGetOperand(i, q);
                            if LLVMGetTypeKind(LLVMTypeOf(o)) == 14 { args.push(0); } else { args.push(opd(ld, regs, o)); }
                        }
                        // type argument: operand type for casts/compares/reductions
                        let it = match k {
                            Intr::UCmp | Intr::SCmp | Intr::FpToUiSat | Intr::FpToSiSat | Intr::PMovMskB
                            | Intr::RedAdd | Intr::RedOr | Intr::RedAnd | Intr::RedXor | Intr::RedUMax | Intr::RedUMin | Intr::RedSMax | Intr::RedSMin
                            => { let o = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 0))); Ty::Struct(Rc::new(vec![(0, o), (0, ty.clone())]), 0) }
                            _ => it,
                        };
                        return Inst::Call { dst: d, callee: Callee::Intr(k, it), args: args.into(), then, noret: false };
                    }
                    return Inst::Call { dst: d, callee: Callee::Bad(cn.into()), args: [].into(), then, noret: false };
                }
            }
            let mut args = vec![];
            for q in 0..n { args.push(op!(q)); }
            let callee = if let Some(&x) = ld.fidx.get(&(cv as usize)) { Callee::Direct(x) } else { Callee::Ind(opd(ld, regs, cv)) };
            Inst::Call { dst: d, callee, args: args.into(), then, noret: false }
        }
        50 => Inst::ExtractElem { dst, a: op!(0), i: op!(1) },
        51 => Inst::InsertElem { dst, a: op!(0), v: op!(1), i: op!(2) },
        52 => {
            let n = LLVMGetNumMaskElements(i);
            let mask: Vec<i32> = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
            Inst::Shuffle { dst, a: op!(0), b: op!(1), mask: mask.into() }
        }
        53 | 54 => {
            let n = LLVMGetNumIndices(i) as usize;
            let path: Box<[u32]> = std::slice::from_raw_parts(LLVMGetIndices(i), n).into();
            if opc == 53 { Inst::ExtractValue { dst, a: op!(0), path } } else { Inst::InsertValue { dst, a: op!(0), v: op!(1), path } }
        }
        68 => Inst::Cast { dst, k: CastK::Move, a: op!(0), fw: 0, tw: 0, lanes: 0 },
        55 => Inst::Nop,
        56 => {
            let t = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 1)));
            Inst::CmpXchg { dst, p: op!(0), cmp: op!(1), new: op!(2), ty: t }
        }
        57 => {
            let t = ld.ty(LLVMTypeOf(LLVMGetOperand(i, 1)));
            Inst::Rmw { dst, op: LLVMGetAtomicRMWBinOp(i) as u8, p: op!(0), v: op!(1), ty: t }
        }
        _ => unsup("opcode"),
    }
}
#[allow(dead_code)]
fn _u() { let _ = ssuffix; }
