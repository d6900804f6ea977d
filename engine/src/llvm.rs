//! Minimal hand-written bindings to the LLVM-C API of the rustc-bundled libLLVM.
#![allow(non_snake_case, non_camel_case_types, dead_code)]
use std::ffi::{c_char, c_int, c_uint, c_ulonglong, c_void, CStr, CString};
pub type Ctx = *mut c_void;
pub type Module = *mut c_void;
pub type Val = *mut c_void;
pub type Type = *mut c_void;
pub type BB = *mut c_void;
pub type Buf = *mut c_void;
extern "C" {
    fn dlopen(p: *const c_char, f: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    fn free(p: *mut c_void);
}
/// libLLVM carries its own copy of libstdc++, so it is opened with its own symbol scope instead of being linked.
fn sym(n: &str) -> usize {
    use std::sync::OnceLock;
    static H: OnceLock<usize> = OnceLock::new();
    let h = *H.get_or_init(|| unsafe {
        let p = cs(env!("MVDSYM_LLVM"));
        let h = dlopen(p.as_ptr(), 2 | 8); // RTLD_NOW | RTLD_DEEPBIND
        if h.is_null() { panic!("dlopen libLLVM: {}", CStr::from_ptr(dlerror()).to_string_lossy()); }
        h as usize
    });
    let c = cs(n);
    let r = unsafe { dlsym(h as *mut c_void, c.as_ptr()) } as usize;
    if r == 0 { panic!("libLLVM lacks {n}"); }
    r
}
macro_rules! api {
    ($(pub fn $n:ident($($a:ident: $t:ty),*) $(-> $r:ty)?;)*) => { $(
        pub unsafe fn $n($($a: $t),*) $(-> $r)? {
            static S: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
            let p = *S.get_or_init(|| sym(stringify!($n)));
            let f: unsafe extern "C" fn($($t),*) $(-> $r)? = std::mem::transmute(p);
            f($($a),*)
        }
    )* }
}
unsafe fn rust_demangle(len: usize, p: *const u8) -> *mut c_char {
    static S: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let a = *S.get_or_init(|| sym("_ZN4llvm12rustDemangleESt17basic_string_viewIcSt11char_traitsIcEE"));
    let f: unsafe extern "C" fn(usize, *const u8) -> *mut c_char = std::mem::transmute(a);
    f(len, p)
}
api! {
    pub fn LLVMContextCreate() -> Ctx;
    pub fn LLVMCreateMemoryBufferWithContentsOfFile(p: *const c_char, o: *mut Buf, m: *mut *mut c_char) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ctx, b: Buf, m: *mut Module) -> c_int;
    pub fn LLVMStripModuleDebugInfo(m: Module) -> c_int;
    pub fn LLVMPrintModuleToFile(m: Module, f: *const c_char, e: *mut *mut c_char) -> c_int;
    pub fn LLVMCreatePassBuilderOptions() -> *mut c_void;
    pub fn LLVMRunPasses(m: Module, p: *const c_char, tm: *mut c_void, o: *mut c_void) -> *mut c_void;
    pub fn LLVMGetErrorMessage(e: *mut c_void) -> *mut c_char;
    pub fn LLVMGetModuleDataLayout(m: Module) -> *mut c_void;
    pub fn LLVMGetFirstFunction(m: Module) -> Val;
    pub fn LLVMGetNextFunction(f: Val) -> Val;
    pub fn LLVMGetFirstGlobal(m: Module) -> Val;
    pub fn LLVMGetNextGlobal(f: Val) -> Val;
    pub fn LLVMGetFirstGlobalAlias(m: Module) -> Val;
    pub fn LLVMGetNextGlobalAlias(f: Val) -> Val;
    pub fn LLVMAliasGetAliasee(f: Val) -> Val;
    pub fn LLVMGetInitializer(f: Val) -> Val;
    pub fn LLVMIsGlobalConstant(f: Val) -> c_int;
    pub fn LLVMGlobalGetValueType(f: Val) -> Type;
    pub fn LLVMGetValueName2(v: Val, l: *mut usize) -> *const c_char;
    pub fn LLVMCountBasicBlocks(f: Val) -> c_uint;
    pub fn LLVMGetFirstBasicBlock(f: Val) -> BB;
    pub fn LLVMGetNextBasicBlock(f: BB) -> BB;
    pub fn LLVMDeleteBasicBlock(b: BB);
    pub fn LLVMGetFirstInstruction(b: BB) -> Val;
    pub fn LLVMGetNextInstruction(i: Val) -> Val;
    pub fn LLVMInstructionEraseFromParent(i: Val);
    pub fn LLVMReplaceAllUsesWith(a: Val, b: Val);
    pub fn LLVMGetUndef(t: Type) -> Val;
    pub fn LLVMSetLinkage(v: Val, l: c_int);
    pub fn LLVMSetComdat(v: Val, c: *mut c_void);
    pub fn LLVMHasPersonalityFn(v: Val) -> c_int;
    pub fn LLVMSetPersonalityFn(v: Val, p: Val);
    pub fn LLVMGetInstructionOpcode(i: Val) -> c_int;
    pub fn LLVMTypeOf(v: Val) -> Type;
    pub fn LLVMGetTypeKind(t: Type) -> c_int;
    pub fn LLVMGetIntTypeWidth(t: Type) -> c_uint;
    pub fn LLVMGetElementType(t: Type) -> Type;
    pub fn LLVMGetArrayLength2(t: Type) -> u64;
    pub fn LLVMGetVectorSize(t: Type) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: Type) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Type, i: c_uint) -> Type;
    pub fn LLVMOffsetOfElement(d: *mut c_void, t: Type, i: c_uint) -> c_ulonglong;
    pub fn LLVMABISizeOfType(d: *mut c_void, t: Type) -> c_ulonglong;
    pub fn LLVMStoreSizeOfType(d: *mut c_void, t: Type) -> c_ulonglong;
    pub fn LLVMGetNumOperands(v: Val) -> c_int;
    pub fn LLVMGetOperand(v: Val, i: c_uint) -> Val;
    pub fn LLVMCountParams(f: Val) -> c_uint;
    pub fn LLVMGetParam(f: Val, i: c_uint) -> Val;
    pub fn LLVMGetICmpPredicate(i: Val) -> c_int;
    pub fn LLVMGetFCmpPredicate(i: Val) -> c_int;
    pub fn LLVMGetAllocatedType(i: Val) -> Type;
    pub fn LLVMGetGEPSourceElementType(i: Val) -> Type;
    pub fn LLVMGetNumSuccessors(i: Val) -> c_uint;
    pub fn LLVMGetSuccessor(i: Val, n: c_uint) -> BB;
    pub fn LLVMIsConditional(i: Val) -> c_int;
    pub fn LLVMGetCondition(i: Val) -> Val;
    pub fn LLVMGetSwitchCaseValue(i: Val, n: c_uint) -> Val;
    pub fn LLVMGetSwitchDefaultDest(i: Val) -> BB;
    pub fn LLVMCountIncoming(i: Val) -> c_uint;
    pub fn LLVMGetIncomingValue(i: Val, n: c_uint) -> Val;
    pub fn LLVMGetIncomingBlock(i: Val, n: c_uint) -> BB;
    pub fn LLVMGetNumArgOperands(i: Val) -> c_uint;
    pub fn LLVMGetCalledValue(i: Val) -> Val;
    pub fn LLVMGetNumIndices(i: Val) -> c_uint;
    pub fn LLVMGetIndices(i: Val) -> *const c_uint;
    pub fn LLVMGetNumMaskElements(i: Val) -> c_uint;
    pub fn LLVMGetMaskValue(i: Val, n: c_uint) -> c_int;
    pub fn LLVMGetAtomicRMWBinOp(i: Val) -> c_int;
    pub fn LLVMGetNormalDest(i: Val) -> BB;
    pub fn LLVMConstIntGetZExtValue(v: Val) -> c_ulonglong;
    pub fn LLVMConstRealGetDouble(v: Val, l: *mut c_int) -> f64;
    pub fn LLVMGetConstOpcode(v: Val) -> c_int;
    pub fn LLVMGetAggregateElement(v: Val, i: c_uint) -> Val;
    pub fn LLVMGetRawDataValues(v: Val, l: *mut usize) -> *const u8;
    pub fn LLVMPrintValueToString(v: Val) -> *mut c_char;
    pub fn LLVMPrintTypeToString(v: Type) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMIsAConstantInt(v: Val) -> Val;
    pub fn LLVMIsAConstantFP(v: Val) -> Val;
    pub fn LLVMIsAConstantExpr(v: Val) -> Val;
    pub fn LLVMIsAConstantDataSequential(v: Val) -> Val;
    pub fn LLVMIsAConstantAggregateZero(v: Val) -> Val;
    pub fn LLVMIsAConstantArray(v: Val) -> Val;
    pub fn LLVMIsAConstantStruct(v: Val) -> Val;
    pub fn LLVMIsAConstantVector(v: Val) -> Val;
    pub fn LLVMIsAConstantPointerNull(v: Val) -> Val;
    pub fn LLVMIsAUndefValue(v: Val) -> Val;
    pub fn LLVMIsAPoisonValue(v: Val) -> Val;
    pub fn LLVMIsAFunction(v: Val) -> Val;
    pub fn LLVMIsAGlobalVariable(v: Val) -> Val;
    pub fn LLVMIsAGlobalAlias(v: Val) -> Val;
    pub fn LLVMIsAInlineAsm(v: Val) -> Val;
    pub fn LLVMIsAArgument(v: Val) -> Val;
    pub fn LLVMIsAInstruction(v: Val) -> Val;
    pub fn LLVMIsConstant(v: Val) -> c_int;
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    pub fn LLVMCreateEnumAttribute(c: Ctx, k: c_uint, v: u64) -> *mut c_void;
    pub fn LLVMAddAttributeAtIndex(f: Val, idx: c_uint, a: *mut c_void);
    pub fn LLVMRemoveEnumAttributeAtIndex(f: Val, idx: c_uint, k: c_uint);
    pub fn LLVMGetVolatile(v: Val) -> c_int;
}
pub fn name(v: Val) -> String {
    unsafe {
        let mut l = 0usize;
        let p = LLVMGetValueName2(v, &mut l);
        String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, l)).to_string()
    }
}
pub fn show(v: Val) -> String {
    unsafe {
        let p = LLVMPrintValueToString(v);
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        LLVMDisposeMessage(p);
        s
    }
}
pub fn demangle(n: &str) -> String {
    unsafe {
        // local symbols may carry suffixes such as ".llvm.123"
        let base = n.split(".llvm.").next().unwrap();
        let p = rust_demangle(base.len(), base.as_ptr());
        if p.is_null() { return n.to_string(); }
        let s = CStr::from_ptr(p).to_string_lossy().to_string();
        free(p as *mut c_void);
        s
    }
}
pub fn cs(s: &str) -> CString { CString::new(s).unwrap() }
