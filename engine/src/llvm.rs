//! LLVM-C bindings (the libLLVM that ships with the repository's pinned rustc).
use crate::bind;
use std::ffi::{c_char, c_uint, c_void};
pub type P = *mut c_void;
bind! { Llvm {
    fn LLVMContextCreate() -> P;
    fn LLVMCreateMemoryBufferWithMemoryRange(d: *const c_char, n: usize, name: *const c_char, nul: i32) -> P;
    fn LLVMParseBitcodeInContext2(ctx: P, buf: P, out: *mut P) -> i32;
    fn LLVMGetFirstFunction(m: P) -> P;
    fn LLVMGetNextFunction(f: P) -> P;
    fn LLVMGetFirstGlobal(m: P) -> P;
    fn LLVMGetNextGlobal(g: P) -> P;
    fn LLVMGetFirstGlobalAlias(m: P) -> P;
    fn LLVMGetNextGlobalAlias(g: P) -> P;
    fn LLVMAliasGetAliasee(g: P) -> P;
    fn LLVMGetValueName2(v: P, n: *mut usize) -> *const c_char;
    fn LLVMIsDeclaration(v: P) -> i32;
    fn LLVMGetLinkage(v: P) -> i32;
    fn LLVMIsThreadLocal(v: P) -> i32;
    fn LLVMGetInitializer(v: P) -> P;
    fn LLVMGetAlignment(v: P) -> c_uint;
    fn LLVMGlobalGetValueType(v: P) -> P;
    fn LLVMGetModuleDataLayout(m: P) -> P;
    fn LLVMABISizeOfType(td: P, t: P) -> u64;
    fn LLVMABIAlignmentOfType(td: P, t: P) -> c_uint;
    fn LLVMOffsetOfElement(td: P, t: P, i: c_uint) -> u64;
    fn LLVMTypeOf(v: P) -> P;
    fn LLVMGetTypeKind(t: P) -> i32;
    fn LLVMGetIntTypeWidth(t: P) -> c_uint;
    fn LLVMCountStructElementTypes(t: P) -> c_uint;
    fn LLVMStructGetTypeAtIndex(t: P, i: c_uint) -> P;
    fn LLVMGetElementType(t: P) -> P;
    fn LLVMGetArrayLength2(t: P) -> u64;
    fn LLVMGetVectorSize(t: P) -> c_uint;
    fn LLVMGetValueKind(v: P) -> i32;
    fn LLVMCountParams(f: P) -> c_uint;
    fn LLVMGetParam(f: P, i: c_uint) -> P;
    fn LLVMGetFirstBasicBlock(f: P) -> P;
    fn LLVMGetNextBasicBlock(b: P) -> P;
    fn LLVMGetFirstInstruction(b: P) -> P;
    fn LLVMGetNextInstruction(i: P) -> P;
    fn LLVMGetInstructionOpcode(i: P) -> i32;
    fn LLVMGetNumOperands(v: P) -> i32;
    fn LLVMGetOperand(v: P, i: c_uint) -> P;
    fn LLVMValueAsBasicBlock(v: P) -> P;
    fn LLVMGetICmpPredicate(i: P) -> i32;
    fn LLVMGetFCmpPredicate(i: P) -> i32;
    fn LLVMCountIncoming(i: P) -> c_uint;
    fn LLVMGetIncomingValue(i: P, n: c_uint) -> P;
    fn LLVMGetIncomingBlock(i: P, n: c_uint) -> P;
    fn LLVMGetCalledValue(i: P) -> P;
    fn LLVMGetNumArgOperands(i: P) -> c_uint;
    fn LLVMGetArgOperand(i: P, n: c_uint) -> P;
    fn LLVMGetNormalDest(i: P) -> P;
    fn LLVMGetNumSuccessors(i: P) -> c_uint;
    fn LLVMGetSuccessor(i: P, n: c_uint) -> P;
    fn LLVMIsConditional(i: P) -> i32;
    fn LLVMGetCondition(i: P) -> P;
    fn LLVMGetAllocatedType(i: P) -> P;
    fn LLVMGetGEPSourceElementType(i: P) -> P;
    fn LLVMGetNumIndices(i: P) -> c_uint;
    fn LLVMGetIndices(i: P) -> *const c_uint;
    fn LLVMGetNumMaskElements(i: P) -> c_uint;
    fn LLVMGetMaskValue(i: P, n: c_uint) -> i32;
    fn LLVMGetAtomicRMWBinOp(i: P) -> i32;
    fn LLVMGetConstOpcode(v: P) -> i32;
    fn LLVMConstIntGetZExtValue(v: P) -> u64;
    fn LLVMConstRealGetDouble(v: P, l: *mut i32) -> f64;
    fn LLVMGetAggregateElement(v: P, i: c_uint) -> P;
    fn LLVMGetRawDataValues(v: P, n: *mut usize) -> *const c_char;
    fn LLVMPrintValueToString(v: P) -> *mut c_char;
   
    fn LLVMPrintTypeToString(v: P) -> *mut c_char;
    fn LLVMDisposeMessage(v: *mut c_char);
    fn LLVMIsAInlineAsm(v: P) -> P;
} }
pub mod op {
    pub const RET: i32 = 1; pub const BR: i32 = 2; pub const SWITCH: i32 = 3; pub const INVOKE: i32 = 5;
    pub const UNREACHABLE: i32 = 7; pub const FNEG: i32 = 66;
    pub const ADD: i32 = 8; pub const FADD: i32 = 9; pub const SUB: i32 = 10; pub const FSUB: i32 = 11;
    pub const MUL: i32 = 12; pub const FMUL: i32 = 13; pub const UDIV: i32 = 14; pub const SDIV: i32 = 15;
    pub const FDIV: i32 = 16; pub const UREM: i32 = 17; pub const SREM: i32 = 18; pub const FREM: i32 = 19;
    pub const SHL: i32 = 20; pub const LSHR: i32 = 21; pub const ASHR: i32 = 22; pub const AND: i32 = 23;
    pub const OR: i32 = 24; pub const XOR: i32 = 25; pub const ALLOCA: i32 = 26; pub const LOAD: i32 = 27;
    pub const STORE: i32 = 28; pub const GEP: i32 = 29; pub const TRUNC: i32 = 30; pub const ZEXT: i32 = 31;
    pub const SEXT: i32 = 32; pub const FPTOUI: i32 = 33; pub const FPTOSI: i32 = 34; pub const UITOFP: i32 = 35;
    pub const SITOFP: i32 = 36; pub const FPTRUNC: i32 = 37; pub const FPEXT: i32 = 38; pub const PTRTOINT: i32 = 39;
    pub const INTTOPTR: i32 = 40; pub const BITCAST: i32 = 41; pub const ADDRSPACECAST: i32 = 60;
    pub const ICMP: i32 = 42; pub const FCMP: i32 = 43; pub const PHI: i32 = 44; pub const CALL: i32 = 45;
    pub const SELECT: i32 = 46; pub const EXTRACTELEMENT: i32 = 50; pub const INSERTELEMENT: i32 = 51;
    pub const SHUFFLEVECTOR: i32 = 52; pub const EXTRACTVALUE: i32 = 53; pub const INSERTVALUE: i32 = 54;
    pub const FREEZE: i32 = 68; pub const FENCE: i32 = 55; pub const CMPXCHG: i32 = 56; pub const ATOMICRMW: i32 = 57;
    pub const RESUME: i32 = 58; pub const LANDINGPAD: i32 = 59;
}
