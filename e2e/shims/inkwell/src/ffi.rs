#![allow(non_snake_case, non_camel_case_types, clippy::all)]
use std::os::raw::{c_char, c_int, c_uint, c_void};
pub type Ref = *mut c_void;
pub type Bool = c_int;
extern "C" {
    pub fn LLVMContextCreate() -> Ref;
    pub fn LLVMContextDispose(c: Ref);
    pub fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: Ref) -> Ref;
    pub fn LLVMDisposeModule(m: Ref);
    pub fn LLVMCreateBuilderInContext(c: Ref) -> Ref;
    pub fn LLVMDisposeBuilder(b: Ref);
    pub fn LLVMVoidTypeInContext(c: Ref) -> Ref;
    pub fn LLVMIntTypeInContext(c: Ref, n: c_uint) -> Ref;
    pub fn LLVMFloatTypeInContext(c: Ref) -> Ref;
    pub fn LLVMDoubleTypeInContext(c: Ref) -> Ref;
    pub fn LLVMPointerTypeInContext(c: Ref, a: c_uint) -> Ref;
    pub fn LLVMPointerType(t: Ref, a: c_uint) -> Ref;
    pub fn LLVMStructTypeInContext(c: Ref, e: *const Ref, n: c_uint, p: Bool) -> Ref;
    pub fn LLVMStructCreateNamed(c: Ref, n: *const c_char) -> Ref;
    pub fn LLVMArrayType(t: Ref, n: c_uint) -> Ref;
    pub fn LLVMVectorType(t: Ref, n: c_uint) -> Ref;
    pub fn LLVMFunctionType(r: Ref, p: *const Ref, n: c_uint, v: Bool) -> Ref;
    pub fn LLVMGetReturnType(f: Ref) -> Ref;
    pub fn LLVMCountParamTypes(f: Ref) -> c_uint;
    pub fn LLVMGetParamTypes(f: Ref, d: *mut Ref);
    pub fn LLVMIsFunctionVarArg(f: Ref) -> Bool;
    pub fn LLVMGetTypeKind(t: Ref) -> c_int;
    pub fn LLVMTypeIsSized(t: Ref) -> Bool;
    pub fn LLVMGetTypeContext(t: Ref) -> Ref;
    pub fn LLVMGetIntTypeWidth(t: Ref) -> c_uint;
    pub fn LLVMGetElementType(t: Ref) -> Ref;
    pub fn LLVMGetArrayLength(t: Ref) -> c_uint;
    pub fn LLVMGetVectorSize(t: Ref) -> c_uint;
    pub fn LLVMCountStructElementTypes(t: Ref) -> c_uint;
    pub fn LLVMStructGetTypeAtIndex(t: Ref, i: c_uint) -> Ref;
    pub fn LLVMIsPackedStruct(t: Ref) -> Bool;
    pub fn LLVMPrintTypeToString(t: Ref) -> *mut c_char;
    pub fn LLVMPrintValueToString(v: Ref) -> *mut c_char;
    pub fn LLVMSizeOf(t: Ref) -> Ref;
    pub fn LLVMConstNull(t: Ref) -> Ref;
    pub fn LLVMGetUndef(t: Ref) -> Ref;
    pub fn LLVMGetPoison(t: Ref) -> Ref;
    pub fn LLVMConstAllOnes(t: Ref) -> Ref;
    pub fn LLVMConstPointerNull(t: Ref) -> Ref;
    pub fn LLVMConstInt(t: Ref, v: u64, s: Bool) -> Ref;
    pub fn LLVMConstIntOfStringAndSize(t: Ref, s: *const c_char, l: c_uint, r: u8) -> Ref;
    pub fn LLVMConstIntOfArbitraryPrecision(t: Ref, n: c_uint, w: *const u64) -> Ref;
    pub fn LLVMConstStringInContext(c: Ref, s: *const c_char, l: c_uint, dnt: Bool) -> Ref;
    pub fn LLVMConstArray(t: Ref, v: *const Ref, n: c_uint) -> Ref;
    pub fn LLVMConstStructInContext(c: Ref, v: *const Ref, n: c_uint, p: Bool) -> Ref;
    pub fn LLVMConstIntGetZExtValue(v: Ref) -> u64;
    pub fn LLVMConstIntGetSExtValue(v: Ref) -> i64;
    pub fn LLVMTypeOf(v: Ref) -> Ref;
    pub fn LLVMIsConstant(v: Ref) -> Bool;
    pub fn LLVMIsAConstantInt(v: Ref) -> Ref;
    pub fn LLVMIsAInstruction(v: Ref) -> Ref;
    pub fn LLVMIsNull(v: Ref) -> Bool;
    pub fn LLVMIsUndef(v: Ref) -> Bool;
    pub fn LLVMSetValueName2(v: Ref, n: *const c_char, l: usize);
    pub fn LLVMGetValueName2(v: Ref, l: *mut usize) -> *const c_char;
    pub fn LLVMGlobalGetValueType(v: Ref) -> Ref;
    pub fn LLVMAddFunction(m: Ref, n: *const c_char, t: Ref) -> Ref;
    pub fn LLVMGetNamedFunction(m: Ref, n: *const c_char) -> Ref;
    pub fn LLVMGetFirstFunction(m: Ref) -> Ref;
    pub fn LLVMGetNextFunction(f: Ref) -> Ref;
    pub fn LLVMDeleteFunction(f: Ref);
    pub fn LLVMCountParams(f: Ref) -> c_uint;
    pub fn LLVMGetParam(f: Ref, i: c_uint) -> Ref;
    pub fn LLVMCountBasicBlocks(f: Ref) -> c_uint;
    pub fn LLVMGetFirstBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetLastBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetNextBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetPreviousBasicBlock(f: Ref) -> Ref;
    pub fn LLVMGetBasicBlockParent(b: Ref) -> Ref;
    pub fn LLVMGetBasicBlockTerminator(b: Ref) -> Ref;
    pub fn LLVMGetBasicBlockName(b: Ref) -> *const c_char;
    pub fn LLVMGetFirstInstruction(b: Ref) -> Ref;
    pub fn LLVMGetLastInstruction(b: Ref) -> Ref;
    pub fn LLVMGetNextInstruction(b: Ref) -> Ref;
    pub fn LLVMGetPreviousInstruction(b: Ref) -> Ref;
    pub fn LLVMGetInstructionParent(i: Ref) -> Ref;
    pub fn LLVMInstructionEraseFromParent(i: Ref);
    pub fn LLVMDeleteBasicBlock(b: Ref);
    pub fn LLVMRemoveBasicBlockFromParent(b: Ref);
    pub fn LLVMMoveBasicBlockAfter(b: Ref, p: Ref);
    pub fn LLVMMoveBasicBlockBefore(b: Ref, p: Ref);
    pub fn LLVMBasicBlockAsValue(b: Ref) -> Ref;
    pub fn LLVMAppendBasicBlockInContext(c: Ref, f: Ref, n: *const c_char) -> Ref;
    pub fn LLVMInsertBasicBlockInContext(c: Ref, b: Ref, n: *const c_char) -> Ref;
    pub fn LLVMAddGlobal(m: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMAddGlobalInAddressSpace(m: Ref, t: Ref, n: *const c_char, a: c_uint) -> Ref;
    pub fn LLVMGetNamedGlobal(m: Ref, n: *const c_char) -> Ref;
    pub fn LLVMGetFirstGlobal(m: Ref) -> Ref;
    pub fn LLVMGetNextGlobal(g: Ref) -> Ref;
    pub fn LLVMDeleteGlobal(g: Ref);
    pub fn LLVMSetInitializer(g: Ref, v: Ref);
    pub fn LLVMGetInitializer(g: Ref) -> Ref;
    pub fn LLVMSetGlobalConstant(g: Ref, b: Bool);
    pub fn LLVMIsGlobalConstant(g: Ref) -> Bool;
    pub fn LLVMSetLinkage(g: Ref, l: c_int);
    pub fn LLVMGetLinkage(g: Ref) -> c_int;
    pub fn LLVMSetAlignment(g: Ref, a: c_uint);
    pub fn LLVMSetUnnamedAddress(g: Ref, a: c_int);
    pub fn LLVMSetVisibility(g: Ref, a: c_int);
    pub fn LLVMSetSection(g: Ref, s: *const c_char);
    pub fn LLVMIsDeclaration(g: Ref) -> Bool;
    pub fn LLVMGetEnumAttributeKindForName(n: *const c_char, l: usize) -> c_uint;
    pub fn LLVMCreateEnumAttribute(c: Ref, k: c_uint, v: u64) -> Ref;
    pub fn LLVMCreateStringAttribute(c: Ref, k: *const c_char, kl: c_uint, v: *const c_char, vl: c_uint) -> Ref;
    pub fn LLVMAddAttributeAtIndex(f: Ref, i: c_uint, a: Ref);
    pub fn LLVMRemoveEnumAttributeAtIndex(f: Ref, i: c_uint, k: c_uint);
    pub fn LLVMSetFunctionCallConv(f: Ref, c: c_uint);
    pub fn LLVMSetInstructionCallConv(f: Ref, c: c_uint);
    pub fn LLVMSetTailCall(i: Ref, b: Bool);
    pub fn LLVMSetTarget(m: Ref, t: *const c_char);
    pub fn LLVMSetDataLayout(m: Ref, t: *const c_char);
    pub fn LLVMGetTarget(m: Ref) -> *const c_char;
    pub fn LLVMGetDataLayoutStr(m: Ref) -> *const c_char;
    pub fn LLVMSetModuleIdentifier(m: Ref, s: *const c_char, l: usize);
    pub fn LLVMPrintModuleToFile(m: Ref, f: *const c_char, e: *mut *mut c_char) -> Bool;
    pub fn LLVMPrintModuleToString(m: Ref) -> *mut c_char;
    pub fn LLVMVerifyModule(m: Ref, a: c_int, e: *mut *mut c_char) -> Bool;
    pub fn LLVMVerifyFunction(f: Ref, a: c_int) -> Bool;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMLinkModules2(d: Ref, s: Ref) -> Bool;
    pub fn LLVMParseBitcodeInContext2(c: Ref, b: Ref, m: *mut Ref) -> Bool;
    pub fn LLVMCloneModule(m: Ref) -> Ref;
    pub fn LLVMWriteBitcodeToFile(m: Ref, p: *const c_char) -> c_int;
    pub fn LLVMCreateMemoryBufferWithMemoryRange(d: *const c_char, l: usize, n: *const c_char, t: Bool) -> Ref;
    pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, l: usize, n: *const c_char) -> Ref;
    pub fn LLVMGetBufferStart(b: Ref) -> *const c_char;
    pub fn LLVMGetBufferSize(b: Ref) -> usize;
    pub fn LLVMDisposeMemoryBuffer(b: Ref);
    // builder
    pub fn LLVMPositionBuilderAtEnd(b: Ref, bb: Ref);
    pub fn LLVMPositionBuilderBefore(b: Ref, i: Ref);
    pub fn LLVMPositionBuilder(b: Ref, bb: Ref, i: Ref);
    pub fn LLVMGetInsertBlock(b: Ref) -> Ref;
    pub fn LLVMClearInsertionPosition(b: Ref);
    pub fn LLVMBuildRetVoid(b: Ref) -> Ref;
    pub fn LLVMBuildRet(b: Ref, v: Ref) -> Ref;
    pub fn LLVMBuildAggregateRet(b: Ref, v: *const Ref, n: c_uint) -> Ref;
    pub fn LLVMBuildBr(b: Ref, bb: Ref) -> Ref;
    pub fn LLVMBuildCondBr(b: Ref, c: Ref, t: Ref, e: Ref) -> Ref;
    pub fn LLVMBuildSwitch(b: Ref, v: Ref, e: Ref, n: c_uint) -> Ref;
    pub fn LLVMAddCase(s: Ref, v: Ref, b: Ref);
    pub fn LLVMBuildUnreachable(b: Ref) -> Ref;
    pub fn LLVMBuildCall2(b: Ref, t: Ref, f: Ref, a: *const Ref, n: c_uint, nm: *const c_char) -> Ref;
    pub fn LLVMBuildAlloca(b: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildArrayAlloca(b: Ref, t: Ref, v: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildLoad2(b: Ref, t: Ref, p: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildStore(b: Ref, v: Ref, p: Ref) -> Ref;
    pub fn LLVMBuildGEP2(b: Ref, t: Ref, p: Ref, i: *const Ref, n: c_uint, nm: *const c_char) -> Ref;
    pub fn LLVMBuildInBoundsGEP2(b: Ref, t: Ref, p: Ref, i: *const Ref, n: c_uint, nm: *const c_char) -> Ref;
    pub fn LLVMBuildStructGEP2(b: Ref, t: Ref, p: Ref, i: c_uint, nm: *const c_char) -> Ref;
    pub fn LLVMBuildMemCpy(b: Ref, d: Ref, da: c_uint, s: Ref, sa: c_uint, n: Ref) -> Ref;
    pub fn LLVMBuildMemMove(b: Ref, d: Ref, da: c_uint, s: Ref, sa: c_uint, n: Ref) -> Ref;
    pub fn LLVMBuildMemSet(b: Ref, d: Ref, v: Ref, n: Ref, a: c_uint) -> Ref;
    pub fn LLVMBuildExtractValue(b: Ref, a: Ref, i: c_uint, n: *const c_char) -> Ref;
    pub fn LLVMBuildInsertValue(b: Ref, a: Ref, v: Ref, i: c_uint, n: *const c_char) -> Ref;
    pub fn LLVMBuildICmp(b: Ref, p: c_int, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSelect(b: Ref, c: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildPhi(b: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMAddIncoming(p: Ref, v: *const Ref, b: *const Ref, n: c_uint);
    pub fn LLVMBuildGlobalString(b: Ref, s: *const c_char, n: *const c_char) -> Ref;
    pub fn LLVMBuildIsNull(b: Ref, v: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildIsNotNull(b: Ref, v: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildIntCast(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildIntCast2(b: Ref, v: Ref, t: Ref, s: Bool, n: *const c_char) -> Ref;
    pub fn LLVMBuildTrunc(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildTruncOrBitCast(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildZExt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildZExtOrBitCast(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSExt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSExtOrBitCast(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildBitCast(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildPointerCast(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildPtrToInt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildIntToPtr(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNot(b: Ref, v: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNeg(b: Ref, v: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildAdd(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNSWAdd(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNUWAdd(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSub(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNSWSub(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNUWSub(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildMul(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNSWMul(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNUWMul(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildUDiv(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildExactUDiv(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSDiv(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildExactSDiv(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildURem(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSRem(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildShl(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildLShr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildAShr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildAnd(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildOr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildXor(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMSetVolatile(i: Ref, v: Bool);
    // passes
    pub fn LLVMCreatePassManager() -> Ref;
    pub fn LLVMCreateFunctionPassManagerForModule(m: Ref) -> Ref;
    pub fn LLVMRunPassManager(p: Ref, m: Ref) -> Bool;
    pub fn LLVMInitializeFunctionPassManager(p: Ref) -> Bool;
    pub fn LLVMFinalizeFunctionPassManager(p: Ref) -> Bool;
    pub fn LLVMRunFunctionPassManager(p: Ref, f: Ref) -> Bool;
    pub fn LLVMDisposePassManager(p: Ref);
    pub fn LLVMPassManagerBuilderCreate() -> Ref;
    pub fn LLVMPassManagerBuilderDispose(p: Ref);
    pub fn LLVMPassManagerBuilderSetOptLevel(p: Ref, l: c_uint);
    pub fn LLVMPassManagerBuilderSetSizeLevel(p: Ref, l: c_uint);
    pub fn LLVMPassManagerBuilderSetDisableUnitAtATime(p: Ref, b: Bool);
    pub fn LLVMPassManagerBuilderSetDisableUnrollLoops(p: Ref, b: Bool);
    pub fn LLVMPassManagerBuilderSetDisableSimplifyLibCalls(p: Ref, b: Bool);
    pub fn LLVMPassManagerBuilderUseInlinerWithThreshold(p: Ref, t: c_uint);
    pub fn LLVMPassManagerBuilderPopulateModulePassManager(p: Ref, m: Ref);
    pub fn LLVMPassManagerBuilderPopulateFunctionPassManager(p: Ref, m: Ref);
    // target
    pub fn LLVMInitializeWebAssemblyTargetInfo();
    pub fn LLVMInitializeWebAssemblyTarget();
    pub fn LLVMInitializeWebAssemblyTargetMC();
    pub fn LLVMInitializeWebAssemblyAsmPrinter();
    pub fn LLVMInitializeWebAssemblyAsmParser();
    pub fn LLVMInitializeWebAssemblyDisassembler();
    pub fn LLVMGetTargetFromName(n: *const c_char) -> Ref;
    pub fn LLVMGetTargetFromTriple(t: *const c_char, o: *mut Ref, e: *mut *mut c_char) -> Bool;
    pub fn LLVMCreateTargetMachine(t: Ref, tr: *const c_char, cpu: *const c_char, f: *const c_char, l: c_int, r: c_int, c: c_int) -> Ref;
    pub fn LLVMDisposeTargetMachine(t: Ref);
    pub fn LLVMTargetMachineEmitToMemoryBuffer(t: Ref, m: Ref, k: c_int, e: *mut *mut c_char, o: *mut Ref) -> Bool;
    pub fn LLVMTargetMachineEmitToFile(t: Ref, m: Ref, f: *const c_char, k: c_int, e: *mut *mut c_char) -> Bool;
    pub fn LLVMCreateTargetDataLayout(t: Ref) -> Ref;
    pub fn LLVMCopyStringRepOfTargetData(t: Ref) -> *mut c_char;
    pub fn LLVMDisposeTargetData(t: Ref);
    pub fn LLVMGetDefaultTargetTriple() -> *mut c_char;
}
macro_rules! passes { ($($n:ident),* $(,)?) => { extern "C" { $(pub fn $n(p: Ref);)* } } }
passes!(
    LLVMAddAggressiveDCEPass, LLVMAddDCEPass, LLVMAddBitTrackingDCEPass, LLVMAddAlignmentFromAssumptionsPass,
    LLVMAddCFGSimplificationPass, LLVMAddDeadStoreEliminationPass, LLVMAddScalarizerPass,
    LLVMAddMergedLoadStoreMotionPass, LLVMAddGVNPass, LLVMAddNewGVNPass, LLVMAddIndVarSimplifyPass,
    LLVMAddInstructionCombiningPass, LLVMAddInstructionSimplifyPass, LLVMAddJumpThreadingPass,
    LLVMAddLICMPass, LLVMAddLoopDeletionPass, LLVMAddLoopIdiomPass, LLVMAddLoopRotatePass,
    LLVMAddLoopRerollPass, LLVMAddLoopUnrollPass, LLVMAddLoopUnrollAndJamPass,
    LLVMAddMemCpyOptPass, LLVMAddPartiallyInlineLibCallsPass, LLVMAddReassociatePass, LLVMAddSCCPPass,
    LLVMAddScalarReplAggregatesPass, LLVMAddScalarReplAggregatesPassSSA, LLVMAddSimplifyLibCallsPass,
    LLVMAddTailCallEliminationPass, LLVMAddDemoteMemoryToRegisterPass, LLVMAddVerifierPass,
    LLVMAddCorrelatedValuePropagationPass, LLVMAddEarlyCSEPass, LLVMAddEarlyCSEMemSSAPass,
    LLVMAddLowerExpectIntrinsicPass, LLVMAddLowerConstantIntrinsicsPass, LLVMAddTypeBasedAliasAnalysisPass,
    LLVMAddScopedNoAliasAAPass, LLVMAddBasicAliasAnalysisPass, LLVMAddMergeFunctionsPass,
    LLVMAddConstantMergePass, LLVMAddDeadArgEliminationPass, LLVMAddFunctionAttrsPass,
    LLVMAddFunctionInliningPass, LLVMAddAlwaysInlinerPass, LLVMAddGlobalDCEPass, LLVMAddGlobalOptimizerPass,
    LLVMAddIPSCCPPass, LLVMAddStripDeadPrototypesPass, LLVMAddStripSymbolsPass,
    LLVMAddPromoteMemoryToRegisterPass, LLVMAddLowerSwitchPass, LLVMAddLoopVectorizePass, LLVMAddSLPVectorizePass,
);
