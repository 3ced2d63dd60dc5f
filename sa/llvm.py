"""Thin ctypes reader for LLVM IR (LLVM-C API) -> plain Python structures."""
import ctypes as C, os

_CANDS = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so.1",
          "/usr/lib/llvm-18/lib/libLLVM.so", "libLLVM-18.so.1", "libLLVM-18.so"]
L = None
for c in _CANDS:
    try:
        L = C.CDLL(c)
        break
    except OSError:
        pass
if L is None:
    raise RuntimeError("LLVM 18 shared library not found")

P = C.c_void_p


def _sig(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _sig("LLVMContextCreate", P)
BufFromFile = _sig("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _sig("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _sig("LLVMGetFirstFunction", P, P)
NextFn = _sig("LLVMGetNextFunction", P, P)
FirstGV = _sig("LLVMGetFirstGlobal", P, P)
NextGV = _sig("LLVMGetNextGlobal", P, P)
FirstBB = _sig("LLVMGetFirstBasicBlock", P, P)
NextBB = _sig("LLVMGetNextBasicBlock", P, P)
FirstIns = _sig("LLVMGetFirstInstruction", P, P)
NextIns = _sig("LLVMGetNextInstruction", P, P)
_vn = _sig("LLVMGetValueName2", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
IsDecl = _sig("LLVMIsDeclaration", C.c_int, P)
Linkage = _sig("LLVMGetLinkage", C.c_int, P)
CountParams = _sig("LLVMCountParams", C.c_uint, P)
GetParam = _sig("LLVMGetParam", P, P, C.c_uint)
Opcode = _sig("LLVMGetInstructionOpcode", C.c_int, P)
ConstOpcode = _sig("LLVMGetConstOpcode", C.c_int, P)
NumOps = _sig("LLVMGetNumOperands", C.c_int, P)
GetOp = _sig("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _sig("LLVMTypeOf", P, P)
TypeKind = _sig("LLVMGetTypeKind", C.c_int, P)
IntWidth = _sig("LLVMGetIntTypeWidth", C.c_uint, P)
ValueKind = _sig("LLVMGetValueKind", C.c_int, P)
ICmpPred = _sig("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _sig("LLVMGetFCmpPredicate", C.c_int, P)
ZExtVal = _sig("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
AllocTy = _sig("LLVMGetAllocatedType", P, P)
GEPTy = _sig("LLVMGetGEPSourceElementType", P, P)
CalledVal = _sig("LLVMGetCalledValue", P, P)
NumArgs = _sig("LLVMGetNumArgOperands", C.c_uint, P)
CalledFTy = _sig("LLVMGetCalledFunctionType", P, P)
ParamTys = _sig("LLVMCountParamTypes", C.c_uint, P)
IsVarArg = _sig("LLVMIsFunctionVarArg", C.c_int, P)
RetTy = _sig("LLVMGetReturnType", P, P)
GValTy = _sig("LLVMGlobalGetValueType", P, P)
GInit = _sig("LLVMGetInitializer", P, P)
IsThreadLocal = _sig("LLVMIsThreadLocal", C.c_int, P)
IsConstGV = _sig("LLVMIsGlobalConstant", C.c_int, P)
ModDL = _sig("LLVMGetModuleDataLayout", P, P)
ABISize = _sig("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _sig("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
OffOf = _sig("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
StructTyAt = _sig("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
CountStruct = _sig("LLVMCountStructElementTypes", C.c_uint, P)
StructName = _sig("LLVMGetStructName", C.c_char_p, P)
ElemTy = _sig("LLVMGetElementType", P, P)
ArrLen = _sig("LLVMGetArrayLength", C.c_uint, P)
VecLen = _sig("LLVMGetVectorSize", C.c_uint, P)
NumSucc = _sig("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _sig("LLVMGetSuccessor", P, P, C.c_uint)
IsCond = _sig("LLVMIsConditional", C.c_int, P)
Cond = _sig("LLVMGetCondition", P, P)
CountInc = _sig("LLVMCountIncoming", C.c_uint, P)
IncVal = _sig("LLVMGetIncomingValue", P, P, C.c_uint)
IncBB = _sig("LLVMGetIncomingBlock", P, P, C.c_uint)
IsVol = _sig("LLVMGetVolatile", C.c_int, P)
Order = _sig("LLVMGetOrdering", C.c_int, P)
RMWBin = _sig("LLVMGetAtomicRMWBinOp", C.c_int, P)
SwitchDef = _sig("LLVMGetSwitchDefaultDest", P, P)
NumIdx = _sig("LLVMGetNumIndices", C.c_uint, P)
Indices = _sig("LLVMGetIndices", C.POINTER(C.c_uint), P)
DLine = _sig("LLVMGetDebugLocLine", C.c_uint, P)
_dfile = _sig("LLVMGetDebugLocFilename", C.POINTER(C.c_char), P, C.POINTER(C.c_uint))
BBVal = _sig("LLVMBasicBlockAsValue", P, P)
ValBB = _sig("LLVMValueAsBasicBlock", P, P)
AggEl = _sig("LLVMGetAggregateElement", P, P, C.c_uint)
IsNull = _sig("LLVMIsNull", C.c_int, P)
IsUndef = _sig("LLVMIsUndef", C.c_int, P)
_cds = _sig("LLVMGetAsString", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
IsCDStr = _sig("LLVMIsConstantString", C.c_int, P)
_asm = _sig("LLVMGetInlineAsmAsmString", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
AliaseeOf = _sig("LLVMAliasGetAliasee", P, P)
FirstAlias = _sig("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _sig("LLVMGetNextGlobalAlias", P, P)
DLSubprog = _sig("LLVMGetSubprogram", P, P)
ModAsm = _sig("LLVMGetModuleInlineAsm", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
RealStr = _sig("LLVMPrintValueToString", C.c_void_p, P)

# opcode table (LLVM-C stable numbers)
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp",
       44: "phi", 45: "call", 46: "select", 49: "vaarg", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}
# value kinds
VK_ARG, VK_BB, VK_FN, VK_ALIAS, VK_GV = 0, 1, 5, 6, 8
VK_INLINEASM = 23
VK_INSTR = 24
TK_VOID, TK_HALF, TK_FLOAT, TK_DOUBLE, TK_INT, TK_FN, TK_STRUCT, TK_ARRAY, TK_PTR, TK_VEC = 0, 1, 2, 3, 8, 9, 10, 11, 12, 13


def vname(v):
    n = C.c_size_t()
    p = _vn(v, C.byref(n))
    return C.string_at(p, n.value).decode("utf-8", "replace") if n.value else ""


def asmstr(v):
    n = C.c_size_t()
    p = _asm(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def modasm(m):
    n = C.c_size_t()
    p = ModAsm(m, C.byref(n))
    return C.string_at(p, n.value).decode() if n.value else ""


def dfile(v):
    n = C.c_uint()
    p = _dfile(v, C.byref(n))
    return C.string_at(p, n.value).decode() if n.value else ""


def cdstr(v):
    n = C.c_size_t()
    p = _cds(v, C.byref(n))
    return C.string_at(p, n.value)


def load_module(path):
    ctx = ContextCreate()
    buf = P()
    err = C.c_char_p()
    if BufFromFile(path.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError("read %s: %s" % (path, err.value))
    m = P()
    if ParseIR(ctx, buf, C.byref(m), C.byref(err)):
        raise RuntimeError("parse %s: %s" % (path, err.value))
    return m.value
