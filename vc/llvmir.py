"""Minimal ctypes binding to LLVM-C (libLLVM 18): reads the bitcode clang produced from /repo."""
import ctypes as C

_lib = None
for _cand in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
              "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"):
    try:
        _lib = C.CDLL(_cand)
        break
    except OSError:
        continue
if _lib is None:
    raise RuntimeError("libLLVM-18 not found")

P = C.c_void_p
U = C.c_uint
B = C.c_int
U64 = C.c_ulonglong


def _f(name, res, *args):
    fn = getattr(_lib, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", B, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ContextCreate = _f("LLVMContextCreate", P)
ParseIR = _f("LLVMParseIRInContext", B, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetNamedFunction = _f("LLVMGetNamedFunction", P, P, C.c_char_p)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
_GetValueName2 = _f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
IsDeclaration = _f("LLVMIsDeclaration", B, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", B, P)
IsThreadLocal = _f("LLVMIsThreadLocal", B, P)
CountBasicBlocks = _f("LLVMCountBasicBlocks", U, P)
GetFirstBB = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBB = _f("LLVMGetNextBasicBlock", P, P)
GetFirstInst = _f("LLVMGetFirstInstruction", P, P)
GetNextInst = _f("LLVMGetNextInstruction", P, P)
GetInstOpcode = _f("LLVMGetInstructionOpcode", U, P)
GetNumOperands = _f("LLVMGetNumOperands", B, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
GetTypeKind = _f("LLVMGetTypeKind", U, P)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", U, P)
CountStructElts = _f("LLVMCountStructElementTypes", U, P)
StructGetTypeAt = _f("LLVMStructGetTypeAtIndex", P, P, U)
GetElementType = _f("LLVMGetElementType", P, P)
GetArrayLength2 = _f("LLVMGetArrayLength2", U64, P)
GetVectorSize = _f("LLVMGetVectorSize", U, P)
GetAllocatedType = _f("LLVMGetAllocatedType", P, P)
GetGEPSourceElementType = _f("LLVMGetGEPSourceElementType", P, P)
IsInBounds = _f("LLVMIsInBounds", B, P)
GetCalledValue = _f("LLVMGetCalledValue", P, P)
GetCalledFunctionType = _f("LLVMGetCalledFunctionType", P, P)
GetNumArgOperands = _f("LLVMGetNumArgOperands", U, P)
GetNormalDest = _f("LLVMGetNormalDest", P, P)
GetUnwindDest = _f("LLVMGetUnwindDest", P, P)
GetICmpPredicate = _f("LLVMGetICmpPredicate", U, P)
GetFCmpPredicate = _f("LLVMGetFCmpPredicate", U, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
GetIncomingValue = _f("LLVMGetIncomingValue", P, P, U)
GetIncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
GetNumSuccessors = _f("LLVMGetNumSuccessors", U, P)
GetSuccessor = _f("LLVMGetSuccessor", P, P, U)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
GetNumIndices = _f("LLVMGetNumIndices", U, P)
GetNumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", B, P)
GetAtomicRMWBinOp = _f("LLVMGetAtomicRMWBinOp", U, P)
GetValueKind = _f("LLVMGetValueKind", U, P)
ConstIntGetZExtValue = _f("LLVMConstIntGetZExtValue", U64, P)
ConstRealGetDouble = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(B))
GetConstOpcode = _f("LLVMGetConstOpcode", U, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
GetModuleDataLayout = _f("LLVMGetModuleDataLayout", P, P)
ABISizeOfType = _f("LLVMABISizeOfType", U64, P, P)
StoreSizeOfType = _f("LLVMStoreSizeOfType", U64, P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", U64, P, P, U)
GlobalGetValueType = _f("LLVMGlobalGetValueType", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetNSW = _f("LLVMGetNSW", B, P)
GetMaskValue = _f("LLVMGetMaskValue", B, P, U)
GetNumMaskElements = _f("LLVMGetNumMaskElements", U, P)
_GetAsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
GetElementAsConstant = _f("LLVMGetElementAsConstant", P, P, U)
GetAggregateElement = _f("LLVMGetAggregateElement", P, P, U)
IsConstantString = _f("LLVMIsConstantString", B, P)
GetDebugLocLine = _f("LLVMGetDebugLocLine", U, P)
_GetDebugLocFilename = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
_PrintValue = _f("LLVMPrintValueToString", P, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
GetReturnType = _f("LLVMGetReturnType", P, P)
GetStringAttrKind = _f("LLVMGetEnumAttributeKindForName", U, C.c_char_p, C.c_size_t)
GetCallSiteEnumAttr = _f("LLVMGetCallSiteEnumAttribute", P, P, U, U)
GetEnumAttributeAtIndex = _f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
GetTypeAttributeValue = _f("LLVMGetTypeAttributeValue", P, P)
BasicBlockAsValue = _f("LLVMBasicBlockAsValue", P, P)
GetLinkage = _f("LLVMGetLinkage", U, P)

ATTR_BYVAL = GetStringAttrKind(b"byval", 5)
ATTR_SRET = GetStringAttrKind(b"sret", 4)


def value_name(v):
    n = C.c_size_t()
    p = _GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode("latin1")


def as_bytes(v):
    n = C.c_size_t()
    p = _GetAsString(v, C.byref(n))
    return C.string_at(p, n.value)


def debug_file(v):
    n = U()
    p = _GetDebugLocFilename(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p else ""


def to_string(v):
    return C.string_at(_PrintValue(v)).decode("latin1")


# type kinds
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 6: "ppc", 7: "label", 8: "int",
      9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 15: "mmx", 16: "token"}

# LLVM-C opcodes
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume",
       59: "landingpad", 60: "addrspacecast", 66: "fneg", 68: "freeze"}

# value kinds (LLVMValueKind, LLVM 18)
VK = ["argument", "basicblock", "memoryuse", "memorydef", "memoryphi", "function", "globalalias", "globalifunc",
      "globalvariable", "blockaddress", "constantexpr", "constantarray", "constantstruct", "constantvector", "undef",
      "constantaggregatezero", "constantdataarray", "constantdatavector", "constantint", "constantfp",
      "constantpointernull", "constanttokennone", "metadataasvalue", "inlineasm", "instruction", "poison",
      "constanttargetnone"]


class Module:
    def __init__(self, path):
        buf = P()
        msg = C.c_char_p()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.ctx = ContextCreate()
        m = P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = GetModuleDataLayout(m)
        self.functions = {}
        f = GetFirstFunction(m)
        while f:
            self.functions[value_name(f)] = f
            f = GetNextFunction(f)
        self.globals = {}
        g = GetFirstGlobal(m)
        while g:
            self.globals[value_name(g)] = g
            g = GetNextGlobal(g)
        self._tcache = {}

    def type(self, t):
        """Decode a type: ('int',w) ('fp',bits) ('ptr',) ('struct',[(ty,off)],size) ('array',n,ty,esz,size) ('vector',n,ty,esz,size) ('void',)"""
        r = self._tcache.get(t)
        if r is not None:
            return r
        k = TK[GetTypeKind(t)]
        if k == "int":
            w = GetIntTypeWidth(t)
            r = ("int", w, int(StoreSizeOfType(self.dl, t)), int(ABISizeOfType(self.dl, t)))
        elif k in ("double", "float", "x86_fp80", "half", "fp128"):
            sz = int(StoreSizeOfType(self.dl, t))
            r = ("fp", k, sz, int(ABISizeOfType(self.dl, t)))
        elif k == "ptr":
            r = ("ptr", 64, 8, 8)
        elif k == "struct":
            n = CountStructElts(t)
            els = tuple((self.type(StructGetTypeAt(t, i)), int(OffsetOfElement(self.dl, t, i))) for i in range(n))
            sz = int(ABISizeOfType(self.dl, t)) if n else 0
            r = ("struct", els, sz, sz)
        elif k == "array":
            e = self.type(GetElementType(t))
            n = int(GetArrayLength2(t))
            r = ("array", (n, e), n * e[3], n * e[3])
        elif k == "vector":
            e = self.type(GetElementType(t))
            n = GetVectorSize(t)
            r = ("vector", (n, e), int(StoreSizeOfType(self.dl, t)), int(ABISizeOfType(self.dl, t)))
        elif k == "void":
            r = ("void", 0, 0, 0)
        else:
            r = (k, 0, 0, 0)
        self._tcache[t] = r
        return r


def defined_functions(path):
    m = Module(path)
    return [n for n, f in m.functions.items() if not IsDeclaration(f)]
