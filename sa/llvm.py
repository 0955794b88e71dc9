"""Reads LLVM IR (text or bitcode) through the LLVM-18 C API and builds a plain
Python object model of it: modules, functions, blocks, instructions, constants.
Nothing here executes code; it is the front door of every IR analysis in sa/."""
import ctypes as C, os, re

_CANDIDATES = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM.so",
               "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1"]
_lib = None
for _p in _CANDIDATES:
    if os.path.exists(_p):
        _lib = C.CDLL(_p)
        break
if _lib is None:
    raise RuntimeError("libLLVM 18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(_lib, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", P)
ContextDispose = _f("LLVMContextDispose", None, P)
MemBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetDataLayout = _f("LLVMGetModuleDataLayout", P, P)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P)
NextGl = _f("LLVMGetNextGlobal", P, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
GetLinkage = _f("LLVMGetLinkage", C.c_int, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
BBAsValue = _f("LLVMBasicBlockAsValue", P, P)
ValueAsBB = _f("LLVMValueAsBasicBlock", P, P)
GetTerm = _f("LLVMGetBasicBlockTerminator", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
NumOperands = _f("LLVMGetNumOperands", C.c_int, P)
Operand = _f("LLVMGetOperand", P, P, C.c_uint)
ValueKind = _f("LLVMGetValueKind", C.c_int, P)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
PrintType = _f("LLVMPrintTypeToString", P, P)
PrintValue = _f("LLVMPrintValueToString", P, P)
DisposeMessage = _f("LLVMDisposeMessage", None, P)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ABIAlign = _f("LLVMABIAlignmentOfType", C.c_uint, P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, C.c_uint)
StructElemType = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
ElementType = _f("LLVMGetElementType", P, P)
IntWidth = _f("LLVMGetIntTypeWidth", C.c_uint, P)
SizeIsKnown = _f("LLVMTypeIsSized", C.c_int, P)
ValueName = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
ZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
CountParams = _f("LLVMCountParams", C.c_uint, P)
GetParam = _f("LLVMGetParam", P, P, C.c_uint)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOperands = _f("LLVMGetNumArgOperands", C.c_uint, P)
CalledFnType = _f("LLVMGetCalledFunctionType", P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
Ordering = _f("LLVMGetOrdering", C.c_int, P)
Volatile = _f("LLVMGetVolatile", C.c_int, P)
Weak = _f("LLVMGetWeak", C.c_int, P)
SingleThread = _f("LLVMIsAtomicSingleThread", C.c_int, P)
SuccOrd = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, P)
FailOrd = _f("LLVMGetCmpXchgFailureOrdering", C.c_int, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
Alignment = _f("LLVMGetAlignment", C.c_uint, P)
NumIndices = _f("LLVMGetNumIndices", C.c_uint, P)
Indices = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
GEPSrcType = _f("LLVMGetGEPSourceElementType", P, P)
CountIncoming = _f("LLVMCountIncoming", C.c_uint, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
NumSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
NumMask = _f("LLVMGetNumMaskElements", C.c_uint, P)
MaskVal = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
AsmStr = _f("LLVMGetInlineAsmAsmString", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
AsmCons = _f("LLVMGetInlineAsmConstraintString", C.POINTER(C.c_char), P, C.POINTER(C.c_size_t))
AsmSide = _f("LLVMGetInlineAsmHasSideEffects", C.c_int, P)
DebugLoc = _f("LLVMInstructionGetDebugLoc", P, P)
DLLine = _f("LLVMDILocationGetLine", C.c_uint, P)
DLScope = _f("LLVMDILocationGetScope", P, P)
DLInlinedAt = _f("LLVMDILocationGetInlinedAt", P, P)
DIScopeFile = _f("LLVMDIScopeGetFile", P, P)
DIFileName = _f("LLVMDIFileGetFilename", P, P, C.POINTER(C.c_uint))
AllocatedType = _f("LLVMGetAllocatedType", P, P)
MDAsValue = _f("LLVMMetadataAsValue", P, P, P)
GetSubprogram = _f("LLVMGetSubprogram", P, P)
IsTailCall = _f("LLVMIsTailCall", C.c_int, P)
EnumAttrKind = _f("LLVMGetEnumAttributeKindForName", C.c_uint, C.c_char_p, C.c_size_t)
EnumAttrAt = _f("LLVMGetEnumAttributeAtIndex", P, P, C.c_uint, C.c_uint)
StrAttrAt = _f("LLVMGetStringAttributeAtIndex", P, P, C.c_uint, C.c_char_p, C.c_uint)
StrAttrVal = _f("LLVMGetStringAttributeValue", P, P, C.POINTER(C.c_uint))
ArrayLength = _f("LLVMGetArrayLength2", C.c_ulonglong, P)
CountStructElems = _f("LLVMCountStructElementTypes", C.c_uint, P)
AggElem = _f("LLVMGetAggregateElement", P, P, C.c_uint)
GlobalGetAlignment = Alignment
Section = _f("LLVMGetSection", C.c_char_p, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       47: "userop1", 48: "userop2", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 61: "cleanupret", 62: "catchret", 63: "catchpad", 64: "cleanuppad",
       65: "catchswitch"}
ORD = {0: "na", 1: "unordered", 2: "relaxed", 4: "acquire", 5: "release", 6: "acq_rel", 7: "seq_cst"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
RMW = ["xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin", "fadd", "fsub", "fmax", "fmin",
       "uinc_wrap", "udec_wrap"]


def _str(p):
    if not p:
        return ""
    s = C.string_at(p).decode("utf-8", "replace")
    DisposeMessage(p)
    return s


class Type:
    __slots__ = ("text", "kind", "bits", "size", "store", "align", "ref", "elems", "elem", "count", "offsets")

    def __repr__(self):
        return self.text


class Value:
    __slots__ = ("kind", "ty", "name", "val", "ops", "op", "attr", "block", "loc", "idx", "users")
    # kind: 'inst','arg','int','fp','undef','poison','null','global','func','cexpr','asm','agg','block','md','other'

    def __init__(self, kind, ty=None, name="", val=None):
        self.kind = kind
        self.ty = ty
        self.name = name
        self.val = val
        self.ops = ()
        self.op = None
        self.attr = None
        self.block = None
        self.loc = ()
        self.idx = 0
        self.users = None

    def __repr__(self):
        if self.kind == "inst":
            return "%%%s=%s" % (self.idx, self.op)
        if self.kind == "int":
            return "%s:%s" % (self.val, self.ty)
        return "%s:%s" % (self.kind, self.name or self.val)

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


class Block:
    __slots__ = ("name", "insts", "succs", "preds", "idx", "fn")

    def __init__(self):
        self.insts = []
        self.succs = []
        self.preds = []

    @property
    def term(self):
        return self.insts[-1]

    def __repr__(self):
        return "bb%d" % self.idx


class Function:
    def __init__(self):
        self.blocks = []
        self.args = []
        self.decl = False

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def __repr__(self):
        return "fn " + self.name


class Module:
    def __init__(self, path):
        self.path = path
        self._tycache = {}
        self._vals = {}
        self._loccache = {}
        self._scopecache = {}
        self.functions = {}
        self.globals = {}
        self.ctx = ContextCreate()
        buf = P()
        err = C.c_char_p()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        mod = P()
        if ParseIR(self.ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.mod = mod
        self.dl = GetDataLayout(mod)
        g = FirstGl(mod)
        while g:
            v = self._mkglobal(g, "global")
            self.globals[v.name] = v
            g = NextGl(g)
        todo = []
        f = FirstFn(mod)
        while f:
            v = self._mkglobal(f, "func")
            todo.append((f, v))
            f = NextFn(f)
        for g, v in [(k, v) for k, v in self._vals.items() if v.kind == "global"]:
            init = GetInitializer(g)
            v.attr = {"const": bool(IsGlobalConstant(g)), "vty": self.type(GlobalValueType(g)),
                      "align": Alignment(g), "linkage": GetLinkage(g), "section": Section(g)}
            v.ops = (self.value(init),) if init else ()
        for f, v in todo:
            fn = self._mkfunction(f, v)
            self.functions[fn.name] = fn
        self._vals = {}
        ContextDispose(self.ctx)
        self.ctx = None

    # -- types
    def type(self, t):
        r = self._tycache.get(t)
        if r is not None:
            return r
        ty = Type()
        ty.ref = None
        ty.text = _str(PrintType(t))
        k = TypeKind(t)
        ty.kind = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 6: "ppc_fp128", 7: "label",
                   8: "int", 9: "function", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata",
                   16: "token"}.get(k, "k%d" % k)
        ty.bits = None
        ty.size = ty.store = ty.align = None
        ty.elems = ty.elem = ty.count = ty.offsets = None
        self._tycache[t] = ty
        if ty.kind not in ("void", "label", "function", "metadata", "token") and SizeIsKnown(t):
            ty.size = ABISize(self.dl, t)
            ty.store = StoreSize(self.dl, t)
            ty.align = ABIAlign(self.dl, t)
        if ty.kind == "int":
            ty.bits = IntWidth(t)
        elif ty.kind == "struct":
            n = CountStructElems(t)
            ty.elems = [self.type(StructElemType(t, i)) for i in range(n)]
            ty.offsets = [OffsetOfElement(self.dl, t, i) for i in range(n)] if ty.size is not None else None
        elif ty.kind in ("array", "vector"):
            ty.elem = self.type(ElementType(t))
            m = re.match(r"^[\[<](\d+) x", ty.text)
            ty.count = int(m.group(1)) if m else None
        return ty

    def _mkglobal(self, g, kind):
        n = C.c_size_t()
        name = ValueName(g, C.byref(n))
        v = Value(kind, self.type(TypeOf(g)), (name or b"").decode("utf-8", "replace"))
        self._vals[g] = v
        return v

    # -- constants and operand lookup
    def value(self, p):
        v = self._vals.get(p)
        if v is not None:
            return v
        k = ValueKind(p)
        ty = self.type(TypeOf(p))
        # LLVMValueKind: 0 Argument 1 BasicBlock 2 MemoryUse.. 5 Function 6 GlobalAlias 7 GlobalIFunc 8 GlobalVariable
        # 9 BlockAddress 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 UndefValue
        # 15 ConstantAggregateZero 16 ConstantDataArray 17 ConstantDataVector 18 ConstantInt 19 ConstantFP
        # 20 ConstantPointerNull 21 ConstantTokenNone 22 MetadataAsValue 23 InlineAsm 24 Instruction 25 Poison
        if k == 18:
            if ty.bits <= 64:
                v = Value("int", ty, val=ZExt(p))
            else:
                s = _str(PrintValue(p)).split()[-1]
                v = Value("int", ty, val=int(s) & ((1 << ty.bits) - 1))
        elif k == 19:
            v = Value("fp", ty, val=_str(PrintValue(p)).split()[-1])
        elif k == 20:
            v = Value("null", ty, val=0)
        elif k == 14:
            v = Value("undef", ty)
        elif k == 25:
            v = Value("poison", ty)
        elif k == 15:
            v = Value("aggzero", ty)
        elif k in (11, 12, 13):
            v = Value("agg", ty)
            self._vals[p] = v
            v.ops = tuple(self.value(Operand(p, i)) for i in range(NumOperands(p)))
        elif k in (16, 17):
            v = Value("agg", ty)
            self._vals[p] = v
            v.ops = tuple(self.value(AggElem(p, i)) for i in range(ty.count or 0)) if (ty.count or 0) <= 4096 else ()
            v.val = None
        elif k == 10:
            v = Value("cexpr", ty)
            self._vals[p] = v
            v.op = OPC.get(ConstOpcode(p), "?%d" % ConstOpcode(p))
            v.ops = tuple(self.value(Operand(p, i)) for i in range(NumOperands(p)))
            v.attr = {}
            if v.op == "gep":
                v.attr["srcty"] = self.type(GEPSrcType(p))
            if v.op == "icmp":
                v.attr["pred"] = IPRED.get(ICmpPred(p), "?")
        elif k == 23:
            n = C.c_size_t()
            s = AsmStr(p, C.byref(n))
            a = C.string_at(s, n.value).decode("utf-8", "replace")
            s = AsmCons(p, C.byref(n))
            c = C.string_at(s, n.value).decode("utf-8", "replace")
            v = Value("asm", ty, val=(a, c))
            v.attr = {"sideeffect": bool(AsmSide(p))}
        elif k == 22:
            v = Value("md", ty)
        elif k == 6:
            n = C.c_size_t()
            v = Value("alias", ty, (ValueName(p, C.byref(n)) or b"").decode())
            v.ops = ()
        else:
            v = Value("other", ty, val=_str(PrintValue(p)))
        self._vals[p] = v
        return v

    def _scopefile(self, s):
        r = self._scopecache.get(s)
        if r is None:
            f = DIScopeFile(s)
            r = ""
            if f:
                n = C.c_uint()
                q = DIFileName(f, C.byref(n))
                r = C.string_at(q, n.value).decode("utf-8", "replace") if q else ""
            self._scopecache[s] = r
        return r

    def _loc(self, p):
        d = DebugLoc(p)
        if not d:
            return ()
        r = self._loccache.get(d)
        if r is None:
            out = []
            x = d
            while x:
                out.append((self._scopefile(DLScope(x)), DLLine(x)))
                x = DLInlinedAt(x)
            r = tuple(out)
            self._loccache[d] = r
        return r

    def _mkfunction(self, f, v):
        fn = Function()
        fn.name = v.name
        fn.value = v
        fn.module = self
        fn.decl = bool(IsDeclaration(f))
        fn.linkage = GetLinkage(f)
        fn.nounwind = bool(EnumAttrAt(f, 0xFFFFFFFF, _NOUNWIND))
        fn.section = Section(f)
        fn.attrs = {}
        for k in (b"target-features", b"target-cpu"):
            a = StrAttrAt(f, 0xFFFFFFFF, k, len(k))
            if a:
                n = C.c_uint()
                fn.attrs[k.decode()] = C.string_at(StrAttrVal(a, C.byref(n)), n.value).decode()
        v.attr = {"fn": fn}
        np = CountParams(f)
        for i in range(np):
            p = GetParam(f, i)
            a = Value("arg", self.type(TypeOf(p)), val=i)
            a.idx = i
            self._vals[p] = a
            fn.args.append(a)
        if fn.decl:
            return fn
        pairs = []
        b = FirstBB(f)
        while b:
            blk = Block()
            blk.idx = len(fn.blocks)
            blk.fn = fn
            fn.blocks.append(blk)
            bv = Value("block", None)
            bv.val = blk
            self._vals[BBAsValue(b)] = bv
            i = FirstI(b)
            while i:
                iv = Value("inst", self.type(TypeOf(i)))
                iv.op = OPC.get(Opcode(i), "?%d" % Opcode(i))
                iv.block = blk
                iv.idx = len(pairs)
                blk.insts.append(iv)
                self._vals[i] = iv
                pairs.append((i, iv))
                i = NextI(i)
            b = NextBB(b)
        for p, iv in pairs:
            self._fill(p, iv)
        for blk in fn.blocks:
            t = blk.term
            blk.succs = t.attr.get("succs", [])
            for s in blk.succs:
                if blk not in s.preds:
                    s.preds.append(blk)
        for _, iv in pairs:
            iv.users = []
        for a in fn.args:
            a.users = []
        for _, iv in pairs:
            for o in iv.ops:
                if o.users is not None:
                    o.users.append(iv)
        return fn

    def _fill(self, p, iv):
        a = {}
        op = iv.op
        iv.loc = self._loc(p)
        if op == "phi":
            n = CountIncoming(p)
            iv.ops = tuple(self.value(IncomingValue(p, i)) for i in range(n))
            a["blocks"] = [self._vals[BBAsValue(IncomingBlock(p, i))].val for i in range(n)]
        elif op in ("call", "invoke", "callbr"):
            n = NumArgOperands(p)
            iv.ops = tuple(self.value(Operand(p, i)) for i in range(n))
            c = self.value(CalledValue(p))
            a["callee"] = c
            if op == "invoke":
                a["succs"] = [self._vals[BBAsValue(Succ(p, i))].val for i in range(NumSucc(p))]
        elif op == "br":
            n = NumOperands(p)
            a["succs"] = [self._vals[BBAsValue(Succ(p, i))].val for i in range(NumSucc(p))]
            iv.ops = (self.value(Operand(p, 0)),) if n == 3 else ()
        elif op == "switch":
            a["succs"] = [self._vals[BBAsValue(Succ(p, i))].val for i in range(NumSucc(p))]
            iv.ops = (self.value(Operand(p, 0)),)
            n = NumOperands(p)
            # operands: cond, default, (case, dest)*
            a["default"] = a["succs"][0]
            a["cases"] = [(self.value(Operand(p, i)).val, self._vals[Operand(p, i + 1)].val) for i in range(2, n, 2)]
        else:
            iv.ops = tuple(self.value(Operand(p, i)) for i in range(NumOperands(p)))
            if op in ("indirectbr", "cleanupret", "catchret", "catchswitch"):
                a["succs"] = [self._vals[BBAsValue(Succ(p, i))].val for i in range(NumSucc(p))]
        if op == "icmp":
            a["pred"] = IPRED[ICmpPred(p)]
        elif op == "fcmp":
            a["pred"] = FPRED[FCmpPred(p)]
        elif op in ("load", "store"):
            a["ord"] = ORD[Ordering(p)]
            a["vol"] = bool(Volatile(p))
            a["align"] = Alignment(p)
            if a["ord"] != "na":
                a["st"] = bool(SingleThread(p))
        elif op == "fence":
            a["ord"] = ORD[Ordering(p)]
            a["st"] = bool(SingleThread(p))
        elif op == "atomicrmw":
            a["ord"] = ORD[Ordering(p)]
            a["rmw"] = RMW[RMWOp(p)]
            a["vol"] = bool(Volatile(p))
            a["st"] = bool(SingleThread(p))
            a["align"] = Alignment(p)
        elif op == "cmpxchg":
            a["succ"] = ORD[SuccOrd(p)]
            a["fail"] = ORD[FailOrd(p)]
            a["weak"] = bool(Weak(p))
            a["vol"] = bool(Volatile(p))
            a["st"] = bool(SingleThread(p))
            a["align"] = Alignment(p)
        elif op in ("extractvalue", "insertvalue"):
            n = NumIndices(p)
            ix = Indices(p)
            a["idx"] = tuple(ix[i] for i in range(n))
        elif op == "gep":
            a["srcty"] = self.type(GEPSrcType(p))
        elif op == "alloca":
            a["aty"] = self.type(AllocatedType(p))
            a["align"] = Alignment(p)
        elif op == "shufflevector":
            a["mask"] = [MaskVal(p, i) for i in range(NumMask(p))]
        iv.attr = a


_NOUNWIND = EnumAttrKind(b"nounwind", 8)


def gep_offset(v):
    """(constant byte offset, [(index value, byte scale)]) of a gep instruction or constant expression."""
    off = 0
    var = []
    ty = v.attr["srcty"]
    for n, ix in enumerate(v.ops[1:]):
        if n == 0:
            elem = ty
        elif ty.kind == "struct":
            off += ty.offsets[ix.val]
            ty = ty.elems[ix.val]
            continue
        else:
            ty = elem = ty.elem
        if ix.kind == "int":
            x = ix.val
            if x >> (ix.ty.bits - 1):
                x -= 1 << ix.ty.bits
            off += x * elem.size
        else:
            var.append((ix, elem.size))
    return off, var


def base_of(v):
    """Strip constant geps/casts: returns (root value, constant offset or None if variable)."""
    off = 0
    while True:
        if v.kind in ("inst", "cexpr") and v.op in ("bitcast", "addrspacecast"):
            v = v.ops[0]
        elif v.kind in ("inst", "cexpr") and v.op == "gep":
            o, var = gep_offset(v)
            off = None if (var or off is None) else off + o
            v = v.ops[0]
        else:
            return v, off


def callee_name(i):
    c = i.attr.get("callee")
    if c is None:
        return None
    if c.kind in ("func", "alias"):
        return c.name
    return None


def where(i):
    """Human readable source position chain, innermost first, library frames preferred."""
    return " < ".join("%s:%d" % (f, l) for f, l in i.loc) if i.loc else "?"


_demangle_cache = {}


def demangle(n):
    if n is None:
        return None
    r = _demangle_cache.get(n)
    if r is None:
        libcxxabi = _cxa()
        st = C.c_int()
        p = libcxxabi(n.encode(), None, None, C.byref(st))
        r = C.string_at(p).decode() if p and st.value == 0 else n
        _demangle_cache[n] = r
    return r


_cxa_fn = None


def _cxa():
    global _cxa_fn
    if _cxa_fn is None:
        l = C.CDLL("libstdc++.so.6")
        _cxa_fn = l.__cxa_demangle
        _cxa_fn.restype = P
        _cxa_fn.argtypes = [C.c_char_p, P, P, C.POINTER(C.c_int)]
    return _cxa_fn
