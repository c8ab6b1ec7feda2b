"""Loads LLVM bitcode/IR through the LLVM C API (ctypes) into Python objects."""
import ctypes as C
import glob
import re

_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]
L = None
for _c in _cands:
    try:
        L = C.CDLL(_c)
        break
    except OSError:
        continue
if L is None:
    raise RuntimeError("libLLVM 18 not found")

P = C.c_void_p


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CreateBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
CtxCreate = _f("LLVMContextCreate", P)
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P)
NextGl = _f("LLVMGetNextGlobal", P, P)
FirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
NextAlias = _f("LLVMGetNextGlobalAlias", P, P)
Aliasee = _f("LLVMAliasGetAliasee", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstIns = _f("LLVMGetFirstInstruction", P, P)
NextIns = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
GetOp = _f("LLVMGetOperand", P, P, C.c_uint)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", C.c_uint, P)
VecSize = _f("LLVMGetVectorSize", C.c_uint, P)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
ElemTy = _f("LLVMGetElementType", P, P)
StructN = _f("LLVMCountStructElementTypes", C.c_uint, P)
StructElt = _f("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
DL = _f("LLVMGetModuleDataLayout", P, P)
AllocSz = _f("LLVMABISizeOfType", C.c_uint64, P, P)
StoreSz = _f("LLVMStoreSizeOfType", C.c_uint64, P, P)
OffOf = _f("LLVMOffsetOfElement", C.c_uint64, P, P, C.c_uint)
ABIAlign = _f("LLVMABIAlignmentOfType", C.c_uint, P, P)
ValName = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
ValKind = _f("LLVMGetValueKind", C.c_int, P)
ZExt = _f("LLVMConstIntGetZExtValue", C.c_uint64, P)
RealD = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
AggElt = _f("LLVMGetAggregateElement", P, P, C.c_uint)
IsNull = _f("LLVMIsNull", C.c_int, P)
ConstOp = _f("LLVMGetConstOpcode", C.c_int, P)
GEPTy = _f("LLVMGetGEPSourceElementType", P, P)
Init = _f("LLVMGetInitializer", P, P)
GVTy = _f("LLVMGlobalGetValueType", P, P)
IsGConst = _f("LLVMIsGlobalConstant", C.c_int, P)
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
ICmp = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmp = _f("LLVMGetFCmpPredicate", C.c_int, P)
NIdx = _f("LLVMGetNumIndices", C.c_uint, P)
Idx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
NMask = _f("LLVMGetNumMaskElements", C.c_uint, P)
Mask = _f("LLVMGetMaskValue", C.c_int, P, C.c_uint)
NInc = _f("LLVMCountIncoming", C.c_uint, P)
IncV = _f("LLVMGetIncomingValue", P, P, C.c_uint)
IncB = _f("LLVMGetIncomingBlock", P, P, C.c_uint)
CalledV = _f("LLVMGetCalledValue", P, P)
NArgs = _f("LLVMGetNumArgOperands", C.c_uint, P)
NParams = _f("LLVMCountParams", C.c_uint, P)
Param = _f("LLVMGetParam", P, P, C.c_uint)
AllocTy = _f("LLVMGetAllocatedType", P, P)
IsCond = _f("LLVMIsConditional", C.c_int, P)
NSucc = _f("LLVMGetNumSuccessors", C.c_uint, P)
Succ = _f("LLVMGetSuccessor", P, P, C.c_uint)
NSW = _f("LLVMGetNSW", C.c_int, P)
Ordering = _f("LLVMGetOrdering", C.c_int, P)
CxS = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, P)
CxF = _f("LLVMGetCmpXchgFailureOrdering", C.c_int, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
BBVal = _f("LLVMBasicBlockAsValue", P, P)
ValBB = _f("LLVMValueAsBasicBlock", P, P)
PrintV = _f("LLVMPrintValueToString", P, P)
PrintT = _f("LLVMPrintTypeToString", P, P)
Volatile = _f("LLVMGetVolatile", C.c_int, P)
FnTyRet = _f("LLVMGetReturnType", P, P)
CalledFT = _f("LLVMGetCalledFunctionType", P, P)
SetName = None
Align = _f("LLVMGetAlignment", C.c_uint, P)
InlineAsm = _f("LLVMIsAInlineAsm", P, P)
DbgLine = _f("LLVMGetDebugLocLine", C.c_uint, P)
DbgFile = _f("LLVMGetDebugLocFilename", C.POINTER(C.c_char), P, C.POINTER(C.c_uint))

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "vaarg", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 66: "fneg", 67: "callbr", 68: "freeze"}
ICP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCP = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]
ORD = {0: None, 1: "unordered", 2: "rlx", 4: "acq", 5: "rel", 6: "acq_rel", 7: "sc"}
RMW = ["xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin", "fadd", "fsub", "fmax", "fmin"]
# value kinds
(VK_ARG, VK_BB, VK_MUSE, VK_MDEF, VK_MPHI, VK_FN, VK_ALIAS, VK_IFUNC, VK_GV, VK_BLOCKADDR, VK_CEXPR, VK_CARR,
 VK_CSTRUCT, VK_CVEC, VK_UNDEF, VK_CAGGZERO, VK_CDARR, VK_CDVEC, VK_CINT, VK_CFP, VK_CNULL, VK_TOKNONE, VK_META,
 VK_ASM, VK_INS, VK_POISON, VK_TARGET) = range(27)


class Ty:
    __slots__ = ("k", "w", "n", "e", "es", "offs", "size", "s", "align")

    def __repr__(self):
        return self.s


class Undef:
    """undef/poison constant of a given type"""
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class GRef:
    """reference to a global symbol"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class CE:
    """constant expression"""
    __slots__ = ("op", "ops", "ty", "extra")


class Agg:
    """constant aggregate (array/struct)"""
    __slots__ = ("ty", "elts")

    def __init__(self, ty, elts):
        self.ty = ty
        self.elts = elts


class Zero:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Ins:
    __slots__ = ("op", "ty", "dst", "ops", "x", "y", "z", "fn", "line", "cache")


class Block:
    __slots__ = ("idx", "name", "ins", "phis", "succ", "pos", "loops")


class Func:
    __slots__ = ("name", "blocks", "nregs", "params", "ret", "decl", "wto", "ptypes", "vararg", "mod")


class Global:
    __slots__ = ("name", "ty", "init", "const", "decl", "align", "tls")


def cstr(p):
    return C.cast(p, C.c_char_p).value.decode("utf8", "replace")


class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        buf = P()
        err = C.c_char_p()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        mod = P()
        if ParseIR(self.ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.m = mod
        self.dl = DL(mod)
        self.tys = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self._fnptr = {}
        g = FirstGl(mod)
        while g:
            self._global(g)
            g = NextGl(g)
        a = FirstAlias(mod)
        while a:
            self.aliases[self.vname(a)] = self.const(Aliasee(a))
            a = NextAlias(a)
        f = FirstFn(mod)
        while f:
            fn = Func()
            fn.name = self.vname(f)
            fn.decl = bool(IsDecl(f))
            fn.blocks = None
            fn.mod = self
            self.funcs[fn.name] = fn
            self._fnptr[fn.name] = f
            f = NextFn(f)

    def func(self, name):
        fn = self.funcs[name]
        if fn.blocks is None and not fn.decl:
            self._body(fn, self._fnptr[name])
        return fn

    def vname(self, v):
        n = C.c_size_t()
        r = ValName(v, C.byref(n))
        return r.decode()

    def ty(self, t):
        r = self.tys.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        r = Ty()
        self.tys[t] = r
        r.w = r.n = 0
        r.e = r.es = r.offs = None
        r.size = 0
        r.align = 1
        r.s = cstr(PrintT(t))
        if k == 8:
            r.k = "i"
            r.w = IntW(t)
        elif k == 2:
            r.k = "f"
            r.w = 32
        elif k == 3:
            r.k = "f"
            r.w = 64
        elif k == 4:
            r.k = "f80"
            r.w = 80
        elif k == 1 or k == 18:
            r.k = "f"
            r.w = 16
        elif k == 12:
            r.k = "p"
            r.w = 64
        elif k == 13 or k == 17:
            r.k = "v"
            r.n = VecSize(t)
            r.e = self.ty(ElemTy(t))
        elif k == 11:
            r.k = "a"
            r.n = ArrLen(t)
            r.e = self.ty(ElemTy(t))
        elif k == 10:
            r.k = "s"
            r.n = StructN(t)
            r.es = [self.ty(StructElt(t, i)) for i in range(r.n)]
            try:
                r.offs = [OffOf(self.dl, t, i) for i in range(r.n)]
            except Exception:
                r.offs = None
        elif k == 0:
            r.k = "void"
        else:
            r.k = "other%d" % k
        if r.k in ("i", "f", "p", "v", "a", "s", "f80"):
            r.size = AllocSz(self.dl, t)
            r.align = ABIAlign(self.dl, t)
        return r

    def _global(self, g):
        o = Global()
        o.name = self.vname(g)
        o.ty = self.ty(GVTy(g))
        o.const = bool(IsGConst(g))
        o.decl = bool(IsDecl(g))
        o.align = Align(g) or o.ty.align
        o.init = g  # converted lazily
        self.globals[o.name] = o

    def global_init(self, o):
        i = Init(o.init)
        return self.const(i) if i else None

    def const(self, v):
        k = ValKind(v)
        if k in (VK_FN, VK_GV, VK_ALIAS):
            return GRef(self.vname(v))
        ty = self.ty(TypeOf(v))
        if k == VK_CINT:
            if ty.w <= 64:
                return ZExt(v) & ((1 << ty.w) - 1)
            s = cstr(PrintV(v))
            n = int(s.split()[-1])
            return n & ((1 << ty.w) - 1)
        if k == VK_CFP:
            from .terms import f2bits
            if ty.w not in (32, 64):
                return Undef(ty)
            s = cstr(PrintV(v)).split()[-1]
            if s.startswith("0x"):
                bits = int(s[2:], 16)
                if ty.w == 64:
                    return bits
                import struct
                d = struct.unpack("<d", struct.pack("<Q", bits))[0]
                if d != d:
                    return 0x7FC00000
                return f2bits(d, 32)
            return f2bits(float(s), ty.w)
        if k == VK_CNULL:
            return 0
        if k in (VK_UNDEF, VK_POISON):
            return Undef(ty)
        if k == VK_CAGGZERO:
            return self.zero(ty)
        if k in (VK_CDVEC, VK_CVEC):
            return tuple(self.const(AggElt(v, i)) for i in range(ty.n))
        if k in (VK_CDARR, VK_CARR, VK_CSTRUCT):
            return Agg(ty, [self.const(AggElt(v, i)) for i in range(ty.n)])
        if k == VK_CEXPR:
            c = CE()
            c.op = OPC[ConstOp(v)]
            c.ty = ty
            c.ops = [self.const(GetOp(v, i)) for i in range(NumOps(v))]
            c.extra = None
            if c.op == "gep":
                c.extra = (self.ty(GEPTy(v)), [self.ty(TypeOf(GetOp(v, i))) for i in range(1, NumOps(v))])
            elif c.op == "icmp":
                c.extra = (ICP[ICmp(v)], self.ty(TypeOf(GetOp(v, 0))))
            else:
                c.extra = [self.ty(TypeOf(GetOp(v, i))) for i in range(NumOps(v))]
            return c
        if k == VK_META or k == VK_TOKNONE:
            return 0
        if k == VK_ASM:
            return ("asm", cstr(PrintV(v)))
        if k == VK_BLOCKADDR:
            return Undef(ty)
        raise RuntimeError("constant kind %d: %s" % (k, cstr(PrintV(v))))

    def zero(self, ty):
        if ty.k == "v":
            return tuple(self.zero(ty.e) for _ in range(ty.n))
        if ty.k in ("a", "s"):
            return Zero(ty)
        return 0

    def _body(self, fn, f):
        regs = {}
        fn.params = []
        fn.ptypes = []
        for i in range(NParams(f)):
            p = Param(f, i)
            regs[p] = len(regs)
            fn.params.append(regs[p])
            fn.ptypes.append(self.ty(TypeOf(p)))
        bbs = []
        bbi = {}
        bb = FirstBB(f)
        while bb:
            bbi[bb] = len(bbs)
            bbs.append(bb)
            bb = NextBB(bb)
        inss = []
        for bb in bbs:
            l = []
            i = FirstIns(bb)
            while i:
                l.append(i)
                t = TypeOf(i)
                if TypeKind(t) != 0:
                    regs[i] = len(regs)
                i = NextIns(i)
            inss.append(l)
        fn.nregs = len(regs)
        cc = {}

        def operand(v):
            r = regs.get(v)
            if r is not None:
                return (True, r)
            c = cc.get(v)
            if c is None:
                k = ValKind(v)
                if k == VK_BB:
                    c = (False, None)
                else:
                    c = (False, self.const(v))
                cc[v] = c
            return c

        fn.blocks = []
        for bi, l in enumerate(inss):
            b = Block()
            b.idx = bi
            b.phis = []
            b.ins = []
            b.succ = []
            b.name = str(bi)
            for iv in l:
                op = OPC.get(Opcode(iv), "op%d" % Opcode(iv))
                ins = Ins()
                ins.op = op
                ins.dst = regs.get(iv, -1)
                ins.ty = self.ty(TypeOf(iv))
                ins.x = ins.y = ins.z = None
                ins.fn = None
                ins.cache = None
                ins.line = iv
                if op == "phi":
                    ins.ops = None
                    ins.x = {bbi[IncB(iv, j)]: operand(IncV(iv, j)) for j in range(NInc(iv))}
                    b.phis.append(ins)
                    continue
                n = NumOps(iv)
                if op == "br":
                    ins.x = [bbi[Succ(iv, j)] for j in range(NSucc(iv))]
                    ins.ops = [operand(GetOp(iv, 0))] if IsCond(iv) else []
                    b.succ = list(ins.x)
                elif op == "switch":
                    ins.ops = [operand(GetOp(iv, 0))]
                    cases = []
                    for j in range(2, n, 2):
                        cases.append((self.const(GetOp(iv, j)), bbi[ValBB(GetOp(iv, j + 1))]))
                    ins.x = bbi[ValBB(GetOp(iv, 1))]
                    ins.y = cases
                    ins.z = self.ty(TypeOf(GetOp(iv, 0)))
                    b.succ = list(dict.fromkeys([ins.x] + [c[1] for c in cases]))
                elif op in ("call", "invoke"):
                    na = NArgs(iv)
                    ins.ops = [operand(GetOp(iv, j)) for j in range(na)]
                    cv = CalledV(iv)
                    k = ValKind(cv)
                    if k == VK_FN:
                        ins.x = self.vname(cv)
                    elif k == VK_ASM:
                        ins.x = ("asm", cstr(PrintV(cv)))
                    else:
                        ins.x = None
                        ins.y = operand(cv)
                    ins.z = [self.ty(TypeOf(GetOp(iv, j))) for j in range(na)]
                    if op == "invoke":
                        b.succ = [bbi[Succ(iv, j)] for j in range(NSucc(iv))]
                else:
                    ins.ops = [operand(GetOp(iv, j)) for j in range(n)]
                    if n:
                        ins.z = self.ty(TypeOf(GetOp(iv, 0)))
                    if op == "icmp":
                        ins.x = ICP[ICmp(iv)]
                    elif op == "fcmp":
                        ins.x = FCP[FCmp(iv)]
                    elif op == "gep":
                        ins.x = self.ty(GEPTy(iv))
                        ins.y = [self.ty(TypeOf(GetOp(iv, j))) for j in range(n)]
                    elif op == "alloca":
                        ins.x = self.ty(AllocTy(iv))
                        ins.y = Align(iv)
                    elif op in ("extractvalue", "insertvalue"):
                        p = Idx(iv)
                        ins.x = [p[j] for j in range(NIdx(iv))]
                        if op == "insertvalue":
                            ins.y = self.ty(TypeOf(GetOp(iv, 1)))
                    elif op == "shufflevector":
                        ins.x = [Mask(iv, j) for j in range(NMask(iv))]
                    elif op == "load":
                        ins.x = ORD.get(Ordering(iv))
                        ins.y = Align(iv)
                    elif op == "store":
                        ins.x = ORD.get(Ordering(iv))
                        ins.y = Align(iv)
                    elif op == "cmpxchg":
                        ins.x = (ORD.get(CxS(iv)), ORD.get(CxF(iv)))
                        ins.y = self.ty(TypeOf(GetOp(iv, 1)))
                    elif op == "atomicrmw":
                        ins.x = RMW[RMWOp(iv)]
                        ins.y = ORD.get(Ordering(iv))
                    elif op == "fence":
                        ins.x = ORD.get(Ordering(iv))
                    elif op in ("add", "sub", "mul", "shl"):
                        ins.x = bool(NSW(iv))
                    elif op in ("insertelement", "extractelement"):
                        ins.y = self.ty(TypeOf(GetOp(iv, n - 1)))
                b.ins.append(ins)
            fn.blocks.append(b)
        wto(fn)


def srcloc(ins):
    """file:line of an instruction, if debug info is present"""
    try:
        ln = DbgLine(ins.line)
        n = C.c_uint()
        p = DbgFile(ins.line, C.byref(n))
        if not p or not ln:
            return None
        return "%s:%d" % (C.string_at(p, n.value).decode(), ln)
    except Exception:
        return None


def wto(fn):
    """Bourdoncle weak topological order; assigns to each block its position
    and the list of (head position) of the components it belongs to."""
    import sys
    sys.setrecursionlimit(100000)
    blocks = fn.blocks
    n = len(blocks)
    dfn = [0] * n
    num = [0]
    stack = []
    INF = 1 << 60

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = dfn[v]
        loop = False
        for s in reversed(blocks[v].succ):
            if dfn[s] == 0:
                m = visit(s, part)
            else:
                m = dfn[s]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    def component(v):
        part = []
        for s in reversed(blocks[v].succ):
            if dfn[s] == 0:
                visit(s, part)
        return (v, part)

    part = []
    visit(0, part)
    pos = [0]
    for b in blocks:
        b.pos = -1
        b.loops = ()

    def assign(part, loops):
        for e in part:
            if isinstance(e, tuple):
                h, sub = e
                p = pos[0]
                pos[0] += 1
                blocks[h].pos = p
                blocks[h].loops = loops + (h,)
                assign(sub, loops + (h,))
            else:
                blocks[e].pos = pos[0]
                pos[0] += 1
                blocks[e].loops = loops
    assign(part, ())
