"""Load LLVM bitcode through the LLVM-C API (ctypes) into plain Python structures.

Only the module text produced by clang/opt from the current sources is used: nothing here knows
about the code under test."""
import ctypes as C
import glob
import struct

_path = None
for cand in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1"):
    if glob.glob(cand):
        _path = cand
        break
L = C.CDLL(_path or "libLLVM-18.so")
vp = C.c_void_p
u = C.c_uint


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


ContextCreate = _f("LLVMContextCreate", vp)
MemBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(vp), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, vp, vp, C.POINTER(vp), C.POINTER(C.c_char_p))
GetDL = _f("LLVMGetModuleDataLayout", vp, vp)
FirstFn = _f("LLVMGetFirstFunction", vp, vp)
NextFn = _f("LLVMGetNextFunction", vp, vp)
FirstGl = _f("LLVMGetFirstGlobal", vp, vp)
NextGl = _f("LLVMGetNextGlobal", vp, vp)
FirstAlias = _f("LLVMGetFirstGlobalAlias", vp, vp)
NextAlias = _f("LLVMGetNextGlobalAlias", vp, vp)
Aliasee = _f("LLVMAliasGetAliasee", vp, vp)
ValName = _f("LLVMGetValueName2", C.c_char_p, vp, C.POINTER(C.c_size_t))
CountParams = _f("LLVMCountParams", u, vp)
GetParam = _f("LLVMGetParam", vp, vp, u)
FirstBB = _f("LLVMGetFirstBasicBlock", vp, vp)
NextBB = _f("LLVMGetNextBasicBlock", vp, vp)
FirstInst = _f("LLVMGetFirstInstruction", vp, vp)
NextInst = _f("LLVMGetNextInstruction", vp, vp)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, vp)
TypeOf = _f("LLVMTypeOf", vp, vp)
TypeKind = _f("LLVMGetTypeKind", C.c_int, vp)
IntWidth = _f("LLVMGetIntTypeWidth", u, vp)
ElemType = _f("LLVMGetElementType", vp, vp)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, vp)
VecLen = _f("LLVMGetVectorSize", u, vp)
StructN = _f("LLVMCountStructElementTypes", u, vp)
StructElt = _f("LLVMStructGetTypeAtIndex", vp, vp, u)
IsOpaqueSt = _f("LLVMIsOpaqueStruct", C.c_int, vp)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, vp, vp)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, vp, vp)
ABIAlign = _f("LLVMABIAlignmentOfType", u, vp, vp)
EltOff = _f("LLVMOffsetOfElement", C.c_ulonglong, vp, vp, u)
NumOps = _f("LLVMGetNumOperands", C.c_int, vp)
GetOp = _f("LLVMGetOperand", vp, vp, u)
ValueKind = _f("LLVMGetValueKind", C.c_int, vp)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, vp)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, vp)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, vp)
ConstZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, vp)
ConstReal = _f("LLVMConstRealGetDouble", C.c_double, vp, C.POINTER(C.c_int))
PrintValue = _f("LLVMPrintValueToString", vp, vp)
IsConstString = _f("LLVMIsConstantString", C.c_int, vp)
AsString = _f("LLVMGetAsString", vp, vp, C.POINTER(C.c_size_t))
AggElem = _f("LLVMGetAggregateElement", vp, vp, u)
DataElem = _f("LLVMGetElementAsConstant", vp, vp, u)
GlInit = _f("LLVMGetInitializer", vp, vp)
GlConst = _f("LLVMIsGlobalConstant", C.c_int, vp)
GlValType = _f("LLVMGlobalGetValueType", vp, vp)
AllocType = _f("LLVMGetAllocatedType", vp, vp)
GEPType = _f("LLVMGetGEPSourceElementType", vp, vp)
NumIdx = _f("LLVMGetNumIndices", u, vp)
Indices = _f("LLVMGetIndices", C.POINTER(u), vp)
NumSucc = _f("LLVMGetNumSuccessors", u, vp)
Succ = _f("LLVMGetSuccessor", vp, vp, u)
CountInc = _f("LLVMCountIncoming", u, vp)
IncVal = _f("LLVMGetIncomingValue", vp, vp, u)
IncBB = _f("LLVMGetIncomingBlock", vp, vp, u)
CalledVal = _f("LLVMGetCalledValue", vp, vp)
NumArgOps = _f("LLVMGetNumArgOperands", u, vp)
Ordering = _f("LLVMGetOrdering", C.c_int, vp)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, vp)
CASSucc = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, vp)
CASFail = _f("LLVMGetCmpXchgFailureOrdering", C.c_int, vp)
MaskElts = _f("LLVMGetNumMaskElements", u, vp)
MaskVal = _f("LLVMGetMaskValue", C.c_int, vp, u)
DbgLine = _f("LLVMGetDebugLocLine", u, vp)
DbgFile = _f("LLVMGetDebugLocFilename", C.c_char_p, vp, C.POINTER(u))
IsVolatile = _f("LLVMGetVolatile", C.c_int, vp)
RetTypeFn = _f("LLVMGetReturnType", vp, vp)
CalledFT = _f("LLVMGetCalledFunctionType", vp, vp)
IsSingleThread = _f("LLVMIsAtomicSingleThread", C.c_int, vp)
ConstIntExt = PrintValue
DisposeMsg = _f("LLVMDisposeMessage", None, vp)
IsInlineAsm = _f("LLVMIsAInlineAsm", vp, vp)
AttrCount = _f("LLVMGetCallSiteAttributeCount", u, vp, C.c_int)

OP = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
      8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
      17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
      26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
      34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
      41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 50: 'extractelement',
      51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence',
      56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 60: 'addrspacecast', 68: 'freeze',
      49: 'va_arg'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
        10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax', 10: 'umin'}
ORD = {0: 'na', 1: 'unordered', 2: 'rlx', 4: 'acq', 5: 'rel', 6: 'acqrel', 7: 'sc'}


class Ty:
    __slots__ = ('kind', 'bits', 'size', 'asize', 'align', 'elem', 'n', 'elems', 'offs')

    def __repr__(self):
        return f"<{self.kind}{self.bits or ''}>"


class Inst:
    __slots__ = ('op', 'ty', 'dst', 'ops', 'x', 'y', 'line', 'file', 'fn', 'id')

    def __repr__(self):
        return f"{self.op} {self.file}:{self.line}"


class Block:
    __slots__ = ('insts', 'idx', 'phis')


class Func:
    __slots__ = ('name', 'val', 'nparams', 'nregs', 'blocks', 'regtypes', 'decl', 'id', 'paramtypes', 'rett', '_live', '_li', '_succ')


class Reg:
    __slots__ = ('i',)

    def __init__(s, i):
        s.i = i


class Undef:
    __slots__ = ('ty',)

    def __init__(s, ty):
        s.ty = ty


class GRef:
    """Reference to a global object (data or function) by name plus offset."""
    __slots__ = ('name', 'off')

    def __init__(s, name, off=0):
        s.name, s.off = name, off


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        buf = vp()
        err = C.c_char_p()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        mod = vp()
        if ParseIR(ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError(err.value)
        self.mod = mod
        self.dl = GetDL(mod)
        self._ty = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self._fname = {}
        f = FirstFn(mod)
        while f:
            name = self.name(f)
            self.funcs[name] = f
            self._fname[f] = name
            f = NextFn(f)
        g = FirstGl(mod)
        n = 0
        while g:
            name = self.name(g)
            if not name:
                name = f"__anon{n}"
                n += 1
            self.globals[name] = g
            self._fname[g] = name
            g = NextGl(g)
        a = FirstAlias(mod)
        while a:
            self._fname[a] = self.name(a)
            self.aliases[self.name(a)] = a
            a = NextAlias(a)
        self._fn = {}
        self.nfuncs_loaded = 0

    def name(self, v):
        n = C.c_size_t()
        s = ValName(v, C.byref(n))
        return s.decode() if s else ''

    def ty(self, t):
        r = self._ty.get(t)
        if r:
            return r
        r = Ty()
        r.bits = 0
        r.elem = None
        r.elems = None
        r.n = 0
        k = TypeKind(t)
        if k == 8:
            r.kind = 'int'
            r.bits = IntWidth(t)
        elif k == 2:
            r.kind = 'float'
            r.bits = 32
        elif k == 3:
            r.kind = 'double'
            r.bits = 64
        elif k == 4:
            r.kind = 'x86_fp80'
            r.bits = 80
        elif k == 12:
            r.kind = 'ptr'
            r.bits = 64
        elif k == 11:
            r.kind = 'array'
            r.elem = self.ty(ElemType(t))
            r.n = ArrLen(t)
        elif k == 13:
            r.kind = 'vector'
            r.elem = self.ty(ElemType(t))
            r.n = VecLen(t)
        elif k == 10:
            r.kind = 'struct'
            n = StructN(t)
            r.n = n
            r.elems = [self.ty(StructElt(t, i)) for i in range(n)]
            r.offs = [EltOff(self.dl, t, i) for i in range(n)] if not IsOpaqueSt(t) else []
        elif k == 0:
            r.kind = 'void'
        else:
            r.kind = f'k{k}'
        if r.kind in ('void',) or r.kind.startswith('k'):
            r.size = r.asize = 0
            r.align = 1
        elif k == 10 and IsOpaqueSt(t):
            r.size = r.asize = 0
            r.align = 1
        else:
            r.size = StoreSize(self.dl, t)
            r.asize = ABISize(self.dl, t)
            r.align = ABIAlign(self.dl, t)
        self._ty[t] = r
        return r

    # ---------------------------------------------------------------- constants
    def const(self, v):
        """Constant -> int | float | tuple | GRef | Undef | ('nullptr')"""
        k = ValueKind(v)
        # kinds: 0 Argument,1 BB,2 MemUse.. ; enumerate through tests
        t = self.ty(TypeOf(v))
        KN = _KIND.get(k)
        if KN == 'int':
            if t.bits <= 64:
                return ConstZExt(v) & ((1 << t.bits) - 1)
            s = PrintValue(v)
            txt = C.cast(s, C.c_char_p).value.decode()
            DisposeMsg(s)
            return int(txt.split()[-1]) & ((1 << t.bits) - 1)
        if KN == 'fp':
            li = C.c_int()
            return ConstReal(v, C.byref(li))
        if KN == 'null':
            return GRef(None, 0)
        if KN in ('undef', 'poison'):
            return Undef(t)
        if KN == 'zero':
            return self.zero(t)
        if KN in ('fn', 'var', 'alias'):
            if KN == 'alias':
                return self.const(Aliasee(v))
            return GRef(self._fname[v], 0)
        if KN in ('cda', 'cdv'):
            n = t.n
            return tuple(self.const(DataElem(v, i)) for i in range(n))
        if KN in ('carr', 'cst', 'cvec'):
            n = NumOps(v)
            return tuple(self.const(GetOp(v, i)) for i in range(n))
        if KN == 'expr':
            op = OP.get(ConstOpcode(v))
            if op == 'gep':
                base = self.const(GetOp(v, 0))
                off = self._gep_const(v)
                return GRef(base.name, (base.off + off))
            if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                a = self.const(GetOp(v, 0))
                if op == 'ptrtoint':
                    return ('p2i', a, t.bits)
                return a
            if op in ('sub', 'add', 'trunc'):
                return ('ce', op, [self.const(GetOp(v, i)) for i in range(NumOps(v))], t.bits)
            raise NotImplementedError(f"constexpr {op}")
        raise NotImplementedError(f"constant kind {k} {KN}")

    def _gep_const(self, v):
        t = self.ty(GEPType(v))
        n = NumOps(v)
        off = 0
        for i in range(1, n):
            idx = self.const(GetOp(v, i))
            idx = idx - (1 << 64) if idx >> 63 else idx
            w = self.ty(TypeOf(GetOp(v, i))).bits
            if w == 32 and idx >> 31:
                idx -= 1 << 32
            if i == 1:
                off += idx * t.asize
            elif t.kind == 'struct':
                off += t.offs[idx]
                t = t.elems[idx]
            else:
                t = t.elem
                off += idx * t.asize
        return off

    def zero(self, t):
        if t.kind == 'int':
            return 0
        if t.kind in ('float', 'double', 'x86_fp80'):
            return 0.0
        if t.kind == 'ptr':
            return GRef(None, 0)
        if t.kind in ('array', 'vector'):
            z = self.zero(t.elem)
            return (z,) * t.n
        if t.kind == 'struct':
            return tuple(self.zero(e) for e in t.elems)
        raise NotImplementedError(t.kind)

    # ---------------------------------------------------------------- functions
    def func(self, name):
        f = self._fn.get(name)
        if f is not None:
            return f
        v = self.funcs.get(name)
        if v is None:
            if name in self.aliases:
                return self.func(self._fname[Aliasee(self.aliases[name])])
            return None
        f = Func()
        f.name = name
        f.val = v
        bb = FirstBB(v)
        f.decl = not bb
        f.blocks = []
        f.nparams = CountParams(v)
        f.regtypes = []
        f.id = len(self._fn)
        self._fn[name] = f
        f.rett = self.ty(RetTypeFn(GlValType(v)))
        if f.decl:
            f.nregs = 0
            return f
        self.nfuncs_loaded += 1
        regs = {}
        for i in range(f.nparams):
            p = GetParam(v, i)
            regs[p] = i
            f.regtypes.append(self.ty(TypeOf(p)))
        f.paramtypes = list(f.regtypes)
        bbs = {}
        lst = []
        while bb:
            bbs[bb] = len(lst)
            insts = []
            it = FirstInst(bb)
            while it:
                insts.append(it)
                t = self.ty(TypeOf(it))
                if t.kind != 'void':
                    regs[it] = len(f.regtypes)
                    f.regtypes.append(t)
                it = NextInst(it)
            lst.append(insts)
            bb = NextBB(bb)
        f.nregs = len(f.regtypes)
        cc = {}

        def operand(o):
            r = regs.get(o)
            if r is not None:
                return Reg(r)
            c = cc.get(o)
            if c is None:
                c = self.const(o)
                cc[o] = c
            return c

        iid = 0
        for bi, insts in enumerate(lst):
            b = Block()
            b.idx = bi
            b.insts = []
            b.phis = []
            for it in insts:
                I = Inst()
                opn = Opcode(it)
                op = OP.get(opn)
                if op is None:
                    raise NotImplementedError(f"opcode {opn}")
                I.op = op
                I.ty = self.ty(TypeOf(it))
                I.dst = regs.get(it)
                I.x = I.y = None
                I.fn = f
                I.id = iid
                iid += 1
                ln = u()
                I.line = DbgLine(it)
                fs = DbgFile(it, C.byref(ln))
                I.file = fs[:ln.value].decode() if fs else ''
                if op == 'phi':
                    I.ops = [(bbs[IncBB(it, i)], operand(IncVal(it, i))) for i in range(CountInc(it))]
                    I.x = {a: b_ for a, b_ in I.ops}
                    b.phis.append(I)
                    continue
                if op == 'br':
                    ns = NumSucc(it)
                    I.x = [bbs[Succ(it, i)] for i in range(ns)]
                    I.ops = [operand(GetOp(it, 0))] if ns == 2 else []
                elif op == 'switch':
                    n = NumOps(it)
                    I.ops = [operand(GetOp(it, 0))]
                    ns = NumSucc(it)
                    dflt = bbs[Succ(it, 0)]
                    cases = [(self.const(GetOp(it, 2 * i)), bbs[Succ(it, i)]) for i in range(1, ns)]
                    I.x = (dflt, cases)
                    I.y = self.ty(TypeOf(GetOp(it, 0)))
                elif op == 'call' or op == 'invoke':
                    na = NumArgOps(it)
                    I.ops = []
                    cv = CalledVal(it)
                    if IsInlineAsm(cv):
                        I.x = '$asm'
                    elif cv in self._fname:
                        nm = self._fname[cv]
                        if nm in self.aliases:
                            nm = self._fname[Aliasee(self.aliases[nm])]
                        I.x = nm
                    else:
                        I.x = operand(cv)
                    I.y = [self.ty(TypeOf(GetOp(it, i))) for i in range(na)]
                    if isinstance(I.x, str) and I.x.startswith('llvm.dbg'):
                        continue
                    for i in range(na):
                        a = GetOp(it, i)
                        if I.y[i].kind.startswith('k'):
                            I.ops.append(None)
                        else:
                            I.ops.append(operand(a))
                else:
                    n = NumOps(it)
                    I.ops = [operand(GetOp(it, i)) for i in range(n)]
                    if op == 'icmp':
                        I.x = ICMP[ICmpPred(it)]
                        I.y = self.ty(TypeOf(GetOp(it, 0)))
                    elif op == 'fcmp':
                        I.x = FCMP[FCmpPred(it)]
                        I.y = self.ty(TypeOf(GetOp(it, 0)))
                    elif op == 'alloca':
                        I.x = self.ty(AllocType(it))
                    elif op == 'gep':
                        st = self.ty(GEPType(it))
                        # precompute: constant offset plus list of (operand, scale, width)
                        coff = 0
                        dyn = []
                        t = st
                        for i in range(1, n):
                            o = I.ops[i]
                            w = self.ty(TypeOf(GetOp(it, i))).bits
                            if i == 1:
                                scale = t.asize
                            elif t.kind == 'struct':
                                coff += t.offs[o]
                                t = t.elems[o]
                                continue
                            else:
                                t = t.elem
                                scale = t.asize
                            if isinstance(o, int):
                                s = o - (1 << w) if o >> (w - 1) else o
                                coff += s * scale
                            else:
                                dyn.append((o, scale, w))
                        I.x = coff
                        I.y = dyn
                    elif op in ('extractvalue', 'insertvalue'):
                        ni = NumIdx(it)
                        p = Indices(it)
                        I.x = [p[i] for i in range(ni)]
                    elif op in ('load', 'store'):
                        I.x = ORD.get(Ordering(it), 'na')
                        I.y = self.ty(TypeOf(GetOp(it, 0)))
                    elif op == 'atomicrmw':
                        I.x = (RMW[RMWOp(it)], ORD[Ordering(it)])
                        I.y = self.ty(TypeOf(GetOp(it, 1)))
                    elif op == 'cmpxchg':
                        I.x = (ORD[CASSucc(it)], ORD[CASFail(it)])
                        I.y = self.ty(TypeOf(GetOp(it, 1)))
                    elif op == 'fence':
                        I.x = (ORD[Ordering(it)], bool(IsSingleThread(it)))
                    elif op == 'shufflevector':
                        I.x = [MaskVal(it, i) for i in range(MaskElts(it))]
                        I.y = self.ty(TypeOf(GetOp(it, 0)))
                    elif op in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext',
                                'ptrtoint', 'inttoptr', 'bitcast', 'extractelement', 'insertelement', 'freeze'):
                        I.y = self.ty(TypeOf(GetOp(it, 0)))
                b.insts.append(I)
            f.blocks.append(b)
        return f


# LLVMValueKind enum (LLVM 18)
_KIND = {0: 'arg', 1: 'bb', 5: 'fn', 6: 'alias', 8: 'var', 9: 'blockaddr', 10: 'expr', 11: 'carr', 12: 'cst',
         13: 'cvec', 14: 'undef', 15: 'zero', 16: 'cda', 17: 'cdv', 18: 'int', 19: 'fp', 20: 'null', 21: 'token',
         22: 'md', 23: 'asm', 24: 'inst', 25: 'poison'}
