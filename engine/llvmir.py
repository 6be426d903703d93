"""Thin ctypes reader for LLVM 18 IR -> plain Python objects.

Only reading: the IR text is produced by clang/opt from /repo's current
sources; nothing here rewrites it."""
import ctypes as C, re, glob, os

def _find():
    for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so.1"):
        if os.path.exists(p):
            return p
    g = glob.glob("/usr/lib/**/libLLVM*18*", recursive=True)
    return g[0]

L = C.CDLL(_find())
P = C.c_void_p
def fn(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f

ContextCreate = fn("LLVMContextCreate", P)
CreateMemBuf = fn("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = fn("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetDL = fn("LLVMGetModuleDataLayout", P, P)
FirstFn = fn("LLVMGetFirstFunction", P, P); NextFn = fn("LLVMGetNextFunction", P, P)
FirstGl = fn("LLVMGetFirstGlobal", P, P); NextGl = fn("LLVMGetNextGlobal", P, P)
FirstBB = fn("LLVMGetFirstBasicBlock", P, P); NextBB = fn("LLVMGetNextBasicBlock", P, P)
FirstIn = fn("LLVMGetFirstInstruction", P, P); NextIn = fn("LLVMGetNextInstruction", P, P)
IsDecl = fn("LLVMIsDeclaration", C.c_int, P)
GetName = fn("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
TypeOf = fn("LLVMTypeOf", P, P)
TypeKind = fn("LLVMGetTypeKind", C.c_int, P)
IntW = fn("LLVMGetIntTypeWidth", C.c_uint, P)
ArrLen = fn("LLVMGetArrayLength2", C.c_uint64, P)
VecLen = fn("LLVMGetVectorSize", C.c_uint, P)
ElTy = fn("LLVMGetElementType", P, P)
NEl = fn("LLVMCountStructElementTypes", C.c_uint, P)
StEl = fn("LLVMStructGetTypeAtIndex", P, P, C.c_uint)
ABISize = fn("LLVMABISizeOfType", C.c_uint64, P, P)
StoreSize = fn("LLVMStoreSizeOfType", C.c_uint64, P, P)
OffEl = fn("LLVMOffsetOfElement", C.c_uint64, P, P, C.c_uint)
NOps = fn("LLVMGetNumOperands", C.c_int, P)
Op = fn("LLVMGetOperand", P, P, C.c_uint)
Opcode = fn("LLVMGetInstructionOpcode", C.c_int, P)
ConstOpcode = fn("LLVMGetConstOpcode", C.c_int, P)
IPred = fn("LLVMGetICmpPredicate", C.c_int, P)
FPred = fn("LLVMGetFCmpPredicate", C.c_int, P)
PrintV = fn("LLVMPrintValueToString", P, P)
DisposeM = fn("LLVMDisposeMessage", None, P)
NParams = fn("LLVMCountParams", C.c_uint, P); Param = fn("LLVMGetParam", P, P, C.c_uint)
NInc = fn("LLVMCountIncoming", C.c_uint, P); IncV = fn("LLVMGetIncomingValue", P, P, C.c_uint); IncB = fn("LLVMGetIncomingBlock", P, P, C.c_uint)
NSucc = fn("LLVMGetNumSuccessors", C.c_uint, P); Succ = fn("LLVMGetSuccessor", P, P, C.c_uint)
IsCond = fn("LLVMIsConditional", C.c_int, P); Cond = fn("LLVMGetCondition", P, P)
CalledV = fn("LLVMGetCalledValue", P, P)
NArgs = fn("LLVMGetNumArgOperands", C.c_uint, P)
AllocTy = fn("LLVMGetAllocatedType", P, P)
GEPTy = fn("LLVMGetGEPSourceElementType", P, P)
GInit = fn("LLVMGetInitializer", P, P); IsGConst = fn("LLVMIsGlobalConstant", C.c_int, P)
AggEl = fn("LLVMGetAggregateElement", P, P, C.c_uint)
IsNull = fn("LLVMIsNull", C.c_int, P); IsUndef = fn("LLVMIsUndef", C.c_int, P); IsConst = fn("LLVMIsConstant", C.c_int, P)
ZExt = fn("LLVMConstIntGetZExtValue", C.c_uint64, P)
VKind = fn("LLVMGetValueKind", C.c_int, P)
NIdx = fn("LLVMGetNumIndices", C.c_uint, P); Idx = fn("LLVMGetIndices", C.POINTER(C.c_uint), P)
NMask = fn("LLVMGetNumMaskElements", C.c_uint, P); MaskV = fn("LLVMGetMaskValue", C.c_int, P, C.c_uint)
BBAsV = fn("LLVMBasicBlockAsValue", P, P)
RetTy = fn("LLVMGetReturnType", P, P); GlobTy = fn("LLVMGlobalGetValueType", P, P)
IsAFn = fn("LLVMIsAFunction", P, P)
IsAAsm = fn("LLVMIsAInlineAsm", P, P)

OPC = {1:'ret',2:'br',3:'switch',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',55:'fence',60:'addrspacecast',66:'fneg',68:'freeze',56:'cmpxchg',57:'atomicrmw'}
IP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPN = ['false','oeq','ogt','oge','olt','ole','one','ord','uno','ueq','ugt','uge','ult','ule','une','true']

def name_of(v):
    n = C.c_size_t()
    s = GetName(v, C.byref(n))
    return s.decode() if s else ""

def text_of(v):
    p = PrintV(v)
    s = C.cast(p, C.c_char_p).value.decode()
    DisposeM(p)
    return s

class Instr:
    __slots__ = ("id", "op", "ty", "ops", "x", "opty")
class Block:
    __slots__ = ("id", "phis", "ins", "term", "succs", "name")
class Func:
    __slots__ = ("name", "args", "blocks", "ret", "entry", "decl")

class Module:
    def __init__(self, path):
        self.ctx = ContextCreate()
        buf = P(); err = C.c_char_p()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError("parse: %s" % err.value)
        self.m = m
        self.dl = GetDL(m)
        self._ty = {}
        self.raw = {}
        self.funcs = {}
        f = FirstFn(m)
        while f:
            self.raw[name_of(f)] = f
            f = NextFn(f)
        self.globals = {}
        g = FirstGl(m)
        while g:
            self.globals[name_of(g)] = g
            g = NextGl(g)
        self._ginit = {}

    def ty(self, t):
        k = self._ty.get(t)
        if k is not None:
            return k
        kind = TypeKind(t)
        if kind == 0: r = ('void',)
        elif kind == 2: r = ('f', 32)
        elif kind == 3: r = ('f', 64)
        elif kind == 4: r = ('f', 80)
        elif kind == 5: r = ('f', 128)
        elif kind == 1: r = ('f', 16)
        elif kind == 8: r = ('i', IntW(t))
        elif kind == 12: r = ('p',)
        elif kind == 10:
            n = NEl(t)
            es = tuple(self.ty(StEl(t, i)) for i in range(n))
            offs = tuple(OffEl(self.dl, t, i) for i in range(n))
            r = ('s', es, offs, ABISize(self.dl, t))
        elif kind == 11: r = ('a', ArrLen(t), self.ty(ElTy(t)))
        elif kind == 13: r = ('v', VecLen(t), self.ty(ElTy(t)))
        else: r = ('other', kind)
        self._ty[t] = r
        return r

    def func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        raw = self.raw.get(name)
        if raw is None:
            return None
        F = Func(); F.name = name
        F.decl = bool(IsDecl(raw))
        F.ret = self.ty(RetTy(GlobTy(raw)))
        F.args = [(Param(raw, i), self.ty(TypeOf(Param(raw, i)))) for i in range(NParams(raw))]
        F.blocks = {}
        self.funcs[name] = F
        if F.decl:
            return F
        bb = FirstBB(raw); F.entry = BBAsV(bb)
        while bb:
            B = Block(); B.id = BBAsV(bb); B.phis = []; B.ins = []; B.term = None; B.name = name_of(B.id)
            i = FirstIn(bb)
            while i:
                ins = self._ins(i)
                if ins.op == 'phi': B.phis.append(ins)
                else: B.ins.append(ins)
                i = NextIn(i)
            B.term = B.ins.pop()
            B.succs = B.term.x.get('succs', []) if isinstance(B.term.x, dict) else []
            F.blocks[B.id] = B
            bb = NextBB(bb)
        return F

    def _ins(self, i):
        I = Instr(); I.id = i; I.op = OPC.get(Opcode(i), 'op%d' % Opcode(i)); I.ty = self.ty(TypeOf(i)); I.x = {}
        op = I.op
        if op == 'phi':
            I.ops = []
            I.x = {BBAsV(IncB(i, k)): self.operand(IncV(i, k)) for k in range(NInc(i))}
            return I
        if op == 'br':
            I.ops = [self.operand(Cond(i))] if IsCond(i) else []
            I.x = {'succs': [BBAsV(Succ(i, k)) for k in range(NSucc(i))]}
            return I
        if op == 'switch':
            n = NOps(i)
            I.ops = [self.operand(Op(i, 0))]
            cases = [(self.operand(Op(i, k)), Op(i, k + 1)) for k in range(2, n, 2)]
            I.x = {'succs': [BBAsV(Succ(i, k)) for k in range(NSucc(i))], 'default': Op(i, 1), 'cases': cases}
            return I
        if op in ('call', 'invoke'):
            cv = CalledV(i)
            n = NArgs(i)
            I.ops = [self.operand(Op(i, k)) for k in range(n)]
            callee = name_of(cv) if IsAFn(cv) else None
            I.x = {'callee': callee, 'asm': text_of(cv) if IsAAsm(cv) else None}
            if op == 'invoke':
                I.x['succs'] = [BBAsV(Succ(i, k)) for k in range(NSucc(i))]
            return I
        n = NOps(i)
        ops = [Op(i, k) for k in range(n)]
        I.ops = [self.operand(o) for o in ops]
        I.opty = [self.ty(TypeOf(o)) for o in ops]
        if op == 'icmp': I.x = IP[IPred(i)]
        elif op == 'fcmp': I.x = FPN[FPred(i)]
        elif op == 'alloca':
            I.x = self.size(self.ty(AllocTy(i)))
        elif op == 'gep':
            I.x = self.ty(GEPTy(i))
        elif op in ('extractvalue', 'insertvalue'):
            p = Idx(i); I.x = [p[k] for k in range(NIdx(i))]
        elif op == 'shufflevector':
            I.x = [MaskV(i, k) for k in range(NMask(i))]
        return I

    def size(self, t):
        k = t[0]
        if k == 'i': 
            b = (t[1] + 7) // 8
            p = 1
            while p < b: p *= 2
            return p
        if k == 'f': return {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t[1]]
        if k == 'p': return 8
        if k == 'a': return t[1] * self.size(t[2])
        if k == 'v':
            if t[2] == ('i', 1): return (t[1] + 7)//8
            return t[1] * self.size(t[2])
        if k == 's': return t[3]
        raise NotImplementedError(t)

    # operands: ('l', id) local ; ('c', type, payload)
    def operand(self, v):
        if IsConst(v):
            return ('c', self.const(v))
        return ('l', v)

    def const(self, v):
        t = self.ty(TypeOf(v))
        if IsUndef(v):
            return ('undef', t)
        k = t[0]
        if k == 'i' and VKind(v) == 18 or (k == 'i' and IsNull(v)):
            if IsNull(v): return ('int', t[1], 0)
            if t[1] <= 64: return ('int', t[1], ZExt(v) & ((1 << t[1]) - 1))
            return ('int', t[1], int(text_of(v).split()[-1]) & ((1 << t[1]) - 1))
        if k == 'f':
            return ('fp', t[1], self.fpbits(t[1], text_of(v).split()[-1]))
        if k == 'p':
            if IsNull(v): return ('null',)
            n = name_of(v)
            if IsAFn(v): return ('fnptr', n)
            if n in self.globals: return ('gaddr', n)
            oc = OPC.get(ConstOpcode(v))
            if oc == 'gep':
                return ('cgep', self.ty(GEPTy(v)), [self.const(Op(v, i)) for i in range(NOps(v))], [self.ty(TypeOf(Op(v, i))) for i in range(NOps(v))])
            if oc in ('bitcast', 'addrspacecast'): return self.const(Op(v, 0))
            if oc == 'inttoptr': return ('inttoptr', self.const(Op(v, 0)))
            raise NotImplementedError("ptr const " + text_of(v))
        if k in ('a', 's', 'v'):
            n = t[1] if k != 's' else len(t[1])
            if IsNull(v): return ('zero', t)
            return ('agg', t, [self.const(AggEl(v, i)) for i in range(n)])
        oc = OPC.get(ConstOpcode(v))
        if k == 'i' and oc == 'ptrtoint':
            return ('ptrtoint', self.const(Op(v, 0)), t[1])
        raise NotImplementedError("const " + text_of(v)[:200])

    @staticmethod
    def fpbits(w, s):
        import struct
        if s.startswith('0xK'): return int(s[3:], 16)
        if s.startswith('0xH'): return int(s[3:], 16)
        if s.startswith('0x'):
            b = int(s[2:], 16)
            if w == 64: return b
            return d2f(b)
        d = float(s)
        if w == 64: return struct.unpack('<Q', struct.pack('<d', d))[0]
        if w == 32: return struct.unpack('<I', struct.pack('<f', d))[0]
        raise NotImplementedError(s)

    def ginit(self, name):
        if name in self._ginit: return self._ginit[name]
        g = self.globals[name]
        t = self.ty(GlobTy(g))
        init = None
        if not IsDecl(g):
            init = self.const(GInit(g))
        r = (t, init, bool(IsGConst(g)))
        self._ginit[name] = r
        return r

def d2f(b):
    """double bits of an exactly representable float (incl. NaN payloads) -> float bits"""
    import struct
    s = b >> 63; e = (b >> 52) & 0x7ff; m = b & ((1 << 52) - 1)
    if e == 0x7ff:
        return (s << 31) | 0x7f800000 | (m >> 29)
    d = struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<I', struct.pack('<f', d))[0]
