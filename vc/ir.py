"""Load LLVM IR (produced by clang from /repo's real sources) into plain Python objects, through LLVM-C.

Nothing here interprets the code; it only mirrors modules, functions, blocks and instructions."""
import ctypes, os, subprocess, sys
from ctypes import c_void_p, c_uint, c_int, c_char_p, c_size_t, c_ulonglong, c_longlong, POINTER, byref

L = ctypes.CDLL('/usr/lib/llvm-18/lib/libLLVM.so.1')


def _f(name, res, *args):
    f = getattr(L, 'LLVM' + name)
    f.restype = res
    f.argtypes = list(args)
    return f


P = c_void_p
ContextCreate = _f('ContextCreate', P)
CreateMB = _f('CreateMemoryBufferWithContentsOfFile', c_int, c_char_p, POINTER(P), POINTER(c_char_p))
ParseIR = _f('ParseIRInContext', c_int, P, P, POINTER(P), POINTER(c_char_p))
FirstFn = _f('GetFirstFunction', P, P); NextFn = _f('GetNextFunction', P, P)
FirstGl = _f('GetFirstGlobal', P, P); NextGl = _f('GetNextGlobal', P, P)
FirstBB = _f('GetFirstBasicBlock', P, P); NextBB = _f('GetNextBasicBlock', P, P)
FirstI = _f('GetFirstInstruction', P, P); NextI = _f('GetNextInstruction', P, P)
GetValueName = _f('GetValueName2', P, P, POINTER(c_size_t))
BBName = _f('GetBasicBlockName', c_char_p, P)
Opcode = _f('GetInstructionOpcode', c_int, P)
NumOps = _f('GetNumOperands', c_int, P)
Op = _f('GetOperand', P, P, c_uint)
TypeOf = _f('TypeOf', P, P)
TypeKind = _f('GetTypeKind', c_int, P)
IntW = _f('GetIntTypeWidth', c_uint, P)
ElemTy = _f('GetElementType', P, P)
ArrLen = _f('GetArrayLength2', c_ulonglong, P)
VecLen = _f('GetVectorSize', c_uint, P)
NStruct = _f('CountStructElementTypes', c_uint, P)
StructTy = _f('StructGetTypeAtIndex', P, P, c_uint)
StructName = _f('GetStructName', c_char_p, P)
DataLayout = _f('GetModuleDataLayout', P, P)
ABISize = _f('ABISizeOfType', c_ulonglong, P, P)
OffElem = _f('OffsetOfElement', c_ulonglong, P, P, c_uint)
ValueKind = _f('GetValueKind', c_int, P)
ConstZ = _f('ConstIntGetZExtValue', c_ulonglong, P)
PrintV = _f('PrintValueToString', P, P)
DisposeMsg = _f('DisposeMessage', None, P)
ICmpPred = _f('GetICmpPredicate', c_int, P)
GetNSW = _f('GetNSW', c_int, P); GetNUW = _f('GetNUW', c_int, P); GetExact = _f('GetExact', c_int, P)
Called = _f('GetCalledValue', P, P)
NumArg = _f('GetNumArgOperands', c_uint, P)
NDest = _f('GetNormalDest', P, P); UDest = _f('GetUnwindDest', P, P)
NIdx = _f('GetNumIndices', c_uint, P); Idx = _f('GetIndices', POINTER(c_uint), P)
GEPTy = _f('GetGEPSourceElementType', P, P)
AllocTy = _f('GetAllocatedType', P, P)
GVTy = _f('GlobalGetValueType', P, P)
IsGC = _f('IsGlobalConstant', c_int, P)
Init = _f('GetInitializer', P, P)
AggEl = _f('GetAggregateElement', P, P, c_uint)
ConstOpc = _f('GetConstOpcode', c_int, P)
DbgLine = _f('GetDebugLocLine', c_uint, P)
DbgFile = _f('GetDebugLocFilename', P, P, POINTER(c_uint))
CountIn = _f('CountIncoming', c_uint, P); InV = _f('GetIncomingValue', P, P, c_uint); InB = _f('GetIncomingBlock', P, P, c_uint)
NSucc = _f('GetNumSuccessors', c_uint, P); Succ = _f('GetSuccessor', P, P, c_uint)
Term = _f('GetBasicBlockTerminator', P, P)
ValAsBB = _f('ValueAsBasicBlock', P, P)
Params = _f('CountParams', c_uint, P); Param = _f('GetParam', P, P, c_uint)
IsCond = _f('IsConditional', c_int, P); Cond = _f('GetCondition', P, P)
NClauses = _f('GetNumClauses', c_uint, P); IsCleanup = _f('IsCleanup', c_int, P); Clause = _f('GetClause', P, P, c_uint)
IsDecl = _f('IsDeclaration', c_int, P)
IsNull = _f('IsNull', c_int, P)
Aliasee = _f('AliasGetAliasee', P, P)
RetTy = _f('GetReturnType', P, P)
IsVolatile = _f('GetVolatile', c_int, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext',
       32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 53: 'extractvalue',
       54: 'insertvalue', 58: 'resume', 59: 'landingpad', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 49: 'va_arg'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
# value kinds
VK = {0: 'arg', 1: 'bb', 5: 'fn', 6: 'galias', 7: 'gifunc', 8: 'gvar', 9: 'blockaddr', 10: 'cexpr', 11: 'carr', 12: 'cstruct',
      13: 'cvec', 14: 'undef', 15: 'czero', 16: 'cdarr', 17: 'cdvec', 18: 'cint', 19: 'cfp', 20: 'cnull', 21: 'cnone',
      22: 'metadata', 23: 'asm', 24: 'inst', 25: 'poison', 26: 'ctarget'}


class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'fields', 'offs', 'size', 'name')

    def __init__(s, k, w=0, el=None, n=0, fields=None, offs=None, size=0, name=None):
        s.k, s.w, s.el, s.n, s.fields, s.offs, s.size, s.name = k, w, el, n, fields, offs, size, name

    def __repr__(s):
        return {'int': 'i%d' % s.w, 'ptr': 'ptr', 'arr': '[%d x %r]' % (s.n, s.el)}.get(s.k, s.name or s.k)


class Opnd:
    """Operand: kind in reg/arg/int/null/undef/global/fn/cexpr/agg/zero/fp/other"""
    __slots__ = ('k', 'v', 'ty', 'ops')

    def __init__(s, k, v, ty, ops=None):
        s.k, s.v, s.ty, s.ops = k, v, ty, ops

    def __repr__(s):
        return '%s:%r' % (s.k, s.v)


class Ins:
    __slots__ = ('op', 'id', 'name', 'ty', 'ops', 'x', 'line', 'file', 'text')

    def __repr__(s):
        return '%s=%s%r' % (s.id, s.op, s.ops)


class Block:
    __slots__ = ('id', 'name', 'ins', 'succ', 'pred')


class Fn:
    pass


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        mb = P(); msg = c_char_p(); m = P()
        if CreateMB(path.encode(), byref(mb), byref(msg)):
            raise RuntimeError(msg.value)
        if ParseIR(ctx, mb, byref(m), byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = DataLayout(m)
        self.tys = {}
        self.fns = {}
        self.globals = {}
        self._lazy = {}
        f = FirstFn(m)
        while f:
            n = self._name(f)
            fn = Fn(); fn.name = n; fn.h = f; fn.decl = bool(IsDecl(f)); fn.blocks = None; fn.mod = self
            self.fns[n] = fn
            f = NextFn(f)
        g = FirstGl(m)
        while g:
            n = self._name(g)
            self.globals[n] = g
            g = NextGl(g)
        self._ginit = {}

    def _name(self, v):
        ln = c_size_t()
        p = GetValueName(v, byref(ln))
        return ctypes.string_at(p, ln.value).decode()

    def ty(self, t):
        if t in self.tys:
            return self.tys[t]
        k = TypeKind(t)
        if k == 8: r = Ty('int', w=IntW(t)); r.size = (r.w + 7) // 8 if r.w not in (128,) else 16
        elif k == 12: r = Ty('ptr', size=8)
        elif k == 0: r = Ty('void')
        elif k == 11:
            r = Ty('arr'); self.tys[t] = r
            r.el = self.ty(ElemTy(t)); r.n = ArrLen(t); r.size = ABISize(self.dl, t)
        elif k == 10:
            r = Ty('struct'); self.tys[t] = r
            nm = StructName(t)
            r.name = nm.decode() if nm else None
            r.n = NStruct(t)
            r.fields = [self.ty(StructTy(t, i)) for i in range(r.n)]
            try:
                r.offs = [OffElem(self.dl, t, i) for i in range(r.n)]
                r.size = ABISize(self.dl, t)
            except Exception:
                r.offs = None
        elif k in (2, 3, 4, 5, 6): r = Ty('fp', size={2: 4, 3: 8, 4: 16}.get(k, 16))
        elif k == 13: r = Ty('vec', n=VecLen(t)); r.el = self.ty(ElemTy(t)); r.size = ABISize(self.dl, t)
        else: r = Ty('other%d' % k)
        self.tys[t] = r
        return r

    def fn(self, name):
        fn = self.fns[name]
        if fn.blocks is None and not fn.decl:
            self._load(fn)
        return fn

    def ginit(self, name):
        """initialiser of a global: (type, const?, Opnd or None)"""
        if name not in self._ginit:
            g = self.globals[name]
            i = Init(g)
            self._ginit[name] = (self.ty(GVTy(g)), bool(IsGC(g)), self.opnd(i, {}, {}) if i else None)
        return self._ginit[name]

    def opnd(self, v, vid, bid):
        k = VK.get(ValueKind(v), 'other')
        ty = self.ty(TypeOf(v)) if k not in ('bb', 'metadata') else None
        if k == 'inst': return Opnd('reg', vid[v], ty)
        if k == 'arg': return Opnd('reg', vid[v], ty)
        if k == 'bb': return Opnd('bb', bid.get(ValAsBB(v)), None)
        if k == 'cint':
            if ty.w <= 64: return Opnd('int', ConstZ(v), ty)
            p = PrintV(v); s = ctypes.string_at(p).decode(); DisposeMsg(p)
            return Opnd('int', int(s.split()[-1]) % (1 << ty.w), ty)
        if k == 'cnull': return Opnd('null', None, ty)
        if k in ('undef', 'poison'): return Opnd('undef', None, ty)
        if k == 'gvar': return Opnd('global', self._name(v), ty)
        if k == 'fn': return Opnd('fn', self._name(v), ty)
        if k == 'czero': return Opnd('zero', None, ty)
        if k in ('carr', 'cstruct', 'cdarr', 'cvec', 'cdvec'):
            n = ty.n
            return Opnd('agg', [self.opnd(AggEl(v, i), vid, bid) for i in range(n)], ty)
        if k == 'cexpr':
            o = OPC.get(ConstOpc(v), '?')
            ops = [self.opnd(Op(v, i), vid, bid) for i in range(NumOps(v))]
            x = self.ty(GEPTy(v)) if o == 'gep' else None
            return Opnd('cexpr', (o, x), ty, ops)
        if k == 'metadata': return Opnd('meta', None, None)
        if k == 'galias': return self.opnd(Aliasee(v), vid, bid)
        return Opnd('other', k, ty)

    def _load(self, fn):
        f = fn.h
        vid = {}; bid = {}
        fn.params = []
        for i in range(Params(f)):
            p = Param(f, i)
            vid[p] = 'a%d' % i
            fn.params.append((self._name(p), self.ty(TypeOf(p))))
        b = FirstBB(f); nb = 0; n = 0
        order = []
        while b:
            bid[b] = nb; nb += 1; order.append(b)
            i = FirstI(b)
            while i:
                vid[i] = 'v%d' % n; n += 1
                i = NextI(i)
            b = NextBB(b)
        fn.blocks = []
        fn.regname = {'a%d' % i: p[0] for i, p in enumerate(fn.params)}
        for b in order:
            B = Block(); B.id = bid[b]; B.name = (BBName(b) or b'').decode(); B.ins = []; B.pred = []
            i = FirstI(b)
            while i:
                I = Ins()
                I.op = OPC.get(Opcode(i), '?%d' % Opcode(i))
                I.id = vid[i]; I.ty = self.ty(TypeOf(i)); I.x = None
                I.name = self._name(i)
                fn.regname[I.id] = I.name or I.id
                I.line = 0; I.file = ''
                I.text = None
                o = I.op
                nm = None
                if o == 'phi':
                    I.ops = [(self.opnd(InV(i, k), vid, bid), bid[InB(i, k)]) for k in range(CountIn(i))]
                elif o in ('call', 'invoke'):
                    cv = Called(i)
                    I.ops = [self.opnd(Op(i, k), vid, bid) for k in range(NumArg(i))]
                    co = self.opnd(cv, vid, bid)
                    I.x = [co, bid[NDest(i)] if o == 'invoke' else None, bid[UDest(i)] if o == 'invoke' else None]
                    nm = co.v if co.k == 'fn' else None
                elif o == 'br':
                    if IsCond(i):
                        I.ops = [self.opnd(Cond(i), vid, bid)]
                        I.x = [bid[Succ(i, 0)], bid[Succ(i, 1)]]
                    else:
                        I.ops = []; I.x = [bid[Succ(i, 0)]]
                elif o == 'switch':
                    I.ops = [self.opnd(Op(i, 0), vid, bid)]
                    cases = []
                    for k in range(2, NumOps(i), 2):
                        cases.append((ConstZ(Op(i, k)), bid[ValAsBB(Op(i, k + 1))]))
                    I.x = [bid[ValAsBB(Op(i, 1))], cases]
                else:
                    I.ops = [self.opnd(Op(i, k), vid, bid) for k in range(NumOps(i))]
                    if o == 'icmp': I.x = PRED[ICmpPred(i)]
                    elif o == 'gep': I.x = self.ty(GEPTy(i))
                    elif o == 'alloca': I.x = self.ty(AllocTy(i))
                    elif o in ('add', 'sub', 'mul', 'shl'): I.x = (bool(GetNSW(i)), bool(GetNUW(i)))
                    elif o in ('udiv', 'sdiv', 'lshr', 'ashr'): I.x = bool(GetExact(i))
                    elif o in ('extractvalue', 'insertvalue'):
                        I.x = [Idx(i)[k] for k in range(NIdx(i))]
                    elif o == 'landingpad':
                        I.x = bool(IsCleanup(i))
                if not (nm and nm.startswith('llvm.dbg.')):
                    try:
                        I.line = DbgLine(i)
                        ln = c_uint()
                        p = DbgFile(i, byref(ln))
                        if p and I.line: I.file = ctypes.string_at(p, ln.value).decode()
                    except Exception:
                        pass
                    B.ins.append(I)
                i = NextI(i)
            t = B.ins[-1]
            B.succ = (t.x if t.op == 'br' else [t.x[0]] + [c[1] for c in t.x[1]] if t.op == 'switch'
                      else [t.x[1], t.x[2]] if t.op == 'invoke' else [])
            fn.blocks.append(B)
        for B in fn.blocks:
            for s in set(B.succ):
                fn.blocks[s].pred.append(B.id)
        self._loops(fn)

    def _loops(self, fn):
        """dominators, natural loops"""
        n = len(fn.blocks)
        order = []; seen = set()

        def dfs(b):
            st = [(b, iter(fn.blocks[b].succ))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s); st.append((s, iter(fn.blocks[s].succ))); break
                else:
                    order.append(x); st.pop()
        dfs(0)
        order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        dom = {0: {0}}
        ch = True
        allb = set(order)
        for b in order[1:]: dom[b] = allb
        while ch:
            ch = False
            for b in order[1:]:
                ps = [dom[p] for p in fn.blocks[b].pred if p in pos]
                d = set.intersection(*ps) | {b}
                if d != dom[b]: dom[b] = d; ch = True
        loops = {}
        for b in order:
            for s in fn.blocks[b].succ:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x)
                        st += [p for p in fn.blocks[x].pred if p in pos]
                elif pos.get(s, 0) <= pos[b]:
                    fn.irreducible = True
        fn.loops = loops   # header -> set of blocks
        fn.loop_of = {}
        for b in order:
            fn.loop_of[b] = [h for h in sorted(loops, key=lambda h: len(loops[h])) if b in loops[h]]


LLVMBIN = '/usr/lib/llvm-18/bin/'
CFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-fno-discard-value-names', '-w', '-S', '-emit-llvm']
PASSES = 'function(sroa,mem2reg,simplifycfg<no-switch-to-lookup;no-hoist-common-insts;no-sink-common-insts>,loop-simplify)'


def compile_ir(src, out, repo='/repo', cxx=False, extra=()):
    cc = [LLVMBIN + ('clang++' if cxx else 'clang')]
    if not os.path.exists(cc[0]): cc = ['clang++' if cxx else 'clang']
    std = ['-std=c++11'] if cxx else ['-std=gnu17']
    cmd = cc + std + CFLAGS + ['-I', repo] + list(extra) + [src, '-o', out + '.raw.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang failed: %s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    opt = LLVMBIN + 'opt'
    r = subprocess.run([opt, '-S', '-passes=' + PASSES, out + '.raw.ll', '-o', out], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('opt failed: %s' % r.stderr[-3000:])
    os.unlink(out + '.raw.ll')
    return out


class BuildError(Exception):
    pass
