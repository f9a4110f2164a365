"""Reads LLVM bitcode through the LLVM C API (ctypes) into plain Python objects."""
import ctypes as C
import glob
import os

_lib = None


def _load():
    global _lib
    if _lib is not None:
        return _lib
    cands = ["/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so"]
    cands += sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM-18*"))
    for c in cands:
        if os.path.exists(c):
            _lib = C.CDLL(c)
            break
    L = _lib
    V, S, U, I = C.c_void_p, C.c_char_p, C.c_uint, C.c_int
    def f(name, res, *args):
        fn = getattr(L, name)
        fn.restype = res
        fn.argtypes = list(args)
    f("LLVMContextCreate", V)
    f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(V), C.POINTER(S))
    f("LLVMParseBitcodeInContext2", I, V, V, C.POINTER(V))
    f("LLVMGetFirstFunction", V, V)
    f("LLVMGetNextFunction", V, V)
    f("LLVMGetFirstGlobal", V, V)
    f("LLVMGetNextGlobal", V, V)
    f("LLVMGetFirstGlobalAlias", V, V)
    f("LLVMGetNextGlobalAlias", V, V)
    f("LLVMAliasGetAliasee", V, V)
    f("LLVMGetValueName2", S, V, C.POINTER(C.c_size_t))
    f("LLVMIsDeclaration", I, V)
    f("LLVMCountParams", U, V)
    f("LLVMGetParam", V, V, U)
    f("LLVMGetFirstBasicBlock", V, V)
    f("LLVMGetNextBasicBlock", V, V)
    f("LLVMGetBasicBlockName", S, V)
    f("LLVMGetFirstInstruction", V, V)
    f("LLVMGetNextInstruction", V, V)
    f("LLVMGetInstructionOpcode", I, V)
    f("LLVMGetNumOperands", I, V)
    f("LLVMGetOperand", V, V, U)
    f("LLVMTypeOf", V, V)
    f("LLVMGlobalGetValueType", V, V)
    f("LLVMGetValueKind", I, V)
    f("LLVMGetTypeKind", I, V)
    f("LLVMGetIntTypeWidth", U, V)
    f("LLVMGetStructName", S, V)
    f("LLVMCountStructElementTypes", U, V)
    f("LLVMStructGetTypeAtIndex", V, V, U)
    f("LLVMIsOpaqueStruct", I, V)
    f("LLVMGetElementType", V, V)
    f("LLVMGetArrayLength", U, V)
    f("LLVMGetVectorSize", U, V)
    f("LLVMGetModuleDataLayout", V, V)
    f("LLVMABISizeOfType", C.c_ulonglong, V, V)
    f("LLVMStoreSizeOfType", C.c_ulonglong, V, V)
    f("LLVMOffsetOfElement", C.c_ulonglong, V, V, U)
    f("LLVMConstIntGetZExtValue", C.c_ulonglong, V)
    f("LLVMConstRealGetDouble", C.c_double, V, C.POINTER(I))
    f("LLVMGetConstOpcode", I, V)
    f("LLVMGetICmpPredicate", I, V)
    f("LLVMGetFCmpPredicate", I, V)
    f("LLVMGetGEPSourceElementType", V, V)
    f("LLVMGetAllocatedType", V, V)
    f("LLVMGetCalledValue", V, V)
    f("LLVMGetNumArgOperands", U, V)
    f("LLVMGetCalledFunctionType", V, V)
    f("LLVMGetReturnType", V, V)
    f("LLVMCountIncoming", U, V)
    f("LLVMGetIncomingValue", V, V, U)
    f("LLVMGetIncomingBlock", V, V, U)
    f("LLVMGetNumIndices", U, V)
    f("LLVMGetIndices", C.POINTER(U), V)
    f("LLVMGetInitializer", V, V)
    f("LLVMIsGlobalConstant", I, V)
    f("LLVMIsThreadLocal", I, V)
    f("LLVMIsConstantString", I, V)
    f("LLVMGetAsString", S, V, C.POINTER(C.c_size_t))
    L.LLVMGetAsString.restype = V
    f("LLVMGetAggregateElement", V, V, U)
    f("LLVMValueAsBasicBlock", V, V)
    f("LLVMValueIsBasicBlock", I, V)
    f("LLVMGetSwitchDefaultDest", V, V)
    f("LLVMGetCondition", V, V)
    f("LLVMIsConditional", I, V)
    f("LLVMGetLinkage", I, V)
    f("LLVMPrintValueToString", V, V)
    f("LLVMDisposeMessage", None, V)
    f("LLVMGetInstructionParent", V, V)
    return L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 60: 'addrspacecast',
       66: 'fneg', 67: 'callbr', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


class Ty:
    __slots__ = ("k", "w", "name", "elts", "offs", "size", "n")

    def __repr__(self):
        if self.k == 'int':
            return f"i{self.w}"
        if self.k == 'struct':
            return self.name or "{" + ",".join(map(repr, self.elts)) + "}"
        if self.k == 'array':
            return f"[{self.n} x {self.elts[0]!r}]"
        return self.k


class Val:
    """kind: 'local' (v=id), 'int' (v), 'fp' (v), 'null', 'undef', 'glob' (v=name), 'func' (v=name), 'expr' (v=opcode, ops),
    'agg' (ops), 'str' (v=bytes), 'zero', 'meta', 'block'"""
    __slots__ = ("k", "v", "ops", "ty", "x")

    def __init__(self, k, v=None, ty=None, ops=None, x=None):
        self.k, self.v, self.ty, self.ops, self.x = k, v, ty, ops, x

    def __repr__(self):
        return f"{self.k}:{self.v}" if self.ops is None else f"{self.k}:{self.v}{self.ops}"


class Inst:
    __slots__ = ("op", "id", "name", "ty", "ops", "x", "blk", "idx", "fn")

    def __repr__(self):
        return f"%{self.id}({self.name}) = {self.op} {self.ops} {self.x}"


class Block:
    __slots__ = ("name", "id", "insts", "fn", "succ", "preds")

    def __repr__(self):
        return f"<{self.name}>"


class Func:
    __slots__ = ("name", "nargs", "argnames", "blocks", "byid", "retty", "module", "argtys", "_rpo", "_heads", "_dom", "_live")


class Module:
    def __init__(self, path):
        L = self.L = _load()
        self.ctx = L.LLVMContextCreate()
        buf, err, mod = C.c_void_p(), C.c_char_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(mod)):
            raise RuntimeError("cannot parse " + path)
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self._ty = {}
        self.fn_ref, self.gl_ref, self.alias = {}, {}, {}
        self._fn, self._gl = {}, {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            self.fn_ref[self._name(f)] = f
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            self.gl_ref[self._name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        g = L.LLVMGetFirstGlobalAlias(mod)
        while g:
            self.alias[self._name(g)] = self._name(L.LLVMAliasGetAliasee(g))
            g = L.LLVMGetNextGlobalAlias(g)
        self.ref2fn = {r: n for n, r in self.fn_ref.items()}
        self.ref2gl = {r: n for n, r in self.gl_ref.items()}

    def _name(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s.decode() if s else ""

    def defined(self, name):
        name = self.alias.get(name, name)
        r = self.fn_ref.get(name)
        return bool(r) and not self.L.LLVMIsDeclaration(r)

    def ty(self, r):
        t = self._ty.get(r)
        if t is not None:
            return t
        L = self.L
        k = L.LLVMGetTypeKind(r)
        t = Ty()
        t.name = t.elts = t.offs = None
        t.w = t.n = 0
        t.size = 0
        self._ty[r] = t
        if k == 0:
            t.k = 'void'
        elif k in (2, 3, 4, 5, 6, 1):
            t.k = 'fp'
            t.size = L.LLVMABISizeOfType(self.dl, r)
        elif k == 7:
            t.k = 'label'
        elif k == 8:
            t.k = 'int'
            t.w = L.LLVMGetIntTypeWidth(r)
            t.size = L.LLVMABISizeOfType(self.dl, r)
        elif k == 9:
            t.k = 'func'
        elif k == 10:
            t.k = 'struct'
            nm = L.LLVMGetStructName(r)
            t.name = nm.decode() if nm else None
            t.elts, t.offs = [], []
            if not L.LLVMIsOpaqueStruct(r):
                n = L.LLVMCountStructElementTypes(r)
                for i in range(n):
                    t.elts.append(self.ty(L.LLVMStructGetTypeAtIndex(r, i)))
                    t.offs.append(L.LLVMOffsetOfElement(self.dl, r, i))
                t.size = L.LLVMABISizeOfType(self.dl, r)
        elif k == 11:
            t.k = 'array'
            t.n = L.LLVMGetArrayLength(r)
            t.elts = [self.ty(L.LLVMGetElementType(r))]
            t.size = L.LLVMABISizeOfType(self.dl, r)
        elif k == 12:
            t.k = 'ptr'
            t.size = 8
        elif k == 13:
            t.k = 'vector'
            t.n = L.LLVMGetVectorSize(r)
            t.elts = [self.ty(L.LLVMGetElementType(r))]
            t.size = L.LLVMABISizeOfType(self.dl, r)
        else:
            t.k = 'other'
        return t

    # ---- constants and operands
    def val(self, r, loc=None):
        L = self.L
        if loc is not None and r in loc:
            return loc[r]
        k = L.LLVMGetValueKind(r)
        if k == 1:  # basic block
            return Val('block', r)
        if k == 5:
            return Val('func', self.ref2fn.get(r))
        if k == 6:  # alias
            return Val('func', self.alias.get(self._name(r), self._name(r)))
        if k == 8:
            return Val('glob', self.ref2gl[r])
        if k == 22 or k == 23:  # metadata as value / inline asm
            return Val('meta')
        t = self.ty(L.LLVMTypeOf(r)) if k not in (22,) else None
        if k == 18:
            v = L.LLVMConstIntGetZExtValue(r)
            return Val('int', v & ((1 << t.w) - 1) if t.w < 64 else v, t)
        if k == 19:
            return Val('fp', L.LLVMConstRealGetDouble(r, C.byref(C.c_int())), t)
        if k == 20:
            return Val('null', 0, t)
        if k in (14, 25):  # undef / poison
            return Val('undef', None, t)
        if k == 15:
            return Val('zero', None, t)
        if k == 10:  # constant expr
            op = OPC.get(L.LLVMGetConstOpcode(r))
            n = L.LLVMGetNumOperands(r)
            ops = [self.val(L.LLVMGetOperand(r, i)) for i in range(n)]
            x = self.ty(L.LLVMGetGEPSourceElementType(r)) if op == 'gep' else None
            return Val('expr', op, t, ops, x)
        if k in (11, 12, 13):  # const array/struct/vector
            n = L.LLVMGetNumOperands(r)
            return Val('agg', None, t, [self.val(L.LLVMGetOperand(r, i)) for i in range(n)])
        if k in (16, 17):  # const data array / vector
            if t.k == 'array' and t.elts[0].k == 'int':
                n = C.c_size_t()
                if t.elts[0].w == 8 and L.LLVMIsConstantString(r):
                    p = L.LLVMGetAsString(r, C.byref(n))
                    return Val('str', C.string_at(p, n.value), t)
            n = t.n
            return Val('agg', None, t, [self.val(L.LLVMGetAggregateElement(r, i)) for i in range(n)])
        return Val('unknown', k, t)

    def fn(self, name):
        name = self.alias.get(name, name)
        if name in self._fn:
            return self._fn[name]
        L = self.L
        r = self.fn_ref[name]
        F = Func()
        F.name, F.module = name, self
        F._rpo = F._heads = F._dom = F._live = None
        F.nargs = L.LLVMCountParams(r)
        loc = {}
        nid = 0
        F.argnames, F.argtys = [], []
        for i in range(F.nargs):
            p = L.LLVMGetParam(r, i)
            t = self.ty(L.LLVMTypeOf(p))
            loc[p] = Val('local', nid, t)
            F.argnames.append(self._name(p))
            F.argtys.append(t)
            nid += 1
        F.retty = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(r)))
        F.blocks, blkmap, raw = [], {}, []
        b = L.LLVMGetFirstBasicBlock(r)
        while b:
            B = Block()
            B.name = (L.LLVMGetBasicBlockName(b) or b"").decode()
            B.id, B.insts, B.fn, B.succ, B.preds = len(F.blocks), [], F, [], []
            blkmap[b] = B
            F.blocks.append(B)
            ins = L.LLVMGetFirstInstruction(b)
            while ins:
                t = self.ty(L.LLVMTypeOf(ins))
                loc[ins] = Val('local', nid, t)
                raw.append((B, ins, nid, t))
                nid += 1
                ins = L.LLVMGetNextInstruction(ins)
            b = L.LLVMGetNextBasicBlock(b)
        for B, ins, i, t in raw:
            I = Inst()
            I.op = OPC.get(L.LLVMGetInstructionOpcode(ins), 'unknown')
            I.id, I.ty, I.blk, I.x, I.fn = i, t, B, None, F
            I.idx = len(B.insts)
            I.name = self._name(ins)
            n = L.LLVMGetNumOperands(ins)
            op = I.op
            if op == 'br':
                if L.LLVMIsConditional(ins):
                    I.ops = [self.val(L.LLVMGetCondition(ins), loc)]
                    I.x = [blkmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(ins, 2))], blkmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(ins, 1))]]
                else:
                    I.ops = []
                    I.x = [blkmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(ins, 0))]]
                B.succ = list(I.x)
            elif op == 'switch':
                I.ops = [self.val(L.LLVMGetOperand(ins, 0), loc)]
                cases = []
                for j in range(2, n, 2):
                    cases.append((self.val(L.LLVMGetOperand(ins, j)).v, blkmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(ins, j + 1))]))
                I.x = (blkmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(ins, 1))], cases)
                B.succ = [I.x[0]] + [c[1] for c in cases]
            elif op == 'phi':
                m = L.LLVMCountIncoming(ins)
                I.ops = []
                I.x = [(blkmap[L.LLVMGetIncomingBlock(ins, j)], self.val(L.LLVMGetIncomingValue(ins, j), loc)) for j in range(m)]
            elif op == 'call' or op == 'invoke':
                na = L.LLVMGetNumArgOperands(ins)
                I.ops = [self.val(L.LLVMGetOperand(ins, j), loc) for j in range(na)]
                I.x = self.val(L.LLVMGetCalledValue(ins), loc)
            else:
                I.ops = [self.val(L.LLVMGetOperand(ins, j), loc) for j in range(n)]
                if op == 'icmp':
                    I.x = ICMP[L.LLVMGetICmpPredicate(ins)]
                elif op == 'fcmp':
                    I.x = L.LLVMGetFCmpPredicate(ins)
                elif op == 'gep':
                    I.x = self.ty(L.LLVMGetGEPSourceElementType(ins))
                elif op == 'alloca':
                    I.x = self.ty(L.LLVMGetAllocatedType(ins))
                elif op in ('extractvalue', 'insertvalue'):
                    m = L.LLVMGetNumIndices(ins)
                    p = L.LLVMGetIndices(ins)
                    I.x = [p[j] for j in range(m)]
            B.insts.append(I)
        for B in F.blocks:
            seen = set()
            for s in B.succ:
                if s.id not in seen:
                    seen.add(s.id)
                    s.preds.append(B)
        self._fn[name] = F
        return F

    def glob(self, name):
        """(value type, initializer Val or None, is constant, thread local)"""
        if name not in self._gl:
            L = self.L
            r = self.gl_ref[name]
            init = None if L.LLVMIsDeclaration(r) else self.val(L.LLVMGetInitializer(r))
            self._gl[name] = (self.ty(L.LLVMGlobalGetValueType(r)), init, bool(L.LLVMIsGlobalConstant(r)), bool(L.LLVMIsThreadLocal(r)))
        return self._gl[name]


def rpo(F):
    """Blocks in reverse postorder, and natural loop headers {header id: set of block ids}."""
    if F._rpo is not None:
        return F._rpo, F._heads
    seen, post = set(), []
    stack = [(F.blocks[0], iter(F.blocks[0].succ))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s.id not in seen:
                seen.add(s.id)
                stack.append((s, iter(s.succ)))
                break
        else:
            post.append(b)
            stack.pop()
    order = post[::-1]
    idx = {b.id: i for i, b in enumerate(order)}
    idom = {order[0].id: order[0].id}
    changed = True
    while changed:
        changed = False
        for b in order[1:]:
            new = None
            for p in b.preds:
                if p.id in idom:
                    if new is None:
                        new = p.id
                    else:
                        a, c = p.id, new
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b.id) != new:
                idom[b.id] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            n = idom[b]
            if n == b:
                return False
            b = n
    heads = {}
    for b in order:
        for s in b.succ:
            if s.id in idx and idx[s.id] <= idx[b.id] and dom(s.id, b.id):
                body = heads.setdefault(s.id, {s.id})
                work = [b]
                while work:
                    x = work.pop()
                    if x.id not in body:
                        body.add(x.id)
                        work.extend(p for p in x.preds if p.id in idx)
    F._rpo = idx
    F._heads = heads
    F._dom = idom
    return F._rpo, F._heads
