"""Reader of LLVM IR through the LLVM-C interface (no code is executed); functions are converted on demand."""
import ctypes as C, glob, os, subprocess
from dom import *

OPN = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul',
       13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or',
       25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}


def _lib():
    for p in glob.glob('/usr/lib/llvm-18/lib/libLLVM-18*.so*') + glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM-18*.so*') + \
            glob.glob('/usr/lib/x86_64-linux-gnu/libLLVM.so.18*'):
        try:
            return C.CDLL(p)
        except OSError:
            pass
    raise RuntimeError('libLLVM 18 not found')


L = _lib()
VP = C.c_void_p


def F(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = args
    return f


ctx_create = F('LLVMContextCreate', VP)
membuf = F('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(VP), C.POINTER(C.c_char_p))
parse = F('LLVMParseBitcodeInContext2', C.c_int, VP, VP, C.POINTER(VP))
dl_of = F('LLVMGetModuleDataLayout', VP, VP)
u = C.c_uint
first_fn, next_fn = F('LLVMGetFirstFunction', VP, VP), F('LLVMGetNextFunction', VP, VP)
first_gl, next_gl = F('LLVMGetFirstGlobal', VP, VP), F('LLVMGetNextGlobal', VP, VP)
first_al, next_al = F('LLVMGetFirstGlobalAlias', VP, VP), F('LLVMGetNextGlobalAlias', VP, VP)
aliasee = F('LLVMAliasGetAliasee', VP, VP)
vname = F('LLVMGetValueName2', C.POINTER(C.c_char), VP, C.POINTER(C.c_size_t))
first_bb, next_bb = F('LLVMGetFirstBasicBlock', VP, VP), F('LLVMGetNextBasicBlock', VP, VP)
first_in, next_in = F('LLVMGetFirstInstruction', VP, VP), F('LLVMGetNextInstruction', VP, VP)
opcode = F('LLVMGetInstructionOpcode', C.c_int, VP)
typeof = F('LLVMTypeOf', VP, VP)
tkind = F('LLVMGetTypeKind', C.c_int, VP)
iwidth = F('LLVMGetIntTypeWidth', u, VP)
nops, getop = F('LLVMGetNumOperands', C.c_int, VP), F('LLVMGetOperand', VP, VP, u)
vkind = F('LLVMGetValueKind', C.c_int, VP)
called, nargs = F('LLVMGetCalledValue', VP, VP), F('LLVMGetNumArgOperands', u, VP)
normald, unwindd = F('LLVMGetNormalDest', VP, VP), F('LLVMGetUnwindDest', VP, VP)
ipred, fpred = F('LLVMGetICmpPredicate', C.c_int, VP), F('LLVMGetFCmpPredicate', C.c_int, VP)
nsucc, succ = F('LLVMGetNumSuccessors', u, VP), F('LLVMGetSuccessor', VP, VP, u)
iscond, cond = F('LLVMIsConditional', C.c_int, VP), F('LLVMGetCondition', VP, VP)
ninc, incv, incb = F('LLVMCountIncoming', u, VP), F('LLVMGetIncomingValue', VP, VP, u), F('LLVMGetIncomingBlock', VP, VP, u)
nidx, idxs = F('LLVMGetNumIndices', u, VP), F('LLVMGetIndices', C.POINTER(u), VP)
nclause, clause, iscleanup = F('LLVMGetNumClauses', u, VP), F('LLVMGetClause', VP, VP, u), F('LLVMIsCleanup', C.c_int, VP)
alignof = F('LLVMGetAlignment', u, VP)
alloct, gepst = F('LLVMGetAllocatedType', VP, VP), F('LLVMGetGEPSourceElementType', VP, VP)
sizeof, storesize, offsetof = F('LLVMABISizeOfType', C.c_ulonglong, VP, VP), F('LLVMStoreSizeOfType', C.c_ulonglong, VP, VP), \
    F('LLVMOffsetOfElement', C.c_ulonglong, VP, VP, u)
elemt, nelem, structn, arrlen = F('LLVMGetElementType', VP, VP), F('LLVMCountStructElementTypes', u, VP), \
    F('LLVMStructGetTypeAtIndex', VP, VP, u), F('LLVMGetArrayLength2', C.c_uint64, VP)
veclen = F('LLVMGetVectorSize', u, VP)
cint, creal = F('LLVMConstIntGetZExtValue', C.c_ulonglong, VP), F('LLVMConstRealGetDouble', C.c_double, VP, C.POINTER(C.c_int))
aggel = F('LLVMGetAggregateElement', VP, VP, u)
cop = F('LLVMGetConstOpcode', C.c_int, VP)
ginit, gconst = F('LLVMGetInitializer', VP, VP), F('LLVMIsGlobalConstant', C.c_int, VP)
gvt = F('LLVMGlobalGetValueType', VP, VP)
isdecl = F('LLVMIsDeclaration', C.c_int, VP)
tls = F('LLVMIsThreadLocal', C.c_int, VP)
dline, dfile = F('LLVMGetDebugLocLine', u, VP), F('LLVMGetDebugLocFilename', C.POINTER(C.c_char), VP, C.POINTER(u))
ddir = F('LLVMGetDebugLocDirectory', C.POINTER(C.c_char), VP, C.POINTER(u))
nparams, param = F('LLVMCountParams', u, VP), F('LLVMGetParam', VP, VP, u)
attr_at, kind_for = F('LLVMGetEnumAttributeAtIndex', VP, VP, u, u), F('LLVMGetEnumAttributeKindForName', u, C.c_char_p, C.c_size_t)
rett = F('LLVMGetReturnType', VP, VP)
isvolatile = F('LLVMGetVolatile', C.c_int, VP)
hasname = F('LLVMGetBasicBlockName', C.c_char_p, VP)
exactf = F('LLVMGetExact', C.c_int, VP)
rmwop = F('LLVMGetAtomicRMWBinOp', C.c_int, VP)
print_v = F('LLVMPrintValueToString', C.c_void_p, VP)

libcxx = C.CDLL('libstdc++.so.6')
_dem = libcxx.__cxa_demangle
_dem.restype = C.c_void_p
_dem.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
_free = C.CDLL(None).free
_free.argtypes = [C.c_void_p]


def demangle(n):
    st = C.c_int()
    r = _dem(n.encode(), None, None, C.byref(st))
    if not r:
        return n
    s = C.cast(r, C.c_char_p).value.decode()
    _free(r)
    return s.replace('std::__cxx11::', 'std::')


def name_of(v):
    n = C.c_size_t()
    p = vname(v, C.byref(n))
    return C.string_at(p, n.value).decode('utf8', 'replace')


class Ty:
    __slots__ = ('k', 'w', 'elems', 'offs', 'size', 'n', 'ref')

    def __repr__(self):
        return self.k if self.k != 'i' else 'i%d' % self.w


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'ref', 'fn', 'succ')

    def __repr__(self):
        return '%s %s %s' % (self.op, self.a, self.x)


class Block:
    __slots__ = ('ins', 'phis', 'i', 'succs', 'ref', 'pad')


class Undef:
    """undefined value of a type"""
    def __init__(self, ty):
        self.ty = ty

    def __repr__(self):
        return 'undef'


class P:
    """pointer: object id and offset; object 0 is null"""
    __slots__ = ('o', 'off')
    table = {}

    def __new__(cls, o, off=ZERO):
        if isinstance(off, int):
            off = ml(off)
        k = (o, off)
        v = cls.table.get(k)
        if v is None:
            v = object.__new__(cls)
            v.o, v.off = k
            cls.table[k] = v
        return v

    def __repr__(self):
        return 'null' if self.o == 0 and not self.off.t and not self.off.c else '&%s%s' % (self.o, '' if self.off is ZERO else '+' + repr(self.off))


NULL = P(0)


class Agg(tuple):
    pass


class Fn:
    __slots__ = ('name', 'dem', 'ref', 'decl', 'params', 'blocks', 'ret', 'conv', 'nloc', 'loops', 'mod', 'sret', 'file', 'base', 'user', 'addr_ptr', 'ptys', '_short')

    def __repr__(self):
        return self.dem


class Module:
    def __init__(self, path):
        ctx = ctx_create()
        buf, m, err = VP(), VP(), C.c_char_p()
        if membuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError('cannot read ' + path)
        if parse(ctx, buf, C.byref(m)):
            raise RuntimeError('cannot parse ' + path)
        self.m, self.dl = m, dl_of(m)
        self.types = {}
        self.fns, self.byref, self.bydem = {}, {}, {}
        self.globals, self.gref = {}, {}
        self.sret_kind = kind_for(b'sret', 4)
        f = first_fn(m)
        while f:
            x = Fn()
            x.name, x.ref, x.decl, x.conv, x.mod = name_of(f), f, bool(isdecl(f)), False, self
            x.dem = demangle(x.name) if x.name.startswith('_Z') else x.name
            x._short = None
            self.fns[x.name] = x
            self.byref[f] = x
            self.bydem.setdefault(x.dem, []).append(x)
            f = next_fn(f)
        g = first_gl(m)
        while g:
            n = name_of(g) or 'g%x' % g
            self.globals[n] = g
            self.gref[g] = n
            g = next_gl(g)
        self.aliases = {}
        a = first_al(m)
        while a:
            self.aliases[a] = aliasee(a)
            a = next_al(a)

    # ---- types
    def ty(self, r):
        t = self.types.get(r)
        if t:
            return t
        t = Ty()
        k = tkind(r)
        t.ref, t.w, t.elems, t.offs, t.n = r, 0, None, None, 0
        if k == 8:
            t.k, t.w, t.size = 'i', iwidth(r), storesize(self.dl, r)
        elif k == 12:
            t.k, t.size = 'ptr', 8
        elif k in (2, 3, 4):
            t.k, t.size = {2: 'f32', 3: 'f64', 4: 'f80'}[k], sizeof(self.dl, r)
        elif k == 10:
            t.k = 'struct'
            self.types[r] = t
            n = nelem(r)
            t.elems = [self.ty(structn(r, i)) for i in range(n)]
            t.size = sizeof(self.dl, r)
            t.offs = [offsetof(self.dl, r, i) for i in range(n)]
        elif k == 11:
            t.k, t.n = 'arr', arrlen(r)
            t.elems = [self.ty(elemt(r))]
            t.size = sizeof(self.dl, r)
        elif k == 13:
            t.k, t.n = 'vec', veclen(r)
            t.elems = [self.ty(elemt(r))]
            t.size = sizeof(self.dl, r)
        elif k == 0:
            t.k, t.size = 'void', 0
        else:
            t.k, t.size = 'other%d' % k, 0
        self.types[r] = t
        return t

    # ---- constants
    def const(self, v):
        k = vkind(v)
        if k == 18:
            t = self.ty(typeof(v))
            if t.w > 64:
                s = C.cast(print_v(v), C.c_char_p).value.decode()
                return iconst(t.w, int(s.split()[-1]))
            return iconst(t.w, cint(v))
        if k == 20:
            return NULL
        if k == 19:
            t = self.ty(typeof(v))
            return fconst(t.k, creal(v, C.byref(C.c_int())))
        if k == 5:
            return P('f:' + name_of(v))
        if k == 8:
            return P('g:' + self.gref[v])
        if k == 6:
            return self.const(aliasee(v))
        if k in (14, 25):
            return Undef(self.ty(typeof(v)))
        if k == 15:
            return self.zero(self.ty(typeof(v)))
        if k in (11, 12, 13, 16, 17):
            t = self.ty(typeof(v))
            n = len(t.elems) if t.k == 'struct' else t.n
            return Agg(self.const(aggel(v, i)) for i in range(n))
        if k == 10:
            op = OPN[cop(v)]
            if op == 'gep':
                base = self.const(getop(v, 0))
                off = self.gep_parts(v)
                assert not off[1]
                return P(base.o, ml_add(base.off, ml(off[0])))
            if op in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr'):
                x = self.const(getop(v, 0))
                if op == 'ptrtoint':
                    return of_atom(atom('addr', 64, x))
                return x
            if op in ('sub', 'add'):
                f = add if op == 'add' else sub
                return f(self.const(getop(v, 0)), self.const(getop(v, 1)))
            if op == 'trunc':
                return trunc(self.const(getop(v, 0)), self.ty(typeof(v)).w)
            return Undef(self.ty(typeof(v)))
        return Undef(self.ty(typeof(v)))

    def zero(self, t):
        if t.k == 'i':
            return iconst(t.w, 0)
        if t.k == 'ptr':
            return NULL
        if t.k in ('f32', 'f64', 'f80'):
            return fconst(t.k, 0.0)
        n = len(t.elems) if t.k == 'struct' else t.n
        if t.k == 'arr' and n > 4096:
            return Undef(t)
        return Agg(self.zero(t.elems[i] if t.k == 'struct' else t.elems[0]) for i in range(n))

    def gep_parts(self, v):
        """(constant offset, [(operand ref, stride)])"""
        t = self.ty(gepst(v))
        c, var = 0, []
        for i in range(1, nops(v)):
            o = getop(v, i)
            if i == 1:
                stride, nt = t.size if t.k != 'i' else sizeof(self.dl, t.ref), t
            elif t.k == 'struct':
                j = cint(o)
                c += t.offs[j]
                t = t.elems[j]
                continue
            else:
                nt = t.elems[0]
                stride = nt.size
            if vkind(o) == 18:
                x = cint(o)
                w = self.ty(typeof(o)).w
                x = x - (1 << w) if x >> (w - 1) else x
                c += x * stride
            else:
                var.append((o, stride))
            t = nt
        return c, var

    # ---- functions
    def fn(self, f):
        if f.conv or f.decl:
            return f
        f.conv = True
        ref = f.ref
        ids = {}
        f.params = []
        f.ptys = []
        f.sret = []
        for i in range(nparams(ref)):
            p = param(ref, i)
            ids[p] = i
            f.params.append(i)
            f.ptys.append(self.ty(typeof(p)))
            f.sret.append(bool(attr_at(ref, i + 1, self.sret_kind)))
        f.blocks = []
        bid = {}
        b = first_bb(ref)
        raw = []
        n = len(f.params)
        while b:
            bid[b] = len(raw)
            ins = []
            x = first_in(b)
            while x:
                ins.append(x)
                ids[x] = n
                n += 1
                x = next_in(x)
            raw.append(ins)
            b = next_bb(b)
        f.nloc = n

        def opd(v):
            k = vkind(v)
            if k in (24, 0):
                return ids[v]
            if k in (22, 23, 1):
                return None
            return (self.const(v),)
        f.file = None
        for bi, ins in enumerate(raw):
            B = Block()
            B.i, B.ins, B.phis, B.succs = bi, [], [], []
            for x in ins:
                I = Ins()
                I.ref, I.fn, I.x, I.succ = x, f, None, None
                I.op = OPN[opcode(x)]
                I.ty = self.ty(typeof(x))
                I.res = ids[x]
                o = I.op
                if o == 'phi':
                    I.a = {bid[incb(x, i)]: opd(incv(x, i)) for i in range(ninc(x))}
                    B.phis.append(I)
                    continue
                if o in ('call', 'invoke'):
                    c = called(x)
                    na = nargs(x)
                    I.a = [opd(getop(x, i)) for i in range(na)]
                    k = vkind(c)
                    if k == 6:
                        c = aliasee(c)
                        k = vkind(c)
                    if k == 5:
                        I.x = self.byref[c]
                    elif k == 24 and False:
                        pass
                    else:
                        I.x = ('ind', opd(c)) if k in (24, 0, 10, 20, 14) else ('asm',)
                    if o == 'invoke':
                        I.succ = (bid[normald(x)], bid[unwindd(x)])
                elif o == 'br':
                    if iscond(x):
                        I.a = [opd(cond(x))]
                        I.succ = (bid[succ(x, 0)], bid[succ(x, 1)])
                    else:
                        I.a = []
                        I.succ = (bid[succ(x, 0)],)
                elif o == 'switch':
                    I.a = [opd(getop(x, 0))]
                    cs = []
                    for i in range(2, nops(x), 2):
                        cs.append((cint(getop(x, i)), bid[getop(x, i + 1)]))
                    I.x = cs
                    I.succ = (bid[getop(x, 1)],) + tuple(d for _, d in cs)
                elif o == 'gep':
                    c, var = self.gep_parts(x)
                    I.a = [opd(getop(x, 0))]
                    I.x = (c, [(opd(v), s) for v, s in var])
                elif o == 'alloca':
                    t = self.ty(alloct(x))
                    I.a = [opd(getop(x, 0))]
                    I.x = t
                elif o in ('extractvalue', 'insertvalue'):
                    I.a = [opd(getop(x, i)) for i in range(nops(x))]
                    k = nidx(x)
                    p = idxs(x)
                    I.x = [p[i] for i in range(k)]
                elif o == 'landingpad':
                    I.a = []
                    I.x = ([self.const(clause(x, i)) for i in range(nclause(x))], bool(iscleanup(x)))
                else:
                    I.a = [opd(getop(x, i)) for i in range(nops(x))]
                    if o == 'icmp':
                        I.x = IPRED[ipred(x)]
                    elif o == 'fcmp':
                        I.x = fpred(x)
                    elif o in ('sdiv', 'udiv', 'lshr', 'ashr'):
                        I.x = bool(exactf(x))
                    elif o == 'atomicrmw':
                        I.x = rmwop(x)
                    elif o == 'store':
                        I.x = self.ty(typeof(getop(x, 0)))
                B.ins.append(I)
            t = B.ins[-1]
            B.succs = list(dict.fromkeys(t.succ or ()))
            f.blocks.append(B)
        f.loops = None
        f.ret = self.ty(rett(gvt(ref)))
        return f

    def fnloc(self, name):
        f = self.fns.get(name)
        try:
            return self.loc(f)
        except Exception:
            return '?'

    def loc(self, ins):
        if ins is None:
            return '?'
        n = u()
        p = dfile(ins.ref, C.byref(n))
        if not n.value:
            return '?'
        fn = C.string_at(p, n.value).decode()
        if not fn.startswith('/'):
            d = u()
            q = ddir(ins.ref, C.byref(d))
            fn = os.path.normpath(os.path.join(C.string_at(q, d.value).decode(), fn))
        return '%s:%d' % (fn, dline(ins.ref))


def find_loops(f):
    """natural loops: header -> frozenset of blocks"""
    if f.loops is not None:
        return f.loops
    n = len(f.blocks)
    preds = [[] for _ in range(n)]
    for b in f.blocks:
        for s in b.succs:
            preds[s].append(b.i)
    # dominators
    order, seen = [], set()
    st = [(0, iter(f.blocks[0].succs))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succs)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    idx = {b: i for i, b in enumerate(order)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [p for p in preds[b] if p in idom]
            d = ps[0]
            for p in ps[1:]:
                x, y = d, p
                while x != y:
                    while idx[x] > idx[y]:
                        x = idom[x]
                    while idx[y] > idx[x]:
                        y = idom[y]
                d = x
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dom(a, b):
        while b != a:
            if b == 0:
                return False
            b = idom[b]
        return True
    loops = {}
    for b in order:
        for s in f.blocks[b].succs:
            if s in idom and dom(s, b):
                body = {s, b}
                w = [b]
                while w:
                    x = w.pop()
                    if x == s:
                        continue
                    for p in preds[x]:
                        if p not in body and p in idom:
                            body.add(p)
                            w.append(p)
                loops[s] = frozenset(loops.get(s, frozenset()) | body)
    f.loops = loops
    return loops
