"""Abstract interpreter over LLVM IR.

A state is a conjunction of facts of several abstract domains (value numbering, finite value sets, bit provenance,
linear inequalities, orderings, nullness, object lifetime) over a partition of the program's behaviours. Branches that
no fact decides partition the state; loops whose exit is not decided are generalised (affine recurrences, monotone
bounds, havoc) until the generalised state is inductive. Nothing of the analysed program is executed and no solver is
consulted."""
import os, re
from dom import *
import llvmc
from llvmc import P, NULL, Agg, Undef, find_loops

UNK = 'unknown'
DEBUG = int(os.environ.get("VERIF_DEBUG", "0") or 0)


class Stop(Exception):
    """the path ends here with this outcome"""
    def __init__(self, kind, *info):
        self.out = (kind,) + info


class Obj:
    __slots__ = ('id', 'kind', 'size', 'cells', 'base', 'alive', 'own', 'info')

    def clone(self, own):
        o = Obj()
        o.id, o.kind, o.size, o.cells, o.base, o.alive, o.own, o.info = \
            self.id, self.kind, self.size, dict(self.cells), self.base, self.alive, own, self.info
        return o


def new_obj(id, kind, size, base, own, info=None):
    o = Obj()
    o.id, o.kind, o.size, o.cells, o.base, o.alive, o.own, o.info = id, kind, size, {}, base, True, own, info
    return o


class Frame:
    __slots__ = ('fn', 'b', 'pc', 'loc', 'prev', 'allocas', 'loops', 'exc', 'cont', 'call')

    def copy(self):
        f = Frame()
        f.fn, f.b, f.pc, f.loc, f.prev, f.allocas, f.loops, f.exc, f.cont, f.call = \
            self.fn, self.b, self.pc, list(self.loc), self.prev, list(self.allocas), self.loops, self.exc, self.cont, self.call
        return f


class SV:
    """content of a std::string object: data object and length; term is None when the data object is authoritative"""
    __slots__ = ('did', 'n', 'term')

    def __init__(self, did, n, term):
        self.did, self.n, self.term = did, n, term

    def __eq__(self, o):
        return isinstance(o, SV) and (self.did, self.n, self.term) == (o.did, o.n, o.term)

    def __hash__(self):
        return hash((self.did, self.n, self.term))

    def __repr__(self):
        return 'SV(%s,%s,%s)' % (self.did, self.n, self.term)


_COMP = {}


def compose(p, q):
    r = _COMP.get((p, q))
    if r is None:
        r = set()
        for x in p:
            for y in q:
                if x == 'un' or y == 'un':
                    r.update(('lt', 'eq', 'gt', 'un') if x == y else ('un',))
                elif x == 'eq':
                    r.add(y)
                elif y == 'eq' or x == y:
                    r.add(x)
                else:
                    r.update(('lt', 'eq', 'gt'))
        r = _COMP[(p, q)] = frozenset(r)
    return r


class LoopCtx:
    __slots__ = ('h', 'body', 'n', 'snap', 'und', 'gen')

    def __init__(self, h, body, n, snap, und, gen):
        self.h, self.body, self.n, self.snap, self.und, self.gen = h, body, n, snap, und, gen


class State:
    __slots__ = ('objs', 'frames', 'lin', 'bools', 'ford', 'frng', 'ev', 'tok', 'caught', 'stop', 'base', 'memo', 'note', 'parts')

    def fork(self):
        s = State()
        s.objs = dict(self.objs)
        s.frames = [f.copy() if f is not None else None for f in self.frames]
        s.lin, s.bools, s.ford, s.frng, s.ev, s.base = self.lin, self.bools, self.ford, self.frng, self.ev, self.base
        s.caught = list(self.caught)
        s.stop = self.stop
        s.memo = dict(self.memo)
        s.note = self.note
        s.parts = self.parts
        s.tok = object()
        self.tok = object()
        return s

    def event(self, *e):
        self.ev = (e, self.ev)

    def events(self, since=None):
        r = []
        x = self.ev
        while x is not since and x is not None:
            r.append(x[0])
            x = x[1]
        r.reverse()
        return r

    def obj(self, id):
        o = self.objs.get(id)
        if o is None:
            o = self.base.get(id)
        return o

    def wobj(self, id):
        o = self.objs.get(id)
        if o is None:
            o = self.base.get(id)
            if o is None:
                return None
            o = o.clone(self.tok)
            self.objs[id] = o
        elif o.own is not self.tok:
            o = o.clone(self.tok)
            self.objs[id] = o
        return o


def fnext(ty, v, d):
    """the neighbour of v in the format towards d"""
    if abs(v) == math.inf or ty not in ('f32', 'f64'):
        return v
    if ty == 'f64':
        return math.nextafter(v, d)
    if f32r(v) != v:
        return v
    if v == 0:
        return math.copysign(2.0 ** -149, d)
    b = struct.unpack('<i', struct.pack('<f', v))[0]
    b += 1 if (d > v) == (v > 0) else -1
    return struct.unpack('<f', struct.pack('<i', b))[0]


class Engine:
    def __init__(self, mod):
        self.m = mod
        self.models = {}
        self.hooks = {}          # demangled short name -> handler (contracts)
        self.nid = 0
        self.steps = 0
        self.max_steps = 8000000
        self.deadline = None
        self.peel = 2
        self.peel_fn = {}
        self.cap = 4000
        self.summaries = []
        self.unknown = {}
        self.loop_policy = None
        self.base_objs = {}
        self.gcache = {}
        self.on_load = None
        self.on_throw = None
        self.on_store = None
        self.covered = set()
        self.paths = 0
        self.genfail = []
        self.tids = {}
        self.op = {}
        for n in dir(self):
            if n.startswith('i_'):
                self.op[n[2:]] = getattr(self, n)
        import models
        models.install(self)

    # -------------------------------------------------------------- states and objects
    def new_state(self):
        s = State()
        s.objs, s.frames, s.lin, s.bools, s.ford, s.frng, s.ev, s.tok, s.caught, s.stop, s.base, s.memo, s.note, s.parts = \
            {}, [], Lin(), {}, {}, {}, None, object(), [], None, self.base_objs, {}, None, 0
        return s

    def fresh_id(self, p):
        self.nid += 1
        return '%s%d' % (p, self.nid)

    def alloc(self, st, kind, size, base='undef', info=None, name=None):
        id = name or self.fresh_id('o')
        if isinstance(size, int):
            size = ml(size)
        st.objs[id] = new_obj(id, kind, size, base, st.tok, info)
        return id

    # -------------------------------------------------------------- globals
    def global_obj(self, st, id):
        o = st.obj(id)
        if o is not None:
            return o
        n = id[2:]
        g = self.m.globals.get(n)
        if g is None:
            raise Stop('undecided', 'unknown object ' + id)
        t = self.m.ty(llvmc.gvt(g))
        const = bool(llvmc.gconst(g))
        o = new_obj(id, 'const' if const else 'global', ml(t.size), 'undef', st.tok, None)
        if llvmc.isdecl(g):
            o.base = 'ext'
            o.size = None
        else:
            c = self.gcache.get(id)
            if c is None:
                c = {}
                v = self.m.const(llvmc.ginit(g))
                self.flatten(c, 0, v, t)
                self.gcache[id] = c
            o.cells = dict(c)
        st.objs[id] = o
        return o

    def flatten(self, cells, off, v, t):
        if isinstance(v, Agg):
            if t.k == 'struct':
                for i, x in enumerate(v):
                    self.flatten(cells, off + t.offs[i], x, t.elems[i])
            else:
                sz = t.elems[0].size
                for i, x in enumerate(v):
                    self.flatten(cells, off + i * sz, x, t.elems[0])
        elif not isinstance(v, Undef):
            cells[ml(off)] = (t.size, v)

    # -------------------------------------------------------------- mathematical view of integers
    def math(self, st, x, signed=True):
        w = x.w
        if not x.t:
            return ml(sconst(x) if signed else x.c)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        half = 1 << (w - 1)
        c = x.c - (1 << w) if x.c >> (w - 1) and w > 1 else x.c
        e = ml(c)
        for a, k in x.t:
            k = k - (1 << w) if k & half and w > 1 else k
            e = ml_add(e, self.amath(st, a), k)
        return self.fit(st, e, lo, hi, w, x, signed)

    def fit(self, st, e, lo, hi, w, x, signed):
        l, h = st.lin.interval(e)
        if l >= lo and h <= hi:
            return e
        W = 1 << w
        if st.lin.entails_ge0(ml_add(e, ml(-lo))) and st.lin.entails_ge0(ml_sub(ml(hi), e)):
            return e
        q0, q1 = -((hi - l) // W), (h - lo) // W
        if q1 - q0 > 3:
            a = atom('mval', w, x, signed, lo=lo, hi=hi)
            return ml_var(a)
        alts = []
        for q in range(q0, q1 + 1):
            f = ml(e.c - q * W, e.t)
            if q != 0 and st.lin.entails_ge0(ml_add(f, ml(-lo))) and st.lin.entails_ge0(ml_sub(ml(hi), f)):
                return f

            def alt(s, f=f):
                self.lin_ge0(s, ml_add(f, ml(-lo)))
                self.lin_ge0(s, ml_sub(ml(hi), f))
            alts.append(alt)
        raise Split(alts, 'wrap')

    def amath(self, st, a):
        k = a.kind
        if k == 'zext':
            return self.math(st, a.args[0], False)
        if k == 'sext':
            return self.math(st, a.args[0], True)
        if k == 'trunc':
            e = self.math(st, a.args[0], True)
            lo, hi = (-(1 << (a.w - 1)), (1 << (a.w - 1)) - 1) if a.signed else (0, (1 << a.w) - 1)
            l, h = st.lin.interval(e)
            if l >= lo and h <= hi:
                return e
            return self.fit(st, e, lo, hi, a.w, of_atom(a), a.signed)
        if k in ('lshr', 'udiv', 'sdiv', 'ashr') and is_const(a.args[1]) and a not in st.memo:
            x, d = a.args
            d = 1 << d.c if k in ('lshr', 'ashr') else sconst(d) if k == 'sdiv' else d.c
            if 1 < d < 1 << 32:
                e = self.math(st, x, k in ('sdiv', 'ashr'))
                st.memo[a] = True
                v = ml_scale(ml_var(a), d)
                if k == 'sdiv':
                    if not st.lin.entails_ge0(e):
                        return ml_var(a)
                self.lin_ge0(st, ml_sub(e, v))
                self.lin_ge0(st, ml_add(ml_sub(v, e), ml(d - 1)))
        elif k == 'bits' and a not in st.memo and isinstance(a.args[0][0], tuple):
            # the high bits of one atom: a quotient by a power of two
            st.memo[a] = True
            b = a.args[0]
            x, n = b[0]
            if 0 < n < 32 and x.w <= a.w + n and all(b[i] == ((x, i + n) if i + n < x.w else 0) for i in range(a.w)):
                e = self.math(st, of_atom(x) if x.kind != 'term' else x.args[0], False)
                v = ml_scale(ml_var(a), 1 << n)
                self.lin_ge0(st, ml_sub(e, v))
                self.lin_ge0(st, ml_add(ml_sub(v, e), ml((1 << n) - 1)))
        elif k in ('urem', 'and') and is_const(a.args[1]) and a not in st.memo:
            st.memo[a] = True
            m = a.args[1].c - (1 if k == 'urem' else 0)
            if m < 1 << (a.w - 1):
                self.lin_ge0(st, ml_sub(ml(m), ml_var(a)))
                self.lin_ge0(st, ml_var(a))
        return ml_var(a)

    def lin_ge0(self, st, e):
        r = st.lin.add_ge0(e)
        if r is None:
            raise Infeasible()
        st.lin = r

    def lin_eq0(self, st, e):
        r = st.lin.add_eq0(e)
        if r is None:
            raise Infeasible()
        st.lin = r

    def lin_ne0(self, st, e):
        r = st.lin.add_ne0(e)
        if r is None:
            raise Infeasible()
        st.lin = r

    # -------------------------------------------------------------- conditions
    def small(self, st, x):
        """the finite domain of the base symbols of a term, or None"""
        ss = syms(x)
        if not ss:
            return None
        n = 1
        for a in ss:
            s = st.lin.sets.get(a)
            if s is None:
                if a.kind == 'sym' and a.w <= 8 or a.hi - a.lo < 256 and a.kind == 'sym':
                    n *= a.hi - a.lo + 1
                else:
                    return None
            else:
                n *= len(s)
        return ss if n <= 4096 else None

    def dom(self, st, a):
        s = st.lin.sets.get(a)
        return s if s is not None else range(a.lo, a.hi + 1)

    def values(self, st, x):
        """frozenset of the values a term over finite symbols can take, or None"""
        if is_const(x):
            return frozenset((x.c,))
        ss = self.small(st, x)
        if ss is None:
            return None
        ss = list(ss)
        out = set()

        def rec(i, env):
            if i == len(ss):
                out.add(ev(x, env))
                return
            for v in self.dom(st, ss[i]):
                env[ss[i]] = v
                rec(i + 1, env)
        rec(0, {})
        return frozenset(out)

    def decide(self, st, c):
        if isinstance(c, Undef):
            raise Stop('ub', 'branch on an uninitialised value')
        if not c.t:
            return bool(c.c)
        if len(c.t) > 1:
            # exclusive or of several atoms: decide or split one after the other
            vs = self.values(st, c)
            if vs is not None and len(vs) == 1:
                return bool(next(iter(vs)))
            r = c.c
            for a, _ in c.t:
                v = self.decide_atom(st, a)
                if v is None:
                    raise Split([lambda s, a=a: self.assume_atom(s, a, True), lambda s, a=a: self.assume_atom(s, a, False)], 'xor')
                r ^= v
            return bool(r)
        v = self.decide_atom(st, c.t[0][0])
        return None if v is None else bool(v) ^ bool(c.c)

    def decide_atom(self, st, a):
        v = st.bools.get(a)
        if v is not None:
            return v
        k = a.kind
        if k == 'mcmp':
            op, e = a.args
            if op == 'ge':
                if st.lin.entails_ge0(e):
                    return True
                if st.lin.entails_ge0(ml(-e.c - 1, tuple((x, -y) for x, y in e.t))):
                    return False
                return None
            return self.dec_eq(st, e)
        if k == 'fcmp':
            return self.dec_rel(st, a.args[0], self.frel(st, a.args[1], a.args[2]))
        if k == 'scmp':
            return self.dec_rel(st, a.args[0], self.order(st, a.args[1], a.args[2], frozenset(('lt', 'eq', 'gt'))))
        vs = self.values(st, of_atom(a))
        if vs is not None:
            if len(vs) == 1:
                return bool(next(iter(vs)))
            return None
        if k == 'icmp':
            p, x, y = a.args
            if p == 'eq':
                r = self.dec_eq(st, ml_sub(self.math(st, x), self.math(st, y)))
                return r
            sg = p == 'slt'
            e = ml_sub(self.math(st, y, sg), self.math(st, x, sg))    # x < y  <=>  y - x - 1 >= 0
            if st.lin.entails_ge0(ml(e.c - 1, e.t)):
                return True
            if st.lin.entails_ge0(ml(-e.c, tuple((u, -v) for u, v in e.t))):
                return False
            return None
        if k == 'and' and a.w == 1 or k == 'or' and a.w == 1:
            x, y = self.decide(st, a.args[0]), self.decide(st, a.args[1])
            if k == 'and':
                return False if x is False or y is False else True if x and y else None
            return True if x or y else False if x is False and y is False else None
        if k == 'trunc' and a.w == 1:
            vs = self.values(st, a.args[0])
            if vs is not None and len({v & 1 for v in vs}) == 1:
                return bool(next(iter(vs)) & 1)
            return None
        return None

    def dec_eq(self, st, e):
        if not e.t:
            return e.c == 0
        lo, hi = st.lin.interval(e)
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        pos = st.lin.feasible_with(ml(e.c - 1, e.t))
        neg = st.lin.feasible_with(ml(-e.c - 1, tuple((x, -y) for x, y in e.t)))
        if not pos and not neg:
            return True
        z = st.lin.add_eq0(e)
        if z is None:
            return False
        for n in st.lin.neq:
            if n is e or ml_scale(n, -1) is e:
                return False
        return None

    def dec_rel(self, st, rel, cur):
        if cur <= rel:
            return True
        if not (cur & rel):
            return False
        return None

    def order(self, st, a, b, full):
        """the relation of two floating point terms or texts that follows from all order facts of the path"""
        cur = st.ford.get((a, b), full)
        if len(cur) == 1 or not st.ford or len(st.ford) > 24:
            return cur
        m = st.memo.get('order')
        if m is None or m[0] is not st.ford:
            m = (st.ford, {})
            st.memo['order'] = m
        r = m[1].get((a, b))
        if r is None:
            r = m[1][(a, b)] = self.order_closure(st, a, b, cur)
        if not r:
            raise Infeasible()
        return r

    def order_closure(self, st, a, b, cur):
        ty = type(a)
        nodes = {a, b}
        grow = True
        facts = [(x, y, r) for (x, y), r in st.ford.items() if type(x) is ty]
        while grow:
            grow = False
            for x, y, r in facts:
                if (x in nodes) != (y in nodes):
                    nodes.update((x, y))
                    grow = True
        if len(nodes) < 3 or len(nodes) > 9:
            return cur
        nodes = sorted(nodes, key=lambda n: n.id)
        k = {n: i for i, n in enumerate(nodes)}
        full = frozenset(('lt', 'eq', 'gt', 'un')) if ty is Fl else frozenset(('lt', 'eq', 'gt'))
        N = len(nodes)
        R = [[full] * N for _ in range(N)]
        for i in range(N):
            for j in range(i + 1, N):
                x, y = nodes[i], nodes[j]
                if x.op == y.op and x.op in ('const', 'lit'):
                    u, v = x.args[0], y.args[0]
                    r = frozenset(('un' if u != u or v != v else 'lt' if u < v else 'gt' if u > v else 'eq',))
                    R[i][j], R[j][i] = r, frozenset(FSW[q] for q in r)
        for x, y, r in facts:
            if x in k and y in k and x is not y:
                i, j = k[x], k[y]
                R[i][j] = R[i][j] & r
                R[j][i] = frozenset(FSW[q] for q in R[i][j])
        change = True
        while change:
            change = False
            for i in range(N):
                for j in range(N):
                    if i == j:
                        continue
                    for l in range(N):
                        if l == i or l == j:
                            continue
                        c = compose(R[i][l], R[l][j]) & R[i][j]
                        if c != R[i][j]:
                            if not c:
                                return c
                            R[i][j] = c
                            R[j][i] = frozenset(FSW[q] for q in c)
                            change = True
        return cur & R[k[a]][k[b]] if a is not b else cur

    def frel(self, st, a, b):
        full = frozenset(('lt', 'eq', 'gt', 'un')) if a is not b else frozenset(('eq', 'un'))
        cur = self.order(st, a, b, full) if a is not b else st.ford.get((a, b), full)
        ia, ib = self.fint(st, a), self.fint(st, b)
        out = set(cur)
        if not ia[2] and not ib[2]:
            out.discard('un')
        if ia[0] > ia[1] or ib[0] > ib[1]:
            out &= {'un'}
        else:
            if ia[0] > ib[1]:
                out -= {'lt', 'eq'}
            elif ia[0] >= ib[1]:
                out -= {'lt'}
            if ia[1] < ib[0]:
                out -= {'gt', 'eq'}
            elif ia[1] <= ib[0]:
                out -= {'gt'}
        return frozenset(out)

    def fint(self, st, a):
        """(lo, hi, maybe nan) of a floating point term"""
        if a.op == 'const':
            v = a.args[0]
            return (math.inf, -math.inf, True) if v != v else (v, v, False)
        r = st.frng.get(a)
        if r is not None and a.op == 'fpext':
            i = self.fint(st, a.args[0])
            r = (max(r[0], i[0]), min(r[1], i[1]), r[2] and i[2])
        if r is None:
            r = (-math.inf, math.inf, True)
            if a.op in ('sitofp', 'uitofp'):
                w = a.args[0].w
                vs = self.values(st, a.args[0])
                if vs is not None:
                    sg = [v - (1 << w) if v >> (w - 1) and a.op == 'sitofp' else v for v in vs]
                    r = (float(min(sg)), float(max(sg)), False)
                else:
                    r = (-float(1 << (w - 1)), float((1 << (w - 1))), False) if a.op == 'sitofp' else (0.0, float(1 << w), False)
            elif a.op == 'fabs':
                i = self.fint(st, a.args[0])
                lo = 0.0 if i[0] <= 0 <= i[1] else min(abs(i[0]), abs(i[1]))
                r = (lo, max(abs(i[0]), abs(i[1])), i[2]) if i[0] <= i[1] else (math.inf, -math.inf, i[2])
            elif a.op in ('fpext',):
                r = self.fint(st, a.args[0])
            elif a.op in ('fsub', 'fadd'):
                i, j = self.fint(st, a.args[0]), self.fint(st, a.args[1])
                if a.op == 'fsub':
                    j = (-j[1], -j[0], j[2])
                if i[0] > i[1] or j[0] > j[1]:
                    r = (math.inf, -math.inf, True)
                else:
                    f = lambda p, q, d: d if math.isnan(p + q) else p + q
                    lo, hi = f(i[0], j[0], -math.inf), f(i[1], j[1], math.inf)
                    # rounding of the sum and of the bounds is monotone; widen by one step for the narrower format
                    nan = i[2] or j[2] or math.inf in (abs(i[0]), abs(i[1])) and math.inf in (abs(j[0]), abs(j[1]))
                    r = (math.nextafter(lo, -math.inf) * (1 + 1e-6 if lo < 0 else 1 - 1e-6), math.nextafter(hi, math.inf) * (1 + 1e-6 if hi > 0 else 1 - 1e-6), nan)
                    q = self.round_diff(st, a) if a.op == 'fsub' else None
                    if q is not None:
                        r = (max(r[0], q[0]), min(r[1], q[1]), False)
            elif a.op == 'fneg':
                i = self.fint(st, a.args[0])
                r = (-i[1], -i[0], i[2])
        return r

    def round_diff(self, st, a):
        """bounds of (number rounded to an integer of some width) - (the number)"""
        for x, y, sg in ((a.args[0], a.args[1], 1), (a.args[1], a.args[0], -1)):
            if x.op != 'sitofp':
                continue
            b = single(x.args[0])
            w = x.args[0].w
            if b is not None and b.kind == 'trunc':
                b = single(b.args[0])
            z = y.args[0] if y.op == 'fpext' else y
            if b is None or b.kind != 'lround' or b.args[0] is not z:
                continue
            lo, hi, nan = self.fint(st, z)
            if nan or lo > hi:
                continue
            r = round_away
            if lo < -2.0 ** 63 or hi >= 2.0 ** 63:
                continue
            l, h = r(lo), r(hi)
            M = 1 << (w - 1)
            if -M <= l and h < M:
                return (-0.5, 0.5)
            if l >= M or h < -M:
                v = (-math.inf, -float(M)) if l >= M else (float(M), math.inf)
                return v if sg > 0 else (-v[1], -v[0])
        return None

    def branch(self, st, c):
        """decide a condition, or partition on it"""
        v = self.decide(st, c)
        if v is None:
            raise Split([lambda s: self.assume(s, c, True), lambda s: self.assume(s, c, False)], 'branch')
        return v

    def assume(self, st, c, truth):
        if not c.t:
            if bool(c.c) != truth:
                raise Infeasible()
            return
        if len(c.t) > 1:
            v = self.decide(st, c)
            if v is None or v != truth:
                raise Infeasible()
            return
        self.assume_atom(st, c.t[0][0], truth ^ bool(c.c))

    def assume_atom(self, st, a, truth):
        k = a.kind
        st.bools = dict(st.bools)
        st.bools[a] = truth
        if k == 'mcmp':
            op, e = a.args
            if op == 'ge':
                self.lin_ge0(st, e if truth else ml(-e.c - 1, tuple((x, -y) for x, y in e.t)))
            elif truth:
                self.lin_eq0(st, e)
            else:
                self.lin_ne0(st, e)
            return
        if k in ('fcmp', 'scmp'):
            rel, x, y = a.args
            full = frozenset(('lt', 'eq', 'gt', 'un')) if k == 'fcmp' else frozenset(('lt', 'eq', 'gt'))
            cur = self.frel(st, x, y) if k == 'fcmp' else self.order(st, x, y, full)
            cur = cur & rel if truth else cur - rel
            if not cur:
                raise Infeasible()
            st.ford = dict(st.ford)
            st.ford[(x, y)] = cur
            if k == 'fcmp':
                self.refine_f(st, x, y, cur)
                self.refine_f(st, y, x, frozenset(FSW[r] for r in cur))
            return
        ss = self.small(st, of_atom(a))
        if ss is not None and len(ss) == 1:
            s = next(iter(ss))
            keep = frozenset(v for v in self.dom(st, s) if bool(eva(a, {s: v})) == truth)
            r = st.lin.with_set(s, keep)
            if r is None:
                raise Infeasible()
            st.lin = r
            return
        if k == 'icmp':
            p, x, y = a.args
            if p == 'eq':
                e = ml_sub(self.math(st, x), self.math(st, y))
                if truth:
                    self.lin_eq0(st, e)
                else:
                    self.lin_ne0(st, e)
                return
            sg = p == 'slt'
            e = ml_sub(self.math(st, y, sg), self.math(st, x, sg))
            self.lin_ge0(st, ml(e.c - 1, e.t) if truth else ml(-e.c, tuple((u, -v) for u, v in e.t)))
        elif k == 'isnull':
            pass
        elif k in ('and', 'or') and a.w == 1:
            if (k == 'and') == truth:
                self.assume(st, a.args[0], truth)
                self.assume(st, a.args[1], truth)
            else:
                for i in (0, 1):
                    if self.decide(st, a.args[i]) is (not truth):
                        self.assume(st, a.args[1 - i], truth)

    def refine_f(self, st, x, y, cur):
        """narrow the interval of x from its relation to y"""
        if x.op == 'const':
            return
        lo, hi, nan = self.fint(st, x)
        l2, h2, n2 = self.fint(st, y)
        if 'un' not in cur:
            nan = False
            if 'gt' not in cur:
                hi = min(hi, h2 if 'eq' in cur else fnext(x.ty, h2, -math.inf))
            if 'lt' not in cur:
                lo = max(lo, l2 if 'eq' in cur else fnext(x.ty, l2, math.inf))
        elif cur == {'un'} and not n2:
            lo, hi = math.inf, -math.inf
        if lo > hi and not nan:
            raise Infeasible()
        st.frng = dict(st.frng)
        st.frng[x] = (lo, hi, nan)
        if x.op == 'fpext':
            i = self.fint(st, x.args[0])
            st.frng[x.args[0]] = (max(lo, i[0]), min(hi, i[1]), nan and i[2])

    # -------------------------------------------------------------- memory
    def check_access(self, st, p, n, what):
        if not isinstance(p, P):
            if isinstance(p, Undef):
                raise Stop('ub', '%s through an uninitialised pointer' % what)
            raise Stop('undecided', '%s through a computed address %r' % (what, p))
        if p.o == 0:
            raise Stop('ub', '%s through a null pointer' % what)
        o = st.obj(p.o)
        if o is None:
            if isinstance(p.o, str) and p.o.startswith('g:'):
                o = self.global_obj(st, p.o)
            elif isinstance(p.o, str) and p.o.startswith('f:'):
                raise Stop('ub', '%s of a function' % what)
            else:
                raise Stop('ub', '%s of an object whose lifetime has ended' % what)
        if not o.alive:
            raise Stop('ub', '%s of released memory (%s)' % (what, o.info or o.kind))
        if o.base == 'maybe':
            self.need_nonnull(st, p)
        if o.size is not None:
            e = p.off
            if not e.t and not o.size.t:
                if e.c < 0 or e.c + n > o.size.c:
                    raise Stop('ub', '%s out of bounds (offset %d, size %d) of %s' % (what, e.c, o.size.c, self.oname(o)), 'oob', p, n, o.id)
            else:
                if not st.lin.entails_ge0(e) or not st.lin.entails_ge0(ml_sub(ml_add(o.size, ml(-n)), e)):
                    where = None if o.size.t else self.split_offsets(st, e, n, o.size.c)
                    if where == 'in':
                        return o
                    if where == 'out':
                        raise Stop('ub', '%s out of bounds (offset %s, size %d) of %s' % (what, e, o.size.c, self.oname(o)), 'oob', p, n, o.id)
                    raise Stop('oob', '%s possibly out of bounds: offset %s, %d bytes, size %s of %s' % (what, e, n, o.size, self.oname(o)), p, n, o.id)
        return o

    def offsets(self, st, e):
        """offset -> values of the only finite symbol it depends on: (symbol, {offset: set of values}), or None"""
        if not e.t:
            return None
        ss = frozenset()
        for a, _ in e.t:
            if a.kind == 'mval':
                return None
            ss |= asyms(a)
        if len(ss) != 1:
            return None
        y = next(iter(ss))
        d = st.lin.sets.get(y)
        if d is None:
            if not (y.kind == 'sym' and (y.w <= 8 or y.hi - y.lo < 256)):
                return None
            d = range(y.lo, y.hi + 1)
        if len(d) > 512:
            return None
        out = {}
        for v in d:
            r = e.c
            for a, k in e.t:
                m = eva(a, {y: v})
                if (a.signed or a.lo < 0) and a.w > 1 and m >> (a.w - 1):
                    m -= 1 << a.w
                r += k * m
            out.setdefault(r, set()).add(v)
        return y, out

    def restrict(self, st, y, vals):
        r = st.lin.with_set(y, frozenset(vals))
        if r is None:
            raise Infeasible()
        st.lin = r

    def split_offsets(self, st, e, n=None, size=None):
        """partition by the values of a finite offset: in range and out of range, or one case per offset (n is None)"""
        r = self.offsets(st, e)
        if r is None:
            return None
        y, d = r
        if n is None:
            if len(d) == 1:
                return next(iter(d))
            raise Split([lambda s, v=v: self.restrict(s, y, v) for v in d.values()], 'offset')
        good = set().union(*[v for o, v in d.items() if 0 <= o and o + n <= size] or [set()])
        bad = set().union(*[v for o, v in d.items() if not (0 <= o and o + n <= size)] or [set()])
        if good and bad:
            raise Split([lambda s: self.restrict(s, y, good), lambda s: self.restrict(s, y, bad)], 'range')
        return 'in' if good else 'out'

    def oname(self, o):
        return '%s %s' % (o.kind, o.info or o.id)

    def need_nonnull(self, st, p):
        a = atom('isnull', 1, p.o)
        v = st.bools.get(a)
        if v is False:
            return
        if v is True:
            raise Stop('ub', 'access through a null pointer')
        raise Split([lambda s: self.assume_atom(s, a, True), lambda s: self.assume_atom(s, a, False)], 'null')

    def find(self, st, o, off, n):
        """exact cell, or None when no cell overlaps, or list of overlapping cells"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c
        if not o.cells:
            return None
        if off.t:
            v = self.split_offsets(st, off)
            if v is not None:
                off = ml(v)
                c = o.cells.get(off)
                if c is not None and c[0] == n:
                    return c
        over = []
        for k, c in o.cells.items():
            d = ml_sub(off, k)
            if not d.t:
                if d.c < c[0] and d.c + n > 0:
                    over.append((k, c))
                continue
            lo, hi = st.lin.interval(d)
            if lo >= c[0] or hi <= -n:
                continue
            if st.lin.entails_ge0(ml_add(d, ml(-c[0]))) or st.lin.entails_ge0(ml_sub(ml(-n), d)):
                continue
            eq = self.dec_eq(st, d)
            if eq is True:
                if c[0] == n:
                    return c
                over.append((k, c))
                continue
            alts = []
            if eq is None:
                alts.append(lambda s, d=d: self.lin_eq0(s, d))
            alts.append(lambda s, d=d, c=c: self.lin_ge0(s, ml_add(d, ml(-c[0]))))
            alts.append(lambda s, d=d: self.lin_ge0(s, ml_sub(ml(-n), d)))
            for i in list(range(1, c[0])) + list(range(-n + 1, 0)):
                if st.lin.feasible_with(ml_add(d, ml(-i))) and st.lin.feasible_with(ml_sub(ml(i), d)) and (n > 1 or c[0] > 1) and eq is not None:
                    alts.append(lambda s, d=d, i=i: self.lin_eq0(s, ml_add(d, ml(-i))))
            raise Split(alts, 'alias')
        return over or None

    def load(self, st, p, t, what='read'):
        if t.k in ('struct', 'arr'):
            n = len(t.elems) if t.k == 'struct' else t.n
            return Agg(self.load(st, P(p.o, ml_add(p.off, ml(t.offs[i] if t.k == 'struct' else i * t.elems[0].size))),
                                 t.elems[i] if t.k == 'struct' else t.elems[0], what) for i in range(n))
        n = t.size
        o = self.check_access(st, p, n, what)
        if self.on_load:
            self.on_load(st, p, n, o)
        if p.off.t and t.k == 'i' and o.cells:
            v = self.lookup(st, o, p.off, t)
            if v is not None:
                return v
        c = self.find(st, o, p.off, n) if o.cells else None
        if c is None:
            return self.lazy(st, o, p, t)
        if isinstance(c, tuple):
            return self.conv(st, c[1], t)
        # assemble from overlapping cells
        if len(c) == 1:
            k, (cn, v) = c[0]
            d = ml_sub(p.off, k)
            if not d.t and d.c >= 0 and d.c + n <= cn:
                x = self.as_int(st, v, cn)
                if x is not None and t.k == 'i':
                    return self.conv(st, trunc(shift('lshr', x, iconst(x.w, 8 * d.c)), 8 * n), t)
                if x is not None:
                    return self.conv(st, trunc(shift('lshr', x, iconst(x.w, 8 * d.c)), 8 * n), t)
        # all byte pieces known?
        acc = None
        pos = {}
        for k, (cn, v) in c:
            d = ml_sub(k, p.off)
            if d.t:
                raise Stop('undecided', 'overlapping symbolic accesses')
            x = self.as_int(st, v, cn)
            if x is None:
                raise Stop('undecided', 'partial access to a pointer or abstract value')
            for i in range(cn):
                if 0 <= d.c + i < n:
                    pos[d.c + i] = trunc(shift('lshr', x, iconst(x.w, 8 * i)), 8) if cn > 1 else x
        bt = self.byte_ty
        for i in range(n):
            if i not in pos:
                b = self.lazy(st, o, P(p.o, ml_add(p.off, ml(i))), bt)
                if isinstance(b, Undef):
                    # partially initialised: padding of an object that is copied as a whole
                    b = isym(fresh('u:pad'), 8)
                pos[i] = b
        acc = iconst(8 * n, 0)
        for i in range(n):
            acc = add(acc, shift('shl', zext(pos[i], 8 * n), iconst(8 * n, 8 * i)))
        return self.conv(st, acc, t)

    def lookup(self, st, o, off, t):
        """an integer read from a table of constants at an offset that is a function of one small symbol, as one term"""
        r = self.offsets(st, off)
        if r is None:
            return None
        y, d = r
        out = []
        for k, vs in d.items():
            c = o.cells.get(ml(k))
            if c is None or c[0] != t.size or not isinstance(c[1], Int) or c[1].t or c[1].w != t.w:
                return None
            m = MASK(y.w)
            out += [(v & m, c[1].c) for v in vs]
        vals = {v for _, v in out}
        if len(vals) == 1:
            return iconst(t.w, vals.pop())
        a = atom('table', t.w, of_atom(y), tuple(sorted(out)))
        if not a.signed:
            a.lo, a.hi = min(vals), max(vals)
        return of_atom(a)

    class _B:
        k, w, size, elems, offs, n = 'i', 8, 1, None, None, 0
    byte_ty = _B()

    def as_int(self, st, v, n):
        if isinstance(v, Int):
            return v if v.w == 8 * n else zext(v, 8 * n)
        if isinstance(v, Fl):
            return self.fbits(v)
        if isinstance(v, P):
            if v is NULL:
                return iconst(64, 0)
            return None
        return None

    def fbits(self, v):
        w = {'f32': 32, 'f64': 64, 'f80': 80}[v.ty]
        if v.op == 'frombits':
            return v.args[0]
        if v.op == 'const' and w != 80:
            f = '<f' if w == 32 else '<d'
            return iconst(w, int.from_bytes(struct.pack(f, v.args[0]), 'little'))
        return of_atom(atom('fbits', w, v))

    def fromfbits(self, x, k):
        s = single(x)
        if s is not None and s.kind == 'fbits':
            return s.args[0]
        if is_const(x) and k != 'f80':
            return fconst(k, struct.unpack('<f' if k == 'f32' else '<d', x.c.to_bytes(x.w // 8, 'little'))[0])
        return fl(k, 'frombits', x)

    def conv(self, st, v, t):
        """value of the right size seen as type t"""
        k = t.k
        if k == 'i':
            if isinstance(v, Int):
                return v if v.w == t.w else trunc(v, t.w) if v.w > t.w else zext(v, t.w)
            if isinstance(v, Fl):
                x = self.fbits(v)
                return x if x.w == t.w else trunc(x, t.w)
            if isinstance(v, P):
                if v is NULL:
                    return iconst(t.w, 0)
                return add(of_atom(atom('addr', 64, v.o)), ml_to_int(v.off))
            return v
        if k == 'ptr':
            if isinstance(v, Int):
                if is_const(v) and v.c == 0:
                    return NULL
                return self.int2ptr(v)
            return v
        if k in ('f32', 'f64'):
            if isinstance(v, Int):
                return self.fromfbits(v, k)
            return v
        return v

    def int2ptr(self, v):
        for a, k in v.t:
            if a.kind == 'addr' and k == 1:
                r = sub(v, of_atom(a))
                if not any(b.kind == 'addr' for b, _ in r.t):
                    e = ml(sconst(r))
                    if not r.t:
                        return P(a.args[0], e)
        if is_const(v) and v.c == 0:
            return NULL
        return v

    def lazy(self, st, o, p, t):
        """content never written: by the object's schema"""
        b = o.base
        if b == 'undef':
            return Undef(t)
        if b == 'zero':
            return self.m.zero(t)
        if isinstance(b, tuple) and b[0] == 'bytes':
            v = isym('%s[%s]' % (b[1], p.off), 8 * t.size, 0, MASK(8 * t.size) if t.size == 1 else None) if t.size == 1 else None
            if v is None:
                acc = iconst(8 * t.size, 0)
                for i in range(t.size):
                    c = isym('%s[%s]' % (b[1], ml_add(p.off, ml(i))), 8)
                    acc = add(acc, shift('shl', zext(c, 8 * t.size), iconst(8 * t.size, 8 * i)))
                return self.conv(st, acc, t)
            return self.conv(st, v, t)
        if isinstance(b, tuple) and b[0] == 'str':
            # characters of a string term; a trailing NUL at its length
            term = b[1]
            if t.size != 1:
                raise Stop('undecided', 'wide access to string data')
            n = self.slen(st, term)
            e = self.dec_eq(st, ml_sub(p.off, n))
            if e is True:
                return iconst(8, 0)
            if e is None:
                d = ml_sub(p.off, n)
                raise Split([lambda s: self.lin_eq0(s, d), lambda s: self.lin_ne0(s, d)], 'nul')
            return self.schar(st, term, p.off)
        if callable(b):
            v = b(self, st, o, p, t)
            return v
        if b == 'ext' or b == 'maybe' or isinstance(b, tuple) and b[0] == 'havoc':
            pre = 'h:' if isinstance(b, tuple) else 'x:'
            nm = '%s%s%s[%s]:%s' % (pre, b[1] + ':' if isinstance(b, tuple) else '', o.id, p.off, t.k if t.k != 'i' else t.w)
            if t.k == 'i':
                v = isym(nm, t.w)
            elif t.k in ('f32', 'f64'):
                v = fl(t.k, 'sym', nm)
            elif t.k == 'ptr':
                if st.obj(nm) is None:
                    st.objs[nm] = new_obj(nm, 'ext', None, 'maybe' if pre == 'x:' else ('havoc', 'o'), st.tok, None)
                v = P(nm)
            else:
                return Undef(t)
            w = st.wobj(o.id)
            w.cells[p.off] = (t.size, v)
            return v
        return Undef(t)

    def store(self, st, p, n, v, what='write'):
        if isinstance(v, Agg):
            raise Stop('undecided', 'aggregate store')
        o = self.check_access(st, p, n, what)
        if self.on_store:
            self.on_store(st, p, n, o, v)
        if o.kind == 'const':
            raise Stop('ub', 'write to a constant')
        if o.cells and o.cells.get(p.off, (0,))[0] != n:
            c = self.find(st, o, p.off, n)
            if c is not None and not isinstance(c, tuple):
                o = st.wobj(p.o)
                for k, (cn, cv) in c:
                    d = ml_sub(k, p.off)
                    if d.t:
                        raise Stop('undecided', 'overlapping symbolic store')
                    del o.cells[k]
                    if d.c >= 0 and d.c + cn <= n:
                        continue
                    x = self.as_int(st, cv, cn)
                    for i in range(cn):
                        if not 0 <= d.c + i < n and x is not None:
                            o.cells[ml_add(k, ml(i))] = (1, trunc(shift('lshr', x, iconst(x.w, 8 * i)), 8) if cn > 1 else x)
        o = st.wobj(p.o)
        if isinstance(v, Undef):
            o.cells.pop(p.off, None)
            if o.base not in ('undef',):
                o.cells[p.off] = (n, v)
            return
        o.cells[p.off] = (n, v)

    def store_val(self, st, p, t, v):
        if t.k in ('struct', 'arr') and isinstance(v, (Agg, tuple)):
            for i, x in enumerate(v):
                et = t.elems[i] if t.k == 'struct' else t.elems[0]
                self.store_val(st, P(p.o, ml_add(p.off, ml(t.offs[i] if t.k == 'struct' else i * et.size))), et, x)
            return
        if isinstance(v, Int) and t.k == 'i' and t.w != 8 * t.size:
            v = zext(v, 8 * t.size)
        self.store(st, p, t.size, v)

    def copy(self, st, dst, src, n):
        """copy n (constant) bytes of cells"""
        if n == 0:
            return
        so = self.check_access(st, src, n, 'read')
        if self.on_load:
            self.on_load(st, src, n, so)
        self.check_access(st, dst, n, 'write')
        inside, partial = [], False
        covered = 0
        for k, (cn, v) in list(so.cells.items()):
            d = ml_sub(k, src.off)
            if d.t:
                lo, hi = st.lin.interval(d)
                if lo >= n or hi <= -cn or st.lin.entails_ge0(ml_add(d, ml(-n))) or st.lin.entails_ge0(ml_sub(ml(-cn), d)):
                    continue
                self.find(st, so, src.off, n)
                raise Stop('undecided', 'copy across symbolic cells')
            if d.c >= 0 and d.c + cn <= n:
                inside.append((d.c, cn, v))
                covered += cn
            elif d.c < n and d.c + cn > 0:
                partial = True
        if partial or (covered < n and not isinstance(so.base, str)) or (covered < n and so.base not in ('undef', 'zero')):
            if n <= 16 or partial or not inside:
                # byte-wise or word-wise through the schema
                if n in (1, 2, 4, 8):
                    class T:
                        k, w, size = 'i', 8 * n, n
                    v = self.load(st, src, T)
                    if not isinstance(v, Undef):
                        self.store(st, dst, n, v)
                        return
                i = 0
                while i < n:
                    c = so.cells.get(ml_add(src.off, ml(i)))
                    if c is not None and i + c[0] <= n:
                        self.store(st, P(dst.o, ml_add(dst.off, ml(i))), c[0], c[1])
                        i += c[0]
                        continue
                    v = self.load(st, P(src.o, ml_add(src.off, ml(i))), self.byte_ty)
                    self.store(st, P(dst.o, ml_add(dst.off, ml(i))), 1, v)
                    i += 1
                return
        # clear destination range
        do = st.wobj(dst.o)
        if self.on_store:
            self.on_store(st, dst, n, do, None)
        if do.kind == 'const':
            raise Stop('ub', 'write to a constant')
        c = self.find(st, do, dst.off, n) if do.cells else None
        if isinstance(c, tuple):
            del do.cells[dst.off]
        elif c:
            for k, (cn, v) in c:
                d = ml_sub(k, dst.off)
                if d.t:
                    raise Stop('undecided', 'symbolic overlap in copy')
                del do.cells[k]
                x = None
                if d.c < 0 or d.c + cn > n:
                    x = self.as_int(st, v, cn)
                    for i in range(cn):
                        if not 0 <= d.c + i < n and x is not None:
                            do.cells[ml_add(k, ml(i))] = (1, trunc(shift('lshr', x, iconst(x.w, 8 * i)), 8) if cn > 1 else x)
        for d, cn, v in inside:
            do.cells[ml_add(dst.off, ml(d))] = (cn, v)
        if so.base == 'zero' and do.base != 'zero' and covered < n:
            have = set()
            for d, cn, v in inside:
                have.update(range(d, d + cn))
            for i in range(n):
                if i not in have:
                    do.cells[ml_add(dst.off, ml(i))] = (1, iconst(8, 0))

    # -------------------------------------------------------------- strings
    def slen(self, st, t):
        """length of a string term as ML"""
        if t.op in ('lit',):
            return ml(len(t.args[0]))
        if t.op == 'chars':
            return ml(len(t.args[0]))
        if t.op == 'sub':
            return t.args[2]
        if t.op == 'cat':
            r = ZERO
            for x in t.args:
                r = ml_add(r, self.slen(st, x))
            return r
        if t.op == 'mem':
            return t.args[2]
        if t.op == 'fill':
            return t.args[0]
        if t.op == 'dec':
            return ml_var(atom('len', 64, t, lo=1, hi=20))
        return ml_var(atom('len', 64, t, lo=0, hi=(1 << 31) - 1))

    def schar(self, st, t, off):
        if t.op == 'lit' and not off.t:
            return iconst(8, t.args[0][off.c])
        if t.op == 'chars' and not off.t:
            return t.args[0][off.c]
        if t.op == 'sub':
            return self.schar(st, t.args[0], ml_add(off, t.args[1]))
        if t.op == 'fill':
            return t.args[1]
        if not off.t:
            return of_atom(atom('ch', 8, t, off.c))
        return of_atom(atom('chx', 8, t, off))

    # -------------------------------------------------------------- running
    def val(self, fr, a):
        if a.__class__ is int:
            return fr.loc[a]
        if a is None:
            return None
        return a[0]

    def push(self, st, fn, args, call=None, cont=None):
        self.m.fn(fn)
        if len(st.frames) > 120:
            raise Stop('undecided', 'call depth')
        fr = Frame()
        fr.fn, fr.b, fr.pc, fr.prev = fn, 0, 0, None
        fr.loc = [None] * fn.nloc
        for i, v in enumerate(args[:len(fn.params)]):
            fr.loc[i] = v
        fr.allocas, fr.loops, fr.exc, fr.cont, fr.call = [], (), None, cont, call
        st.frames.append(fr)
        self.covered.add(fn.name)
        self.enter(st, fr, 0, None)

    def call(self, st, fname, args, limit=None):
        """run a function abstractly: list of (state, outcome)"""
        fn = self.m.fns.get(fname) if isinstance(fname, str) else fname
        if fn is None:
            raise KeyError(fname)
        s = st.fork()
        base = len(s.frames)
        s.frames.append(None)      # barrier
        try:
            self.push(s, fn, args)
        except Stop as e:
            s.frames = s.frames[:base]
            return [(s, e.out)]
        out = self.explore([s])
        r = []
        for x, o in out:
            x.frames = x.frames[:base]
            r.append((x, o))
        self.paths += len(r)
        return r

    def explore(self, work):
        out = []
        while work:
            s = work.pop()
            r = self.advance(s)
            if r[0] == 'fork':
                work.extend(r[1])
            elif r[0] == 'dead':
                pass
            else:
                out.append((s if len(r) < 3 else r[2], r[1]))
        return out

    def advance(self, s):
        """run until the path ends or forks"""
        while True:
            fr = s.frames[-1]
            ins = fr.fn.blocks[fr.b].ins[fr.pc]
            self.steps += 1
            try:
                if self.steps > self.max_steps:
                    raise Stop('undecided', 'step limit')
                r = self.op[ins.op](s, fr, ins)
                if r is not None:
                    if r[0] == 'done':
                        return ('end', r[1])
                    if r[0] == 'fork':
                        return r
            except Split as e:
                alts = []
                s.parts += 1
                for alt in e.alts:
                    t = s.fork()
                    try:
                        alt(t)
                    except Infeasible:
                        continue
                    except Split as e2:
                        # nested partition while assuming: apply it first
                        for a2 in e2.alts:
                            u = s.fork()
                            try:
                                a2(u)
                            except Infeasible:
                                continue
                            alts.append(u)
                        continue
                    alts.append(t)
                return ('fork', alts)
            except Infeasible:
                return ('dead',)
            except Stop as e:
                return ('end', e.out + (self.trace(s),))
            except (KeyboardInterrupt, MemoryError):
                raise
            except Exception as e:
                if DEBUG:
                    raise
                return ('end', ('undecided', 'internal: %s: %s' % (type(e).__name__, e), self.trace(s)))

    def trace(self, s):
        r = []
        for fr in s.frames:
            if fr is None:
                continue
            ins = fr.fn.blocks[fr.b].ins[min(fr.pc, len(fr.fn.blocks[fr.b].ins) - 1)]
            r.append((fr.fn.dem, self.m.loc(ins)))
        return r

    def where(self, s):
        for fr in reversed(s.frames):
            if fr is None:
                continue
            ins = fr.fn.blocks[fr.b].ins[min(fr.pc, len(fr.fn.blocks[fr.b].ins) - 1)]
            l = self.m.loc(ins)
            if l.startswith(REPO_SRC):
                return l
        return '?'

    # ---- control transfer
    def enter(self, st, fr, b, prev):
        """enter block b of the top frame"""
        fr.prev, fr.b = prev, b
        B = fr.fn.blocks[b]
        if B.phis:
            vs = []
            for ph in B.phis:
                vs.append((ph.res, self.val(fr, ph.a[prev])))
            for r, v in vs:
                fr.loc[r] = v
        fr.pc = 0

    def goto(self, st, fr, b):
        """transfer to block b, handling loop headers; returns None or a result for advance"""
        prev = fr.b
        depth = len(st.frames)
        # leave loops
        lp = fr.loops
        while lp and b not in lp[-1].body:
            lp = lp[:-1]
        fr.loops = lp
        stop = st.stop
        if stop is not None and stop[0] == depth:
            if b == stop[1]:
                self.enter(st, fr, b, prev)
                return ('done', ('back',))
            if b not in stop[2]:
                self.enter(st, fr, b, prev)
                return ('done', ('exit',))
        loops = find_loops(fr.fn)
        if b in loops:
            if lp and lp[-1].h == b:
                c = lp[-1]
                n = c.n + 1
                if n > self.cap or (n > 64 and st.parts - c.und > 48):
                    raise Stop('undecided', 'loop not bounded')
                self.enter(st, fr, b, prev)
                if self.loop_policy:
                    r = self.loop_policy(self, st, fr, b, n)
                    if r is not None:
                        raise Stop(*r)
                fr.loops = lp[:-1] + (LoopCtx(b, c.body, c.n, None, c.und, False),)
                snap = st.fork()
                fr.loops = lp[:-1] + (LoopCtx(b, c.body, n, snap, c.und, False),)
            else:
                self.enter(st, fr, b, prev)
                if self.loop_policy:
                    r = self.loop_policy(self, st, fr, b, 0)
                    if r is not None:
                        raise Stop(*r)
                snap = st.fork()
                fr.loops = lp + (LoopCtx(b, loops[b], 0, snap, st.parts, False),)
            return None
        self.enter(st, fr, b, prev)
        return None

    def peel_of(self, fr):
        return self.peel_fn.get(fr.fn.name, self.peel)

    # ---- loop generalisation
    def generalise(self, st, fr):
        """called at an undecided exit of the innermost loop: restart from its header in a generalised state"""
        ctx = fr.loops[-1]
        S = ctx.snap
        if S is None:
            raise Stop('undecided', 'loop header state not kept')
        depth = len(st.frames)
        h, body = ctx.h, ctx.body
        key = (fr.fn.name, h)
        tag = fresh('L')
        k = atom('sym', 64, 'k:' + tag, lo=0, hi=1 << 40)
        outer_stop = S.stop
        gens = {}            # slot -> ('aff', v0, step) | ('hav', v)
        dead_aff = set()
        cands = None
        havobj = set()
        setsyms = {}
        for rnd in range(9):
            G = S.fork()
            gf = G.frames[-1]
            gf.loops = gf.loops + (LoopCtx(h, body, 0, None, 0, True),)
            G.lin = Lin(G.lin.cons, G.lin.neq, G.lin.sets)
            for slot, g in gens.items():
                self.put_slot(G, slot, self.gval(g, k))
            for a, s in setsyms.items():
                G.lin = G.lin.with_set(a, s)
            for oid in havobj:
                o = G.wobj(oid)
                if o is not None and o.base in ('undef', 'zero') or o is not None and isinstance(o.base, tuple) and o.base[0] == 'str':
                    o.base = ('havoc', tag)
            if cands:
                for c in cands:
                    r = G.lin.add_ge0(c)
                    if r is None:
                        return ('dead',)
                    G.lin = r
            info = {'k': k, 'fn': fr.fn.dem}
            G.event('gen', info)
            G0 = G.fork()
            G.stop = (depth, h, body)
            res = self.explore([G])
            backs = [x for x, o in res if o[0] == 'back']
            if DEBUG > 1: print('round', rnd, fr.fn.dem[:40], {s: g for s, g in gens.items()}, [(o[0], o[1] if len(o)>1 else '') for _, o in res], 'dead', dead_aff)
            # new changes
            changed = False
            before = set(gens)
            for B in backs:
                for slot, b in self.diff(G0, B, fr.fn, h):
                    g = gens.get(slot)
                    if slot[0] == 'newcell':
                        if slot[1] not in havobj:
                            havobj.add(slot[1])
                            changed = True
                        continue
                    cur = self.gval(g, k) if slot in before else self.get_slot(G0, slot)
                    if g is not None and g[0] == 'hav':
                        a = single(g[1]) if isinstance(g[1], Int) else None
                        if a is not None and a in setsyms:
                            if isinstance(b, Int):
                                vs = self.values(B, b)
                                if vs is not None and len(vs | setsyms[a]) <= 256:
                                    if not vs <= setsyms[a]:
                                        setsyms[a] = setsyms[a] | vs
                                        changed = True
                                    continue
                            del setsyms[a]
                            gens[slot] = ('hav', self.havoc(S, slot, b, tag))
                            changed = True
                        continue
                    v0 = g[1] if g else cur
                    d = self.delta(cur, b)
                    if slot not in dead_aff and d is not None and (g is None or g[2] == d):
                        if g is None:
                            gens[slot] = ('aff', v0, d)
                            changed = True
                        continue
                    dead_aff.add(slot)
                    changed = True
                    if isinstance(v0, Int) and isinstance(b, Int) and v0.w <= 8:
                        vs, v1 = self.values(S, v0), self.values(B, b)
                        if vs is not None and v1 is not None and v0.w <= 8:
                            x = isym(fresh('h:set'), v0.w)
                            setsyms[single(x)] = frozenset(vs | v1)
                            gens[slot] = ('hav', x)
                            continue
                    gens[slot] = ('hav', self.havoc(S, slot, b, tag, v0))
            # affine slots that some back edge leaves unchanged or changes otherwise
            for slot, g in list(gens.items()):
                if g[0] == 'aff':
                    for B in backs:
                        b = self.back_val(B, slot, fr.fn, h)
                        if b is None or self.delta(self.gval(g, k) if slot in before else g[1], b) != g[2]:
                            dead_aff.add(slot)
                            gens[slot] = ('hav', self.havoc(S, slot, b, tag, g[1]))
                            changed = True
                            break
            if changed:
                cands = None
                continue
            # candidate invariants
            if cands is None:
                cands = self.candidates(S, G0, backs, gens, k, res)
                if cands:
                    continue
            keep = [c for c in cands if all(self.inductive(B, c, gens, k, fr.fn, h) for B in backs)]
            if len(keep) != len(cands):
                cands = keep
                continue
            # stable: exits go on
            info['backs'] = backs
            exits = []
            for x, o in res:
                if o[0] == 'back':
                    continue
                x.stop = outer_stop
                if o[0] == 'exit':
                    d = len(x.frames)
                    if d >= depth and x.frames[depth - 1] is not None and d == depth:
                        f2 = x.frames[-1]
                        # the loops context of the frame, without the generalised loop
                        f2.loops = tuple(c for c in f2.loops if not c.gen)
                    x.event('loop', self.m.loc(fr.fn.blocks[h].ins[0]), tag)
                    exits.append((x, None))
                else:
                    exits.append((x, o))
            self.summaries.append({'fn': fr.fn, 'h': h, 'tag': tag, 'k': k, 'entry': G0, 'backs': backs, 'exits': [x for x, _ in exits], 'gens': gens,
                                   'start': S, 'inv': cands, 'depth': depth})
            return ('gen', exits)
        self.genfail.append((fr.fn.dem, self.m.loc(fr.fn.blocks[h].ins[0])))
        raise Stop('undecided', 'loop could not be summarised')

    def gval(self, g, k):
        if g[0] == 'hav':
            return g[1]
        v0, d = g[1], g[2]
        if isinstance(v0, P):
            return P(v0.o, ml_add(v0.off, ml_var(k), d))
        w = v0.w
        kk = of_atom(k)
        kk = trunc(kk, w) if w < 64 else kk
        return add(v0, scale(kk, d))

    def delta(self, a, b):
        if isinstance(a, P) and isinstance(b, P) and a.o == b.o and a.o != 0:
            d = ml_sub(b.off, a.off)
            return d.c if not d.t else None
        if isinstance(a, Int) and isinstance(b, Int) and a.w == b.w and a.w >= 32:
            d = sub(b, a)
            return sconst(d) if not d.t else None
        return None

    def havoc(self, st, slot, v, tag, v0=None):
        n = fresh('h:' + tag)
        if isinstance(v, Undef) or v is None:
            v = v0
        if isinstance(v, Int):
            return isym(n, v.w)
        if isinstance(v, Fl):
            return fl(v.ty, 'sym', n)
        if isinstance(v, P):
            if isinstance(v0, P) and v0.o == v.o and v.o != 0:
                return P(v.o, ml_var(atom('sym', 64, n, lo=-(1 << 40), hi=1 << 40)))
            st.objs[n] = new_obj(n, 'ext', None, ('havoc', 'o'), object(), None)
            return P(n)
        if isinstance(v, SV):
            return SV(None, ml_var(atom('sym', 64, n, lo=0, hi=1 << 31)), ssym(n))
        raise Stop('undecided', 'value of the loop cannot be generalised')

    def get_slot(self, st, slot):
        if slot[0] == 'phi':
            return st.frames[-1].loc[slot[1]]
        o = st.obj(slot[1])
        c = o.cells.get(slot[2])
        return c[1] if c else None

    def put_slot(self, st, slot, v):
        if slot[0] == 'phi':
            st.frames[-1].loc[slot[1]] = v
            return
        o = st.wobj(slot[1])
        o.cells[slot[2]] = (slot[3], v)
        if isinstance(v, P) and isinstance(v.o, str) and v.o.startswith('h:') and st.obj(v.o) is None:
            st.objs[v.o] = new_obj(v.o, 'ext', None, ('havoc', 'o'), st.tok, None)

    def back_val(self, B, slot, fn, h):
        if slot[0] == 'phi':
            return B.frames[-1].loc[slot[1]]
        o = B.obj(slot[1])
        if o is None:
            return None
        c = o.cells.get(slot[2])
        return c[1] if c else None

    def diff(self, G, B, fn, h):
        gl, bl = G.frames[-1].loc, B.frames[-1].loc
        for ph in fn.blocks[h].phis:
            if gl[ph.res] is not bl[ph.res] and gl[ph.res] != bl[ph.res]:
                yield ('phi', ph.res), bl[ph.res]
        for id, bo in list(B.objs.items()):
            go = G.obj(id)
            if go is None or go is bo:
                continue
            for off, c in bo.cells.items():
                d = go.cells.get(off)
                if d is None:
                    if isinstance(bo.base, tuple) and bo.base[0] in ('bytes', 'havoc') or callable(bo.base) or bo.base in ('ext', 'maybe'):
                        if self.on_store is None and bo.kind == 'ext':
                            continue      # materialised by a read
                    yield ('newcell', id), None
                elif d[1] is not c[1] and d != c:
                    if d[0] != c[0]:
                        yield ('newcell', id), None
                    else:
                        yield ('cell', id, off, c[0]), c[1]
            for off, d in go.cells.items():
                if off not in bo.cells:
                    yield ('newcell', id), None
                    break

    def candidates(self, S, G, backs, gens, k, res=()):
        cs = []
        vars = {}
        for slot, g in gens.items():
            if g[0] == 'hav' and isinstance(g[1], P) and isinstance(g[1].o, str):
                x = g[1].off
                o = S.obj(g[1].o)
                v0 = self.get_slot(S, slot)
                if o is not None and o.size is not None:
                    cs.append(ml_sub(o.size, x))
                if isinstance(v0, P):
                    cs.append(ml_sub(x, v0.off))
                for a, _ in x.t:
                    vars[a] = slot
            elif g[0] == 'hav' and isinstance(g[1], Int) and single(g[1]) is not None:
                v0 = self.get_slot(S, slot)
                a = single(g[1])
                vars[a] = slot
                if isinstance(v0, Int) and g[1].w >= 32:
                    try:
                        e0 = self.math(S, v0, True)
                        cs.append(ml_sub(ml_var(a), e0))
                        cs.append(ml_sub(e0, ml_var(a)))
                    except Split:
                        pass
        for x, o in res:
            # what a refused access needs to hold at the header
            if o[0] == 'oob':
                p, n, ob = o[2], o[3], x.obj(o[4])
                if ob is not None and ob.size is not None and isinstance(p, P):
                    cs.append(ml_sub(ob.size, p.off))
                    cs.append(ml_sub(ml_sub(ob.size, n if isinstance(n, ML) else ml(n)), p.off))
                    cs.append(p.off)
        old = set(G.lin.cons)
        for B in backs:
            for e in B.lin.cons:
                if e in old:
                    continue
                if any(a is k for a, _ in e.t):
                    kc = dict(e.t)[k]
                    cs.append(ml(e.c - kc, e.t))
                elif any(a in vars for a, _ in e.t):
                    cs.append(e)
                    cs.append(ml(e.c + 1, e.t))
        out = []
        for c in dict.fromkeys(cs):
            e = self.at_entry(S, c, gens, k)
            if e is not None and S.lin.entails_ge0(e):
                out.append(c)
        return out

    def subst(self, e, m):
        r = ml(e.c)
        for a, c in e.t:
            r = ml_add(r, m[a] if a in m else ml_var(a), c)
        return r

    def at_entry(self, S, c, gens, k):
        m = {k: ZERO}
        for slot, g in gens.items():
            if g[0] == 'hav':
                v0 = self.get_slot(S, slot)
                self.submap(S, m, g[1], v0)
        if any(v is None for a, v in m.items() if any(x is a for x, _ in c.t)):
            return None
        return self.subst(c, m)

    def submap(self, st, m, gv, v):
        if isinstance(gv, P) and len(gv.off.t) == 1:
            a = gv.off.t[0][0]
            m[a] = v.off if isinstance(v, P) and v.o == gv.o else None
        elif isinstance(gv, Int) and single(gv) is not None:
            try:
                m[single(gv)] = self.math(st, v, True) if isinstance(v, Int) else None
            except Split:
                m[single(gv)] = None
        elif isinstance(gv, SV) and gv.n.t:
            m[gv.n.t[0][0]] = v.n if isinstance(v, SV) else None

    def inductive(self, B, c, gens, k, fn, h):
        m = {k: ml(1, {k: 1})}
        for slot, g in gens.items():
            if g[0] == 'hav':
                self.submap(B, m, g[1], self.back_val(B, slot, fn, h))
        if any(v is None for a, v in m.items() if any(x is a for x, _ in c.t)):
            return False
        return B.lin.entails_ge0(self.subst(c, m))

    # -------------------------------------------------------------- instructions
    def set(self, fr, ins, v):
        fr.loc[ins.res] = v
        fr.pc += 1

    def i_br(self, st, fr, ins):
        if not ins.a:
            return self.goto(st, fr, ins.succ[0])
        c = self.val(fr, ins.a[0])
        v = self.decide(st, c)
        if v is None:
            # is this an exit of the innermost loop?
            if fr.loops and not fr.loops[-1].gen:
                L = fr.loops[-1]
                if (ins.succ[0] in L.body) != (ins.succ[1] in L.body) and L.n >= self.peel_of(fr):
                    r = self.generalise(st, fr)
                    if r[0] == 'dead':
                        raise Infeasible()
                    live, fin = [], []
                    for x, o in r[1]:
                        if o is None:
                            live.append(x)
                        else:
                            x.stop = st.stop
                            live.append(Ended(x, o))
                    return ('fork', live)
            alts = []
            st.parts += 1
            for truth in (True, False):
                t = st.fork()
                try:
                    self.assume(t, c, truth)
                except Infeasible:
                    continue
                except Split as e:
                    raise
                alts.append((t, truth))
            outs = []
            for t, truth in alts:
                f = t.frames[-1]
                try:
                    r = self.goto(t, f, ins.succ[0 if truth else 1])
                except Stop as e:
                    outs.append(Ended(t, e.out + (self.trace(t),)))
                    continue
                outs.append(t if r is None else Ended(t, r[1]))
            return ('fork', outs)
        return self.goto(st, fr, ins.succ[0 if v else 1])

    def i_switch(self, st, fr, ins):
        c = self.val(fr, ins.a[0])
        if isinstance(c, Undef):
            raise Stop('ub', 'switch on an uninitialised value')
        if is_const(c):
            for v, b in ins.x:
                if v & MASK(c.w) == c.c:
                    return self.goto(st, fr, b)
            return self.goto(st, fr, ins.succ[0])
        vs = self.values(st, c)
        outs = []
        st.parts += 1
        groups = {}
        if vs is not None and len(syms(c)) == 1:
            s = next(iter(syms(c)))
            m = {v & MASK(c.w): b for v, b in ins.x}
            by = {}
            for v in self.dom(st, s):
                r = ev(c, {s: v})
                # one class per case value (sub-partition for precision), one for the default
                by.setdefault((m.get(r, ins.succ[0]), r if r in m else None), []).append(v)
            for (b, _), vals in by.items():
                t = st.fork()
                r = t.lin.with_set(s, frozenset(vals))
                if r is None:
                    continue
                t.lin = r
                outs.append((t, b))
        else:
            rest = st.fork()
            ok = True
            for v, b in ins.x:
                t = rest.fork()
                cc = icmp('eq', c, iconst(c.w, v))
                try:
                    self.assume(t, cc, True)
                    outs.append((t, b))
                except Infeasible:
                    pass
                try:
                    self.assume(rest, cc, False)
                except Infeasible:
                    ok = False
                    break
            if ok:
                outs.append((rest, ins.succ[0]))
        res = []
        for t, b in outs:
            try:
                r = self.goto(t, t.frames[-1], b)
            except Stop as e:
                res.append(Ended(t, e.out + (self.trace(t),)))
                continue
            res.append(t if r is None else Ended(t, r[1]))
        return ('fork', res)

    def i_ret(self, st, fr, ins):
        v = self.val(fr, ins.a[0]) if ins.a else None
        return self.ret(st, fr, v)

    def ret(self, st, fr, v):
        for a in fr.allocas:
            st.objs.pop(a, None)
        st.frames.pop()
        if fr.cont is not None:
            r = fr.cont(self, st, v)
            return r
        up = st.frames[-1]
        if up is None:
            return ('done', ('ret', v))
        c = fr.call
        return self.resume_call(st, up, c, v)

    def resume_call(self, st, up, c, v):
        up.loc[c.res] = v
        if c.op == 'invoke':
            return self.goto(st, up, c.succ[0])
        up.pc += 1
        return None

    def i_unreachable(self, st, fr, ins):
        raise Stop('ub', 'unreachable code reached')

    def i_alloca(self, st, fr, ins):
        id = self.fresh_id('a')
        st.objs[id] = new_obj(id, 'stack', ml(ins.x.size), 'undef', st.tok, fr.fn.name)
        fr.allocas.append(id)
        self.set(fr, ins, P(id))

    def i_load(self, st, fr, ins):
        p = self.val(fr, ins.a[0])
        self.set(fr, ins, self.load(st, p, ins.ty))

    def i_store(self, st, fr, ins):
        v, p = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        self.store_val(st, p, ins.x, v)
        fr.pc += 1

    def i_gep(self, st, fr, ins):
        p = self.val(fr, ins.a[0])
        c, var = ins.x
        if isinstance(p, Undef):
            self.set(fr, ins, p)
            return
        if not isinstance(p, P):
            raise Stop('undecided', 'pointer arithmetic on a computed address')
        off = ml_add(p.off, ml(c)) if c else p.off
        for o, s in var:
            x = self.val(fr, o)
            if isinstance(x, Undef):
                self.set(fr, ins, Undef(ins.ty))
                return
            off = ml_add(off, self.math(st, x, True), s)
        if p.o == 0 and (off.c or off.t):
            if c or any(True for _ in var):
                self.set(fr, ins, P(0, off))
                return
        self.set(fr, ins, P(p.o, off))

    def bin(self, st, fr, ins, f):
        a, b = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        if isinstance(a, (Undef, P)) or isinstance(b, (Undef, P)):
            if isinstance(a, P):
                a = self.conv(st, a, ins.ty)
            if isinstance(b, P):
                b = self.conv(st, b, ins.ty)
            if isinstance(a, Undef) or isinstance(b, Undef):
                self.set(fr, ins, Undef(ins.ty))
                return
        self.set(fr, ins, f(a, b))

    def i_add(self, st, fr, ins): self.bin(st, fr, ins, add)
    def i_sub(self, st, fr, ins): self.bin(st, fr, ins, sub)
    def i_mul(self, st, fr, ins): self.bin(st, fr, ins, mul)
    def i_and(self, st, fr, ins): self.bin(st, fr, ins, lambda a, b: bitop('and', a, b))
    def i_or(self, st, fr, ins): self.bin(st, fr, ins, lambda a, b: bitop('or', a, b))
    def i_xor(self, st, fr, ins): self.bin(st, fr, ins, lambda a, b: bitop('xor', a, b))

    def sh(self, st, fr, ins, op):
        a, b = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.set(fr, ins, Undef(ins.ty))
        if not is_const(b):
            vs = self.values(st, b)
            if vs is not None and len(vs) <= 64:
                self.pick(st, b, vs)
            if not self.branch(st, icmp('ult', b, iconst(b.w, b.w))):
                raise Stop('ub', 'shift amount not below the width')
        elif b.c >= b.w:
            raise Stop('ub', 'shift amount not below the width')
        self.set(fr, ins, shift(op, a, b))

    def pick(self, st, x, vs):
        """partition on the value of a term over a finite set"""
        if len(vs) > 1:
            raise Split([lambda s, v=v: self.assume_val(s, x, v) for v in sorted(vs)], 'value')

    def assume_val(self, st, x, v):
        c = icmp('eq', x, iconst(x.w, v))
        if self.decide(st, c) is False:
            raise Infeasible()
        self.assume(st, c, True)

    def const_of(self, st, x):
        """the single value of a term, partitioning when it has several"""
        if is_const(x):
            return x.c
        vs = self.values(st, x)
        if vs is None:
            return None
        if len(vs) == 1:
            return next(iter(vs))
        if len(vs) > 256:
            return None
        self.pick(st, x, vs)

    def i_shl(self, st, fr, ins): self.sh(st, fr, ins, 'shl')
    def i_lshr(self, st, fr, ins): self.sh(st, fr, ins, 'lshr')
    def i_ashr(self, st, fr, ins): self.sh(st, fr, ins, 'ashr')

    def div(self, st, fr, ins, op):
        a, b = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        if isinstance(a, P):
            a = self.conv(st, a, ins.ty)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.set(fr, ins, Undef(ins.ty))
        if self.branch(st, icmp('eq', b, iconst(b.w, 0))):
            raise Stop('ub', 'division by zero')
        if op in ('sdiv', 'srem') and not (is_const(b) and sconst(b) != -1):
            if self.branch(st, icmp('eq', b, iconst(b.w, -1))):
                if self.branch(st, icmp('eq', a, iconst(a.w, 1 << (a.w - 1)))):
                    raise Stop('ub', 'minimum integer divided by -1')
        self.set(fr, ins, divop(op, a, b, bool(ins.x)))

    def i_sdiv(self, st, fr, ins): self.div(st, fr, ins, 'sdiv')
    def i_udiv(self, st, fr, ins): self.div(st, fr, ins, 'udiv')
    def i_srem(self, st, fr, ins): self.div(st, fr, ins, 'srem')
    def i_urem(self, st, fr, ins): self.div(st, fr, ins, 'urem')

    def fb(self, st, fr, ins, op):
        a, b = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.set(fr, ins, Undef(ins.ty))
        self.set(fr, ins, fbin(op, a, b))

    def i_fadd(self, st, fr, ins): self.fb(st, fr, ins, 'fadd')
    def i_fsub(self, st, fr, ins): self.fb(st, fr, ins, 'fsub')
    def i_fmul(self, st, fr, ins): self.fb(st, fr, ins, 'fmul')
    def i_fdiv(self, st, fr, ins): self.fb(st, fr, ins, 'fdiv')
    def i_frem(self, st, fr, ins): self.fb(st, fr, ins, 'frem')

    def i_fneg(self, st, fr, ins):
        a = self.val(fr, ins.a[0])
        if isinstance(a, Undef):
            return self.set(fr, ins, a)
        self.set(fr, ins, fconst(a.ty, -a.args[0]) if a.op == 'const' else a.args[0] if a.op == 'fneg' else fl(a.ty, 'fneg', a))

    def cast(self, st, fr, ins, f):
        a = self.val(fr, ins.a[0])
        if isinstance(a, Undef):
            return self.set(fr, ins, Undef(ins.ty))
        self.set(fr, ins, f(a))

    def i_trunc(self, st, fr, ins): self.cast(st, fr, ins, lambda a: trunc(self.conv(st, a, _I64) if isinstance(a, P) else a, ins.ty.w))
    def i_zext(self, st, fr, ins): self.cast(st, fr, ins, lambda a: zext(a, ins.ty.w))
    def i_sext(self, st, fr, ins): self.cast(st, fr, ins, lambda a: sext(a, ins.ty.w))

    def i_sitofp(self, st, fr, ins):
        self.cast(st, fr, ins, lambda a: self.int2f('sitofp', a, ins.ty.k))

    def i_uitofp(self, st, fr, ins):
        self.cast(st, fr, ins, lambda a: self.int2f('uitofp', a, ins.ty.k))

    def int2f(self, op, a, k):
        if is_const(a):
            return fconst(k, i2f(sconst(a) if op == 'sitofp' else a.c, k))
        s = single(a)
        if s is not None and s.kind == 'zext' and op == 'sitofp':
            return fl(k, 'uitofp', s.args[0]) if s.args[0].w > 1 else fl(k, 'uitofp', s.args[0])
        if s is not None and s.kind == 'sext' and op == 'sitofp':
            return fl(k, 'sitofp', s.args[0])
        return fl(k, op, a)

    def i_fptosi(self, st, fr, ins): self.cast(st, fr, ins, lambda a: self.f2int('fptosi', a, ins.ty.w))
    def i_fptoui(self, st, fr, ins): self.cast(st, fr, ins, lambda a: self.f2int('fptoui', a, ins.ty.w))

    def f2int(self, op, a, w):
        if a.op == 'const' and abs(a.args[0]) < 2 ** 62:
            return iconst(w, int(a.args[0]))
        return of_atom(atom(op, w, a))

    def i_fpext(self, st, fr, ins):
        self.cast(st, fr, ins, lambda a: fconv(ins.ty.k, a))

    def i_fptrunc(self, st, fr, ins):
        self.cast(st, fr, ins, lambda a: fconv(ins.ty.k, a))

    def i_ptrtoint(self, st, fr, ins): self.cast(st, fr, ins, lambda a: self.conv(st, a, ins.ty) if isinstance(a, P) else a)

    def i_inttoptr(self, st, fr, ins): self.cast(st, fr, ins, lambda a: self.int2ptr(a) if isinstance(a, Int) else a)

    def i_bitcast(self, st, fr, ins): self.cast(st, fr, ins, lambda a: self.conv(st, a, ins.ty))
    def i_freeze(self, st, fr, ins): self.cast(st, fr, ins, lambda a: a)

    def i_icmp(self, st, fr, ins):
        a, b = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.set(fr, ins, Undef(ins.ty))
        if isinstance(a, P) or isinstance(b, P):
            return self.set(fr, ins, self.pcmp(st, ins.x, a, b))
        self.set(fr, ins, icmp(ins.x, a, b))

    def pcmp(self, st, p, a, b):
        if not isinstance(a, P) or not isinstance(b, P):
            a = self.conv(st, a, _I64)
            b = self.conv(st, b, _I64)
            return icmp(p, a, b)
        if a is b:
            return iconst(1, int(p in ('eq', 'ule', 'uge', 'sle', 'sge')))
        if a.o == b.o:
            d = ml_sub(b.off, a.off)
            if not d.t:
                return iconst(1, int(icmp_const(p.replace('u', 's'), 64, 0, d.c & MASK(64))))
            if p in ('eq', 'ne'):
                if d.t[0][1] < 0:
                    d = ml_scale(d, -1)
                r = of_atom(atom('mcmp', 1, 'eq', d))
                return r if p == 'eq' else inot(r)
            # a < b  <=> d - 1 >= 0
            p = p.replace('u', 's')
            if p == 'slt':
                return of_atom(atom('mcmp', 1, 'ge', ml(d.c - 1, d.t)))
            if p == 'sge':
                return inot(of_atom(atom('mcmp', 1, 'ge', ml(d.c - 1, d.t))))
            if p == 'sle':
                return of_atom(atom('mcmp', 1, 'ge', d))
            return inot(of_atom(atom('mcmp', 1, 'ge', d)))
        if p in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if y.o == 0 and isinstance(x.o, str):
                    o = st.obj(x.o)
                    if o is not None and o.base in ('maybe',) or x.o.startswith('h:'):
                        r = of_atom(atom('isnull', 1, x.o))
                        return r if p == 'eq' else inot(r)
            if isinstance(a.o, str) and isinstance(b.o, str) and (a.o.startswith('h:') or b.o.startswith('h:')):
                r = of_atom(atom('peq', 1, *sorted((repr(a), repr(b)))))
                return r if p == 'eq' else inot(r)
            return iconst(1, int(p == 'ne'))
        return of_atom(atom('pcmp', 1, p, repr(a), repr(b)))

    def i_fcmp(self, st, fr, ins):
        a, b = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        if isinstance(a, Undef) or isinstance(b, Undef):
            return self.set(fr, ins, Undef(ins.ty))
        if a is b and ins.x in (1, 3, 5, 7):      # ordered and equal: not NaN
            return self.set(fr, ins, fcmp(7, a, b) if a.op != 'const' else fcmp(ins.x, a, b))
        self.set(fr, ins, fcmp(ins.x, a, b))

    def i_select(self, st, fr, ins):
        c, a, b = (self.val(fr, x) for x in ins.a)
        if a is b:
            return self.set(fr, ins, a)
        if self.branch(st, c):
            self.set(fr, ins, a)
        else:
            self.set(fr, ins, b)

    def i_extractvalue(self, st, fr, ins):
        v = self.val(fr, ins.a[0])
        for i in ins.x:
            if isinstance(v, Undef):
                break
            v = v[i]
        self.set(fr, ins, v)

    def i_insertvalue(self, st, fr, ins):
        v, e = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        if isinstance(v, Undef):
            t = ins.ty
            v = Agg([Undef(x) for x in t.elems] if t.k == 'struct' else [Undef(t.elems[0])] * t.n)
        l = list(v)
        if len(ins.x) == 1:
            l[ins.x[0]] = e
        else:
            in_ = list(l[ins.x[0]])
            in_[ins.x[1]] = e
            l[ins.x[0]] = Agg(in_)
        self.set(fr, ins, Agg(l))

    def i_fence(self, st, fr, ins):
        fr.pc += 1

    def i_atomicrmw(self, st, fr, ins):
        p, v = self.val(fr, ins.a[0]), self.val(fr, ins.a[1])
        old = self.load(st, p, ins.ty)
        new = {0: lambda: v, 1: lambda: add(old, v), 2: lambda: sub(old, v)}.get(ins.x)
        if new is None:
            raise Stop('undecided', 'atomic operation')
        self.store(st, p, ins.ty.size, new())
        self.set(fr, ins, old)

    def i_landingpad(self, st, fr, ins):
        self.set(fr, ins, fr.exc)

    def i_resume(self, st, fr, ins):
        v = self.val(fr, ins.a[0])
        return self.unwind(st, v[0])

    # ---- calls
    def i_call(self, st, fr, ins):
        f = ins.x
        args = [self.val(fr, a) for a in ins.a]
        if isinstance(f, tuple):
            if f[0] == 'asm':
                raise Stop('undecided', 'inline assembly')
            p = self.val(fr, f[1])
            if isinstance(p, Undef):
                raise Stop('ub', 'call through an uninitialised pointer')
            if not isinstance(p, P) or not isinstance(p.o, str) or not p.o.startswith('f:'):
                if isinstance(p, P) and p.o == 0:
                    raise Stop('ub', 'call through a null pointer')
                if isinstance(p, P) and isinstance(p.o, str) and st.obj(p.o) is not None and not st.obj(p.o).alive:
                    raise Stop('ub', 'call through released memory')
                h = self.hooks.get('*indirect*')
                if h:
                    r = h(self, st, fr, ins, p, args)
                    if r is not None:
                        return self.model_ret(st, fr, ins, r[0])
                raise Stop('undecided', 'call through an unknown pointer %r' % (p,))
            f = self.m.fns[p.o[2:]]
        return self.invoke(st, fr, ins, f, args)

    i_invoke = i_call

    def invoke(self, st, fr, ins, f, args):
        h = self.models.get(f.name)
        if h is None:
            import models
            h = models.lookup(self, f)
            self.models[f.name] = h
        if self.hooks:
            k = self.hooks.get(f.dem) or self.hooks.get(f.name)
            if k:
                r = k(self, st, fr, ins, f, args)
                if r is not None:
                    return self.model_ret(st, fr, ins, r[0])
        if h:
            r = h(self, st, fr, ins, f, args)
            if r is not NotImplemented:
                if isinstance(r, tuple) and r and r[0] == '@':
                    return r[1]
                return self.model_ret(st, fr, ins, r)
        if f.decl:
            self.unknown[f.dem] = self.unknown.get(f.dem, 0) + 1
            raise Stop('undecided', 'call of %s, which has no model' % f.dem)
        # byval / sret are plain pointers here
        self.push(st, f, args, ins)
        return None

    def model_ret(self, st, fr, ins, v):
        return self.resume_call(st, fr, ins, v)

    # ---- exceptions
    def throw(self, st, ti, ptr=None, loc=None):
        """raise an exception of typeinfo name ti"""
        if ptr is None:
            ptr = P(self.alloc(st, 'exc', None, 'ext', ti))
        o = st.wobj(ptr.o)
        o.info = ti
        st.event('throw', ti, self.where(st))
        if self.on_throw:
            self.on_throw(st, ti)
        return self.unwind(st, ptr)

    def unwind(self, st, ptr):
        ti = st.obj(ptr.o).info
        while True:
            fr = st.frames[-1]
            if fr is None:
                return ('done', ('throw', ti, ptr))
            ins = fr.fn.blocks[fr.b].ins[fr.pc]
            if ins.op == 'invoke':
                pad = fr.fn.blocks[ins.succ[1]]
                lp = pad.ins[0]
                i = 0
                while lp.op != 'landingpad':
                    i += 1
                    lp = pad.ins[i]
                clauses, cleanup = lp.x
                sel = None
                for c in clauses:
                    if isinstance(c, (Agg,)) or not isinstance(c, P):
                        continue
                    if c is NULL or self.derives(ti, c.o[2:] if c.o else None):
                        sel = iconst(32, self.tid(c))
                        break
                if sel is None and any(isinstance(c, Agg) or isinstance(c, Undef) for c in clauses):
                    raise Stop('ub', 'exception leaves a function that may not throw')
                if sel is not None or cleanup:
                    fr.exc = Agg((ptr, sel if sel is not None else iconst(32, 0)))
                    return self.goto(st, fr, ins.succ[1])
            for a in fr.allocas:
                st.objs.pop(a, None)
            st.frames.pop()
            if st.stop is not None and len(st.frames) < st.stop[0]:
                # the loop's frame is left by the exception: go on outside
                st.event('loop-exit-by-exception')
                st.stop = None if st.stop is None else st.stop[3] if len(st.stop) > 3 else None

    def tid(self, c):
        return self.tids.setdefault(c.o if c is not NULL else 'all', len(self.tids) + 1)

    EXT = {'_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
           '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
           '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
           '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt18bad_variant_access': '_ZTISt9exception',
           '_ZTISt12bad_any_cast': '_ZTISt8bad_cast', '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception'}

    def bases(self, ti):
        if ti in self.EXT:
            return [self.EXT[ti]]
        g = self.m.globals.get(ti)
        if g is None or llvmc.isdecl(g):
            return []
        v = self.m.const(llvmc.ginit(g))
        return [x.o[2:] for x in list(v)[2:] if isinstance(x, P) and isinstance(x.o, str)]

    def derives(self, ti, base):
        if ti == base:
            return True
        return any(self.derives(b, base) for b in self.bases(ti))


class Ended:
    """a state with a final outcome inside a fork list"""
    def __init__(self, st, out):
        self.st, self.out = st, out


class _I64:
    k, w, size = 'i', 64, 8


REPO_SRC = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/'


def _explore(self, work):
    out = []
    while work:
        s = work.pop()
        if isinstance(s, Ended):
            out.append((s.st, s.out))
            continue
        r = self.advance(s)
        if r[0] == 'fork':
            work.extend(r[1])
        elif r[0] == 'end':
            out.append((s, r[1]))
    return out


Engine.explore = _explore
