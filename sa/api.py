"""Scenarios over the public interface, evaluated abstractly: build operands and tuples, decode programs, run them,
read results. Every step maps a set of abstract states to a set of abstract states."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, llvmc, interp, models
from dom import *
from llvmc import P, NULL, Agg, Undef
from interp import Engine, SV, Stop

I32, I64, BOOL, F32, F64, DEC, STR = 1, 2, 3, 4, 5, 6, 7
NAME = {1: 'INT32', 2: 'INT64', 3: 'BOOL', 4: 'FLOAT', 5: 'DOUBLE', 6: 'DECIMAL', 7: 'STRING'}
SUF = {1: 'i32', 2: 'i64', 3: 'bool', 4: 'f32', 5: 'f64', 7: 'str'}
VALUE_TYPES = (1, 2, 3, 4, 5, 7)


class Broken(Exception):
    pass


class World:
    def __init__(self, ndebug=True):
        bc, meta = build.build(ndebug)
        self.meta = meta
        self.m = llvmc.Module(bc)
        self.eng = Engine(self.m)
        e = self.eng
        st = e.new_state()
        self.inits = [f for f in self.m.fns.values() if f.name.startswith(('_GLOBAL__sub_I', '_GLOBAL__I_')) and not f.decl]
        for f in self.inits:
            r = e.call(st, f, [])
            if len(r) != 1 or r[0][1][0] != 'ret':
                raise Broken('static initialisation is not deterministic or fails: %r' % (r[0][1],))
            st = r[0][0]
        for id, o in list(st.objs.items()):
            if o.kind == 'stack' or not o.alive:
                del st.objs[id]
        self.init_state = st
        e.base_objs = dict(st.objs)
        self.size = {}
        self._thr = None
        for n in ('runner', 'rel', 'operand', 'tuple'):
            r = e.call(self.new(), self.fn('vd_sizeof_' + n), [])
            self.size[n] = r[0][1][1].c

    def thresholds(self, cap=1000):
        """the numbers the library's code compares counts with: {constant: a place}"""
        if self._thr is None:
            self._thr = {}
            for f in self.m.fns.values():
                if f.decl:
                    continue
                f = self.m.fn(f)
                ch = {p for p, t in zip(f.params, f.ptys) if getattr(t, 'w', 0) == 8}     # values that were bytes
                for b in f.blocks:
                    for ins in b.ins:
                        if ins.op in ('load', 'call', 'invoke') and getattr(ins.ty, 'w', 0) == 8 or ins.op in ('zext', 'sext', 'phi') and any(
                                isinstance(y, int) and y in ch for y in ins.a):
                            ch.add(ins.res)
                for b in f.blocks:
                    for ins in b.ins:
                        if ins.op not in ('icmp', 'urem', 'srem', 'udiv', 'sdiv', 'lshr', 'and') or any(isinstance(y, int) and y in ch for y in ins.a):
                            continue
                        for c in (y[0].c for y in ins.a if isinstance(y, tuple) and isinstance(y[0], Int) and not y[0].t and y[0].w >= 32):
                            if ins.op == 'lshr' and c < 10:
                                c = 1 << c
                            if ins.op == 'and':
                                c = c + 1 if c & (c + 1) == 0 else 0
                            if 1 < c <= 4096 and c not in self._thr:
                                l = self.m.loc(ins)
                                if l.startswith(interp.REPO_SRC):
                                    self._thr[c] = l
        return {c: l for c, l in self._thr.items() if c <= cap}

    def sizes(self, cap=130, base=(9, 16, 17, 33, 65)):
        """counts to examine: around every number the code compares something with, and a few more"""
        r = set(base)
        for c in self.thresholds(cap):
            r |= {c - 1, c, c + 1}
        return sorted(n for n in r if 1 < n <= cap + 1)

    def thread_local(self, name):
        g = self.m.globals.get(name)
        return bool(g and llvmc.tls(g))

    def shared_name(self, i):
        if isinstance(i, str) and i.startswith('g:'):
            return 'the static variable %s' % llvmc.demangle(i[2:])
        o = self.eng.base_objs.get(i)
        return 'an object created at load time (%s)' % (getattr(o, 'info', None) or i)

    def fn(self, name):
        f = self.m.fns.get(name)
        if f is None or f.decl:
            raise Broken('entry point %s vanished' % name)
        return f

    def new(self):
        s = self.eng.new_state()
        return s

    def call(self, st, name, *args):
        return self.eng.call(st, self.fn(name), list(args))

    def call1(self, st, name, *args):
        """a call expected to return on its only path"""
        r = self.call(st, name, *args)
        if len(r) != 1 or r[0][1][0] != 'ret':
            raise Failed(r)
        return r[0][0], r[0][1][1]

    def obj(self, st, size, kind='harness', info=None):
        return P(self.eng.alloc(st, kind, size, 'undef', info))

    # ---- operands
    def put_operand(self, st, p, v):
        """construct an operand at p: v is None (NULL) or (type, term); returns the state"""
        if v is None:
            return self.call1(st, 'vd_operand_null', p)[0]
        t, x = v
        if t == STR:
            s = self.obj(st, 32)
            models.init(self.eng, st, s, x)
            st = self.call1(st, 'vd_operand_text', p, s)[0]
            st.objs.pop(s.o)
            return st
        return self.call1(st, 'vd_operand_' + SUF[t], p, x)[0]

    def tuple(self, st, vals):
        """a heap allocated tuple; returns (state, pointer)"""
        st, t = self.call1(st, 'vd_tuple_new', iconst(64, len(vals)))
        for i, v in enumerate(vals):
            st, p = self.call1(st, 'vd_tuple_slot', t, iconst(64, i))
            st = self.put_operand(st, p, v)
        return st, t

    def sym(self, t, name):
        """a fresh value of a type"""
        if t == I32:
            return (t, isym(name, 32))
        if t == I64:
            return (t, isym(name, 64))
        if t == BOOL:
            return (t, isym(name, 1))
        if t == F32:
            return (t, fl('f32', 'sym', name))
        if t == F64:
            return (t, fl('f64', 'sym', name))
        if t == STR:
            return (t, ssym(name))
        raise KeyError(t)

    def read_operand(self, st, p, types=VALUE_TYPES):
        """[(state, None | (type, term) | ('bad', outcome))]"""
        out = []
        for s, o in self.call(st, 'vd_operand_eqnull', p):
            if o[0] != 'ret':
                out.append((s, ('bad', o)))
                continue
            isn = self.split_bool(s, o[1])
            for s2, b in isn:
                if b:
                    out.append((s2, None))
                    continue
                found = False
                for t in types:
                    if t == STR:
                        r = self.call(s2, 'vd_operand_text_of', p)
                    else:
                        r = self.call(s2, 'vd_value_' + SUF[t], p)
                    good = [(x, y[1]) for x, y in r if y[0] == 'ret']
                    rest = [(x, y) for x, y in r if y[0] != 'ret']
                    if good and not rest:
                        for x, v in good:
                            if t == STR:
                                try:
                                    v = models.content(self.eng, x, v)
                                except Stop as ex:
                                    out.append((x, ('bad', ex.out + ([],))))
                                    continue
                            out.append((x, (t, v)))
                        found = True
                        break
                    if any(y[0] != 'throw' for _, y in rest) or good:
                        out.append((s2, ('bad', rest[0][1])))
                        found = True
                        break
                if not found:
                    out.append((s2, ('bad', ('type', 'no type of the encoding'))))
        return out

    def split_bool(self, st, c):
        """partition on an i1 term: [(state, bool)]"""
        if isinstance(c, Undef):
            return [(st, None)]
        return self.split(st, lambda s: self.eng.branch(s, c))

    def split(self, st, f):
        """evaluate f(state), partitioning as it asks for: [(state, value)]"""
        out, work = [], [st]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > 4000:
                raise Stop('undecided', 'too many cases')
            try:
                out.append((s, f(s)))
            except Split as e:
                for alt in e.alts:
                    t = s.fork()
                    try:
                        alt(t)
                    except Infeasible:
                        continue
                    except Split as e2:
                        for a2 in e2.alts:
                            u = s.fork()
                            try:
                                a2(u)
                            except Infeasible:
                                continue
                            work.append(u)
                        continue
                    work.append(t)
            except Infeasible:
                pass
        return out

    # ---- code buffers
    def code(self, st, items, extra=0):
        """a byte buffer: items are ints or 8 bit terms; accesses beyond its end are violations"""
        id = self.eng.alloc(st, 'code', len(items), 'undef', 'the given code')
        o = st.wobj(id)
        for i, b in enumerate(items):
            o.cells[ml(i)] = (1, iconst(8, b) if isinstance(b, int) else b)
        return P(id)

    def runner(self, st):
        r = self.obj(st, self.size['runner'], 'harness', 'runner')
        st = self.call1(st, 'vd_runner_ctor', r)[0]
        return st, r

    def rel(self, st):
        r = self.obj(st, self.size['rel'], 'harness', 'relational runner')
        st = self.call1(st, 'vd_rel_ctor', r)[0]
        return st, r

    def decode(self, st, r, items, length=None, rel=False):
        p = self.code(st, items)
        n = length if length is not None else iconst(64, len(items))
        return p, self.call(st, 'vd_rel_decode' if rel else 'vd_runner_decode', r, p, n)

    def result_all(self, st, r):
        """GetAll: [(state, tuple pointer | ('bad', outcome))]"""
        return [(s, o[1] if o[0] == 'ret' else ('bad', o)) for s, o in self.call(st, 'vd_runner_getall', r)]

    def read_tuple(self, st, t, types=VALUE_TYPES):
        """[(state, [values])]; values as of read_operand"""
        st, n = self.call1(st, 'vd_tuple_size', t)
        if not is_const(n):
            raise Stop('undecided', 'tuple of unknown size')
        out = [(st, [])]
        for i in range(n.c):
            nxt = []
            for s, vs in out:
                s, p = self.call1(s, 'vd_tuple_at', t, iconst(64, i))
                for s2, v in self.read_operand(s, p, types):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out


class Failed(Exception):
    def __init__(self, r):
        Exception.__init__(self, repr([o for _, o in r][:2]))
        self.r = r


def varint(n):
    n &= (1 << 64) - 1
    out = []
    while True:
        b = n & 0x7f
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            return out


def var(t, i):
    return [0x30 | t] + varint(i)
