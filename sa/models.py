"""Transfer functions of the library routines the analysed code calls and whose bodies are not part of it (C and C++
runtime, libm, std::string). Everything else of libstdc++ is header code and is interpreted like the project's own."""
import re, math
from dom import *
import llvmc
from llvmc import P, NULL, Agg, Undef
import interp
from interp import Stop, SV

STRT = 'std::basic_string<char, std::char_traits<char>, std::allocator<char> >'


class BT:
    k, w, size, elems, offs, n = 'i', 8, 1, None, None, 0


class I32T:
    k, w, size, elems, offs, n = 'i', 32, 4, None, None, 0


# ------------------------------------------------------------------ string terms
EMPTY = slit(b'')


def t_sub(eng, st, t, off, n):
    """the part of t of n characters from off (both ML, in range)"""
    if not n.t and n.c == 0:
        return EMPTY
    L = eng.slen(st, t)
    if not off.t and off.c == 0 and (n is L or eng.dec_eq(st, ml_sub(n, L)) is True):
        return t
    if eng.dec_eq(st, n) is True:
        return EMPTY
    if t.op == 'sub':
        return t_sub(eng, st, t.args[0], ml_add(t.args[1], off), n)
    if t.op == 'mem':
        return mkstr('mem', t.args[0], ml_add(t.args[1], off), n)
    if t.op == 'fill':
        return mkstr('fill', n, t.args[1])
    if not off.t and not n.t:
        if t.op == 'lit':
            return slit(t.args[0][off.c:off.c + n.c])
        if t.op == 'chars':
            return t_chars(t.args[0][off.c:off.c + n.c])
    if t.op == 'cat':
        # inside one part, or a suffix/prefix on part boundaries
        segs, pos = [], ZERO
        end = ml_add(off, n)
        for x in t.args:
            lx = eng.slen(st, x)
            nx = ml_add(pos, lx)
            if st.lin.entails_ge0(ml_sub(pos, off)) and st.lin.entails_ge0(ml_sub(end, nx)):
                segs.append(x)
            elif st.lin.entails_ge0(ml_sub(off, nx)) or st.lin.entails_ge0(ml_sub(pos, end)):
                pass
            elif st.lin.entails_ge0(ml_sub(off, pos)) and st.lin.entails_ge0(ml_sub(nx, end)):
                return t_sub(eng, st, x, ml_sub(off, pos), n)
            elif st.lin.entails_ge0(ml_sub(off, pos)) and st.lin.entails_ge0(ml_sub(end, nx)):
                segs.append(t_sub(eng, st, x, ml_sub(off, pos), ml_sub(nx, off)))
            elif st.lin.entails_ge0(ml_sub(pos, off)) and st.lin.entails_ge0(ml_sub(nx, end)):
                segs.append(t_sub(eng, st, x, ZERO, ml_sub(end, pos)))
            else:
                break
            pos = nx
        else:
            return t_cat(eng, st, segs)
    return mkstr('sub', t, off, n)


def t_chars(cs):
    if all(is_const(c) for c in cs):
        return slit(bytes(c.c for c in cs))
    return mkstr('chars', tuple(cs))


def t_cat(eng, st, parts):
    out = []
    for p in parts:
        for x in (p.args if p.op == 'cat' else (p,)):
            n = eng.slen(st, x)
            if not n.t and n.c == 0:
                continue
            if out:
                y = out[-1]
                if x.op in ('lit', 'chars') and y.op in ('lit', 'chars'):
                    cs = lambda z: [iconst(8, b) for b in z.args[0]] if z.op == 'lit' else list(z.args[0])
                    out[-1] = t_chars(cs(y) + cs(x))
                    continue
                if x.op == y.op == 'sub' and x.args[0] is y.args[0] and ml_add(y.args[1], y.args[2]) is x.args[1]:
                    out[-1] = t_sub(eng, st, x.args[0], y.args[1], ml_add(y.args[2], x.args[2]))
                    continue
            out.append(x)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else mkstr('cat', *out)


def segments(eng, st, t):
    """normal form: list of (base, offset, length) without empty pieces"""
    out = []
    for x in (t.args if t.op == 'cat' else (t,)):
        b, o, n = (x.args if x.op == 'sub' else ('mem', x.args[0]) and (x.args[0], x.args[1], x.args[2]) if x.op == 'mem' else (x, ZERO, eng.slen(st, x)))
        z = eng.dec_eq(st, n)
        if z is True:
            continue
        if out and out[-1][0] is b and eng.dec_eq(st, ml_sub(ml_add(out[-1][1], out[-1][2]), o)) is True:
            out[-1] = (b, out[-1][1], ml_add(out[-1][2], n))
            continue
        out.append((b, o, n))
    return out


def canon(eng, st, t):
    """the same text without the pieces known to be empty"""
    if t.op == 'cat':
        xs = [x for x in t.args if eng.dec_eq(st, eng.slen(st, x)) is not True]
        if len(xs) < len(t.args):
            return canon(eng, st, xs[0]) if len(xs) == 1 else t_cat(eng, st, xs) if xs else EMPTY
    elif t.op == 'sub' and isinstance(t.args[0], Str) and eng.dec_eq(st, t.args[1]) is True and eng.dec_eq(st, ml_sub(eng.slen(st, t.args[0]), t.args[2])) is True:
        return canon(eng, st, t.args[0])
    return t


def same(eng, st, a, b):
    """True / False / None: do the two terms denote the same string in this state"""
    a, b = canon(eng, st, a), canon(eng, st, b)
    if a is b:
        return True
    if a.op in ('lit', 'chars') and b.op in ('lit', 'chars'):
        x = [iconst(8, c) for c in a.args[0]] if a.op == 'lit' else a.args[0]
        y = [iconst(8, c) for c in b.args[0]] if b.op == 'lit' else b.args[0]
        if len(x) != len(y):
            return False
        r = True
        for p, q in zip(x, y):
            if p is q:
                continue
            v = eng.decide(st, icmp('eq', p, q))
            if v is False:
                return False
            if v is None:
                r = None
        return r
    s, t = segments(eng, st, a), segments(eng, st, b)
    if len(s) == len(t):
        r = True
        for (b1, o1, n1), (b2, o2, n2) in zip(s, t):
            if b1 is b2 or b1 == b2:
                e1, e2 = eng.dec_eq(st, ml_sub(o1, o2)), eng.dec_eq(st, ml_sub(n1, n2))
                if e1 is True and e2 is True:
                    continue
            r = None
            break
        if r:
            return True
    la, lb = eng.slen(st, a), eng.slen(st, b)
    if eng.dec_eq(st, ml_sub(la, lb)) is False:
        return False
    k = skey(a, b)
    cur = eng.order(st, k[0], k[1], frozenset(('lt', 'eq', 'gt'))) if a is not b else None
    if cur is not None:
        if cur == {'eq'}:
            return True
        if 'eq' not in cur:
            return False
    return None


def skey(a, b):
    return (a, b, False) if a.id <= b.id else (b, a, True)


def unknown_str(eng, st, why, n=None):
    t = ssym(fresh('h:' + why))
    if n is not None:
        L = eng.slen(st, t)
        eng.lin_eq0(st, ml_sub(L, n))
    return t


def getsv(eng, st, p, what='read'):
    if not isinstance(p, P):
        eng.check_access(st, p, 32, what)
    o = eng.check_access(st, p, 32, what + ' of a string')
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[1], SV):
        f = eng.find(st, o, p.off, 32)
        if isinstance(f, tuple) and isinstance(f[1], SV):
            return f[1]
        if f is None and o.base == 'undef':
            raise Stop('ub', 'use of a string that was never constructed')
        raise Stop('undecided', 'string of unknown content')
    return c[1]


def content(eng, st, p):
    v = getsv(eng, st, p)
    return v_term(eng, st, v)


def v_term(eng, st, v):
    if v.did is not None:
        d = st.obj(v.did)
        if d is not None and d.cells:
            n = v.n
            if not n.t and n.c <= 64:
                return t_chars([eng.load(st, P(v.did, ml(i)), BT) for i in range(n.c)])
            return unknown_str(eng, st, 'written', n)
    return v.term


def setstr(eng, st, p, term, n=None):
    o = eng.check_access(st, p, 32, 'write')
    c = o.cells.get(p.off)
    if c is not None and isinstance(c[1], SV) and c[1].did is not None:
        d = st.wobj(c[1].did)
        if d is not None:
            d.alive = False
            d.cells = {}
    eng.store(st, p, 32, SV(None, n if n is not None else eng.slen(st, term), term))


def init(eng, st, p, term):
    eng.store(st, p, 32, SV(None, eng.slen(st, term), term))


def data_ptr(eng, st, p):
    v = getsv(eng, st, p)
    if v.did is None:
        did = eng.alloc(st, 'strdata', ml_add(v.n, ml(1)), ('str', v.term), 'characters of a string')
        st.memo[('owner', did)] = p
        eng.store(st, p, 32, SV(did, v.n, v.term))
        return P(did)
    return P(v.did)


def check_range(eng, st, p, n, what):
    """bounds of a symbolic range"""
    if not n.t:
        if n.c == 0:
            return st.obj(p.o) if isinstance(p, P) and p.o else None
        return eng.check_access(st, p, n.c, what)
    o = eng.check_access(st, P(p.o, p.off), 0, what)
    if o.size is not None:
        if not st.lin.entails_ge0(p.off) or not st.lin.entails_ge0(ml_sub(o.size, ml_add(p.off, n))):
            raise Stop('oob', '%s possibly out of bounds: offset %s, %s bytes, size %s of %s' % (what, p.off, n, o.size, eng.oname(o)), p, n, o.id)
    return o


def mem_term(eng, st, p, n):
    """content of n bytes of memory as a string term"""
    if not n.t and n.c == 0:
        return EMPTY
    if isinstance(p, P) and p.o == 0 and eng.dec_eq(st, n) is not True:
        z = eng.dec_eq(st, n)
        if z is None:
            raise Split([lambda s: eng.lin_eq0(s, n), lambda s: eng.lin_ne0(s, n)], 'empty')
    if eng.dec_eq(st, n) is True:
        return EMPTY
    o = check_range(eng, st, p, n, 'read')
    if eng.on_load:
        eng.on_load(st, p, n.c if not n.t else n, o)
    if isinstance(o.base, tuple) and o.base[0] == 'str' and not o.cells:
        return t_sub(eng, st, o.base[1], p.off, n)
    if not n.t and n.c <= 64:
        cs = []
        for i in range(n.c):
            b = eng.load(st, P(p.o, ml_add(p.off, ml(i))), BT)
            if isinstance(b, Undef):
                raise Stop('ub', 'uninitialised bytes become part of a string')
            cs.append(b)
        return t_chars(cs)
    if isinstance(o.base, tuple) and o.base[0] == 'bytes' and not o.cells:
        return mkstr('mem', o.base[1], p.off, n)
    if isinstance(o.base, tuple) and o.base[0] == 'bytes' and not any(True for k in o.cells if not outside(eng, st, k, o.cells[k][0], p.off, n)):
        return mkstr('mem', o.base[1], p.off, n)
    if not n.t and n.c <= 4096:
        return t_chars([eng.load(st, P(p.o, ml_add(p.off, ml(i))), BT) for i in range(n.c)])
    return unknown_str(eng, st, 'mem', n)


def outside(eng, st, k, kn, off, n):
    return st.lin.entails_ge0(ml_sub(k, ml_add(off, n))) or st.lin.entails_ge0(ml_sub(off, ml_add(k, ml(kn))))


def cstr_len(eng, st, p):
    """length of a NUL terminated string"""
    o = eng.check_access(st, p, 1, 'read')
    if o.kind == 'strdata' and not o.cells:
        t = o.base[1]
        # an embedded NUL is possible in symbolic text
        L = ml_sub(eng.slen(st, t), p.off)
        if t.op == 'lit':
            b = t.args[0][p.off.c:]
            return ml(b.index(0) if 0 in b else len(b))
        if not p.off.t and p.off.c == 0:
            if t.op == 'chars' and len(t.args[0]) <= 6:
                n = 0
                for c in t.args[0]:
                    z = icmp('eq', c, iconst(8, 0))
                    if eng.branch(st, z):
                        break
                    n += 1
                return ml(n)
            n = ml_var(atom('cstrlen', 64, t, lo=0, hi=(1 << 31) - 1))
            eng.lin_ge0(st, ml_sub(L, n))
            return n
        return L
    if isinstance(o.base, tuple) and o.base[0] == 'havoc':
        # a buffer filled by a summarised loop: the text ends at the latest at a byte known to be zero
        for k, c in o.cells.items():
            if c[0] == 1 and isinstance(c[1], Int) and c[1].w == 8 and not c[1].t and sconst(c[1]) == 0 and st.lin.entails_ge0(ml_sub(k, p.off)):
                n = atom('sym', 64, fresh('cstr'), lo=0, hi=1 << 40)
                r = st.lin.add_ge0(ml_sub(ml_sub(k, p.off), ml_var(n)))
                if r is None:
                    raise Infeasible()
                st.lin = r
                return ml_var(n)
    i = 0
    while True:
        b = eng.load(st, P(p.o, ml_add(p.off, ml(i))), BT)
        if isinstance(b, Undef):
            raise Stop('ub', 'uninitialised text')
        if eng.branch(st, icmp('eq', b, iconst(8, 0))):
            return ml(i)
        i += 1
        if i > 4096:
            raise Stop('undecided', 'unterminated text')


def compare3(eng, st, a, b):
    """'lt' 'eq' 'gt' of two string terms (bytewise), partitioning when it is not known"""
    a, b = canon(eng, st, a), canon(eng, st, b)
    s = same(eng, st, a, b)
    if s is True:
        return 'eq'
    if a.op == 'lit' and b.op == 'lit':
        return 'lt' if a.args[0] < b.args[0] else 'gt'
    if a.op in ('lit', 'chars') and b.op in ('lit', 'chars'):
        x = [iconst(8, c) for c in a.args[0]] if a.op == 'lit' else a.args[0]
        y = [iconst(8, c) for c in b.args[0]] if b.op == 'lit' else b.args[0]
        for p, q in zip(x, y):
            if eng.branch(st, icmp('eq', p, q)):
                continue
            return 'lt' if eng.branch(st, icmp('ult', p, q)) else 'gt'
        return 'lt' if len(x) < len(y) else 'gt' if len(x) > len(y) else 'eq'
    x, y, sw = skey(a, b)
    full = frozenset(('lt', 'eq', 'gt'))
    cur = eng.order(st, x, y, full)
    la, lb = eng.slen(st, x), eng.slen(st, y)
    if s is False:
        cur = cur - {'eq'}
    # the empty string is least
    if eng.dec_eq(st, la) is True:
        cur = cur - {'gt'}
        if eng.dec_eq(st, lb) is False:
            cur = cur - {'eq'}
    if eng.dec_eq(st, lb) is True:
        cur = cur - {'lt'}
        if eng.dec_eq(st, la) is False:
            cur = cur - {'eq'}
    if not cur:
        raise Infeasible()
    if len(cur) > 1:
        def alt(r):
            def f(s):
                s.ford = dict(s.ford)
                s.ford[(x, y)] = frozenset((r,))
                if r == 'eq':
                    eng.lin_eq0(s, ml_sub(la, lb))
            return f
        raise Split([alt(r) for r in sorted(cur)], 'text order')
    r = next(iter(cur))
    return FSW[r] if sw else r


def str_eq(eng, st, a, b):
    s = same(eng, st, a, b)
    if s is not None:
        return s
    if a.op in ('lit', 'chars') and b.op in ('lit', 'chars'):
        return compare3(eng, st, a, b) == 'eq'
    x, y, sw = skey(a, b)
    cur = eng.order(st, x, y, frozenset(('lt', 'eq', 'gt')))
    la, lb = eng.slen(st, x), eng.slen(st, y)

    def eq(s):
        s.ford = dict(s.ford)
        s.ford[(x, y)] = frozenset(('eq',))
        eng.lin_eq0(s, ml_sub(la, lb))

    def ne(s):
        s.ford = dict(s.ford)
        s.ford[(x, y)] = cur - {'eq'}
    raise Split([eq, ne], 'text equality')


R3 = {'lt': iconst(32, -1), 'eq': iconst(32, 0), 'gt': iconst(32, 1)}


# ------------------------------------------------------------------ std::string methods
def mlint(x):
    return ml_to_int(x, 64)


def pos_arg(eng, st, x):
    return eng.math(st, x, False)


def le(eng, st, a, b):
    """decide a <= b for ML, partitioning"""
    e = ml_sub(b, a)
    if st.lin.entails_ge0(e):
        return True
    n = ml(-e.c - 1, tuple((x, -y) for x, y in e.t))
    if st.lin.entails_ge0(n):
        return False
    raise Split([lambda s: eng.lin_ge0(s, e), lambda s: eng.lin_ge0(s, n)], 'order')


def mmin(eng, st, a, b):
    return a if le(eng, st, a, b) else b


def pieces(eng, st, t, pos, n):
    """bounds of a replacement: (pos, min(n, size - pos)) or None when pos is out of range"""
    L = eng.slen(st, t)
    if not le(eng, st, pos, L):
        return None
    return mmin(eng, st, n, ml_sub(L, pos))


OOR = '_ZTISt12out_of_range'
LEN = '_ZTISt12length_error'


def m_ctor(eng, st, fr, ins, f, a, args):
    if len(args) == 0 or len(args) == 1 and 'allocator' in args[0] and 'basic_string' not in args[0]:
        init(eng, st, a[0], EMPTY)
    elif args[0].startswith('STR const&'):
        t = content(eng, st, a[1])
        if len(args) == 1 or 'allocator' in args[1]:
            init(eng, st, a[0], t)
        else:
            pos = pos_arg(eng, st, a[2])
            n = pos_arg(eng, st, a[3]) if len(args) > 2 and 'unsigned long' in args[2] else eng.slen(st, t)
            m = pieces(eng, st, t, pos, n)
            if m is None:
                return ('@', eng.throw(st, OOR))
            init(eng, st, a[0], t_sub(eng, st, t, pos, m))
    elif args[0].startswith('STR&&'):
        init(eng, st, a[0], content(eng, st, a[1]))
        setstr(eng, st, a[1], EMPTY)
    elif args[0] == 'char const*' and len(args) > 1 and args[1] == 'unsigned long':
        n = pos_arg(eng, st, a[2])
        if isinstance(a[1], P) and a[1].o == 0:
            if not eng.branch(st, icmp('eq', a[2], iconst(64, 0))):
                return ('@', eng.throw(st, '_ZTISt11logic_error'))
        init(eng, st, a[0], mem_term(eng, st, a[1], n))
    elif args[0] == 'char const*' and (len(args) == 1 or 'allocator' in args[1]):
        if isinstance(a[1], P) and a[1].o == 0:
            return ('@', eng.throw(st, '_ZTISt11logic_error'))
        n = cstr_len(eng, st, a[1])
        init(eng, st, a[0], mem_term(eng, st, a[1], n))
    elif args[0] == 'unsigned long' and args[1] == 'char':
        n = pos_arg(eng, st, a[1])
        init(eng, st, a[0], fill(eng, st, n, a[2]))
    elif len(args) >= 2 and ('char' in args[0]) and args[0] == args[1] or len(args) >= 2 and 'iterator' in args[0]:
        if isinstance(a[1], P) and isinstance(a[2], P) and a[1].o == a[2].o:
            d = ml_sub(a[2].off, a[1].off)
            if not st.lin.entails_ge0(d):
                raise Stop('undecided', 'string built from a range of unknown direction')
            init(eng, st, a[0], mem_term(eng, st, a[1], d))
        else:
            raise Stop('undecided', 'string built from a general range')
    else:
        raise Stop('undecided', 'string constructor ' + f.dem)
    return None


def fill(eng, st, n, c):
    if not n.t and n.c <= 64:
        return t_chars([c] * n.c)
    if eng.dec_eq(st, n) is True:
        return EMPTY
    if not st.lin.entails_ge0(ml_sub(ml((1 << 47)), n)):
        raise Stop('undecided', 'string of unbounded size')
    st.event('size', n, eng.where(st))
    return mkstr('fill', n, c)


def arg_text(eng, st, args, a):
    """text denoted by the remaining arguments of append/assign/replace/insert"""
    k = args[0]
    if k.startswith(('STR const&', 'STR&&')):
        t = content(eng, st, a[0])
        if len(args) >= 2 and args[1] == 'unsigned long':
            pos = pos_arg(eng, st, a[1])
            n = pos_arg(eng, st, a[2]) if len(args) > 2 else eng.slen(st, t)
            m = pieces(eng, st, t, pos, n)
            if m is None:
                return None
            return t_sub(eng, st, t, pos, m)
        return t
    if k == 'char const*' and len(args) > 1 and args[1] == 'unsigned long':
        return mem_term(eng, st, a[0], pos_arg(eng, st, a[1]))
    if k in ('char const*', 'char*') and len(args) > 1 and args[1] == k or 'iterator' in k and len(args) > 1 and args[1] == k:
        if isinstance(a[0], P) and isinstance(a[1], P) and a[0].o == a[1].o:
            d = ml_sub(a[1].off, a[0].off)
            if st.lin.entails_ge0(d):
                return mem_term(eng, st, a[0], d)
        raise Stop('undecided', 'text from a general range')
    if k == 'char const*':
        return mem_term(eng, st, a[0], cstr_len(eng, st, a[0]))
    if k == 'unsigned long' and len(args) > 1 and args[1] == 'char':
        return fill(eng, st, pos_arg(eng, st, a[0]), a[1])
    if k == 'char':
        return t_chars([a[0]])
    raise Stop('undecided', 'text argument ' + k)


def m_append(eng, st, fr, ins, f, a, args):
    t = content(eng, st, a[0])
    x = arg_text(eng, st, args, a[1:])
    if x is None:
        return ('@', eng.throw(st, OOR))
    setstr(eng, st, a[0], t_cat(eng, st, [t, x]))
    return a[0]


def m_assign(eng, st, fr, ins, f, a, args):
    x = arg_text(eng, st, args, a[1:])
    if x is None:
        return ('@', eng.throw(st, OOR))
    if args[0].startswith('STR') and a[1] is a[0]:
        return a[0]
    setstr(eng, st, a[0], x)
    if args[0].startswith('STR&&'):
        setstr(eng, st, a[1], EMPTY)
    return a[0]


def m_erase(eng, st, fr, ins, f, a, args):
    t = content(eng, st, a[0])
    L = eng.slen(st, t)
    if args and 'iterator' in args[0]:
        d = data_ptr(eng, st, a[0])
        if not isinstance(a[1], P) or a[1].o != d.o:
            raise Stop('ub', 'iterator of another string')
        pos = a[1].off
        n = ml_sub(a[2].off, a[1].off) if len(args) > 1 else ml(1)
        m = n
        if not (st.lin.entails_ge0(pos) and st.lin.entails_ge0(n) and st.lin.entails_ge0(ml_sub(L, ml_add(pos, n)))):
            raise Stop('undecided', 'erase of an unknown range')
    else:
        pos = pos_arg(eng, st, a[1]) if len(a) > 1 else ZERO
        m = pieces(eng, st, t, pos, pos_arg(eng, st, a[2]) if len(a) > 2 else L)
        if m is None:
            return ('@', eng.throw(st, OOR))
    e = ml_add(pos, m)
    setstr(eng, st, a[0], t_cat(eng, st, [t_sub(eng, st, t, ZERO, pos), t_sub(eng, st, t, e, ml_sub(L, e))]))
    if args and 'iterator' in args[0]:
        return P(data_ptr(eng, st, a[0]).o, pos)
    return a[0]


def m_insert(eng, st, fr, ins, f, a, args):
    if args[0] != 'unsigned long':
        raise Stop('undecided', 'insert through iterators')
    t = content(eng, st, a[0])
    pos = pos_arg(eng, st, a[1])
    m = pieces(eng, st, t, pos, ZERO)
    if m is None:
        return ('@', eng.throw(st, OOR))
    x = arg_text(eng, st, args[1:], a[2:])
    if x is None:
        return ('@', eng.throw(st, OOR))
    L = eng.slen(st, t)
    setstr(eng, st, a[0], t_cat(eng, st, [t_sub(eng, st, t, ZERO, pos), x, t_sub(eng, st, t, pos, ml_sub(L, pos))]))
    return a[0]


def m_replace(eng, st, fr, ins, f, a, args):
    t = content(eng, st, a[0])
    L = eng.slen(st, t)
    if 'iterator' in args[0]:
        d = data_ptr(eng, st, a[0])
        pos, n = a[1].off, ml_sub(a[2].off, a[1].off)
    else:
        pos, n = pos_arg(eng, st, a[1]), pos_arg(eng, st, a[2])
    x = arg_text(eng, st, args[2:], a[3:])
    m = pieces(eng, st, t, pos, n)
    if m is None or x is None:
        return ('@', eng.throw(st, OOR))
    e = ml_add(pos, m)
    setstr(eng, st, a[0], t_cat(eng, st, [t_sub(eng, st, t, ZERO, pos), x, t_sub(eng, st, t, e, ml_sub(L, e))]))
    return a[0]


def m_substr(eng, st, fr, ins, f, a, args):
    # sret, this, pos, n
    t = content(eng, st, a[1])
    pos = pos_arg(eng, st, a[2])
    m = pieces(eng, st, t, pos, pos_arg(eng, st, a[3]))
    if m is None:
        return ('@', eng.throw(st, OOR))
    init(eng, st, a[0], t_sub(eng, st, t, pos, m))
    return None


def m_compare(eng, st, fr, ins, f, a, args):
    t = content(eng, st, a[0])
    if args[0].startswith('STR const&') and len(args) == 1 or args[0] == 'char const*' and len(args) == 1:
        x = arg_text(eng, st, args, a[1:])
        return R3[compare3(eng, st, t, x)]
    if args[0] == 'unsigned long':
        m = pieces(eng, st, t, pos_arg(eng, st, a[1]), pos_arg(eng, st, a[2]))
        if m is None:
            return ('@', eng.throw(st, OOR))
        s = t_sub(eng, st, t, pos_arg(eng, st, a[1]), m)
        x = arg_text(eng, st, args[2:], a[3:])
        return R3[compare3(eng, st, s, x)]
    raise Stop('undecided', 'compare ' + f.dem)


def m_size(eng, st, fr, ins, f, a, args):
    return mlint(getsv(eng, st, a[0]).n)


def m_capacity(eng, st, fr, ins, f, a, args):
    # any number from the size on: the same one as long as the object and its size are the same
    v = getsv(eng, st, a[0])
    if not eng.m.loc(ins).startswith(interp.REPO_SRC):
        return mlint(v.n)       # within the standard library it decides between ways to the same content
    k = ('capacity', a[0], v.n)
    r = st.memo.get(k)
    if r is None:
        r = st.memo[k] = of_atom(atom('sym', 64, fresh('capacity'), lo=0, hi=1 << 47))
        m = eng.math(st, r, False)
        eng.lin_ge0(st, ml_sub(m, v.n))
        eng.lin_ge0(st, ml_add(m, ml(-15)))
        eng.lin_ge0(st, ml_sub(ml(1 << 47), m))
    return r


def m_data(eng, st, fr, ins, f, a, args):
    return data_ptr(eng, st, a[0])


def m_dtor(eng, st, fr, ins, f, a, args):
    v = getsv(eng, st, a[0], 'destruction')
    if v.did is not None:
        d = st.wobj(v.did)
        if d is not None:
            d.alive = False
            d.cells = {}
    o = st.wobj(a[0].o)
    o.cells.pop(a[0].off, None)
    return None


def m_resize(eng, st, fr, ins, f, a, args):
    t = content(eng, st, a[0])
    L = eng.slen(st, t)
    n = pos_arg(eng, st, a[1])
    c = a[2] if len(args) > 1 else iconst(8, 0)
    if le(eng, st, n, L):
        setstr(eng, st, a[0], t_sub(eng, st, t, ZERO, n))
    else:
        setstr(eng, st, a[0], t_cat(eng, st, [t, fill(eng, st, ml_sub(n, L), c)]))
    return None


def m_clear(eng, st, fr, ins, f, a, args):
    setstr(eng, st, a[0], EMPTY)
    return None


def m_pop(eng, st, fr, ins, f, a, args):
    t = content(eng, st, a[0])
    L = eng.slen(st, t)
    if not le(eng, st, ml(1), L):
        raise Stop('ub', 'pop_back of an empty string')
    setstr(eng, st, a[0], t_sub(eng, st, t, ZERO, ml_sub(L, ml(1))))
    return None


def m_swap(eng, st, fr, ins, f, a, args):
    x, y = content(eng, st, a[0]), content(eng, st, a[1])
    setstr(eng, st, a[0], y)
    setstr(eng, st, a[1], x)
    return None


def m_flno(eng, st, fr, ins, f, a, args):
    """the find family: decided character by character where the characters are known, otherwise a position or npos"""
    t = content(eng, st, a[0])
    nm = f.dem.split('(')[0].split('::')[-1].split('[')[0]
    k = args[0]
    if k == 'char':
        pat = t_chars([a[1]])
        pos = a[2]
    elif k == 'char const*' and len(args) == 3:
        pat = mem_term(eng, st, a[1], pos_arg(eng, st, a[3]))
        pos = a[2]
    else:
        pat = arg_text(eng, st, args[:1], a[1:2])
        pos = a[2]
    if nm in ('find', 'rfind') and k == 'char':
        nm = {'find': 'find_first_of', 'rfind': 'find_last_of'}[nm]
    if pat.op == 'lit' and is_const(pos):
        if t.op == 'lit':
            return iconst(64, find_const(nm, t.args[0], pat.args[0], pos.c))
        if t.op == 'chars' and nm not in ('find', 'rfind'):
            cs, bs, no = t.args[0], frozenset(pat.args[0]), nm.endswith('_not_of')
            idx = range(pos.c, len(cs)) if 'first' in nm else range(min(pos.c, len(cs) - 1), -1, -1)
            for i in idx:
                c = cs[i]
                hit = (c.c & 0xff) in bs if is_const(c) else bool(bs) and csplit(eng, st, c, lambda v: (v & 0xff) in bs)
                if hit != no:
                    return iconst(64, i)
            return iconst(64, -1)
    if pat.op != 'lit':
        raise Stop('undecided', 'search for an unknown text')
    L = eng.slen(st, t)
    r = of_atom(atom('find', 64, nm, t, pat, pos, lo=-1, hi=(1 << 31) - 1))
    e = ml_var(single(r))
    eng.lin_ge0(st, ml_sub(L if nm in ('find', 'rfind') and not pat.args[0] else ml_sub(L, ml(1)), e))
    if nm == 'find_last_not_of' and t.op == 'fmt' and any(x[0] == 'float' for x in t.args) and pat.args[0] == b'0' and is_const(pos) and sconst(pos) == -1:
        # a number in fixed notation contains a decimal point
        eng.lin_ge0(st, e)
    return r


def find_const(nm, t, pat, pos):
    """the find family on known texts; -1 for npos"""
    pos &= (1 << 64) - 1
    if nm == 'find':
        return t.find(pat, pos) if pos <= len(t) else -1
    if nm == 'rfind':
        return t.rfind(pat, 0, min(pos, len(t)) + len(pat)) if len(pat) <= len(t) else -1
    no = nm.endswith('_not_of')
    for i in range(pos, len(t)) if 'first' in nm else range(min(pos, len(t) - 1), -1, -1):
        if (t[i] in pat) != no:
            return i
    return -1


def m_reserve(eng, st, fr, ins, f, a, args):
    getsv(eng, st, a[0])
    if args:
        st.event('size', eng.math(st, a[1], False), eng.where(st))
    return None


def m_push(eng, st, fr, ins, f, a, args):
    t = content(eng, st, a[0])
    setstr(eng, st, a[0], t_cat(eng, st, [t, t_chars([a[1]])]))
    return None


METHODS = {'basic_string': m_ctor, '~basic_string': m_dtor, 'append': m_append, 'operator+=': m_append, 'push_back': m_push, 'assign': m_assign,
           'operator=': m_assign, 'erase': m_erase, 'insert': m_insert, 'replace': m_replace, 'substr': m_substr, 'compare': m_compare, 'size': m_size,
           'length': m_size, 'data': m_data, 'c_str': m_data, '_M_data': m_data, 'resize': m_resize, 'clear': m_clear, 'pop_back': m_pop, 'swap': m_swap,
           'find_last_not_of': m_flno, 'find_first_not_of': m_flno, 'find': m_flno, 'rfind': m_flno, 'find_first_of': m_flno, 'find_last_of': m_flno,
           'reserve': m_reserve, 'shrink_to_fit': m_reserve, 'capacity': m_capacity}
# thin wrappers over the above, interpreted from their headers
RAW = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'operator[]', 'at', 'front', 'back', 'empty', 'get_allocator', '_M_get_allocator',
       'max_size', '_M_check', '_M_limit', '_S_compare', '_S_copy_chars', '_S_copy', '_S_assign', 'operator basic_string_view', '_M_check_length'}


def split_args(s):
    """(name, [args]) of 'name(args) const'"""
    d = 0
    i = s.rfind(')')
    j = i
    while j >= 0:
        if s[j] == ')':
            d += 1
        elif s[j] == '(':
            d -= 1
            if d == 0:
                break
        j -= 1
    name, inner = s[:j], s[j + 1:i]
    args, d, cur = [], 0, ''
    for c in inner:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            args.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        args.append(cur.strip())
    return name, args


def norm_args(args):
    out = []
    for x in args:
        x = x.replace('STR::', '')
        x = {'size_type': 'unsigned long', 'value_type const*': 'char const*'}.get(x, x)
        out.append(x)
    return out


def string_method(f, d):
    i = d.find('STR::')
    # the method itself must be of the string class, not a parameter
    name, args = split_args(d)
    if 'STR::' not in name:
        return None
    m = name[name.index('STR::') + 5:]
    m = re.sub(r'<.*$', '', m) if not m.startswith('operator') else m
    if m in RAW:
        return None
    if m.startswith('_Alloc_hider') or m.startswith('_M_construct<') and False:
        return h_undecided
    h = METHODS.get(m)
    if h is None:
        return h_undecided
    args = norm_args(args)
    return lambda eng, st, fr, ins, f, a: h(eng, st, fr, ins, f, a, args)


def h_undecided(eng, st, fr, ins, f, a):
    raise Stop('undecided', 'string internals: ' + f.dem[:120])


def h_noop(eng, st, fr, ins, f, a):
    return None


def h_self(eng, st, fr, ins, f, a):
    return a[0] if a else None


def h_streq(eng, st, fr, ins, f, a):
    return iconst(1, int(str_eq(eng, st, content(eng, st, a[0]), content(eng, st, a[1]))))


def h_strne(eng, st, fr, ins, f, a):
    return iconst(1, int(not str_eq(eng, st, content(eng, st, a[0]), content(eng, st, a[1]))))


def h_streq_c(eng, st, fr, ins, f, a):
    t = mem_term(eng, st, a[1], cstr_len(eng, st, a[1]))
    return iconst(1, int(str_eq(eng, st, content(eng, st, a[0]), t)))


# ------------------------------------------------------------------ numbers as text
def h_to_string(eng, st, fr, ins, f, a):
    v = a[1]
    if isinstance(v, Fl):
        init(eng, st, a[0], mkstr('num', f.dem, v))
    else:
        if is_const(v):
            sg = 'unsigned' not in f.dem
            init(eng, st, a[0], slit(str(sconst(v) if sg else v.c).encode()))
        else:
            init(eng, st, a[0], decimal(v, 'unsigned' not in f.dem))
    return None


def decimal(v, signed=True):
    """decimal rendering of an integer term (its mathematical value)"""
    s = single(v)
    if s is not None and s.kind == 'sext' and signed:
        v = s.args[0]
    return mkstr('dec', v, signed)


def strto(kind):
    def h(eng, st, fr, ins, f, a):
        p = a[0]
        n = cstr_len(eng, st, p)
        o = st.obj(p.o)
        t = o.base[1] if o.kind == 'strdata' and not o.cells and not p.off.t and p.off.c == 0 else None
        if t is None:
            t = mem_term(eng, st, p, n)
        base = a[2].c if kind in ('strtol', 'strtoll') and is_const(a[2]) else 10 if kind in ('strtol', 'strtoll') else 0
        nm = {'strtoll': 'strtol'}.get(kind, kind)
        k = atom('parsed', 64, nm, t, base, lo=0, hi=(1 << 31) - 1)
        e = ml_var(k)
        z = eng.dec_eq(st, e)
        if z is None:
            raise Split([lambda s: eng.lin_eq0(s, e), lambda s: eng.lin_ge0(s, ml_sub(e, ml(1)))], 'leading number')
        if isinstance(a[1], P) and a[1].o != 0:
            # consumed characters: within the text
            eng.lin_ge0(st, ml_sub(eng.slen(st, t), e))
            eng.store(st, a[1], 8, P(p.o, ml_add(p.off, e)))
        if z is True:
            return iconst(64, 0) if nm == 'strtol' else fconst('f32' if nm == 'strtof' else 'f64', 0.0)
        r = atom('range', 1, nm, t, base)
        v = st.bools.get(r)
        if v is None:
            raise Split([lambda s: eng.assume_atom(s, r, True), lambda s: eng.assume_atom(s, r, False)], 'range of the number')
        if v:
            eng.store(st, errno(eng, st), 4, iconst(32, 34))
        if nm == 'strtol':
            return of_atom(atom('strtol', 64, t, base))
        return fl('f32' if nm == 'strtof' else 'f64', nm, t)
    return h


def errno(eng, st):
    if st.obj('errno') is None:
        st.objs['errno'] = interp.new_obj('errno', 'errno', ml(4), 'ext', st.tok, None)
    return P('errno')


def h_errno(eng, st, fr, ins, f, a):
    return errno(eng, st)


# ------------------------------------------------------------------ streams (content only)
def stream_items(eng, st, p):
    o = eng.check_access(st, p, 8, 'read')
    c = o.cells.get(p.off)
    if c is None or not isinstance(c[1], tuple) or not c[1] or c[1][0] != 'stream':
        return None
    return c[1]


def h_stream_ctor(eng, st, fr, ins, f, a):
    o = eng.check_access(st, a[0], 8, 'write')
    if eng.on_store:
        eng.on_store(st, a[0], 8, o, None)
    st.wobj(a[0].o).cells[a[0].off] = (8, ('stream',))
    return None


def find_stream(eng, st, p):
    """a stringstream reached through one of its bases"""
    if not isinstance(p, P):
        return None
    o = st.obj(p.o)
    if o is None:
        return None
    for k, c in o.cells.items():
        if isinstance(c[1], tuple) and c[1] and c[1][0] == 'stream':
            return P(p.o, k)
    return None


def put_item(eng, st, p, it):
    q = find_stream(eng, st, p)
    if q is not None:
        o = st.wobj(q.o)
        if eng.on_store:
            eng.on_store(st, q, 8, o, None)
        o.cells[q.off] = (8, o.cells[q.off][1] + (it,))


def h_insert(kind):
    def h(eng, st, fr, ins, f, a):
        v = a[1] if len(a) > 1 else None
        if kind == 'text':
            v = mem_term(eng, st, a[1], eng.math(st, a[2], False))
        k = 'float' if isinstance(v, Fl) else kind
        put_item(eng, st, a[0], (k, v))
        return a[0]
    return h


def h_stream_op(eng, st, fr, ins, f, a):
    """operator<< variants"""
    d = f.dem.replace(STRT, 'STR')
    if 'ios_base& (*)' in d or '(*)' in d:
        put_item(eng, st, a[0], ('manip', repr(a[1])))
    elif len(a) > 1:
        v = a[1]
        if isinstance(v, P):
            if 'char const*' in d:
                v = mem_term(eng, st, v, cstr_len(eng, st, v))
            elif 'STR const&' in d:
                v = content(eng, st, v)
            put_item(eng, st, a[0], ('text', v))
        else:
            put_item(eng, st, a[0], ('float' if isinstance(v, Fl) else 'int', v))
    return a[0]


def h_stream_str(eng, st, fr, ins, f, a):
    if f.dem.replace(STRT, 'STR').endswith('str(STR const&)'):
        q = find_stream(eng, st, a[0])
        if q is not None:
            c = st.wobj(q.o).cells
            if eng.on_store:
                eng.on_store(st, q, 8, st.obj(q.o), None)
            c[q.off] = (8, ('stream',) + tuple(x for x in c[q.off][1][1:] if x[0] == 'manip') + (('text', content(eng, st, a[1])),))
        return None
    q = find_stream(eng, st, a[1])
    items = st.obj(q.o).cells[q.off][1][1:] if q is not None else None
    if items is None:
        init(eng, st, a[0], unknown_str(eng, st, 'stream'))
        return None
    if all(k == 'text' for k, v in items):
        init(eng, st, a[0], t_cat(eng, st, [v for k, v in items]))
    else:
        init(eng, st, a[0], mkstr('fmt', *items))
    return None


def h_stream_dtor(eng, st, fr, ins, f, a):
    return None


# ------------------------------------------------------------------ memory
def h_new(kind):
    def h(eng, st, fr, ins, f, a):
        n = eng.math(st, a[0], False)
        if n.t and not st.lin.entails_ge0(ml_sub(ml((1 << 47)), n)):
            # an absurd size fails
            e = ml_sub(ml(1 << 40), n)
            if not le(eng, st, n, ml(1 << 40)):
                return ('@', eng.throw(st, '_ZTISt9bad_alloc'))
        elif not n.t and n.c > 1 << 40:
            return ('@', eng.throw(st, '_ZTISt9bad_alloc'))
        id = eng.alloc(st, 'heap', n, 'undef', kind)
        st.event('alloc', id, kind, eng.where(st))
        return P(id)
    return h


def h_delete(kind):
    def h(eng, st, fr, ins, f, a):
        p = a[0]
        if isinstance(p, Undef):
            raise Stop('ub', 'release of an uninitialised pointer')
        if not isinstance(p, P):
            raise Stop('undecided', 'release of a computed address')
        if p.o == 0:
            return None
        o = st.obj(p.o)
        if o is None:
            raise Stop('ub', 'release of an object whose lifetime has ended')
        if o.base == 'maybe' or p.o.startswith('h:'):
            raise Stop('undecided', 'release of an unknown object')
        if not o.alive:
            raise Stop('ub', 'second release of %s' % (o.info or p.o), 'double')
        if o.kind != 'heap':
            raise Stop('ub', 'release of something that was not allocated (%s)' % eng.oname(o))
        if p.off.t or p.off.c:
            raise Stop('ub', 'release of an address inside an object')
        if p.o in eng.base_objs:
            raise Stop('ub', 'release of an object shared by all runners', 'shared')
        if o.info in ('new', 'new[]') and o.info != kind:
            raise Stop('ub', 'memory from %s released by %s' % (o.info, 'delete' if kind == 'new' else 'delete[]'))
        st.event('free', p.o, eng.where(st))
        w = st.wobj(p.o)
        w.alive = False
        w.cells = {}
        return None
    return h


def const_n(eng, st, x):
    n = eng.math(st, x, False)
    return n


def h_memcpy(eng, st, fr, ins, f, a):
    d, s, n = a[0], a[1], eng.math(st, a[2], False)
    if n.t:
        lo, hi = st.lin.interval(n)
        z = eng.dec_eq(st, n)
        if z is True:
            return a[0]
        vs = eng.values(st, a[2])
        if vs is not None and len(vs) <= 16:
            eng.pick(st, a[2], vs)
        if z is None:
            raise Split([lambda s: eng.lin_eq0(s, n), lambda s: eng.lin_ne0(s, n)], 'empty copy')
        so = check_range(eng, st, s, n, 'read')
        if eng.on_load:
            eng.on_load(st, s, n, so)
        do = check_range(eng, st, d, n, 'write')
        if eng.on_store:
            eng.on_store(st, d, n, do, None)
        # content unknown afterwards
        w = st.wobj(d.o)
        for k in list(w.cells):
            if not outside(eng, st, k, w.cells[k][0], d.off, n):
                del w.cells[k]
        w.base = ('havoc', fresh('copy'))
        return a[0]
    if n.c == 0:
        return a[0]
    eng.copy(st, d, s, n.c)
    return a[0]


def h_memset(eng, st, fr, ins, f, a):
    p, v, n = a[0], a[1], eng.math(st, a[2], False)
    if v.w > 8:
        v = trunc(v, 8)
    if n.t:
        o = check_range(eng, st, p, n, 'write')
        if eng.on_store:
            eng.on_store(st, p, n, o, None)
        w = st.wobj(p.o)
        if not w.cells and is_const(v) and v.c == 0 and not p.off.t and p.off.c == 0:
            w.base = 'zero'
            return a[0]
        for k in list(w.cells):
            if not outside(eng, st, k, w.cells[k][0], p.off, n):
                del w.cells[k]
        w.base = ('havoc', fresh('set'))
        return a[0]
    if n.c == 0:
        return a[0]
    o = eng.check_access(st, p, n.c, 'write')
    if eng.on_store:
        eng.on_store(st, p, n.c, o, None)
    if o.kind == 'const':
        raise Stop('ub', 'write to a constant')
    w = st.wobj(p.o)
    for k in list(w.cells):
        d = ml_sub(k, p.off)
        if d.t:
            raise Stop('undecided', 'symbolic overlap in memset')
        if d.c + w.cells[k][0] > 0 and d.c < n.c:
            if d.c < 0 or d.c + w.cells[k][0] > n.c:
                raise Stop('undecided', 'memset across a value')
            del w.cells[k]
    if is_const(v) and v.c == 0 and not p.off.t and p.off.c == 0 and o.size is not None and not o.size.t and o.size.c == n.c:
        w.base = 'zero'
        return a[0]
    # word sized pieces
    i = 0
    while i < n.c:
        k = 8 if n.c - i >= 8 and is_const(v) else 4 if n.c - i >= 4 and is_const(v) else 1
        x = iconst(8 * k, int.from_bytes(bytes((v.c,)) * k, 'little')) if is_const(v) else v
        w.cells[ml_add(p.off, ml(i))] = (k, x)
        i += k
    return a[0]


def zero_value(v):
    return v is NULL or isinstance(v, P) and v.o == 0 and not v.off.t and v.off.c == 0 or isinstance(v, Int) and is_const(v) and v.c == 0


def h_fill(eng, st, fr, ins, f, a):
    # std::fill with a zero of the rest of a fresh buffer of unknown length; everything else is interpreted
    if len(a) != 3 or not all(isinstance(p, P) for p in a) or a[0].o != a[1].o or not isinstance(a[0].o, str):
        return NotImplemented
    n = ml_sub(a[1].off, a[0].off)
    vo = st.obj(a[2].o)
    if not n.t or vo is None:
        return NotImplemented
    c = vo.cells.get(a[2].off)
    o = st.obj(a[0].o)
    if c is None or not zero_value(c[1]) or o is None or o.base not in ('undef', 'zero') or o.size is None or a[0].off.t:
        return NotImplemented
    if ml_sub(o.size, a[1].off).t or ml_sub(o.size, a[1].off).c:
        return NotImplemented
    done = 0
    for k, x in sorted(o.cells.items(), key=lambda e: e[0].c):
        if k.t or k.c != done or not zero_value(x[1]):
            return NotImplemented
        done += x[0]
    if done != a[0].off.c:
        return NotImplemented
    check_range(eng, st, a[0], n, 'write')
    w = st.wobj(a[0].o)
    w.base = 'zero'
    return None


def h_memcmp(eng, st, fr, ins, f, a):
    n = eng.math(st, a[2], False)
    x, y = mem_term(eng, st, a[0], n), mem_term(eng, st, a[1], n)
    return R3[compare3(eng, st, x, y)]


def h_strlen(eng, st, fr, ins, f, a):
    return mlint(cstr_len(eng, st, a[0]))


def h_strcmp(eng, st, fr, ins, f, a):
    if a[0] is a[1]:
        return iconst(32, 0)
    x = mem_term(eng, st, a[0], cstr_len(eng, st, a[0]))
    y = mem_term(eng, st, a[1], cstr_len(eng, st, a[1]))
    return R3[compare3(eng, st, x, y)]


def h_hash_bytes(eng, st, fr, ins, f, a):
    n = eng.math(st, a[1], False)
    p = a[0]
    if not n.t and n.c in (1, 2, 4, 8):
        o = eng.check_access(st, p, n.c, 'read')
        if not (isinstance(o.base, tuple) and o.base[0] == 'str'):
            class T:
                k, w, size = 'i', 8 * n.c, n.c
            v = eng.load(st, p, T)
            if not isinstance(v, Undef):
                return of_atom(atom('hash', 64, v, a[2]))
    return of_atom(atom('hash', 64, mem_term(eng, st, p, n), a[2]))


# ------------------------------------------------------------------ exceptions
def h_alloc_exc(eng, st, fr, ins, f, a):
    return P(eng.alloc(st, 'exc', eng.math(st, a[0], False), 'undef', None))


def h_throw(eng, st, fr, ins, f, a):
    return ('@', eng.throw(st, a[1].o[2:], a[0]))


def h_begin_catch(eng, st, fr, ins, f, a):
    st.caught.append(a[0])
    return a[0]


def h_end_catch(eng, st, fr, ins, f, a):
    if st.caught:
        st.caught.pop()
    return None


def h_rethrow(eng, st, fr, ins, f, a):
    if not st.caught:
        raise Stop('ub', 'rethrow without an exception')
    p = st.caught[-1]
    return ('@', eng.unwind(st, p))


def h_throw_std(ti):
    def h(eng, st, fr, ins, f, a):
        return ('@', eng.throw(st, ti))
    return h


def h_typeid(eng, st, fr, ins, f, a):
    return iconst(32, eng.tid(a[0]))


def h_terminate(eng, st, fr, ins, f, a):
    raise Stop('ub', 'std::terminate is called')


def h_trap(eng, st, fr, ins, f, a):
    raise Stop('ub', 'trap')


# ------------------------------------------------------------------ arithmetic
def h_fabs(eng, st, fr, ins, f, a):
    x = a[0]
    if isinstance(x, Undef):
        return x
    if x.op == 'const':
        return fconst(x.ty, abs(x.args[0]))
    if x.op == 'fneg':
        x = x.args[0]
    if x.op == 'fabs':
        return x
    return fl(x.ty, 'fabs', x)


def h_iabs(eng, st, fr, ins, f, a):
    x = a[0]
    if isinstance(x, Undef):
        return x
    if eng.branch(st, icmp('slt', x, iconst(x.w, 0))):
        return scale(x, -1)
    return x


def h_minmax(p):
    def h(eng, st, fr, ins, f, a):
        return a[0] if eng.branch(st, icmp(p, a[0], a[1])) else a[1]
    return h


def h_expect(eng, st, fr, ins, f, a):
    return a[0]


def h_assume(eng, st, fr, ins, f, a):
    return None


def h_umul_o(eng, st, fr, ins, f, a):
    x, y = a
    w = x.w
    if not is_const(y):
        x, y = y, x
    if is_const(x) and is_const(y):
        v = x.c * y.c
        return Agg((iconst(w, v), iconst(1, int(v > MASK(w)))))
    if is_const(y):
        # overflow iff x > max / y
        if y.c == 0:
            return Agg((iconst(w, 0), iconst(1, 0)))
        return Agg((mul(x, y), icmp('ugt', x, iconst(w, MASK(w) // y.c))))
    return Agg((mul(x, y), of_atom(atom('umulo', 1, x, y))))


def ovf(op):
    def h(eng, st, fr, ins, f, a):
        x, y = a
        w = x.w
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if op == 'mul' and not (is_const(x) or is_const(y)):
            b = fresh('ovf')
            return Agg((mul(x, y), of_atom(atom('smulo', 1, x, y))))
        mx, my = eng.math(st, x, True), eng.math(st, y, True)
        e = ml_add(mx, my) if op == 'add' else ml_sub(mx, my) if op == 'sub' else ml_scale(mx, my.c) if not my.t else ml_scale(my, mx.c)
        over = not le(eng, st, e, ml(hi)) or not le(eng, st, ml(lo), e)
        r = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else mul(x, y)
        return Agg((r, iconst(1, int(over))))
    return h


def h_bswap(eng, st, fr, ins, f, a):
    x = a[0]
    if isinstance(x, Undef):
        return x
    n = x.w // 8
    acc = iconst(x.w, 0)
    for i in range(n):
        b = trunc(shift('lshr', x, iconst(x.w, 8 * i)), 8)
        acc = add(acc, shift('shl', zext(b, x.w), iconst(x.w, 8 * (n - 1 - i))))
    return acc


def h_fpclass(eng, st, fr, ins, f, a):
    m = a[1].c
    x = a[0]
    if m == 3:
        return fcmp(8, x, x)
    if m & 3 == 0 and m == 0x3fc:
        return fcmp(7, x, x)
    r = None
    if m == 516:     # infinities
        inf = fconst(x.ty, math.inf)
        p = eng.branch(st, fcmp(1, x, inf))
        q = p or eng.branch(st, fcmp(1, x, fconst(x.ty, -math.inf)))
        return iconst(1, int(q))
    if m == 504:     # finite
        if not eng.branch(st, fcmp(7, x, x)):
            return iconst(1, 0)
        inf = fconst(x.ty, math.inf)
        return iconst(1, int(eng.branch(st, fcmp(4, x, inf)) and eng.branch(st, fcmp(2, x, fconst(x.ty, -math.inf)))))
    raise Stop('undecided', 'floating point class')


def fun_f(name):
    def h(eng, st, fr, ins, f, a):
        if any(isinstance(x, Undef) for x in a):
            return Undef(ins.ty)
        ty = a[0].ty
        base = name
        x = a
        if ty == 'f32' and name.endswith('f'):
            base = name[:-1]
        return fl(ty, base, *x)
    return h


def h_lround(eng, st, fr, ins, f, a):
    x = a[0]
    if x.op == 'const':
        v = x.args[0]
        if v == v and -2.0 ** 63 <= v < 2.0 ** 63:
            return iconst(64, round_away(v))
        return iconst(64, 1 << 63)
    if eng.branch(st, fcmp(8, x, fconst(x.ty, 0.0))):
        return iconst(64, 1 << 63)       # the hardware's "integer indefinite" value
    if not eng.branch(st, fcmp(4, x, fconst(x.ty, 2.0 ** 63))):
        return iconst(64, 1 << 63)
    if not eng.branch(st, fcmp(3, x, fconst(x.ty, -2.0 ** 63))):
        return iconst(64, 1 << 63)
    y = x.args[0] if x.op == 'fpext' else x
    lo, hi, _ = eng.fint(st, x)
    r = round_away
    k = atom('lround', 64, y)
    e = ml_var(k)
    if lo > -2.0 ** 63:
        eng.lin_ge0(st, ml_sub(e, ml(r(lo))))
    if hi < 2.0 ** 63:
        eng.lin_ge0(st, ml_sub(ml(r(hi)), e))
    return of_atom(k)


SPACE = frozenset((9, 10, 11, 12, 13, 32))


def ctype_arg(eng, st, x, name):
    """check the domain of a <cctype> function: EOF or a character value (the C library's tables cover both signs)"""
    vs = eng.values(st, x)
    if vs is None:
        e = eng.math(st, x, True)
        if st.lin.entails_ge0(ml_add(e, ml(128))) and st.lin.entails_ge0(ml_sub(ml(255), e)):
            return None
        if not le(eng, st, ml(-128), e) or not le(eng, st, e, ml(255)):
            raise Stop('ub', '%s of a value that is no character' % name)
        return None
    s = frozenset(v - (1 << x.w) if v >> (x.w - 1) else v for v in vs)
    if any(v < -128 or v > 255 for v in s):
        raise Stop('ub', '%s of a value that is no character' % name)
    return s


def csplit(eng, st, x, pred):
    """partition the finite domain of x by a predicate on its value"""
    ss = eng.small(st, x)
    s = list(ss)
    if len(s) != 1:
        return None
    a = s[0]
    yes = frozenset(v for v in eng.dom(st, a) if pred(ev(x, {a: v})))
    no = frozenset(v for v in eng.dom(st, a) if not pred(ev(x, {a: v})))
    if not no:
        return True
    if not yes:
        return False

    def alt(k):
        def f(s):
            r = s.lin.with_set(a, k)
            if r is None:
                raise Infeasible()
            s.lin = r
        return f
    raise Split([alt(yes), alt(no)], 'character class')


CTYPE = {}


def ctype(name, test):
    CTYPE[name] = lambda v: int(test(v))

    def h(eng, st, fr, ins, f, a):
        x = a[0]
        vs = ctype_arg(eng, st, x, name)
        if vs is not None:
            r = csplit(eng, st, x, lambda v: v < 256 and test(v)) if not is_const(x) else test(x.c & 0xffffffff)
            if r is not None:
                return iconst(32, 1 if r else 0)
        k = atom(name, 1, x)
        v = st.bools.get(k)
        if v is None:
            raise Split([lambda s: eng.assume_atom(s, k, True), lambda s: eng.assume_atom(s, k, False)], name)
        return iconst(32, int(v))
    return h


def ccase(name, test, delta):
    CTYPE[name] = lambda v: v + delta if test(v) else v

    def h(eng, st, fr, ins, f, a):
        x = a[0]
        vs = ctype_arg(eng, st, x, name)
        if vs is not None:
            r = csplit(eng, st, x, lambda v: v < 256 and test(v)) if not is_const(x) else test(x.c & 0xffffffff)
            if r is not None:
                return add(x, iconst(x.w, delta)) if r else x
        return of_atom(atom(name, 32, x))
    return h


# ------------------------------------------------------------------ reference counts
def h_add_dispatch(eng, st, fr, ins, f, a):
    p, v = a
    old = eng.load(st, p, I32T)
    if isinstance(old, Undef):
        raise Stop('ub', 'reference count of a dead object')
    st.memo['refcount'] = True
    eng.store(st, p, 4, add(old, v))
    st.memo['refcount'] = False
    return old


def h_guard_acquire(eng, st, fr, ins, f, a):
    v = eng.load(st, a[0], BT)
    if is_const(v) and v.c == 0:
        st.memo['guard'] = st.memo.get('guard', 0) + 1
        return iconst(32, 1)
    if is_const(v):
        return iconst(32, 0)
    raise Stop('undecided', 'guard variable')


def h_guard_release(eng, st, fr, ins, f, a):
    eng.store(st, a[0], 1, iconst(8, 1))
    st.memo['guard'] = st.memo.get('guard', 1) - 1
    return None


def h_guard_abort(eng, st, fr, ins, f, a):
    st.memo['guard'] = st.memo.get('guard', 1) - 1
    return None


def h_need_rehash(eng, st, fr, ins, f, a):
    # the number of buckets does not influence what a map contains: keep one
    return Agg((iconst(8 if ins.ty.elems[0].w == 8 else ins.ty.elems[0].w, 0), iconst(64, 0)))


def h_next_bkt(eng, st, fr, ins, f, a):
    return iconst(64, 1)


def h_dynamic_cast(eng, st, fr, ins, f, a):
    """dynamic_cast on an object whose dynamic type is known from its vtable"""
    p, src, dst = a[0], a[1], a[2]
    if p is NULL:
        return NULL

    class PT:
        k, w, size = 'ptr', 0, 8
    v = eng.load(st, p, PT)
    if not isinstance(v, P) or not isinstance(v.o, str) or not v.o.startswith('g:_ZTV'):
        raise Stop('undecided', 'dynamic_cast of an unknown object')
    ti = '_ZTI' + v.o[len('g:_ZTV'):]
    return p if eng.derives(ti, dst.o[2:]) else NULL


EXACT = {
    'lround': h_lround, 'llround': h_lround, 'lroundf': h_lround, 'llroundf': h_lround,
    '__errno_location': h_errno,
    '__isoc23_strtol': strto('strtol'), '__isoc23_strtoll': strto('strtoll'), 'strtol': strto('strtol'), 'strtoll': strto('strtoll'),
    'strtof': strto('strtof'), 'strtod': strto('strtod'),
    '_Znwm': h_new('new'), '_Znam': h_new('new[]'), '_ZdlPv': h_delete('new'), '_ZdaPv': h_delete('new[]'), '_ZdlPvm': h_delete('new'), '_ZdaPvm': h_delete('new[]'),
    '_ZnwmRKSt9nothrow_t': h_new('new'), '_ZnamRKSt9nothrow_t': h_new('new[]'),
    'malloc': h_new('malloc'), 'free': h_delete('malloc'),
    'memcpy': h_memcpy, 'memmove': h_memcpy, 'memset': h_memset, 'memcmp': h_memcmp, 'bcmp': h_memcmp, 'strlen': h_strlen, 'strcmp': h_strcmp,
    '_ZSt11_Hash_bytesPKvmm': h_hash_bytes,
    '__cxa_allocate_exception': h_alloc_exc, '__cxa_free_exception': h_noop, '__cxa_throw': h_throw, '__cxa_begin_catch': h_begin_catch,
    '__cxa_end_catch': h_end_catch, '__cxa_rethrow': h_rethrow, '__cxa_atexit': h_noop, 'atexit': h_noop,
    '__cxa_guard_acquire': h_guard_acquire, '__cxa_guard_release': h_guard_release, '__cxa_guard_abort': h_guard_abort, '__dynamic_cast': h_dynamic_cast,
    '__cxa_pure_virtual': h_trap, '_ZSt9terminatev': h_terminate, '__clang_call_terminate': h_terminate,
    '_ZSt24__throw_invalid_argumentPKc': h_throw_std('_ZTISt16invalid_argument'), '_ZSt20__throw_out_of_rangePKc': h_throw_std(OOR),
    '_ZSt24__throw_out_of_range_fmtPKcz': h_throw_std(OOR), '_ZSt28__throw_bad_array_new_lengthv': h_throw_std('_ZTISt20bad_array_new_length'),
    '_ZSt17__throw_bad_allocv': h_throw_std('_ZTISt9bad_alloc'), '_ZSt19__throw_logic_errorPKc': h_throw_std('_ZTISt11logic_error'),
    '_ZSt20__throw_length_errorPKc': h_throw_std(LEN), '__cxa_throw_bad_array_new_length': h_throw_std('_ZTISt20bad_array_new_length'),
    '_ZSt16__throw_bad_castv': h_throw_std('_ZTISt8bad_cast'), '__cxa_bad_cast': h_throw_std('_ZTISt8bad_cast'),
    '_ZSt25__throw_bad_function_callv': h_throw_std('_ZTISt17bad_function_call'),
    '_ZSt27__throw_bad_optional_accessv': h_throw_std('_ZTISt19bad_optional_access'), '_ZSt22__throw_bad_any_castv': h_throw_std('_ZTISt12bad_any_cast'),
    'isspace': ctype('isspace', lambda v: v in SPACE), 'tolower': ccase('tolower', lambda v: 65 <= v <= 90, 32),
    'toupper': ccase('toupper', lambda v: 97 <= v <= 122, -32), 'isdigit': ctype('isdigit', lambda v: 48 <= v <= 57),
    'isalpha': ctype('isalpha', lambda v: 65 <= v <= 90 or 97 <= v <= 122), 'isupper': ctype('isupper', lambda v: 65 <= v <= 90),
    'islower': ctype('islower', lambda v: 97 <= v <= 122), 'isxdigit': ctype('isxdigit', lambda v: 48 <= v <= 57 or 65 <= v <= 70 or 97 <= v <= 102),
    'isblank': ctype('isblank', lambda v: v in (9, 32)), 'isalnum': ctype('isalnum', lambda v: 48 <= v <= 57 or 65 <= v <= 90 or 97 <= v <= 122),
    'abs': h_iabs, 'labs': h_iabs, 'llabs': h_iabs, 'fabs': h_fabs, 'fabsf': h_fabs,
    'abort': h_trap, '__assert_fail': h_trap,
}
for _n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'ceil', 'floor', 'round', 'trunc', 'sqrt', 'pow', 'fmod', 'log10',
           'log2', 'exp2', 'expm1', 'log1p', 'asinh', 'acosh', 'atanh', 'cbrt', 'rint', 'nearbyint', 'fmin', 'fmax', 'atan2', 'hypot', 'copysign', 'remainder'):
    EXACT[_n] = fun_f(_n)
    EXACT[_n + 'f'] = fun_f(_n + 'f')


def intrinsic(n):
    b = n[5:]
    if b.startswith(('dbg.', 'lifetime.', 'invariant.start', 'invariant.end', 'assume', 'experimental.noalias', 'prefetch', 'donothing', 'stackrestore', 'var.annotation')):
        return h_noop
    if b.startswith('expect'):
        return h_expect
    if b.startswith('memcpy') or b.startswith('memmove'):
        return h_memcpy
    if b.startswith('memset'):
        return h_memset
    if b.startswith('fabs'):
        return h_fabs
    if b.startswith('abs.'):
        return h_iabs
    if b.startswith('eh.typeid.for'):
        return h_typeid
    if b.startswith(('trap', 'debugtrap', 'ubsantrap')):
        return h_trap
    if b.startswith('umul.with.overflow'):
        return h_umul_o
    for o in ('add', 'sub', 'mul'):
        if b.startswith('s%s.with.overflow' % o):
            return ovf(o)
    if b.startswith('bswap'):
        return h_bswap
    if b.startswith('is.fpclass'):
        return h_fpclass
    if b.startswith(('launder', 'strip.invariant', 'ptr.annotation', 'ssa.copy')):
        return h_expect
    for q, p in (('smax', 'sgt'), ('smin', 'slt'), ('umax', 'ugt'), ('umin', 'ult')):
        if b.startswith(q):
            return h_minmax(p)
    for q in ('ceil', 'floor', 'round', 'trunc', 'sqrt', 'sin', 'cos', 'exp', 'log', 'pow', 'rint', 'nearbyint', 'copysign', 'minnum', 'maxnum', 'fma'):
        if b.startswith(q + '.'):
            return fun_f(q)
    return None


def install(eng):
    for n, h in EXACT.items():
        eng.models[n] = h


def lookup(eng, f):
    n = f.name
    if n.startswith('llvm.'):
        return intrinsic(n)
    d = f.dem
    if 'std::' in d or '__gnu_cxx' in d:
        s = d.replace(STRT, 'STR')
        head = split_args(s)[0] if '(' in s else s
        if 'STR::' in head and (head.startswith('STR::') or ' STR::' in head) and '(' in s:
            # return types may mention the string class too; the method name follows the last STR::
            i = head.rfind('STR::')
            if '<' not in head[:i] or head[:i].count('<') == head[:i].count('>'):
                h = string_method(f, s[i:] if not s.startswith('STR::') else s)
                if h is not None:
                    return h
                return None
        if head.startswith('std::to_string') or head.endswith('std::to_string'):
            return h_to_string
        if re.match(r'(bool )?std::operator==<char', head):
            a = split_args(s)[1]
            if len(a) == 2 and a[0] == 'STR const&' and a[1] == 'STR const&':
                return h_streq
            if len(a) == 2 and a[0] == 'STR const&' and a[1] == 'char const*':
                return h_streq_c
        if re.match(r'(bool )?std::operator!=<char', head):
            a = split_args(s)[1]
            if len(a) == 2 and a[0] == 'STR const&' and a[1] == 'STR const&':
                return h_strne
        if re.search(r'std::basic_(o|i)?stringstream<char', head):
            m = head.split('::')[-1]
            if m.startswith('basic_'):
                return h_stream_ctor
            if m.startswith('~'):
                return h_noop
            if m == 'str':
                return h_stream_str
            return None
        if 'std::ostream::_M_insert' in head:
            return h_insert('int')
        if '__ostream_insert' in head:
            return h_insert('text')
        if 'operator<<' in head and ('basic_ostream' in s or 'std::ostream' in s):
            return h_stream_op
        if re.match(r'std::(fixed|hex|dec|uppercase|setfill|setw|setprecision|scientific|oct|showbase|nouppercase)\b', head) and 'ios_base&' in s:
            return None if False else h_self
        if head.startswith(('std::runtime_error::', 'std::logic_error::', 'std::exception::', 'std::bad_cast::', 'std::invalid_argument::', 'std::out_of_range::',
                            'std::length_error::', 'std::domain_error::', 'std::range_error::', 'std::overflow_error::')) and f.decl:
            if '::what' in head:
                return h_what
            return h_noop
        if 'std::__fill_a1<' in head and '__is_scalar<' in head:
            return h_fill
        if '__exchange_and_add_dispatch' in head or '__exchange_and_add' in head:
            return h_add_dispatch
        if '__atomic_add' in head:
            return h_add_dispatch
        if '_Prime_rehash_policy::_M_need_rehash' in head:
            return h_need_rehash
        if '_Prime_rehash_policy::_M_next_bkt' in head:
            return h_next_bkt
        if f.decl and head.startswith(('std::ios_base::', 'std::locale::', 'std::basic_ios', 'std::basic_streambuf')):
            return h_noop
    return None


def h_what(eng, st, fr, ins, f, a):
    id = eng.alloc(st, 'strdata', ml(6), ('str', slit(b'error')), 'what')
    return P(id)
