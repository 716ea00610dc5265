"""Abstract value domains: value numbers (Herbrand terms with a linear normal form), finite value sets for bytes,
bit provenance, linear inequalities over mathematical integers, orderings and intervals for floating point."""
import math, struct
from math import gcd

MASK = lambda w: (1 << w) - 1


class Split(Exception):
    """The transfer function needs the state partitioned; each alternative is a function state -> state or None."""
    def __init__(self, alts, why=''):
        self.alts = alts
        self.why = why


class Infeasible(Exception):
    pass


# ------------------------------------------------------------------ atoms and integer terms
class Atom:
    __slots__ = ('kind', 'w', 'args', 'id', 'lo', 'hi', 'signed', '_syms', 'depth', '_m')
    table = {}

    def __repr__(self):
        return show_atom(self)


def atom(kind, w, *args, lo=None, hi=None):
    k = (kind, w, args)
    a = Atom.table.get(k)
    if a is None:
        a = Atom()
        a.kind, a.w, a.args, a.id = kind, w, args, len(Atom.table)
        # natural mathematical view of the atom
        if kind == 'sext':
            a.signed = True
        elif kind in ('zext', 'bits', 'urem', 'lshr', 'len', 'icmp', 'fcmp', 'udiv'):
            a.signed = False
        else:
            a.signed = w >= 32
        if lo is None:
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if a.signed else (0, MASK(w))
            if kind == 'bits':
                hi = sum(1 << i for i, b in enumerate(args[0]) if b != 0)
                lo = sum(1 << i for i, b in enumerate(args[0]) if b == 1)
        a.lo, a.hi = lo, hi
        a._syms = None
        a._m = None
        Atom.table[k] = a
    return a


_fresh = [0]


def fresh(prefix):
    _fresh[0] += 1
    return '%s#%d' % (prefix, _fresh[0])


class Int:
    __slots__ = ('w', 'c', 't', '_h')
    table = {}

    def __repr__(self):
        return show(self)


def mk(w, c, terms):
    """terms: dict atom->coeff"""
    m = MASK(w)
    c &= m
    t = tuple(sorted(((a, k & m) for a, k in terms.items() if k & m), key=lambda x: x[0].id))
    key = (w, c, t)
    v = Int.table.get(key)
    if v is None:
        v = Int()
        v.w, v.c, v.t = key
        Int.table[key] = v
    return v


def iconst(w, c):
    return mk(w, c, {})


def of_atom(a):
    return mk(a.w, 0, {a: 1})


def isym(name, w, lo=None, hi=None):
    return of_atom(atom('sym', w, name, lo=lo, hi=hi))


def is_const(x):
    return not x.t


def sconst(x):
    return x.c - (1 << x.w) if x.c >> (x.w - 1) else x.c


def single(x):
    """the atom when x is exactly one atom"""
    if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
        return x.t[0][0]
    return None


def add(a, b):
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return bits_merge(mk(a.w, a.c + b.c, d))


def bits_merge(v):
    """sum of terms with disjoint known bits is their union"""
    if len(v.t) < 2 and not (v.t and v.c):
        return v
    if any(a.kind not in ('bits', 'zext') for a, k in v.t):
        return v
    if not any(a.kind == 'bits' or k != 1 for a, k in v.t):
        return v
    acc = const_bits(v.w, v.c)
    for a, k in v.t:
        if k & (k - 1):
            return v
        b = to_bits(of_atom(a))
        if b is None:
            return v
        sh = k.bit_length() - 1
        b = ([0] * sh + b)[:v.w]
        for i in range(v.w):
            if b[i] != 0:
                if acc[i] != 0:
                    return v
                acc[i] = b[i]
    return from_bits(v.w, acc)


def scale(a, k):
    return mk(a.w, a.c * k, {x: c * k for x, c in a.t})


def sub(a, b):
    return add(a, scale(b, -1))


def sdiv_trunc(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def mul(a, b):
    if is_const(a):
        return scale(b, a.c)
    if is_const(b):
        return scale(a, b.c)
    x, y = (a, b) if key_of(a) <= key_of(b) else (b, a)
    return of_atom(atom('mul', a.w, x, y))


def key_of(x):
    if isinstance(x, Int):
        return (0, x.w, x.c, tuple((a.id, k) for a, k in x.t))
    return (1, x.id)


# ---- bit provenance: list (lsb first) of 0, 1 or (atom, bit index)
def const_bits(w, c):
    return [(c >> i) & 1 for i in range(w)]


def to_bits(x):
    if is_const(x):
        return const_bits(x.w, x.c)
    if len(x.t) == 1:
        a, k = x.t[0]
        if k & (k - 1):
            return None
        sh = k.bit_length() - 1
        if x.c and not (x.w == 1 and sh == 0):
            # constant part below the shifted atom
            if x.c >> sh:
                b = atom_bits(a)
                b = ([0] * sh + b)[:x.w]
                for i in range(x.w):
                    if (x.c >> i) & 1:
                        if b[i] != 0:
                            return None
                        b[i] = 1
                return b
        if x.w == 1 and x.c:
            return [('not', a)] if False else None
        b = ([0] * sh + atom_bits(a))[:x.w]
        for i in range(x.w):
            if (x.c >> i) & 1:
                b[i] = 1
        return b
    acc = const_bits(x.w, x.c)
    for a, k in x.t:
        if k & (k - 1):
            return None
        sh = k.bit_length() - 1
        b = ([0] * sh + atom_bits(a))[:x.w]
        for i in range(x.w):
            if b[i] != 0:
                if acc[i] != 0:
                    return None
                acc[i] = b[i]
    return acc


def atom_bits(a):
    if a.kind == 'bits':
        return list(a.args[0])
    if a.kind == 'zext':
        inner = a.args[0]
        b = to_bits(inner)
        if b is None:
            b = [(opaque(inner), i) for i in range(inner.w)]
        return b + [0] * (a.w - inner.w)
    if a.kind == 'trunc':
        inner = a.args[0]
        b = to_bits(inner)
        if b is None:
            b = [(opaque(inner), i) for i in range(inner.w)]
        return b[:a.w]
    return [(a, i) for i in range(a.w)]


def opaque(x):
    """an atom standing for the whole term x"""
    s = single(x)
    return s if s is not None else atom('term', x.w, x)


def from_bits(w, b):
    b = b[:w] + [0] * (w - len(b))
    if all(isinstance(x, int) for x in b):
        return iconst(w, sum(x << i for i, x in enumerate(b)))
    # all bits of one atom, possibly zero extended
    f = b[0]
    if isinstance(f, tuple) and f[1] == 0:
        a = f[0]
        n = a.w
        if n <= w and all(b[i] == (a, i) for i in range(n)) and all(x == 0 for x in b[n:]):
            v = of_atom(a) if a.kind != 'term' else a.args[0]
            return v if n == w else zext(v, w)
        if n > w and all(b[i] == (a, i) for i in range(w)):
            return trunc_raw(of_atom(a) if a.kind != 'term' else a.args[0], w)
    return of_atom(atom('bits', w, tuple(b)))


def zext(x, w):
    if x.w == w:
        return x
    if is_const(x):
        return iconst(w, x.c)
    s = single(x)
    if s is not None:
        if s.kind == 'zext':
            return of_atom(atom('zext', w, s.args[0]))
        if s.kind == 'bits':
            return from_bits(w, list(s.args[0]))
    return of_atom(atom('zext', w, x, lo=0, hi=_umax(x)))


def _umax(x):
    s = single(x)
    if s is not None and s.lo >= 0:
        return s.hi
    return MASK(x.w)


def sext(x, w):
    if x.w == w:
        return x
    if is_const(x):
        return iconst(w, sconst(x))
    s = single(x)
    if s is not None:
        if s.kind == 'sext':
            return of_atom(atom('sext', w, s.args[0]))
        if s.kind == 'zext':
            return of_atom(atom('zext', w, s.args[0], lo=0, hi=_umax(s.args[0])))
        if s.kind == 'bits' and s.args[0][-1] == 0:
            return zext(x, w)
        return of_atom(atom('sext', w, x, lo=max(s.lo, -(1 << (x.w - 1))), hi=min(s.hi, (1 << (x.w - 1)) - 1)))
    return of_atom(atom('sext', w, x, lo=-(1 << (x.w - 1)), hi=(1 << (x.w - 1)) - 1))


def trunc_raw(x, w):
    return of_atom(atom('trunc', w, x))


def trunc(x, w):
    if x.w == w:
        return x
    if is_const(x):
        return iconst(w, x.c)
    # distribute over the linear form
    acc = iconst(w, x.c)
    for a, k in x.t:
        if a.kind in ('zext', 'sext'):
            inner = a.args[0]
            if inner.w == w:
                t = inner
            elif inner.w > w:
                t = trunc(inner, w)
            else:
                t = zext(inner, w) if a.kind == 'zext' else sext(inner, w)
        elif a.kind == 'trunc':
            t = trunc(a.args[0], w)
        elif a.kind == 'bits':
            t = from_bits(w, list(a.args[0])[:w])
        elif a.kind == 'mul':
            t = mul(trunc(a.args[0], w), trunc(a.args[1], w))
        else:
            t = trunc_raw(of_atom(a), w)
        acc = add(acc, scale(t, k))
    return acc


def bitop(op, a, b):
    w = a.w
    if is_const(a) and is_const(b):
        return iconst(w, {'and': a.c & b.c, 'or': a.c | b.c, 'xor': a.c ^ b.c}[op])
    if is_const(a):
        a, b = b, a
    if op == 'xor' and is_const(b):
        if w == 1:
            return add(a, b)
        if b.c == MASK(w):
            return add(scale(a, -1), iconst(w, -1))
        if b.c == 0:
            return a
    if op == 'and' and is_const(b):
        if b.c == 0:
            return b
        if b.c == MASK(w):
            return a
    if op == 'or' and is_const(b):
        if b.c == 0:
            return a
        if b.c == MASK(w):
            return b
    if a is b:
        return iconst(w, 0) if op == 'xor' else a
    x, y = to_bits(a), to_bits(b)
    if x is not None and y is not None and w > 1:
        r = []
        for p, q in zip(x, y):
            if op == 'and':
                v = 0 if p == 0 or q == 0 else p if q == 1 else q if p == 1 else p if p == q else None
            elif op == 'or':
                v = 1 if p == 1 or q == 1 else p if q == 0 else q if p == 0 else p if p == q else None
            else:
                v = p if q == 0 else q if p == 0 else 0 if p == q else None
            if v is None:
                break
            r.append(v)
        else:
            return from_bits(w, r)
    if key_of(b) < key_of(a) and not is_const(b):
        a, b = b, a
    return of_atom(atom(op, w, a, b))


def shift(op, a, b):
    w = a.w
    if is_const(b):
        n = b.c
        if n >= w:
            return iconst(w, 0) if op != 'ashr' else of_atom(atom(op, w, a, b))
        if n == 0:
            return a
        if is_const(a):
            if op == 'shl':
                return iconst(w, a.c << n)
            return iconst(w, a.c >> n) if op == 'lshr' else iconst(w, sconst(a) >> n)
        if op == 'shl':
            bb = to_bits(a)
            if bb is not None:
                return from_bits(w, ([0] * n + bb)[:w])
            return scale(a, 1 << n)
        bb = to_bits(a)
        if bb is not None:
            if op == 'lshr':
                return from_bits(w, bb[n:] + [0] * n)
            if bb[-1] == 0:
                return from_bits(w, bb[n:] + [0] * n)
        if op == 'ashr' and n == w - 1:
            return of_atom(atom('ashr', w, a, b, lo=-1, hi=0))
    return of_atom(atom(op, w, a, b))


def divop(op, a, b, exact=False):
    w = a.w
    if is_const(b) and b.c == 0:
        return of_atom(atom(op, w, a, b))
    if is_const(a) and is_const(b):
        if op in ('sdiv', 'srem'):
            x, y = sconst(a), sconst(b)
            q = sdiv_trunc(x, y)
            return iconst(w, q if op == 'sdiv' else x - q * y)
        return iconst(w, a.c // b.c if op == 'udiv' else a.c % b.c)
    if is_const(b) and b.c == 1:
        return a if op in ('sdiv', 'udiv') else iconst(w, 0)
    if exact and is_const(b) and op in ('sdiv', 'udiv'):
        d = sconst(b)
        c = sconst(a)
        ks = [(x, k - (1 << w) if k >> (w - 1) else k) for x, k in a.t]
        if c % d == 0 and all(k % d == 0 for _, k in ks):
            return mk(w, c // d, {x: k // d for x, k in ks})
    if op == 'udiv' and is_const(b) and b.c & (b.c - 1) == 0:
        return shift('lshr', a, iconst(w, b.c.bit_length() - 1))
    if op == 'urem' and is_const(b) and b.c & (b.c - 1) == 0:
        return bitop('and', a, iconst(w, b.c - 1))
    return of_atom(atom(op, w, a, b))


SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ule': 'uge', 'ugt': 'ult', 'uge': 'ule', 'slt': 'sgt', 'sle': 'sge', 'sgt': 'slt', 'sge': 'sle'}
NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'ule': 'ugt', 'ugt': 'ule', 'uge': 'ult', 'slt': 'sge', 'sle': 'sgt', 'sgt': 'sle', 'sge': 'slt'}


def icmp_const(p, w, x, y):
    s = lambda v: v - (1 << w) if v >> (w - 1) else v
    return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y,
            'slt': s(x) < s(y), 'sle': s(x) <= s(y), 'sgt': s(x) > s(y), 'sge': s(x) >= s(y)}[p]


def icmp(p, a, b):
    """i1 term"""
    w = a.w
    if is_const(a) and is_const(b):
        return iconst(1, int(icmp_const(p, w, a.c, b.c)))
    if a is b:
        return iconst(1, int(p in ('eq', 'ule', 'uge', 'sle', 'sge')))
    if w == 1:
        if p in ('eq', 'ne'):
            r = add(a, b)      # xor
            return r if p == 'ne' else add(r, iconst(1, 1))
        # false < true as unsigned; signed order of i1 is reversed
        if p in ('slt', 'sgt', 'sle', 'sge'):
            p = {'slt': 'ugt', 'sgt': 'ult', 'sle': 'uge', 'sge': 'ule'}[p]
    if is_const(a):
        a, b, p = b, a, SWAP[p]
    s = single(a)
    if is_const(b) and s is not None and s.kind in ('zext', 'sext') and s.args[0].w < w:
        inner = s.args[0]
        iw = inner.w
        if s.kind == 'zext':
            if b.c <= MASK(iw):
                q = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}.get(p, p)
                return icmp(q, inner, iconst(iw, b.c))
            if p in ('eq', 'ne'):
                return iconst(1, int(p == 'ne'))
            big = p[0] == 'u' or sconst(b) > 0
            return iconst(1, int((p[1:] in ('lt', 'le')) == big))
    if is_const(b) and s is not None and s.kind == 'bits' and p in ('eq', 'ne') and w > 1:
        bb = s.args[0]
        for i, x in enumerate(bb):
            if isinstance(x, int) and x != (b.c >> i) & 1:
                return iconst(1, int(p == 'ne'))
    if is_const(b) and w == 1:
        return a if (p, b.c) in (('eq', 1), ('ne', 0)) else icmp_1(p, a, b)
    if s is not None:
        t = single(b)
        if t is not None and s.kind == t.kind and s.kind in ('zext', 'sext') and s.args[0].w == t.args[0].w:
            q = p
            if s.kind == 'zext':
                q = {'slt': 'ult', 'sle': 'ule', 'sgt': 'ugt', 'sge': 'uge'}.get(p, p)
                return icmp(q, s.args[0], t.args[0])
            if p[0] == 's' or p in ('eq', 'ne'):
                return icmp(p, s.args[0], t.args[0])
    # canonical: eq/ne -> eq ; gt/ge -> lt/le swapped ; le -> not gt
    neg = 0
    if p == 'ne':
        p, neg = 'eq', 1
    if p in ('ugt', 'sgt'):
        p, a, b = SWAP[p], b, a
    if p in ('uge', 'sge'):
        p, neg = NEG[p], 1
    if p in ('ule', 'sle'):
        p, neg = NEG[p], 1
        p, a, b = SWAP[p], b, a
    if p == 'eq':
        # move everything to one side when it cancels
        d = sub(a, b)
        if is_const(d):
            return iconst(1, int(d.c == 0) ^ neg)
        if key_of(a) < key_of(b) or is_const(a):
            a, b = b, a
    if p == 'ult' and is_const(b) and b.c == 1:
        return icmp('eq' if not neg else 'ne', a, iconst(w, 0))
    if p == 'ult' and is_const(a) and a.c == 0:
        return icmp('ne' if not neg else 'eq', b, a)
    if p == 'ult' and is_const(b) and b.c == 0:
        return iconst(1, neg)
    r = of_atom(atom('icmp', 1, p, a, b))
    return add(r, iconst(1, 1)) if neg else r


def icmp_1(p, a, b):
    # comparisons of i1 with a constant
    t = [int(icmp_const(p, 1, v, b.c)) for v in (0, 1)]
    if t == [0, 0] or t == [1, 1]:
        return iconst(1, t[0])
    return a if t == [0, 1] else add(a, iconst(1, 1))


def inot(x):
    return add(x, iconst(1, 1))


# ------------------------------------------------------------------ floating point terms
class Fl:
    __slots__ = ('ty', 'op', 'args', 'id')
    table = {}

    def __repr__(self):
        return show_f(self)


def fl(ty, op, *args):
    k = (ty, op, args if op != 'const' else struct.pack('<d', args[0]))
    v = Fl.table.get(k)
    if v is None:
        v = Fl()
        v.ty, v.op, v.args, v.id = ty, op, args, len(Fl.table)
        Fl.table[k] = v
    return v


def fconst(ty, v):
    return fl(ty, 'const', v)


def f32r(v):
    try:
        return struct.unpack('<f', struct.pack('<f', v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def i2f(n, ty):
    """an integer as a floating point number, rounded once"""
    if ty != 'f32' or abs(n) < 1 << 53:
        return f32r(float(n)) if ty == 'f32' else float(n)
    m = abs(n)
    d = m.bit_length() - 53
    q = m >> d | (1 if m & ((1 << d) - 1) else 0)     # the bits dropped decide ties only
    r = f32r(math.ldexp(float(q), d))
    return -r if n < 0 else r


def fconv(ty, a):
    """conversion between the formats; a number that the wider format holds exactly is rounded once"""
    if a.op == 'const':
        return fconst(ty, f32r(a.args[0]) if ty == 'f32' else a.args[0])
    if ty == 'f32':
        if a.op == 'fpext' and a.args[0].ty == 'f32':
            return a.args[0]
        if a.op in ('sitofp', 'uitofp') and a.args[0].w <= 53:
            return fl('f32', a.op, a.args[0])
        return fl('f32', 'fptrunc', a)
    if a.op in ('sitofp', 'uitofp') and a.args[0].w <= 24:
        return fl(ty, a.op, a.args[0])
    return fl(ty, 'fpext', a)


def round_away(v):
    """round half away from zero, exactly"""
    f = math.floor(abs(v))
    r = int(f) + (1 if abs(v) - f >= 0.5 else 0)
    return r if v >= 0 else -r


def fbin(op, a, b):
    if a.op == 'const' and b.op == 'const':
        x, y = a.args[0], b.args[0]
        try:
            r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y,
                 'fdiv': lambda: x / y if y else (math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y))}[op]()
            return fconst(a.ty, f32r(r) if a.ty == 'f32' else r)
        except (KeyError, OverflowError):
            pass
    if op in ('fadd', 'fmul') and b.id < a.id:
        a, b = b, a
    return fl(a.ty, op, a, b)


FPRED = {0: (), 1: ('eq',), 2: ('gt',), 3: ('gt', 'eq'), 4: ('lt',), 5: ('lt', 'eq'), 6: ('lt', 'gt'), 7: ('lt', 'eq', 'gt'), 8: ('un',),
         9: ('un', 'eq'), 10: ('un', 'gt'), 11: ('un', 'gt', 'eq'), 12: ('un', 'lt'), 13: ('un', 'lt', 'eq'), 14: ('un', 'lt', 'gt'),
         15: ('lt', 'eq', 'gt', 'un')}
FSW = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}


def fcmp(pred, a, b):
    """i1 term; pred is the llvm predicate number"""
    rel = frozenset(FPRED[pred])
    if a.op == 'const' and b.op == 'const':
        x, y = a.args[0], b.args[0]
        o = 'un' if x != x or y != y else 'lt' if x < y else 'gt' if x > y else 'eq'
        return iconst(1, int(o in rel))
    if b.id < a.id:
        a, b, rel = b, a, frozenset(FSW[x] for x in rel)
    if not rel:
        return iconst(1, 0)
    if len(rel) == 4:
        return iconst(1, 1)
    # canonical polarity: the relation without 'un'... keep the one not containing 'un'
    if 'un' in rel:
        return inot(of_atom(atom('fcmp', 1, frozenset(('lt', 'eq', 'gt', 'un')) - rel, a, b)))
    return of_atom(atom('fcmp', 1, rel, a, b))


# ------------------------------------------------------------------ strings (content terms)
class Str:
    __slots__ = ('op', 'args', 'id')
    table = {}

    def __repr__(self):
        return '%s(%s)' % (self.op, ','.join(map(repr, self.args)))


def mkstr(op, *args):
    k = (op, args)
    v = Str.table.get(k)
    if v is None:
        v = Str()
        v.op, v.args, v.id = op, args, len(Str.table)
        Str.table[k] = v
    return v


def slit(b):
    return mkstr('lit', bytes(b))


def ssym(name):
    return mkstr('sym', name)


# ------------------------------------------------------------------ mathematical linear expressions
class ML:
    """const + sum coeff*var, var = Atom (its natural mathematical value)"""
    __slots__ = ('c', 't')
    table = {}

    def __repr__(self):
        return show_ml(self)


def ml(c, terms=()):
    if isinstance(terms, dict):
        t = tuple(sorted(((a, k) for a, k in terms.items() if k), key=lambda x: x[0].id))
    else:
        t = tuple(terms)
    key = (c, t)
    v = ML.table.get(key)
    if v is None:
        v = ML()
        v.c, v.t = key
        ML.table[key] = v
    return v


ZERO = ml(0)


def ml_add(a, b, k=1):
    if not b.t and k == 1:
        return ml(a.c + b.c, a.t)
    d = dict(a.t)
    for x, c in b.t:
        d[x] = d.get(x, 0) + c * k
    return ml(a.c + b.c * k, d)


def ml_scale(a, k):
    return ml(a.c * k, {x: c * k for x, c in a.t})


def ml_sub(a, b):
    return ml_add(a, b, -1)


def ml_var(a):
    return ml(0, ((a, 1),))


def ml_to_int(x, w=64):
    acc = iconst(w, x.c)
    for a, k in x.t:
        v = of_atom(a) if a.kind != 'q' else of_atom(a)
        if v.w < w:
            v = sext(v, w) if a.signed else zext(v, w)
        elif v.w > w:
            v = trunc(v, w)
        acc = add(acc, scale(v, k))
    return acc


# ------------------------------------------------------------------ linear inequalities
class Lin:
    """A conjunction of linear inequalities (expr >= 0) and disequalities over mathematical variables, with a finite
    value set for byte sized variables. Immutable; feasibility by Fourier-Motzkin elimination (rational relaxation with
    integer tightening), so 'infeasible' is always right and 'feasible' may be an over-approximation."""
    __slots__ = ('cons', 'neq', 'sets', '_cache')

    def __init__(self, cons=(), neq=(), sets=None):
        self.cons, self.neq, self.sets = cons, neq, sets or {}
        self._cache = {}

    def bounds(self, a):
        s = self.sets.get(a)
        if s is not None:
            return min(s), max(s)
        if self.sets and a.kind in EVAL:       # a term over one symbol with a known set of values
            r = self._cache.get(('b', a))
            if r is None:
                r = a.lo, a.hi
                ss = asyms(a)
                if len(ss) == 1:
                    b = next(iter(ss))
                    s = self.sets.get(b)
                    if s is not None and len(s) <= 256:
                        vs = [eva(a, {b: v}) for v in s]
                        if a.signed:
                            vs = [v - (1 << a.w) if v >> (a.w - 1) else v for v in vs]
                        r = max(a.lo, min(vs)), min(a.hi, max(vs))
                self._cache[('b', a)] = r
            return r
        return a.lo, a.hi

    def interval(self, e):
        lo = hi = e.c
        for a, k in e.t:
            l, h = self.bounds(a)
            if k > 0:
                lo += k * l; hi += k * h
            else:
                lo += k * h; hi += k * l
        return lo, hi

    def entails_ge0(self, e):
        lo, hi = self.interval(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False if self.feasible() else True
        r = self._cache.get(e)
        if r is None:
            r = not self.feasible_with(ml(-e.c - 1, tuple((a, -k) for a, k in e.t)))
            self._cache[e] = r
        return r

    def relevant(self, vars):
        vs = set(vars)
        out = []
        rest = list(self.cons)
        ch = True
        while ch:
            ch = False
            nr = []
            for e in rest:
                if any(a in vs for a, _ in e.t):
                    out.append(e)
                    for a, _ in e.t:
                        if a not in vs:
                            vs.add(a); ch = True
                else:
                    nr.append(e)
            rest = nr
        return out, vs

    def feasible_with(self, e):
        if not e.t:
            return e.c >= 0
        lo, hi = self.interval(e)
        if hi < 0:
            return False
        cs, vs = self.relevant([a for a, _ in e.t])
        cs.append(e)
        return self._fm(cs, vs)

    def feasible(self):
        return True

    def _fm(self, cs, vs):
        rows = []
        for e in cs:
            rows.append((dict(e.t), e.c))
        for v in vs:
            lo, hi = self.bounds(v)
            rows.append(({v: 1}, -lo))
            rows.append(({v: -1}, hi))
        if not fm(rows):
            return False
        # disequalities decided by the bounds: e != 0 fails if rows entail e == 0
        for n in self.neq:
            if all(a in vs for a, _ in n.t):
                pos = fm(rows + [(dict(n.t), n.c - 1)])
                if not pos and not fm(rows + [({a: -k for a, k in n.t}, -n.c - 1)]):
                    return False
        return True

    def add_ge0(self, e):
        """self and e >= 0, or None when infeasible"""
        if not e.t:
            return self if e.c >= 0 else None
        if e in self.cons:
            return self
        lo, hi = self.interval(e)
        if hi < 0:
            return None
        if lo >= 0:
            return self
        g = 0
        for _, k in e.t:
            g = gcd(g, k)
        if g > 1:
            e = ml(e.c // g, tuple((a, k // g) for a, k in e.t))
        if len(e.t) == 1 and e.t[0][0] in self.sets:
            a, k = e.t[0]
            s = frozenset(v for v in self.sets[a] if k * v + e.c >= 0)
            return self.with_set(a, s)
        if not self.feasible_with(e):
            return None
        return Lin(self.cons + (e,), self.neq, self.sets)

    def with_set(self, a, s):
        if not s:
            return None
        d = dict(self.sets)
        d[a] = s
        r = Lin(self.cons, self.neq, d)
        cs, vs = r.relevant([a])
        if cs and not r._fm(cs, vs):
            return None
        return r

    def add_eq0(self, e):
        r = self.add_ge0(e)
        return r.add_ge0(ml_scale(e, -1)) if r is not None else None

    def add_ne0(self, e):
        if not e.t:
            return self if e.c else None
        lo, hi = self.interval(e)
        if lo > 0 or hi < 0:
            return self
        if len(e.t) == 1:
            a, k = e.t[0]
            if a in self.sets:
                return self.with_set(a, frozenset(v for v in self.sets[a] if k * v + e.c != 0))
            if e.c % k:
                return self
        pos = self.feasible_with(ml_add(e, ml(-1)))
        ng = self.feasible_with(ml_add(ml_scale(e, -1), ml(-1)))
        if not pos and not ng:
            return None
        if not ng:
            return self.add_ge0(ml_add(e, ml(-1)))
        if not pos:
            return self.add_ge0(ml_add(ml_scale(e, -1), ml(-1)))
        return Lin(self.cons, self.neq + (e,), self.sets)


def fm(rows):
    """rational feasibility with integer tightening of rows (dict, const) meaning sum + const >= 0"""
    seen = {}

    def norm(d, c):
        g = 0
        for k in d.values():
            g = gcd(g, k)
        if g == 0:
            return None, c
        if g > 1:
            d = {a: k // g for a, k in d.items()}
            c = c // g
        return d, c

    def push(d, c):
        d, c = norm(d, c)
        if d is None:
            return c >= 0
        key = tuple(sorted(((a.id, a, k) for a, k in d.items())))
        key = tuple((a, k) for _, a, k in key)
        o = seen.get(key)
        if o is None or c < o:
            seen[key] = c
        return True
    for d, c in rows:
        if not push({a: k for a, k in d.items() if k}, c):
            return False
    while seen:
        # contradiction between opposite rows, and equalities
        eq = None
        for key, c in seen.items():
            ok = tuple((a, -k) for a, k in key)
            oc = seen.get(ok)
            if oc is not None:
                if c + oc < 0:
                    return False
                if c + oc == 0 and eq is None:
                    for a, k in key:
                        if abs(k) == 1:
                            eq = (a, k, key, c)
                            break
        if eq:
            a, k, key, c = eq
            # a = -(rest + c)/k
            old = seen; seen = {}
            rest = {x: y for x, y in key if x is not a}
            for kk, cc in old.items():
                d = dict(kk)
                m = d.pop(a, 0)
                if m:
                    f = -m * k  # since 1/k == k
                    for x, y in rest.items():
                        d[x] = d.get(x, 0) + f * y
                    cc = cc + f * c
                d = {x: y for x, y in d.items() if y}
                if not push(d, cc):
                    return False
            continue
        pos, neg = {}, {}
        for key in seen:
            for a, k in key:
                (pos if k > 0 else neg).setdefault(a, []).append(key)
        best = None
        for a in set(pos) | set(neg):
            n = len(pos.get(a, ())) * len(neg.get(a, ()))
            if best is None or n < best[0]:
                best = (n, a)
        n, a = best
        if n > 4000:
            return True
        old = seen
        P = [(k, old[k]) for k in pos.get(a, ())]
        N = [(k, old[k]) for k in neg.get(a, ())]
        seen = {k: c for k, c in old.items() if all(x is not a for x, _ in k)}
        for pk, pc in P:
            pd = dict(pk); pa = pd.pop(a)
            for nk, nc in N:
                nd = dict(nk); na = -nd.pop(a)
                g = gcd(pa, na)
                f1, f2 = na // g, pa // g
                d = {x: y * f1 for x, y in pd.items()}
                for x, y in nd.items():
                    d[x] = d.get(x, 0) + y * f2
                d = {x: y for x, y in d.items() if y}
                if not push(d, pc * f1 + nc * f2):
                    return False
        if len(seen) > 1500:
            return True
    return True


# ------------------------------------------------------------------ base symbols of a term, and evaluation
def syms(x):
    """set of base atoms a term depends on ('sym' atoms and every atom that cannot be evaluated structurally)"""
    if isinstance(x, Int):
        r = frozenset()
        for a, _ in x.t:
            r |= asyms(a)
        return r
    return frozenset()


EVAL = {'zext', 'sext', 'trunc', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'icmp', 'bits', 'term', 'ite', 'table'}


TABLES = {}


def asyms(a):
    if a._syms is None:
        if a.kind not in EVAL:
            a._syms = frozenset((a,))
        elif a.kind == 'bits':
            a._syms = frozenset().union(*[asyms(b[0]) for b in a.args[0] if not isinstance(b, int)])
        else:
            r = frozenset()
            for y in a.args:
                if isinstance(y, Int):
                    r |= syms(y)
            a._syms = r
    return a._syms


def ev(x, env):
    r = x.c
    for a, k in x.t:
        r += k * eva(a, env)
    return r & MASK(x.w)


def eva(a, env):
    """value of an atom as an unsigned bit pattern"""
    v = env.get(a)
    if v is not None:
        return v & MASK(a.w)
    k = a.kind
    if k == 'bits':
        r = 0
        for i, b in enumerate(a.args[0]):
            r |= (b if isinstance(b, int) else (eva(b[0], env) >> b[1]) & 1) << i
        return r
    if k == 'table':
        d = TABLES.get(a)
        if d is None:
            d = TABLES[a] = dict(a.args[1])
        return d.get(ev(a.args[0], env), 0)      # (outside its table the path is infeasible)
    if k == 'icmp':
        return int(icmp_const(a.args[0], a.args[1].w, ev(a.args[1], env), ev(a.args[2], env)))
    if k in ('zext', 'term'):
        return ev(a.args[0], env)
    if k == 'sext':
        i = a.args[0]
        v = ev(i, env)
        return (v - (1 << i.w) if v >> (i.w - 1) else v) & MASK(a.w)
    if k == 'trunc':
        return ev(a.args[0], env) & MASK(a.w)
    if k == 'ite':
        return ev(a.args[1] if ev(a.args[0], env) else a.args[2], env)
    x, y = ev(a.args[0], env), ev(a.args[1], env)
    w = a.w
    if k == 'and':
        return x & y
    if k == 'or':
        return x | y
    if k == 'xor':
        return x ^ y
    if k == 'shl':
        return (x << y) & MASK(w) if y < w else 0
    if k == 'lshr':
        return x >> y if y < w else 0
    sx = x - (1 << w) if x >> (w - 1) else x
    sy = y - (1 << w) if y >> (w - 1) else y
    if k == 'ashr':
        return (sx >> min(y, w - 1)) & MASK(w)
    if k == 'mul':
        return x * y & MASK(w)
    if y == 0:
        return 0
    if k == 'udiv':
        return x // y
    if k == 'urem':
        return x % y
    q = sdiv_trunc(sx, sy)
    return (q if k == 'sdiv' else sx - q * sy) & MASK(w)


# ------------------------------------------------------------------ printing
def show_atom(a):
    if a.kind == 'sym':
        return str(a.args[0])
    if a.kind == 'bits':
        return 'bits%d[%s]' % (a.w, ' '.join(str(b) if isinstance(b, int) else '%r.%d' % (b[0], b[1]) for b in reversed(a.args[0])))
    return '%s%d(%s)' % (a.kind, a.w, ', '.join(map(str, a.args)))


def show(x):
    if not x.t:
        return str(sconst(x)) if x.w > 8 else str(x.c)
    p = []
    for a, k in x.t:
        k = k - (1 << x.w) if k >> (x.w - 1) and x.w > 1 else k
        p.append(('' if k == 1 else '-' if k == -1 else '%d*' % k) + repr(a))
    if x.c:
        p.append(str(sconst(x)) if x.w > 1 else '1')
    return ' + '.join(p) if x.w > 1 else ' ^ '.join(p)


def show_ml(x):
    p = [('' if k == 1 else '-' if k == -1 else '%d*' % k) + repr(a) for a, k in x.t]
    if x.c or not p:
        p.append(str(x.c))
    return ' + '.join(p)


def show_f(x):
    if x.op == 'const':
        return repr(x.args[0])
    return '%s.%s(%s)' % (x.op, x.ty, ', '.join(map(str, x.args)))
