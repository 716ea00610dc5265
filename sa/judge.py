"""Comparison of abstract values and concretisation of abstract counterexamples.

Two terms are proved equal by the domains (value numbering, linear facts, string normal form). When they are not, a
difference is only reported together with a valuation of the symbols that satisfies every fact of the path and makes
the two terms differ; the valuation is found by evaluating the terms of the abstract state, nothing is executed."""
import math, random, re, struct
from dom import *
import models
from llvmc import P, Undef


class NoEval(Exception):
    pass


def trunc_real(x):
    return math.trunc(x)


F32MAX = 3.4028234663852886e38
POOL_F = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 2.0, 3.0, -3.25, 0.25, 0.49999999999999994, 100.75, 1e10, -1e10, 1e19, -1e19,
          2147483647.0, 2147483647.25, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.25, -2147483648.5, -2147483649.0, 9.2e18, 9223372036854775808.0,
          0.49999997019767761, -0.49999997019767761, 8388609.0, -8388609.0, 8388607.5, 16777217.0, 4503599627370497.0, -4503599627370497.0, 4503599627370495.5,
          3.5, -3.5, 1.25, 0.75, -0.75, 1.0000001192092896, 0.1, 1e-10, 5e-324, 1e-45, 16777216.0,
          -9223372036854775808.0, 9.3e18, 1e300, -1e300, 2147483520.0, 9223371487098961920.0, 123456.789, 4294967296.5]
POOL_S = [b'', b'a', b'b', b'ab', b'ba', b'abc', b'A', b'aB c', b' a ', b'\t x\n', b'1', b'12', b'-7', b'+3', b'3.5', b'12x', b'x12', b'0', b' 42', b'\xe4', b'\x80z',
          b'a\x00b', b'a\x00c', b'a\x00', b'\x00', b'0x1F', b'0b1', b'-010', b'08', b'1 2', b'1\x002', b'true', b'false', b'hello world', b'zz', b'1e3', b'0x10', b'010', b'-0', b'99']


def rnd_int(rng, w, lo, hi, extra):
    if lo > hi:
        raise NoEval('empty interval')
    c = rng.random()
    if c < 0.35:
        pool = [v for v in (0, 1, -1, 2, 3, 5, 7, -2, -3, 10, 100, (1 << (w - 1)) - 1, -(1 << (w - 1)), -(1 << (w - 1)) + 1, lo, hi, lo + 1, hi - 1) if lo <= v <= hi]
        if pool:
            return rng.choice(pool)
    if c < 0.65 and extra:
        pool = [v for v in extra if lo <= v <= hi]
        if pool:
            return rng.choice(pool)
    if c > 0.93 and w == 64:
        # close to the middle of two neighbours of a floating point format
        b = rng.choice((24, 53))
        e = rng.randint(55, 62) if rng.random() < 0.8 else rng.randint(b + 1, 62)
        v = (1 << e) + (rng.getrandbits(b - 1) << (e - b + 1)) + (1 << (e - b)) + rng.choice((-1, 0, 1))
        v = rng.choice((v, -v))
        if lo <= v <= hi:
            return v
    if c < 0.9:
        l, h = max(lo, -12), min(hi, 12)
        if l <= h:
            return rng.randint(l, h)
    return rng.randint(lo, hi)


class Env:
    def __init__(self, st, rng, extra, sbias):
        self.st, self.rng, self.extra, self.sbias = st, rng, extra, sbias
        self.v = {}          # atom / Fl / Str -> value
        self.theme = rng.sample(POOL_S, 3) if rng.random() < 0.4 else POOL_S
        self.base = None     # a prefix the texts of this valuation share
        if rng.random() < 0.25:
            ks = [k for k in extra if 1 < k <= 300] if rng.random() < 0.5 else None
            n = rng.choice(ks) if ks else rng.randint(2, 40)
            self.base = (rng.choice((b'a', b'ab', b'A b', b'0', b'\xc3z')) * n)[:n]
        self.bytes = {}

    def byte(self, region, i):
        k = (region, i)
        if k not in self.bytes:
            a = atom('sym', 8, '%s[%d]' % (region, i))
            s = self.st.lin.sets.get(a)
            lo, hi = self.bound(a)
            self.bytes[k] = self.rng.choice(sorted(s)) if s else max(0, rnd_int(self.rng, 8, max(lo, 0), hi, self.extra))
        return self.bytes[k]

    def bound(self, a):
        lin = self.st.lin
        lo, hi = lin.bounds(a)
        for e in lin.cons:
            if len(e.t) == 1 and e.t[0][0] is a:
                k = e.t[0][1]
                if k > 0:
                    lo = max(lo, -(e.c // k))
                else:
                    hi = min(hi, e.c // -k)
        return lo, hi

    # ---- integers: mathematical value of an atom (its natural view), bit patterns of terms
    def int(self, x):
        """unsigned bit pattern"""
        r = x.c
        for a, k in x.t:
            r += k * self.pat(a)
        return r & MASK(x.w)

    def sint(self, x):
        v = self.int(x)
        return v - (1 << x.w) if v >> (x.w - 1) else v

    def mathv(self, a):
        """value of an atom as a variable of the linear domain"""
        if a.kind == 'mval':
            return self.sint(a.args[0]) if a.args[1] else self.int(a.args[0])
        v = self.pat(a)
        if a.signed or a.lo < 0:
            v = v - (1 << a.w) if v >> (a.w - 1) and a.w > 1 else v
        return v

    def ml(self, e):
        r = e.c
        for a, k in e.t:
            r += k * self.mathv(a)
        return r

    def pat(self, a):
        v = self.v.get(a)
        if v is None:
            v = self.v[a] = self.pat1(a) & MASK(a.w)
        return v

    def pat1(self, a):
        k, A = a.kind, a.args
        if k == 'sym':
            nm = str(A[0])
            if nm.startswith(('h:', 'x:', 'u:')):
                raise NoEval('approximated value ' + nm)
            m = re.match(r'^(.*)\[(-?\d+)\]$', nm)
            if m and a.w == 8:
                return self.byte(m.group(1), int(m.group(2)))
            if '[' in nm:
                raise NoEval(nm)
            s = self.st.lin.sets.get(a)
            if s:
                return self.rng.choice(sorted(s))
            lo, hi = self.bound(a)
            return rnd_int(self.rng, a.w, lo, hi, self.extra)
        if k == 'len':
            return len(self.str(A[0]))
        if k == 'ch':
            b = self.str(A[0])
            return b[A[1]] if 0 <= A[1] < len(b) else 0
        if k == 'chx':
            b, i = self.str(A[0]), self.ml(A[1])
            return b[i] if 0 <= i < len(b) else 0
        if k == 'cstrlen':
            b = self.str(A[0])
            return b.index(0) if 0 in b else len(b)
        if k == 'hash':
            h = self.any(A[0])
            return hash((type(h).__name__, h, self.any(A[1])))
        if k == 'bits':
            r = 0
            for i, b in enumerate(A[0]):
                r |= (b if isinstance(b, int) else (self.pat(b[0]) >> b[1]) & 1) << i
            return r
        if k == 'icmp':
            return int(icmp_const(A[0], A[1].w, self.int(A[1]), self.int(A[2])))
        if k in ('fcmp', 'scmp'):
            return int(self.rel(A[1], A[2]) in A[0])
        if k == 'mcmp':
            v = self.ml(A[1])
            return int(v >= 0 if A[0] == 'ge' else v == 0)
        if k == 'fbits':
            v = self.fl(A[0])
            f = '<f' if A[0].ty == 'f32' else '<d'
            return int.from_bytes(struct.pack(f, v), 'little')
        if k == 'lround':
            v = self.fl(A[0])
            if v != v or abs(v) >= 2.0 ** 63:
                return 1 << 63
            return round_away(v)
        if k in ('fptosi', 'fptoui'):
            v = self.fl(A[0])
            if v != v or not -(2.0 ** (a.w - 1)) - 1 < v < 2.0 ** a.w:
                raise NoEval('conversion out of range')
            r = int(v)
            lo, hi = (-(1 << (a.w - 1)), (1 << (a.w - 1)) - 1) if k == 'fptosi' else (0, MASK(a.w))
            if not lo <= r <= hi:
                raise NoEval('conversion out of range')
            return r
        if k in ('parsed', 'range', 'strtol'):
            nm, t, base = (A[0], A[1], A[2]) if k != 'strtol' else ('strtol', A[0], A[1])
            n, v, rg = parse(nm, self.str(t), base)
            return n if k == 'parsed' else int(rg) if k == 'range' else v
        if k in ('zext', 'term'):
            return self.int(A[0])
        if k in ('sext',):
            return self.sint(A[0])
        if k == 'trunc':
            return self.int(A[0])
        if k == 'ite':
            return self.int(A[1] if self.int(A[0]) else A[2])
        if k == 'table':
            d = dict(A[1])
            v = self.int(A[0])
            if v not in d:
                raise NoEval('outside the table')
            return d[v]
        if k in ('smulo', 'umulo'):
            x, y = (self.sint(A[0]), self.sint(A[1])) if k == 'smulo' else (self.int(A[0]), self.int(A[1]))
            w = A[0].w
            return int(not (-(1 << (w - 1)) <= x * y < (1 << (w - 1)) if k == 'smulo' else x * y <= MASK(w)))
        if k == 'find':
            return self.find(a)
        if k in models.CTYPE:
            v = self.int(A[0]) & 0xff
            r = models.CTYPE[k](v)
            return int(r)
        if k in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'mul', 'udiv', 'sdiv', 'urem', 'srem'):
            return eva(atom(k, a.w, iconst(A[0].w, self.int(A[0])), iconst(A[1].w, self.int(A[1]))), {})
        raise NoEval(k)

    def find(self, a):
        nm, t, pat, pos = a.args
        return models.find_const(nm, self.str(t), self.str(pat), self.int(pos))

    # ---- floating point
    def fl(self, x):
        v = self.v.get(x)
        if v is None:
            v = self.fl1(x)
            if x.ty == 'f32':
                v = f32r(v)
            self.v[x] = v
        return v

    def fl1(self, x):
        o, A = x.op, x.args
        if o == 'const':
            return A[0]
        if o == 'sym':
            if str(A[0]).startswith(('h:', 'x:', 'u:')):
                raise NoEval('approximated value')
            lo, hi, nan = self.st.frng.get(x, (-math.inf, math.inf, True))
            if lo > hi:
                return math.nan
            c = self.rng.random()
            if nan and c < 0.06:
                return math.nan
            if c < 0.1:
                v = self.rng.choice((math.inf, -math.inf))
                if lo <= v <= hi:
                    return v
            pool = [lo, hi] * 2 + POOL_F + [float(e) for e in self.extra if abs(e) < 1 << 62] + [e + 0.5 for e in self.extra if abs(e) < 1 << 50]
            for d in (lo, hi):
                if abs(d) != math.inf:
                    pool += [math.nextafter(d, math.inf), math.nextafter(d, -math.inf)]
            pool = [p for p in pool if lo <= p <= hi]
            v = self.rng.choice(pool) if pool and self.rng.random() < 0.8 else self.rng.uniform(max(lo, -50.0), min(hi, 50.0)) if max(lo, -50.0) <= min(hi, 50.0) else lo
            return f32r(v) if x.ty == 'f32' else v
        if o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p, q = self.fl(A[0]), self.fl(A[1])
            try:
                if o == 'fadd':
                    return p + q
                if o == 'fsub':
                    return p - q
                if o == 'fmul':
                    return p * q
                if o == 'frem':
                    return math.fmod(p, q)
                if q == 0:
                    return math.nan if p == 0 or p != p else math.copysign(math.inf, p) * math.copysign(1, q)
                return p / q
            except (OverflowError, ValueError):
                return math.nan
        if o == 'fneg':
            return -self.fl(A[0])
        if o == 'fabs':
            return abs(self.fl(A[0]))
        if o in ('fpext', 'fptrunc'):
            return self.fl(A[0])
        if o == 'sitofp':
            return i2f(self.sint(A[0]), x.ty)
        if o == 'uitofp':
            return i2f(self.int(A[0]), x.ty)
        if o == 'frombits':
            n = A[0].w // 8
            if n not in (4, 8):
                raise NoEval(o)
            return struct.unpack('<f' if n == 4 else '<d', self.int(A[0]).to_bytes(n, 'little'))[0]
        if o in ('strtod', 'strtof'):
            return parse(o, self.str(A[0]), 0)[1]
        vs = tuple(self.fl(y) for y in A if isinstance(y, Fl))
        if len(vs) == 1 and vs[0] == vs[0]:
            f = getattr(math, o, None)
            if o in ('ceil', 'floor', 'trunc'):
                return float(f(vs[0])) if abs(vs[0]) != math.inf else vs[0]
            if o in ('round',):
                return math.copysign(math.floor(abs(vs[0]) + 0.5), vs[0]) if abs(vs[0]) < 2.0 ** 52 else vs[0]
            if o in ('rint', 'nearbyint'):
                return float(round(vs[0])) if abs(vs[0]) < 2.0 ** 52 else vs[0]
            if f is not None:
                try:
                    return f(vs[0])
                except (ValueError, OverflowError):
                    return math.nan
        if len(vs) == 2 and o in ('fmin', 'fmax', 'pow', 'atan2', 'fmod'):
            try:
                return {'fmin': lambda p, q: min(p, q) if p == p and q == q else p if p == p else q,
                        'fmax': lambda p, q: max(p, q) if p == p and q == q else p if p == p else q}.get(o, getattr(math, o, None))(*vs)
            except (ValueError, OverflowError):
                return math.nan
        if any(v != v for v in vs):
            return math.nan
        raise NoEval(o)

    # ---- text
    def str(self, t):
        v = self.v.get(t)
        if v is None:
            v = self.v[t] = self.str1(t)
        return v

    def str1(self, t):
        o, A = t.op, t.args
        if o == 'lit':
            return A[0]
        if o == 'sym':
            if str(A[0]).startswith(('h:', 'x:')):
                raise NoEval('approximated text')
            a = atom('len', 64, t)
            lo, hi = self.bound(a) if a.hi else (0, 1 << 31)
            lo = max(lo, 0)
            if self.base is not None and self.rng.random() < 0.85:
                b = self.base + bytes(self.rng.choice(b'abAB 019z\xc3') for _ in range(self.rng.choice((0, 1, 1, 1, 2, 5))))
                if lo <= len(b) <= hi:
                    return b
            for _ in range(20):
                b = self.rng.choice(self.theme) if self.rng.random() < self.sbias else bytes(self.rng.choice(b'abAB 019z\xc3') for _ in range(self.rng.randint(0, 9)))
                if lo <= len(b) <= hi:
                    return b
            if lo > 4096:
                raise NoEval('very long text')
            n = self.rng.randint(lo, min(hi, lo + 6))
            return bytes(self.rng.choice(b'abAB 019z') for _ in range(n))
        if o == 'chars':
            return bytes(self.int(c) for c in A[0])
        if o == 'sub':
            b, off, n = self.str(A[0]), self.ml(A[1]), self.ml(A[2])
            if off < 0 or n < 0 or off + n > len(b):
                raise NoEval('slice out of range')
            return b[off:off + n]
        if o == 'cat':
            return b''.join(self.str(x) for x in A)
        if o == 'mem':
            off, n = self.ml(A[1]), self.ml(A[2])
            if n > 65536 or n < 0:
                raise NoEval('long text')
            return bytes(self.byte(A[0], off + i) for i in range(n))
        if o == 'fill':
            n = self.ml(A[0])
            if n > 65536:
                raise NoEval('long text')
            return bytes([self.int(A[1])]) * n
        if o == 'dec':
            return str(self.sint(A[0]) if A[1] else self.int(A[0])).encode()
        if o == 'num':
            return b'%f' % self.fl(A[1])
        raise NoEval(o)

    def any(self, x):
        if isinstance(x, Int):
            return self.int(x)
        if isinstance(x, Fl):
            v = self.fl(x)
            return 'nan' if v != v else (v, math.copysign(1, v))
        if isinstance(x, Str):
            return self.str(x)
        if isinstance(x, ML):
            return self.ml(x)
        raise NoEval(repr(x))

    def rel(self, x, y):
        p, q = (self.str(x), self.str(y)) if isinstance(x, Str) else (self.fl(x), self.fl(y))
        if p != p or q != q:
            return 'un'
        return 'lt' if p < q else 'gt' if p > q else 'eq'

    def holds(self):
        """every fact of the path"""
        st = self.st
        for a, s in st.lin.sets.items():
            if self.mathv(a) not in s and self.pat(a) not in s:
                return False
        for e in st.lin.cons:
            if self.ml(e) < 0:
                return False
        for e in st.lin.neq:
            if self.ml(e) == 0:
                return False
        for a, b in st.bools.items():
            if a.kind == 'isnull':
                raise NoEval('nullness')
            if bool(self.pat(a)) != b:
                return False
        for (x, y), r in st.ford.items():
            if self.rel(x, y) not in r:
                return False
        for x, (lo, hi, nan) in st.frng.items():
            v = self.fl(x)
            if v != v:
                if not nan:
                    return False
            elif not lo <= v <= hi:
                return False
        return True

    def show(self):
        r = {}
        for k, v in self.v.items():
            if isinstance(k, Atom) and k.kind == 'sym':
                if not re.search(r'\[\d+\]$', str(k.args[0])):
                    r[str(k.args[0])] = v - (1 << k.w) if v >> (k.w - 1) and k.w >= 32 else v
            elif isinstance(k, (Fl, Str)) and k.op == 'sym':
                r[str(k.args[0])] = v
        for (n, i), v in sorted(self.bytes.items()):
            r['%s[%d]' % (n, i)] = '0x%02x' % v
        return ', '.join('%s = %r' % x for x in r.items())


NUM_I = re.compile(rb'[ \t\n\v\f\r]*([+-]?[0-9]+)')
NUM_H = re.compile(rb'[ \t\n\v\f\r]*([+-]?)0[xX]([0-9a-fA-F]+)')
NUM_F = re.compile(rb'[ \t\n\v\f\r]*([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|[+-]?(?:infinity|inf|nan))', re.I)


def parse(nm, b, base):
    """(characters consumed, value, out of range) as the C library does"""
    if 0 in b:
        b = b[:b.index(0)]
    if nm == 'strtol':
        m = NUM_I.match(b)
        if base == 10:
            if not m:
                return 0, 0, False
            v = int(m.group(1))
        elif base == 0 or 2 <= base <= 36:
            i = 0
            while i < len(b) and b[i] in b' \t\n\v\f\r':
                i += 1
            neg = b[i:i + 1] == b'-'
            if b[i:i + 1] in (b'-', b'+'):
                i += 1
            dig = lambda x: x - 48 if 48 <= x <= 57 else x - 87 if 97 <= x <= 122 else x - 55 if 65 <= x <= 90 else 99
            if base in (0, 16) and b[i:i + 2].lower() == b'0x' and i + 2 < len(b) and dig(b[i + 2]) < 16:
                base, i = 16, i + 2
            elif base == 0:
                base = 8 if b[i:i + 1] == b'0' else 10
            j, v = i, 0
            while j < len(b) and dig(b[j]) < base:
                v = v * base + dig(b[j])
                j += 1
            if j == i:
                return 0, 0, False
            v = -v if neg else v
            lo, hi = -(1 << 63), (1 << 63) - 1
            return j, max(lo, min(hi, v)), not lo <= v <= hi
        else:
            raise NoEval('base')
        lo, hi = -(1 << 63), (1 << 63) - 1
        return m.end(), max(lo, min(hi, v)), not lo <= v <= hi
    if NUM_H.match(b):
        raise NoEval('hexadecimal number')
    m = NUM_F.match(b)
    if not m:
        return 0, 0.0, False
    v = float(m.group(1))
    if nm == 'strtof':
        v = f32r(v)
    return m.end(), v, math.isinf(v) and b'i' not in m.group(1).lower()


def consts_of(st, xs):
    """interesting constants of the path facts and terms"""
    r, seen = set(), set()

    def walk(x, d):
        if d > 6 or id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, Int):
            if x.w > 1:
                c = sconst(x)
                r.update((c, -c, c + 1, c - 1, 1 - c, -1 - c))
            for a, k in x.t:
                walk(a, d + 1)
        elif isinstance(x, Atom):
            for y in x.args:
                walk(y, d + 1)
        elif isinstance(x, ML):
            r.update((x.c, -x.c, 1 - x.c, -1 - x.c))
            for a, k in x.t:
                walk(a, d + 1)
        elif isinstance(x, Fl):
            if x.op == 'const':
                v = x.args[0]
                if v == v and abs(v) < 1e18:
                    r.update((int(v), int(v) + 1, int(v) - 1))
            else:
                for y in x.args:
                    walk(y, d + 1)
        elif isinstance(x, Str):
            for y in x.args:
                if isinstance(y, (Int, Atom, ML, Fl, Str)):
                    walk(y, d + 1)
        elif isinstance(x, tuple):
            for y in x:
                walk(y, d + 1)
    for e in st.lin.cons:
        walk(e, 0)
    for e in st.lin.neq:
        walk(e, 0)
    for a in st.bools:
        walk(a, 0)
    for k in st.ford:
        walk(k[0], 0); walk(k[1], 0)
    for x in xs:
        walk(x, 0)
    return sorted(r)[:200]


SEED = 1


def generalised(st):
    """the summarised loops the path went through"""
    return [ev[1] for ev in st.events() if ev[0] == 'gen']


def reached(e, st, gens):
    """is a state of a summarised loop reached under the valuation: the loop goes on in the first and in the last of the k iterations before
    (and, its conditions being linear, in those between), by one of the ways round it"""
    for g in gens:
        if 'backs' not in g:
            return False
        a = g['k']
        if a not in e.v:
            continue            # nothing depends on the number of iterations
        K = e.v[a]
        if K == 0:
            continue
        js = sorted({0, K - 1, K // 2, min(1, K - 1)})
        ok = False
        for B in g['backs']:
            for attempt in range(4):
                good = True
                for j in js:
                    x = Env(B, e.rng, e.extra, e.sbias)
                    x.v = {y: v for y, v in e.v.items() if plain(y)}
                    x.v[a] = j
                    try:
                        if not x.holds():
                            good = False
                    except NoEval:
                        good = False
                    if not good:
                        break
                    for q in B.lin.neq:
                        c = dict(q.t).get(a)
                        if c:
                            try:
                                x.v[a] = 0
                                r = x.ml(q)
                            except NoEval:
                                good = False
                                break
                            if -r % c == 0 and 0 <= -r // c < K:
                                good = False
                                break
                    if not good:
                        break
                if good:
                    ok = True
                    break
            if ok:
                break
        if not ok:
            return False
    return True


def plain(y):
    return isinstance(y, (Atom, Fl, Str)) and (y.kind if isinstance(y, Atom) else y.op) == 'sym'


def witness(st, differs=None, xs=(), tries=600):
    """a valuation satisfying the path facts (and making differs(env) true): text, or None"""
    rng = random.Random(SEED)
    extra = consts_of(st, xs)
    why = None
    miss = done = 0
    gens = generalised(st)
    for i in range(tries):
        e = Env(st, rng, extra, 0.7 if i % 2 else 0.3)
        try:
            for x in xs:
                try:
                    e.any(x)
                except NoEval:
                    pass
            if not e.holds():
                continue
            if differs is not None and not differs(e):
                done += 1
                continue
            if (differs is None or differs(e)) and (not gens or reached(e, st, gens)):
                return e.show() or 'any input'
        except NoEval as ex:
            why = ex
            miss += 1
            if miss > 60 and not done:
                return None
        except RecursionError:
            return None
    return None


def feasible(st, tries=600):
    """text of a valuation reaching this path, or None when none was found"""
    if not st.lin.cons and not st.lin.neq and not st.bools and not st.ford and not st.frng and not st.lin.sets and not generalised(st):
        return 'any input'
    return witness(st, None, (), tries)


def show(v):
    if v is None:
        return 'NULL'
    if isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int):
        import api
        return '%s %s' % (api.NAME.get(v[0], v[0]), v[1] if not isinstance(v[1], Str) or v[1].op != 'lit' else v[1].args[0])
    return repr(v)


def simp(eng, st, a):
    """a floating point term with the integer facts of the state applied"""
    if a.op in ('uitofp', 'sitofp'):
        vs = eng.values(st, a.args[0])
        if vs is not None and len(vs) == 1:
            return eng.int2f(a.op, iconst(a.args[0].w, next(iter(vs))), a.ty)
    return a


def congruent(eng, st, d):
    """a difference of two equal functions of arguments that are equal in this state"""
    if len(d.t) == 1 and d.t[0][0].kind == 'fbits' and d.t[0][1] in (1, MASK(d.w)):
        # the bits of a term that equals a constant other than zero
        a, k = d.t[0]
        c = -d.c & MASK(d.w) if k == 1 else d.c
        lo, hi, nan = eng.fint(st, a.args[0])
        f = eng.fromfbits(iconst(d.w, c), a.args[0].ty)
        r = eng.frel(st, *((a.args[0], f) if a.args[0].id <= f.id else (f, a.args[0])))
        return r == {'eq'} and f.args[0] != 0
    if d.c or len(d.t) != 2:
        return False
    (x, k), (y, l) = d.t
    if (k + l) & MASK(d.w) or x.kind != y.kind or x.kind not in ('hash', 'fbits') or len(x.args) != len(y.args):
        return False
    for p, q in zip(x.args, y.args):
        if p is q:
            continue
        if x.kind == 'fbits':
            # equal and not zero: the same bits
            lo, hi, nan = eng.fint(st, p)
            lo2, hi2, nan2 = eng.fint(st, q)
            nz = lo > 0 or hi < 0 or lo2 > 0 or hi2 < 0
            if not nz:
                for u in (p, q):
                    z = fconst(u.ty, 0.0)
                    r = eng.frel(st, u, z) if u.id <= z.id else eng.frel(st, z, u)
                    nz = nz or r and 'eq' not in r
            if not nz or prove_eq(eng, st, p, q) is not True:
                return False
            continue
        if isinstance(p, Str) and isinstance(q, Str):
            if models.same(eng, st, p, q) is not True:
                return False
        elif isinstance(p, (Int, Fl)) and isinstance(q, type(p)):
            if prove_eq(eng, st, p, q) is not True:
                return False
        elif p != q:
            return False
    return True


def prove_eq(eng, st, a, b):
    """True (proved), False (proved different) or None; may ask for a partition"""
    if a is b:
        return True
    if isinstance(a, Int) and isinstance(b, Int):
        if a.w != b.w:
            return None
        if a.w == 1:
            x, y = eng.branch(st, a), eng.branch(st, b)
            return x == y
        d = sub(a, b)
        if is_const(d):
            return d.c == 0
        if congruent(eng, st, d):
            return True
        return eng.decide(st, icmp('eq', a, b))
    if isinstance(a, Fl) and isinstance(b, Fl):
        a, b = simp(eng, st, a), simp(eng, st, b)
        if a is b:
            return True
        if a.op == b.op == 'const':
            return a.args[0] == b.args[0] or (a.args[0] != a.args[0] and b.args[0] != b.args[0])
        r = eng.frel(st, a, b) if a.id <= b.id else eng.frel(st, b, a)
        return True if r == {'eq'} else False if r and 'eq' not in r and 'un' not in r else None
    if isinstance(a, Str) and isinstance(b, Str):
        return models.same(eng, st, a, b)
    return None


def feq(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (x != x and y != y)
    return x == y


def differ(a, b):
    def f(e):
        x, y = e.any(a), e.any(b)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return not (x[0] == y[0])       # the sign of zero is not part of the documented value
        return x != y
    return f


def same_value(W, st, got, exp, nan_ok=True):
    """compare operand values (None | (type, term)): [(state, verdict, text)] with verdict 'ok' | 'bad' | 'und'"""
    if isinstance(got, tuple) and got and got[0] == 'bad':
        o = got[1]
        return [(st,) + outcome_verdict(st, o, 'reading the result')]
    if got is None and exp is None:
        return [(st, 'ok', '')]
    if got is None or exp is None or got[0] != exp[0]:
        w = feasible(st)
        if w is None:
            return [(st, 'und', 'got %s, expected %s, but no input reaching this path was found' % (show(got), show(exp)))]
        return [(st, 'bad', 'got %s, expected %s for %s' % (show(got), show(exp), w))]
    out = []
    a, b = got[1], exp[1]
    if isinstance(a, Undef):
        w = feasible(st)
        return [(st, 'bad' if w else 'und', 'uninitialised value instead of %s' % show(exp))]
    for s, r in W.split(st, lambda s: prove_eq(W.eng, s, a, b)):
        if r is True:
            out.append((s, 'ok', ''))
            continue
        w = witness(s, differ(a, b), (a, b))
        if w is None:
            out.append((s, 'und', 'cannot relate %s to the expected %s' % (show(got), show(exp))))
        else:
            out.append((s, 'bad', 'got %s, expected %s, which differ for %s' % (show(got), show(exp), w)))
    return out


def outcome_verdict(st, o, what):
    """verdict of an outcome that is no ordinary return, where one was required"""
    k = o[0]
    if k == 'undecided':
        return ('und', '%s: %s %s' % (what, o[1], where(o)))
    w = feasible(st)
    txt = {'throw': lambda: 'raises %s' % o[1], 'ub': lambda: '%s %s' % (o[1], where(o)), 'oob': lambda: '%s %s' % (o[1], where(o)),
           'type': lambda: str(o[1])}.get(k, lambda: repr(o))()
    if k == 'oob':
        # only possibly out of range: needs a valuation that leaves the range
        p, n, obj = o[2], o[3], o[4]
        ob = st.obj(obj)
        nn = n if isinstance(n, ML) else ml(n)

        def out(e):
            x, m = e.ml(p.off), e.ml(nn)
            return m > 0 and (x < 0 or x + m > e.ml(ob.size))
        w = witness(st, out, ())
        if w is None:
            return ('und', '%s: %s' % (what, txt))
    if w is None:
        return ('und', '%s: %s, but no input reaching this path was found' % (what, txt))
    return ('bad', '%s: %s for %s' % (what, txt, w))


def where(o):
    tr = o[-1]
    if isinstance(tr, list) and tr:
        for fn, l in reversed(tr):
            if '/src/' in l and '/driver/' not in l:
                return 'at %s in %s' % (l, fn)
        return 'in %s' % tr[-1][0]
    return ''
