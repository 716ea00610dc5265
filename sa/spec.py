"""What the operators are documented to compute, as functions from operand terms to a result term. A specification may
ask for a partition of the operands (eng.branch and the models' order and length partitions)."""
import math
from dom import *
import models
from models import le, compare3, t_sub, t_cat, EMPTY
from api import I32, I64, BOOL, F32, F64, DEC, STR, NAME, VALUE_TYPES

FK = {F32: 'f32', F64: 'f64'}
W = {I32: 32, I64: 64}
ANY = 'any'            # ('any', type): any value of the type (the result is not specified for these operands)


class Op:
    def __init__(self, name, code, ins, out, f, kind='strict', group=''):
        self.name, self.code, self.ins, self.out, self.f, self.kind, self.group = name, code, ins, out, f, kind, group

    def __repr__(self):
        return self.name


def isint(t):
    return t in W


def cmp3(e, s, t, a, b):
    """'lt' 'eq' 'gt' 'un' in the order of the type, partitioning"""
    if isint(t):
        if e.branch(s, icmp('slt', a, b)):
            return 'lt'
        return 'eq' if e.branch(s, icmp('eq', a, b)) else 'gt'
    if t == BOOL:
        x, y = e.branch(s, a), e.branch(s, b)
        return 'eq' if x == y else 'lt' if y else 'gt'
    if t == STR:
        return compare3(e, s, a, b)
    for r, p in (('lt', 4), ('eq', 1), ('gt', 2)):
        if e.branch(s, fcmp(p, a, b)):
            return r
    return 'un'


REL = {'EQ': ('eq',), 'GE': ('eq', 'gt'), 'GT': ('gt',), 'LE': ('eq', 'lt'), 'LT': ('lt',), 'NE': ('lt', 'gt')}


def rel(nm, t):
    def f(e, s, a, b):
        r = cmp3(e, s, t, a, b)
        if r == 'un':
            return (BOOL, iconst(1, int(nm == 'NE')))
        return (BOOL, iconst(1, int(r in REL[nm])))
    return f


def minmax(t, lower):
    def f(e, s, a, b):
        r = cmp3(e, s, t, a, b)
        if r == 'un':
            return (ANY, t)
        if r == 'eq':
            return (t, a)
        return (t, a if (r == 'lt') == lower else b)
    return f


def neg(t):
    return lambda e, s, a: (t, scale(a, -1) if isint(t) else fconst(a.ty, -a.args[0]) if a.op == 'const' else fl(FK[t], 'fneg', a))


def arith(t, nm):
    if t == STR:
        return concat
    if isint(t):
        g = {'ADD': add, 'SUB': sub, 'MUL': mul}[nm]
        return lambda e, s, a, b: (t, g(a, b))
    return lambda e, s, a, b: (t, fbin('f' + nm.lower(), a, b))


def div(t):
    def f(e, s, a, b):
        if isint(t):
            if e.branch(s, icmp('eq', b, iconst(b.w, 0))):
                return None
            if e.branch(s, icmp('eq', b, iconst(b.w, -1))):
                return (t, scale(a, -1))
            return (t, divop('sdiv', a, b))
        if e.branch(s, fcmp(1, b, fconst(FK[t], 0.0))):
            return None
        return (t, fbin('fdiv', a, b))
    return f


def mod(t):
    def f(e, s, a, b):
        if e.branch(s, icmp('eq', b, iconst(b.w, 0))):
            return None
        if e.branch(s, icmp('eq', b, iconst(b.w, -1))):
            return (t, iconst(b.w, 0))
        return (t, divop('srem', a, b))
    return f


def absf(t, check=False):
    def f(e, s, a):
        if isint(t):
            mn = iconst(a.w, 1 << (a.w - 1))
            if check and e.branch(s, icmp('eq', a, mn)):
                return ('throw', LIMIT(t))
            return (t, scale(a, -1) if e.branch(s, icmp('slt', a, iconst(a.w, 0))) else a)
        if a.op == 'const':
            return (t, fconst(a.ty, abs(a.args[0])))
        return (t, fl(FK[t], 'fabs', a))
    return f


def LIMIT(t):
    return 'ExceedsLimitsILh%dE' % t


def truth(t, want):
    def f(e, s, a):
        if t == STR:
            return (BOOL, iconst(1, int(not want)))
        z = e.branch(s, a) is False if t == BOOL else e.branch(s, icmp('eq', a, iconst(a.w, 0))) if isint(t) else None
        if z is None:
            if e.branch(s, fcmp(8, a, fconst(FK[t], 0.0))):
                return (ANY, BOOL)
            z = e.branch(s, fcmp(1, a, fconst(FK[t], 0.0)))
        return (BOOL, iconst(1, int(z != want)))
    return f


# ---- casts
LIM = {(I32, 'f32'): (-2147483648.0, 2147483520.0), (I64, 'f32'): (-9223372036854775808.0, 9223371487098961920.0),
       (I32, 'f64'): (math.nextafter(-2147483648.5, 0), math.nextafter(2147483647.5, 0)), (I64, 'f64'): (-9223372036854775808.0, 9223372036854774784.0)}


def cast(d, t, check=False):
    def f(e, s, a):
        if isint(t):
            if d == I64:
                return (d, sext(a, 64))
            if d == I32:
                if check:
                    lo, hi = iconst(64, -(1 << 31)), iconst(64, (1 << 31) - 1)
                    if e.branch(s, icmp('slt', a, lo)) or e.branch(s, icmp('sgt', a, hi)):
                        return ('throw', LIMIT(d))
                return (d, trunc(a, 32))
            if d == BOOL:
                return (d, iconst(1, int(not e.branch(s, icmp('eq', a, iconst(a.w, 0))))))
            if d in FK:
                return (d, e.int2f('sitofp', a, FK[d]))
            return (d, models.decimal(a))
        if t == BOOL:
            if d in FK:
                return (d, fconst(FK[d], 1.0 if e.branch(s, a) else 0.0))
            if d == STR:
                return (d, slit(b'true' if e.branch(s, a) else b'false'))
            return (d, iconst(W[d], int(e.branch(s, a))))
        if t in FK:
            if isint(d):
                k = FK[t]
                lo, hi = LIM[(d, k)]
                bad = ('throw', LIMIT(d)) if check else (ANY, d)
                if e.branch(s, fcmp(8, a, fconst(k, 0.0))):
                    return bad
                if e.branch(s, fcmp(4, a, fconst(k, lo))) or e.branch(s, fcmp(2, a, fconst(k, hi))):
                    return bad
                return (d, trunc(of_atom(atom('lround', 64, a)) if a.op != 'const' else iconst(64, round_away(a.args[0])), W[d]))
            if d == BOOL:
                if e.branch(s, fcmp(8, a, fconst(FK[t], 0.0))):
                    return (ANY, BOOL)
                return (d, iconst(1, int(not e.branch(s, fcmp(1, a, fconst(FK[t], 0.0))))))
            if d in FK:
                return (d, fconv(FK[d], a))
            return (ANY, STR)
        # text to number
        nm = 'strtol' if isint(d) else 'strtof' if d == F32 else 'strtod'
        base = 10 if isint(d) else 0
        k = ml_var(atom('parsed', 64, nm, a, base, lo=0, hi=(1 << 31) - 1))
        if not le(e, s, ml(1), k):
            return (d, iconst(W[d], 0) if isint(d) else fconst(FK[d], 0.0))
        r = atom('range', 1, nm, a, base)
        v = s.bools.get(r)
        if v is None:
            raise Split([lambda x: e.assume_atom(x, r, True), lambda x: e.assume_atom(x, r, False)])
        if v:
            return ('free',)
        if isint(d):
            x = of_atom(atom('strtol', 64, a, base))
            if d == I32 and (e.branch(s, icmp('slt', x, iconst(64, -(1 << 31)))) or e.branch(s, icmp('sgt', x, iconst(64, (1 << 31) - 1)))):
                return ('free',)
            return (d, trunc(x, W[d]))
        return (d, fl(FK[d], nm, a))
    return f


# ---- strings
def slice_(e, s, a, b, n):
    """n characters from b, clamped to the string; b >= 0"""
    L = e.slen(s, a)
    if le(e, s, L, b) or le(e, s, n, ml(0)):
        return EMPTY
    end = ml_add(b, n)
    if le(e, s, L, end):
        n = ml_sub(L, b)
    return t_sub(e, s, a, b, n)


def M(e, s, x):
    return e.math(s, x, True)


def left(e, s, a, n):
    return (STR, slice_(e, s, a, ml(0), M(e, s, n)))


def right(e, s, a, n):
    L, n = e.slen(s, a), M(e, s, n)
    if le(e, s, n, ml(0)):
        return (STR, EMPTY)
    if le(e, s, L, n):
        return (STR, a)
    return (STR, t_sub(e, s, a, ml_sub(L, n), n))


def substr(e, s, a, b, c=None):
    L, b = e.slen(s, a), M(e, s, b)
    c = L if c is None else M(e, s, c)
    if le(e, s, b, ml(0)):
        b = ml(0)
    if le(e, s, c, b):
        return (STR, EMPTY)
    return (STR, slice_(e, s, a, b, ml_sub(c, b)))


def mid(e, s, a, p, n=None):
    L, p = e.slen(s, a), M(e, s, p)
    n = L if n is None else M(e, s, n)
    if le(e, s, n, ml(0)):
        return (STR, EMPTY)
    if le(e, s, ml(1), p):
        if not le(e, s, p, L):
            return (STR, EMPTY)
        return (STR, slice_(e, s, a, ml_add(p, ml(-1)), n))
    if le(e, s, p, ml(-1)) and le(e, s, ml_scale(L, -1), p):
        return (STR, slice_(e, s, a, ml_add(p, L), n))
    return (STR, EMPTY)


def concat(e, s, a, b):
    le(e, s, e.slen(s, a), ml(0)), le(e, s, e.slen(s, b), ml(0))
    return (STR, t_cat(e, s, [a, b]))


def chars_of(a):
    if a.op == 'lit':
        return [iconst(8, c) for c in a.args[0]]
    if a.op == 'chars':
        return list(a.args[0])
    return None


SPACES = (9, 10, 11, 12, 13, 32)


def isspace(e, s, c):
    r = models.csplit(e, s, c, lambda v: v in SPACES) if not is_const(c) else c.c in SPACES
    if r is None:
        for v in SPACES:
            if e.branch(s, icmp('eq', c, iconst(8, v))):
                return True
        return False
    return r


def trim(l, r):
    def f(e, s, a):
        cs = chars_of(a)
        if cs is None:
            return (ANY, STR)
        i, j = 0, len(cs)
        while l and i < j and isspace(e, s, cs[i]):
            i += 1
        while r and i < j and isspace(e, s, cs[j - 1]):
            j -= 1
        return (STR, models.t_chars(cs[i:j]))
    return f


def casefold(lo, hi, d):
    def f(e, s, a):
        cs = chars_of(a)
        if cs is None:
            return (ANY, STR)
        out = []
        for c in cs:
            p = models.csplit(e, s, c, lambda v: lo <= v <= hi) if not is_const(c) else lo <= c.c <= hi
            out.append(add(c, iconst(8, d)) if p else c)
        return (STR, models.t_chars(out))
    return f


def libm(nm):
    return lambda e, s, a: (F64, fl('f64', nm, a))


NUM = (I32, I64, F32, F64)


def build():
    ops = []

    def op(nm, c, ts, n, fn, out=None, kind='strict', group=''):
        for t in ts:
            ops.append(Op('%s<%s>' % (nm, NAME[t]), [c, t], [t] * n, out if out else t, fn(t), kind, group or nm))
    op('POS', 0x81, NUM, 1, lambda t: lambda e, s, a: (t, a))
    op('NEG', 0x82, NUM, 1, neg)
    op('ADD', 0x83, NUM + (STR,), 2, lambda t: arith(t, 'ADD'))
    op('SUB', 0x84, NUM, 2, lambda t: arith(t, 'SUB'))
    op('MUL', 0x85, NUM, 2, lambda t: arith(t, 'MUL'))
    op('DIV', 0x86, NUM, 2, div)
    op('MOD', 0x87, (I32, I64), 2, mod)
    for i, nm in enumerate(('EQ', 'GE', 'GT', 'LE', 'LT', 'NE')):
        op(nm, 0x91 + i, VALUE_TYPES, 2, lambda t, nm=nm: rel(nm, t), BOOL, group='REL')
    op('IS_NULL', 0xA1, VALUE_TYPES, 1, lambda t: lambda e, s, a: (BOOL, iconst(1, 0)), BOOL, 'special')
    op('IS_TRUE', 0xA2, VALUE_TYPES, 1, lambda t: truth(t, True), BOOL, 'special')
    op('IS_FALSE', 0xA3, VALUE_TYPES, 1, lambda t: truth(t, False), BOOL, 'special')
    op('MIN', 0xB1, VALUE_TYPES, 2, lambda t: minmax(t, True))
    op('MAX', 0xB2, VALUE_TYPES, 2, lambda t: minmax(t, False))
    op('ABS', 0xB3, NUM, 1, absf)
    op('ABS_C', 0xB4, NUM, 1, lambda t: absf(t, True))

    def lnot(e, s, a):
        return (BOOL, inot(a))

    def land(e, s, a, b):
        return (BOOL, iconst(1, int(e.branch(s, a) and e.branch(s, b))))

    def lor(e, s, a, b):
        return (BOOL, iconst(1, int(e.branch(s, a) or e.branch(s, b))))
    ops.append(Op('NOT', [0x51], [BOOL], BOOL, lnot, 'logic', 'LOGIC'))
    ops.append(Op('AND', [0x52], [BOOL, BOOL], BOOL, land, 'logic', 'LOGIC'))
    ops.append(Op('OR', [0x53], [BOOL, BOOL], BOOL, lor, 'logic', 'LOGIC'))
    for code, nm, chk in ((0xF0, 'CAST', False), (0xFC, 'CAST_C', True)):
        for d in VALUE_TYPES:
            for t in VALUE_TYPES:
                if d == t or (d, t) == (BOOL, STR):
                    continue
                ops.append(Op('%s<%s,%s>' % (nm, NAME[d], NAME[t]), [code, d << 4 | t], [t], d, cast(d, t, chk and isint(d) and t in (I64, F32, F64)), 'strict', nm))
    F = [(1, 'ceil'), (2, 'floor')] + [(7 + i, n) for i, n in enumerate('sin cos tan asin acos atan sinh cosh tanh exp log'.split())]
    for c, n in F:
        ops.append(Op(n.upper(), [0xF1, c], [F64], F64, libm(n), 'strict', 'MATH'))
    S = [(0x21, 'CONCAT', [STR, STR], concat), (0x22, 'LOWER', [STR], casefold(65, 90, 32)), (0x23, 'UPPER', [STR], casefold(97, 122, -32)),
         (0x24, 'LEFT', [STR, I32], left), (0x25, 'RIGHT', [STR, I32], right), (0x26, 'TRIM', [STR], trim(True, True)),
         (0x28, 'LTRIM', [STR], trim(True, False)), (0x2A, 'RTRIM', [STR], trim(False, True)), (0x2C, 'SUBSTR3', [STR, I32, I32], substr),
         (0x2D, 'SUBSTR2', [STR, I32], substr), (0x2E, 'MID3', [STR, I32, I32], mid), (0x2F, 'MID2', [STR, I32], mid)]
    for c, n, i, f in S:
        ops.append(Op(n, [0xF1, c], i, STR, f, 'strict', 'TEXT'))
    return ops


OPS = build()
BYNAME = {o.name: o for o in OPS}


def expect(op, e, s, args):
    """the documented result for operands that may be NULL (None)"""
    vals = [a[1] if a is not None else None for a in args]
    if op.kind == 'strict':
        if any(a is None for a in args):
            return None
        return op.f(e, s, *vals)
    if op.kind == 'special':
        if args[0] is None:
            return (BOOL, iconst(1, int(op.name.startswith('IS_NULL'))))
        return op.f(e, s, *vals)
    if op.name == 'NOT':
        return None if args[0] is None else op.f(e, s, vals[0])
    # AND / OR: the dominating value decides even when the other operand is NULL
    if args[0] is not None and args[1] is not None:
        return op.f(e, s, *vals)
    dom_v = op.name == 'OR'
    for a in args:
        if a is not None:
            return (BOOL, iconst(1, int(dom_v))) if e.branch(s, a[1]) == dom_v else None
    return None
