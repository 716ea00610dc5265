"""Checks of operands, adaptors and utilities: C16, C28, C29."""
import itertools
from dom import *
import models, judge, spec, scen
from api import *
from scen import *
from reg import check
from llvmc import P, NULL, Undef


class T8:
    k, w, size = 'i', 8, 1


def outcomes(W, res, what, out):
    """the returning outcomes of a call; the others are judged into out"""
    good = []
    for s, o in res:
        if o[0] == 'ret':
            good.append((s, o[1]))
        else:
            out.append(judge.outcome_verdict(s, o, what))
    return good


def expect_bool(W, s, got, want, what):
    """got: i1 term; want: True/False or a term: [(verdict, text)]"""
    if isinstance(got, Undef):
        return [('bad', '%s is not initialised' % what)]
    out = []
    for s2, b in W.split_bool(s, got):
        for s3, x in ([(s2, want)] if isinstance(want, bool) else W.split_bool(s2, want)):
            if b == x:
                out.append(('ok', ''))
            else:
                w = judge.feasible(s3)
                out.append(('bad' if w else 'und', '%s is %s instead of %s for %s' % (what, bool(b), bool(x), w)))
    return out


def texts(W):
    return [('a symbolic text', ssym('t')), ('the empty text', slit(b'')), ('a text with NULs', slit(b'\0a\0')), ('one byte', models.t_chars([byte('c')])),
            ('a text of 15 bytes', slit(b'x' * 15)), ('a text of 16 bytes', slit(b'y' * 16)), ('a long text', slit(bytes(range(256)) * 2)), ('"null"', slit(b'null'))]


def samples(W, t):
    if t == STR:
        return texts(W)
    r = [('a symbolic value', W.sym(t, 'v')[1])]
    if t in (I32, I64):
        w = 32 if t == I32 else 64
        r += [(str(x), iconst(w, x)) for x in (0, 1, -1, 1 << (w - 1), (1 << (w - 1)) - 1)]
    elif t == BOOL:
        r += [(str(x), iconst(1, x)) for x in (0, 1)]
    else:
        k = spec.FK[t]
        r += [(repr(x), fconst(k, x)) for x in (0.0, -0.0, 1.5, -2.25, math.inf, -math.inf, math.nan)]
    return r


# ------------------------------------------------------------------ C28
def get_any(W, s, a, t, x, out):
    """the any at a must hold the value x (None: empty) of type t"""
    nm = SUF[t]
    has = 'sptr' if t == STR else nm
    for s1, h in outcomes(W, W.call(s, 'vd_any_has_' + has, a), 'reading the any', out):
        r = expect_bool(W, s1, h, x is not None, 'presence of a value')
        out += r
        if x is None or any(v != 'ok' for v, _ in r):
            continue
        if t == STR:
            for s2, p in outcomes(W, W.call(s1, 'vd_any_text', a), 'reading the any', out):
                out += [(v, m) for _, v, m in judge.same_value(W, s2, (t, models.content(W.eng, s2, p)), (t, x))]
        else:
            for s2, v in outcomes(W, W.call(s1, 'vd_any_value_' + nm, a), 'reading the any', out):
                out += [(vv, m) for _, vv, m in judge.same_value(W, s2, (t, v), (t, x))]


def from_operand(W, t, x, back):
    def f():
        out = []
        s = W.new()
        o = W.obj(s, W.size['operand'])
        s = W.put_operand(s, o, None if x is None else (t, x))
        a = W.obj(s, 16)
        nm = 'sptr' if t == STR else SUF[t]
        for s, _ in outcomes(W, W.call(s, 'vd_any_from_' + nm, o, a), 'converting to an any', out):
            get_any(W, s, a, t, x, out)
            # the operand itself is not changed
            for s2, v in W.read_operand(s, o):
                out += [(vv, 'the operand: ' + m) for _, vv, m in judge.same_value(W, s2, v, None if x is None else (t, x))]
            if back:
                o2 = W.obj(s, W.size['operand'])
                for s2, _ in outcomes(W, W.call(s, 'vd_any_to_' + nm, a, o2), 'converting back', out):
                    for s3, v in W.read_operand(s2, o2):
                        out += [(vv, 'converted back: ' + m) for _, vv, m in judge.same_value(W, s3, v, None if x is None else (t, x))]
                    # releasing the any leaves the operands alive
                    for s3, _ in outcomes(W, W.call(s2, 'vd_any_dtor', a), 'releasing the any', out):
                        for p in (o, o2):
                            for s4, v in W.read_operand(s3, p):
                                out += [(vv, 'after the any was released: ' + m) for _, vv, m in judge.same_value(W, s4, v, None if x is None else (t, x))]
        return out
    return f


def to_operand(W, t, x):
    def f():
        out = []
        s = W.new()
        a = W.obj(s, 16)
        nm = 'sptr' if t == STR else SUF[t]
        if x is None:
            s = W.call1(s, 'vd_any_none_' + nm, a)[0]
        elif t == STR:
            sp = W.obj(s, 32)
            models.init(W.eng, s, sp, x)
            s = W.call1(s, 'vd_any_some_str', a, sp)[0]
        else:
            s = W.call1(s, 'vd_any_some_' + nm, a, x)[0]
        o = W.obj(s, W.size['operand'])
        for s, _ in outcomes(W, W.call(s, 'vd_any_to_' + nm, a, o), 'converting to an operand', out):
            for s2, v in W.read_operand(s, o):
                out += [(vv, m) for _, vv, m in judge.same_value(W, s2, v, None if x is None else (t, x))]
            get_any(W, s, a, t, x, out)
        return out
    return f


def get_optional(W, t, x, code, vals, types):
    """evaluate a program whose result is x and read it as an optional"""
    def f():
        out = []
        s, tp = W.tuple(W.new(), vals)
        s, r = W.runner(s)
        p, res = W.decode(s, r, program(types, []) + code if code is not None else program(types, []))
        for s, _ in outcomes(W, res, 'decoding', out):
            s = W.call1(s, 'vd_runner_bind', r, tp)[0]
            for s, _ in outcomes(W, W.call(s, 'vd_runner_run', r), 'evaluating', out):
                for again in range(2):
                    q = W.obj(s, 64)
                    nxt = None
                    for s1, _ in outcomes(W, W.call(s, 'vd_getopt_' + SUF[t], r, q), 'reading the optional', out):
                        nxt = s1
                        for s2, h in outcomes(W, W.call(s1, 'vd_opt_has_' + SUF[t], q), 'reading the optional', out):
                            rr = expect_bool(W, s2, h, x is not None, 'presence of a value')
                            out += rr
                            if x is None or any(v != 'ok' for v, _ in rr):
                                continue
                            if t == STR:
                                for s3, tp2 in outcomes(W, W.call(s2, 'vd_opt_text', q), 'reading the optional', out):
                                    out += [(v, m) for _, v, m in judge.same_value(W, s3, (t, models.content(W.eng, s3, tp2)), (t, x))]
                            else:
                                for s3, v in outcomes(W, W.call(s2, 'vd_opt_value_' + SUF[t], q), 'reading the optional', out):
                                    out += [(vv, m) for _, vv, m in judge.same_value(W, s3, (t, v), (t, x))]
                    if nxt is None:
                        break
                    s = nxt
        return out
    return f


@check('C28')
def c28(c):
    c.rule = ('every type, NULL, a symbolic value and every boundary value (empty text, text with NUL, zero, false, NaN, infinities): the optional inside the any, the optional read from a runner and the operand '
              'converted back are empty/NULL exactly for NULL and otherwise the same term')
    W = c.W
    for t in VALUE_TYPES:
        for nm, x in [('NULL', None)] + samples(W, t):
            c.add('operand to any and back, %s, %s' % (NAME[t], nm), from_operand(W, t, x, True))
            c.add('any to operand, %s, %s' % (NAME[t], nm), to_operand(W, t, x))
            c.add('optional of a result, %s, %s' % (NAME[t], nm), get_optional(W, t, x, None, [None if x is None else (t, x)], [t]))
        c.add('optional of NULL<%s>' % NAME[t], get_optional(W, t, None, [t], [], []))
        v = W.sym(t, 'w')
        c.add('optional of the last of two results, %s' % NAME[t], get_optional(W, t, v[1], None, [None, v], [t, t]))
        c.add('optional of NULL after a value, %s' % NAME[t], get_optional(W, t, None, None, [v, None], [t, t]))


# ------------------------------------------------------------------ C29
HEXV = {**{ord('0') + i: i for i in range(10)}, **{ord('a') + i: 10 + i for i in range(6)}, **{ord('A') + i: 10 + i for i in range(6)}}
UPPER = b'0123456789ABCDEF'


def ext_buffer(W, s, vals):
    """a buffer of exactly the given bytes"""
    id = W.eng.alloc(s, 'code', len(vals), 'undef', 'the given range')
    o = s.wobj(id)
    for i, b in enumerate(vals):
        if b is not None:
            o.cells[ml(i)] = (1, iconst(8, b) if isinstance(b, int) else b)
    return P(id)


def read8(W, s, p, i):
    """(state, 8 bit term) in every partition"""
    return W.split(s, lambda q: W.eng.load(q, P(p.o, ml_add(p.off, ml(i))), T8))


def digit(W, s, x):
    """the documented digit of a nibble term (8 bit): partition into its values"""
    def g(q):
        vs = W.eng.values(q, x)
        if vs is None:
            raise Stop('undecided', 'nibble of unknown range')
        v = W.eng.pick(q, x, sorted(vs)) if len(vs) > 1 else next(iter(vs))
        return v
    return g


def cmp_bytes(W, s, p, exp):
    """the bytes at p are exp (terms or numbers): [(verdict, text)]"""
    out = []
    sts = [s]
    for i, x in enumerate(exp):
        nxt = []
        for q in sts:
            for q2, b in read8(W, q, p, i):
                if isinstance(b, Undef):
                    w = judge.feasible(q2)
                    out.append(('bad' if w else 'und', 'byte %d of the result is not written' % i))
                    continue
                x2 = iconst(8, x) if isinstance(x, int) else x
                for q3, r in W.split(q2, lambda q: judge.prove_eq(W.eng, q, b, x2)):
                    if r is True:
                        nxt.append(q3)
                        continue
                    w = judge.witness(q3, judge.differ(b, x2), (b, x2))
                    out.append(('bad' if w else 'und', 'byte %d of the result is %r instead of %r for %s' % (i, b, x2, w)))
        sts = nxt
    return out or [('ok', '')]


def nibbles(W, s, n, tag='b'):
    """n symbolic bytes in every partition of their digits? no: bytes composed of two symbolic nibbles"""
    r = []
    for i in range(n):
        h, l = isym('%s%dh' % (tag, i), 4), isym('%s%dl' % (tag, i), 4)
        r.append(add(shift('shl', zext(h, 8), iconst(8, 4)), zext(l, 8)))
    return r


def bytes_hex(W, vals, text_out):
    """vals: concrete or symbolic bytes"""
    def f():
        out = []
        s = W.new()
        src = ext_buffer(W, s, vals)
        n = iconst(64, len(vals))
        if text_out:
            dst = W.obj(s, 32)
            res = W.call(s, 'vd_hex_of_bytes', dst, src, n)
        else:
            dst = ext_buffer(W, s, [None] * (2 * len(vals)))
            res = W.call(s, 'vd_bytes_hex', dst, src, n)
        for s, _ in outcomes(W, res, 'converting', out):
            def want(q):
                r = []
                for b in vals:
                    x = iconst(8, b) if isinstance(b, int) else b
                    vs = sorted(W.eng.values(q, x))
                    v = vs[0] if len(vs) == 1 else None
                    if v is None:
                        W.eng.pick(q, x, vs)
                    r += [UPPER[v >> 4], UPPER[v & 15]]
                return r
            for s2, w in W.split(s, want):
                if text_out:
                    got = models.content(W.eng, s2, dst)
                    out += [(v, m) for _, v, m in judge.same_value(W, s2, (STR, got), (STR, slit(bytes(w))))]
                else:
                    out += cmp_bytes(W, s2, dst, w)
                # the source is not changed
                out += cmp_bytes(W, s2, src, vals)
        return out
    return f


def hex_bytes(W, hexs, exp):
    def f():
        out = []
        s = W.new()
        src = ext_buffer(W, s, hexs)
        dst = ext_buffer(W, s, [None] * (len(hexs) // 2))
        for s, _ in outcomes(W, W.call(s, 'vd_hex_bytes', dst, src, iconst(64, len(hexs))), 'converting', out):
            out += cmp_bytes(W, s, dst, exp)
            out += cmp_bytes(W, s, src, hexs)
        return out
    return f


def hex_pair(W, pos, n, fixed):
    """one symbolic digit character at a position among n fixed ones: every digit of either case"""
    def f():
        out = []
        ch = isym('ch', 8)

        def split(q):
            return W.eng.pick(q, ch, sorted(HEXV)) if not W.eng.values(q, ch) or len(W.eng.values(q, ch)) > 1 else next(iter(W.eng.values(q, ch)))
        for s, v in W.split(W.new(), split):
            hexs = [fixed[i % len(fixed)] for i in range(n)]
            hexs[pos] = v
            exp = [HEXV[hexs[2 * i]] << 4 | HEXV[hexs[2 * i + 1]] for i in range(n // 2)]
            src = ext_buffer(W, s, [ch if i == pos else h for i, h in enumerate(hexs)])
            dst = ext_buffer(W, s, [None] * (n // 2))
            for s2, _ in outcomes(W, W.call(s, 'vd_hex_bytes', dst, src, iconst(64, n)), 'converting', out):
                out += cmp_bytes(W, s2, dst, exp)
        return out
    return f


def roundtrip(W, vals):
    def f():
        out = []
        s = W.new()
        src = ext_buffer(W, s, vals)
        mid = ext_buffer(W, s, [None] * (2 * len(vals)))
        dst = ext_buffer(W, s, [None] * len(vals))
        for s, _ in outcomes(W, W.call(s, 'vd_bytes_hex', mid, src, iconst(64, len(vals))), 'converting to text', out):
            for s2, _ in outcomes(W, W.call(s, 'vd_hex_bytes', dst, mid, iconst(64, 2 * len(vals))), 'converting back', out):
                out += cmp_bytes(W, s2, dst, vals)
        return out
    return f


def nibble_of(W, k):
    """every character"""
    def f():
        out = []
        for v in range(32 * k, 32 * k + 32):
            s = W.new()
            for s2, r in outcomes(W, W.call(s, 'vd_hex_nibble', iconst(8, v)), 'reading a digit', out):
                want = HEXV.get(v, -1)
                out += [(vv, 'character 0x%02x: %s' % (v, m)) for _, vv, m in judge.same_value(W, s2, (I32, r), (I32, iconst(32, want)))]
        return out
    return f


def hex_of(W):
    def f():
        out = []
        for v in range(16):
            s = W.new()
            for s2, r in outcomes(W, W.call(s, 'vd_nibble_hex', iconst(32, v)), 'rendering a digit', out):
                out += [(vv, 'nibble %d: %s' % (v, m)) for _, vv, m in judge.same_value(W, s2, (I32, zext(r, 32)), (I32, iconst(32, UPPER[v])))]
        return out
    return f


def any_length(W, which):
    """a symbolic length: no access outside the given ranges on any iteration"""
    def f():
        old, W.eng.peel = W.eng.peel, 0
        try:
            return g()
        finally:
            W.eng.peel = old

    def g():
        out = []
        e = W.eng
        s = W.new()
        n = isym('len', 64)

        def prep(q):
            m = e.math(q, n, False)
            e.lin_ge0(q, ml_sub(ml(1 << 40), m))
            return m
        for s, m in W.split(s, prep):
            def buf(size, what):
                id = e.alloc(s, 'code', size, ('bytes', what), 'the given range')
                return P(id)
            if which == 'hex_bytes':
                half = isym('half', 64)

                def rel(q):
                    hm = e.math(q, half, False)
                    d = ml_sub(m, ml_scale(hm, 2))
                    e.lin_ge0(q, d)
                    e.lin_ge0(q, ml_sub(ml(1), d))
                    return hm
                for s2, hm in W.split(s, rel):
                    src = P(e.alloc(s2, 'code', m, ('bytes', 'hex'), 'the given text'))
                    dst = P(e.alloc(s2, 'code', hm, ('bytes', 'out'), 'the given buffer'))
                    for s3, _ in outcomes(W, W.call(s2, 'vd_hex_bytes', dst, src, n), 'converting', out):
                        out.append(('ok', ''))
            else:
                src = P(e.alloc(s, 'code', m, ('bytes', 'bytes'), 'the given bytes'))
                dst = P(e.alloc(s, 'code', ml_scale(m, 2), ('bytes', 'out'), 'the given buffer'))
                for s3, _ in outcomes(W, W.call(s, 'vd_bytes_hex', dst, src, n), 'converting', out):
                    out.append(('ok', ''))
        return out
    return f


@check('C29')
def c29(c):
    c.rule = ('every digit character and nibble; symbolic bytes (partitioned into their values) at every position of ranges of 0 to 9 bytes, and exact buffers, so that any access outside is a violation; converting '
              'forth and back gives the same terms; ranges of symbolic length by an inductive invariant of the loops')
    W = c.W
    for k in range(8):
        c.add('characters 0x%02x to 0x%02x' % (32 * k, 32 * k + 31), nibble_of(W, k))
    c.add('every nibble', hex_of(W))
    fill = [0x00, 0xff, 0x1f, 0xa0, 0x7e, 0x09, 0x90, 0x5b]
    for n in range(0, 10):
        c.add('%d fixed bytes to digits' % n, bytes_hex(W, [fill[i % 8] for i in range(n)], False))
        c.add('%d fixed bytes to text' % n, bytes_hex(W, [fill[i % 8] for i in range(n)], True))
        for pos in range(n):
            for txt in (False, True):
                c.add('%d bytes to %s, any byte at %d' % (n, 'text' if txt else 'digits', pos), bytes_hex(W, [byte('b') if i == pos else fill[i % 8] for i in range(n)], txt))
    for n in range(0, 20):
        h = [b'0123456789abcdefABCDEF'[(7 * i + n) % 22] for i in range(n)]
        c.add('%d digits to bytes' % n, hex_bytes(W, h, [HEXV[h[2 * i]] << 4 | HEXV[h[2 * i + 1]] for i in range(n // 2)]))
        for pos in range(n - n % 2):
            if n <= 8 or pos >= n - 2:
                c.add('%d digits to bytes, any digit at %d' % (n, pos), hex_pair(W, pos, n, b'0f9A'))
    for n in range(1, 6):
        for pos in range(n):
            c.add('forth and back, %d bytes, any byte at %d' % (n, pos), roundtrip(W, [byte('b') if i == pos else fill[i % 8] for i in range(n)]))
    c.add('forth and back, 300 bytes', roundtrip(W, [(i * 7) & 255 for i in range(300)]))
    c.add('any number of digits stays within the ranges', any_length(W, 'hex_bytes'))
    c.add('any number of bytes stays within the ranges', any_length(W, 'bytes_hex'))


# ------------------------------------------------------------------ C16
def two(W, a, b, s=None):
    s = s or W.new()
    p, q = W.obj(s, W.size['operand']), W.obj(s, W.size['operand'])
    s = W.put_operand(s, p, a)
    s = W.put_operand(s, q, b)
    return s, p, q


def eq_pair(W, a, b):
    """equality against its definition, in both directions; inequality is its negation; NULL tests; copies"""
    def f():
        out = []
        e = W.eng

        def want(s):
            if a is None or b is None:
                return a is b
            if a[0] != b[0]:
                return False
            if isinstance(a[1], Fl):
                return spec.cmp3(e, s, a[0], a[1], b[1]) == 'eq'
            return spec.cmp3(e, s, a[0], a[1], b[1]) == 'eq'
        for s0, x in W.split(W.new(), want):
            s, p, q = two(W, a, b, s0)
            for i, (u, v) in enumerate(((p, q), (q, p))):
                for s1, r in outcomes(W, W.call(s, 'vd_operand_eq', u, v), 'comparing', out):
                    out += expect_bool(W, s1, r, x, 'equality of %s and %s' % ((judge.show(a), judge.show(b)) if not i else (judge.show(b), judge.show(a))))
                for s1, r in outcomes(W, W.call(s, 'vd_operand_ne', u, v), 'comparing', out):
                    out += expect_bool(W, s1, r, not x, 'inequality of %s and %s' % ((judge.show(a), judge.show(b)) if not i else (judge.show(b), judge.show(a))))
            if x:
                out += same_hash(W, s, p, q, 'vd_operand_hash', '%s and %s' % (judge.show(a), judge.show(b)))
        return out
    return f


def same_hash(W, s, p, q, fn, what):
    out = []
    for s1, h in outcomes(W, W.call(s, fn, p), 'hashing', out):
        for s2, g in outcomes(W, W.call(s1, fn, q), 'hashing', out):
            if isinstance(h, Undef) or isinstance(g, Undef):
                out.append(('bad', 'the hash of %s is not initialised' % what))
                continue
            for s3, r in W.split(s2, lambda t: judge.prove_eq(W.eng, t, h, g)):
                if r is True:
                    out.append(('ok', ''))
                    continue
                w = judge.witness(s3, judge.differ(h, g), (h, g))
                out.append(('bad' if w else 'und', 'the equal %s have the hashes %r and %r, which differ for %s' % (what, h, g, w)))
    return out


def null_tests(W, a):
    def f():
        out = []
        s = W.new()
        p = W.obj(s, W.size['operand'])
        s = W.put_operand(s, p, a)
        for s1, r in outcomes(W, W.call(s, 'vd_operand_eqnull', p), 'comparing with NULL', out):
            out += expect_bool(W, s1, r, a is None, '%s == NULL' % judge.show(a))
        for s1, r in outcomes(W, W.call(s, 'vd_operand_nenull', p), 'comparing with NULL', out):
            out += expect_bool(W, s1, r, a is not None, '%s != NULL' % judge.show(a))
        return out
    return f


def copies(W, a, b):
    """a copy and an assigned operand equal the original and hash alike; the original is not changed"""
    def f():
        out = []
        s, p, q = two(W, a, b)
        c = W.obj(s, W.size['operand'])
        for s1, _ in outcomes(W, W.call(s, 'vd_operand_copy', c, p), 'copying', out):
            for s2, _ in outcomes(W, W.call(s1, 'vd_operand_assign', q, p), 'assigning', out):
                for z in (p, c, q):
                    for s3, v in W.read_operand(s2, z):
                        out += [(vv, m) for _, vv, m in judge.same_value(W, s3, v, a)]
                if not (a is not None and isinstance(a[1], Fl)):
                    for z in (c, q):
                        for s3, r in outcomes(W, W.call(s2, 'vd_operand_eq', p, z), 'comparing', out):
                            out += expect_bool(W, s3, r, True, 'equality of %s with its copy' % judge.show(a))
                for z in (c, q):
                    out += same_hash(W, s2, p, z, 'vd_operand_hash', '%s and its copy' % judge.show(a))
        return out
    return f


def tuple_hash(W, vals, other=None):
    def f():
        out = []
        s, t = W.tuple(W.new(), vals)
        s, u = W.tuple(s, other or vals)
        out += same_hash(W, s, t, u, 'vd_tuple_hash', 'tuples %s' % text(vals))
        if not any(v is not None and isinstance(v[1], Fl) and v[1].op != 'const' for v in vals):
            for s1, r in outcomes(W, W.call(s, 'vd_tuple_eq', t, u), 'comparing', out):
                out += expect_bool(W, s1, r, True, 'equality of tuples %s' % text(vals))
        return out
    return f


def tuple_differ(W, a, b, want=False):
    def f():
        out = []
        s, t = W.tuple(W.new(), a)
        s, u = W.tuple(s, b)
        for x, y in ((t, u), (u, t)):
            for s1, r in outcomes(W, W.call(s, 'vd_tuple_eq', x, y), 'comparing', out):
                out += expect_bool(W, s1, r, want, 'equality of tuples %s and %s' % (text(a), text(b)))
        return out
    return f


@check('C16')
def c16(c):
    c.rule = ('every pair of types and NULL with symbolic values, in every partition of their order, both ways round: equality is exactly "same type and same value", inequality its negation; where they are equal (zeros '
              'of both signs and separately stored equal texts included) the hash terms are equal; tuples of 0 to 5 elements')
    W = c.W
    alts = [None] + list(VALUE_TYPES)

    def val(t, nm):
        return None if t is None else W.sym(t, nm)
    for t, u in itertools.product(alts, repeat=2):
        c.add('%s and %s' % (NAME.get(t, 'NULL'), NAME.get(u, 'NULL')), eq_pair(W, val(t, 'a'), val(u, 'b')))
    for t in VALUE_TYPES:
        vs = samples(W, t)
        for (n1, x), (n2, y) in itertools.combinations_with_replacement(vs, 2):
            if t == STR and 'symbolic' in n1 + n2 and n1 != n2:
                continue
            c.add('%s %s and %s' % (NAME[t], n1, n2), eq_pair(W, (t, x), (t, y)))
        for nm, x in vs:
            c.add('NULL tests of %s %s' % (NAME[t], nm), null_tests(W, (t, x)))
            for o in alts:
                c.add('copies of %s %s over %s' % (NAME[t], nm, NAME.get(o, 'NULL')), copies(W, (t, x), val(o, 'old')))
        # values of different types that look alike are different
        for u in VALUE_TYPES:
            if u == t:
                continue
            for z in (0, 1):
                def mk(ty):
                    return (ty, iconst({I32: 32, I64: 64, BOOL: 1}[ty], z) if ty in (I32, I64, BOOL) else fconst(spec.FK[ty], float(z)) if ty != STR else slit(b'01'[z:z + 1]))
                c.add('%d as %s and as %s' % (z, NAME[t], NAME[u]), eq_pair(W, mk(t), mk(u)))
    c.add('NULL tests of NULL', null_tests(W, None))
    for o in alts:
        c.add('copies of NULL over %s' % NAME.get(o, 'NULL'), copies(W, None, val(o, 'old')))
    ab = [b'', b'\0', b'a', b'b', b'ab', b'a\0', b'a\0b', b'\0a', b'\xff', b'A' * 40, b'A' * 39 + b'B']
    for x, y in itertools.combinations_with_replacement(ab, 2):
        c.add('texts %r and %r' % (x[:6], y[:6]), eq_pair(W, (STR, slit(x)), (STR, slit(y))))
    tys = [I32, STR, None, F64, BOOL, I64, F32]
    for n in range(0, 6):
        for k in range(7):
            vals = [val(tys[(k + i) % 7], 'v%d' % i) for i in range(n)]
            c.add('equal tuples of %d elements, %d' % (n, k), tuple_hash(W, vals))
            if not n:
                break
    c.add('tuples with zeros of both signs', tuple_hash(W, [(F64, fconst('f64', 0.0)), (F32, fconst('f32', -0.0)), None], [(F64, fconst('f64', -0.0)), (F32, fconst('f32', 0.0)), None]))
    one, two_ = (I32, iconst(32, 1)), (I32, iconst(32, 2))
    for a, b in (([], [None]), ([one], [one, None]), ([one, two_], [two_, one]), ([one, None], [None, one]), ([one], [(I64, iconst(64, 1))]), ([None], [(BOOL, iconst(1, 0))]),
                 ([(STR, slit(b'a')), (STR, slit(b''))], [(STR, slit(b'')), (STR, slit(b'a'))])):
        c.add('tuples %s and %s' % (text(a), text(b)), tuple_differ(W, a, b))


import math
from interp import Stop


# ------------------------------------------------------------------ C31
def elements(W, n, tag):
    ts = [I32, STR, None, F64, BOOL, I64, F32]
    return [None if ts[(i + len(tag)) % 7] is None else W.sym(ts[(i + len(tag)) % 7], '%s%d' % (tag, i)) for i in range(n)]


def same_elements(W, s, p, want, what):
    from scen import check_values
    out = []
    for s2, vs in W.read_tuple(s, p):
        out += [(v, '%s: %s' % (what, m)) for v, m in check_values(W, s2, vs, want)]
    return out


def tuples_of(W, call, sources, want, what):
    """a helper returns a new tuple with the wanted elements, leaves its arguments as they were, and the result outlives them"""
    def f():
        out = []
        s = W.new()
        ps = []
        for vs in sources:
            s, p = W.tuple(s, vs)
            ps.append(p)
        for s, q in outcomes(W, call(s, ps), what, out):
            if not isinstance(q, P) or q.o in [p.o for p in ps]:
                w = judge.feasible(s)
                out.append(('bad' if w and isinstance(q, P) else 'und', '%s: the result is not a new tuple for %s' % (what, w)))
                continue
            out += same_elements(W, s, q, want, what)
            for p, vs in zip(ps, sources):
                out += same_elements(W, s, p, vs, what + ', argument afterwards')
            for p in ps:
                r = outcomes(W, W.call(s, 'vd_tuple_delete', p), 'releasing an argument', out)
                if len(r) != 1:
                    break
                s = r[0][0]
            else:
                out += same_elements(W, s, q, want, what + ' after its arguments were released')
                out += [(v, m) for s2, _ in outcomes(W, W.call(s, 'vd_tuple_delete', q), 'releasing the result', out) for v, m in [('ok', '')]]
        return out
    return f


def index_array(W, s, ix):
    id = W.eng.alloc(s, 'code', 4 * len(ix), 'undef', 'the given indices')
    o = s.wobj(id)
    for i, k in enumerate(ix):
        o.cells[ml(4 * i)] = (4, iconst(32, k))
    return P(id)


@check('C31')
def c31(c):
    c.rule = ('tuples of every length up to the bound with symbolic elements of all types and NULLs: the result of ConcatTuple and MapTuple is a new tuple whose elements are, as terms, the '
              'documented ones; the arguments are unchanged, no element outside them is read, and the result stays valid when the arguments are released')
    W = c.W
    top = 6 if c.tier == 'thorough' else 4
    for n in range(top + 1):
        for k in range(top + 1):
            a, b = elements(W, n, 'a'), elements(W, k, 'bb')
            c.add('concatenating %d and %d elements' % (n, k), tuples_of(W, lambda s, ps: W.call(s, 'vd_concat', ps[0], ps[1]), [a, b], a + b, 'concatenation'))
    a = elements(W, 3, 'a')

    def twice(s, ps):
        return W.call(s, 'vd_concat', ps[0], ps[0])
    c.add('concatenating a tuple with itself', tuples_of(W, twice, [a], a + a, 'concatenation'))
    for n in range(1, top):
        for k in range(0, 4 if c.tier == 'quick' else 5):
            for ix in itertools.product(range(n), repeat=k):
                src = elements(W, n, 'abc')
                c.add('elements %s of %d' % (list(ix), n), tuples_of(W, lambda s, ps, ix=ix: W.call(s, 'vd_map', ps[0], index_array(W, s, ix), iconst(64, len(ix))), [src], [src[i] for i in ix],
                                                                       'mapping'))
    src = elements(W, 20, 'a')
    for ix in (list(range(20)), list(range(19, -1, -1)), [7] * 20, [0, 19] * 10):
        c.add('elements %s of 20' % ix, tuples_of(W, lambda s, ps, ix=ix: W.call(s, 'vd_map', ps[0], index_array(W, s, ix), iconst(64, len(ix))), [src], [src[i] for i in ix], 'mapping'))
    for n in W.sizes():
        src = elements(W, n, 'a')
        for ix in (list(range(n)), list(range(n - 1, -1, -1)), [0, n - 1] * (n // 2)):
            c.add('elements %s of %d' % (ix if n < 20 else '%d, %d..%d' % (ix[0], ix[1], ix[-1]), n),
                  tuples_of(W, lambda s, ps, ix=ix: W.call(s, 'vd_map', ps[0], index_array(W, s, ix), iconst(64, len(ix))), [src], [src[i] for i in ix], 'mapping'))
    for n, k in [(20, 3), (3, 20), (16, 17)] + [x for n in W.sizes() for x in ((n, 0), (0, n), (n, 1), (1, n), (n // 2, n - n // 2), (n, n))]:
        a, b = elements(W, n, 'a'), elements(W, k, 'bb')
        c.add('concatenating %d and %d elements' % (n, k), tuples_of(W, lambda s, ps: W.call(s, 'vd_concat', ps[0], ps[1]), [a, b], a + b, 'concatenation'))
