"""Checks of decoding: C02, C03, C04, C05."""
import itertools, math
from dom import *
import models, judge, spec, scen, encoding
from api import *
from scen import *
from reg import check
from interp import Stop
import llvmc
from llvmc import P, NULL, Undef


# programs put before the analysed bytes: every form of operator, and the sizes at which the operator list grows
PREFIX = [
    ('nothing', []),
    ('a NULL', [0x01]),
    ('a constant', [0x11, 5]),
    ('a long constant', [0x12, 0x80, 0x80, 0x01]),
    ('a text', [0x17, 3, 65, 0, 66]),
    ('a float', [0x14, 0x81, 0xF1, 0x11, 0x7f]),
    ('a variable', [0x32, 0x01]),
    ('a negated constant', [0x21, 7]),
    ('a cast to the same type', [0x31, 0, 0xF0, 0x11]),
    ('a function', [0x35, 0, 0xF1, 0x01]),
    ('an addition', [0x31, 0, 0x31, 1, 0x83, 0x01]),
    ('8 constants', [0x11, 1] * 8),
]


def fixed_valuations(st, atoms, limit=70000):
    """every valuation of byte atoms admitted by the sets of a path, or None when there are too many"""
    doms = []
    n = 1
    for a in atoms:
        s = st.lin.sets.get(a)
        d = sorted(s) if s is not None else range(256)
        n *= len(d)
        doms.append(d)
    if n > limit:
        return None
    return itertools.product(*doms)


class Forced(judge.Env):
    def __init__(self, st, vals):
        import random
        judge.Env.__init__(self, st, random.Random(1), [], 0.5)
        self.v.update(vals)


def admitted(st, atoms, vs):
    """does the path admit exactly these bytes (None: unknown)"""
    try:
        return Forced(st, dict(zip(atoms, vs))).holds()
    except judge.NoEval:
        return None


def symbolic_bytes(n, first=None):
    """items, atoms: n symbolic bytes, the first one optionally restricted"""
    ts = [isym('x%d' % i, 8) for i in range(n)]
    return ts, [t.t[0][0] for t in ts]


def decode_paths(W, prefix, n, firsts, rel=False):
    """decode prefix + n symbolic bytes, the first of which ranges over `firsts`: [(state, outcome, atoms, items, pointer)]"""
    ts, atoms = symbolic_bytes(n)
    st = W.new()
    if n and firsts is not None:
        st.lin = st.lin.with_set(atoms[0], frozenset(firsts))
    st, r = W.rel(st) if rel else W.runner(st)
    old = W.eng.peel
    W.eng.peel = max(old, n + 3) if rel else old       # no loop over the code can go further
    try:
        p, res = W.decode(st, r, list(prefix) + ts, rel=rel)
    finally:
        W.eng.peel = old
    return [(s, o, atoms, p) for s, o in res]


def byteseq(vs):
    return ' '.join('%02x' % v for v in vs)


def judge_decode(W, prefix, n, firsts, what, rel=False):
    """what: 'codes' (C02), 'length' (C03), 'reads' (C05), 'all' (C24)"""
    parse = encoding.rel_parse if rel else encoding.parse
    def f():
        out = []
        for s, o, atoms, p in decode_paths(W, prefix, n, firsts, rel):
            if o[0] in ('undecided',):
                out.append(('und', 'decoding: %s %s' % (o[1], judge.where(o))))
                continue
            if o[0] in ('ub', 'oob', 'type'):
                out.append(judge.outcome_verdict(s, o, 'decoding') if what in ('reads', 'codes', 'all') else ('ok', ''))
                continue
            vals = fixed_valuations(s, atoms)
            if vals is None:
                out.append(('und', 'too many byte sequences on one path'))
                continue
            ok = True
            end = o[1] if o[0] == 'ret' else None
            for vs in vals:
                b = list(prefix) + list(vs)
                exp = parse(b)
                why = None
                if exp[0] == 'ok':
                    if exp[2] is None:
                        continue            # the encoding leaves the code open
                    if o[0] == 'throw':
                        if what in ('codes', 'all'):
                            why = 'the documented program %s is rejected (%s)' % (byteseq(b), o[1])
                    elif what in ('length', 'all'):
                        e = position(s, end, p, dict(zip(atoms, vs)))
                        if e is None:
                            why = ('und', 'the returned position %r is not a position in the code' % (end,))
                        elif e != exp[1]:
                            why = 'decoding %s returns position %s, the documented end is %d' % (byteseq(b), e, exp[1])
                elif exp[1]:
                    continue
                elif exp[0] == 'bad':
                    if o[0] == 'ret' and what in ('codes', 'all'):
                        why = 'the bytes %s hold an undefined or unsupported code and are accepted' % byteseq(b)
                elif exp[0] == 'trunc':
                    if o[0] == 'ret' and what in ('reads', 'all'):
                        why = 'the bytes %s end within an operator and are accepted' % byteseq(b)
                if why is None:
                    continue
                if isinstance(why, tuple):
                    out.append(why)
                    ok = False
                    break
                h = admitted(s, atoms, vs)
                if h is False:
                    continue
                out.append(('bad' if h else 'und', why))
                ok = False
                break
            if ok:
                out.append(('ok', ''))
        return out
    return f


def position(s, end, p, vals):
    if not isinstance(end, P) or end.o != p.o:
        return None
    if not end.off.t:
        return end.off.c
    try:
        return Forced(s, vals).ml(end.off)
    except judge.NoEval:
        return None


CLASSES = [(h, [x for x in range(16 * h, 16 * h + 16)]) for h in range(16)]


def decode_matrix(c, what):
    W = c.W
    for n in (1, 2):
        for h, bs in CLASSES:
            c.add('all sequences of %d byte(s) starting 0x%x_' % (n, h), judge_decode(W, [], n, bs, what))
    for h, bs in CLASSES:
        for b in bs:
            if h in (0, 1, 2, 3, 5, 15, 8, 9, 10, 11) or c.tier == 'thorough':
                c.add('all sequences of 3 bytes starting 0x%02x' % b, judge_decode(W, [], 3, [b], what))
    for nm, pre in PREFIX[1:]:
        for h, bs in CLASSES:
            c.add('after %s: all sequences of 2 bytes starting 0x%x_' % (nm, h), judge_decode(W, pre, 2, bs, what))
    if c.tier == 'thorough':
        for k in (2, 3, 4, 5, 7, 15, 16, 17, 31, 32, 33):
            for h, bs in CLASSES:
                c.add('after %d constants: all sequences of 2 bytes starting 0x%x_' % (k, h), judge_decode(W, [0x11, 1] * k, 2, bs, what))


# ------------------------------------------------------------------ codes of any length
def region(W, st, cells, size, name='code'):
    """a region of symbolic bytes and symbolic size; some bytes given"""
    id = W.eng.alloc(st, 'code', size, ('bytes', name), 'the given code')
    o = st.wobj(id)
    for i, b in cells.items():
        o.cells[ml(i)] = (1, iconst(8, b) if isinstance(b, int) else b)
    return P(id)


SEQUENCES = ('OperatorVector::Decode', 'RelRunner::Decode', 'DecodeElements', 'DecodeVector', 'DecodeArray')


def first_operator(W, cells, rel=False, upto_alloc=False):
    """decode a code of unknown length n >= 1 whose first bytes may be given, up to the point where a second operator is read: [(state, outcome)]"""
    e = W.eng
    st = W.new()
    st, r = W.rel(st) if rel else W.runner(st)
    n = isym('n', 64, max(cells, default=0) + 1, 1 << 40)
    p = region(W, st, cells, e.math(st, n))

    def on_load(s, q, k, o):
        if o.id != p.o:
            return
        # a second operator or element starts in the same situation as the first: some position of a code of unknown length
        if upto_alloc and any(ev[0] == 'alloc' and s.obj(ev[1]).size is not None and s.obj(ev[1]).size.t for ev in s.events()):
            raise Stop('stopped')
        first = True
        for f in s.frames:
            if f is not None and f.loops:
                if f.loops[0].n >= 1 and (first or any(x in f.fn.dem for x in SEQUENCES)):
                    raise Stop('stopped', q.off)
                first = False
    def on_throw(s, ti):
        raise Stop('stopped')          # what follows only releases

    e.on_load = on_load
    e.on_throw = on_throw
    try:
        res = W.call(st, 'vd_rel_decode' if rel else 'vd_runner_decode', r, p, n)
    finally:
        e.on_load = e.on_throw = None
    return p, n, res


def unbounded(W, b0, what, rel=False, more=()):
    def f():
        out = []
        p, n, res = first_operator(W, dict(enumerate([b0] + list(more))), rel)
        nm = atom_of(n)
        for s, o in res:
            if o[0] == 'stopped':
                out.append(('ok', ''))
            elif o[0] in ('ub', 'oob', 'undecided'):
                v = judge.outcome_verdict(s, o, 'decoding')
                out.append(v if what == 'reads' or v[0] == 'und' else ('ok', ''))
            elif o[0] == 'throw':
                out.append(('ok', ''))
            elif what == 'reads':
                q = o[1]
                if not isinstance(q, P) or q.o != p.o:
                    out.append(('und', 'the returned position %r is no position in the code' % (q,)))
                elif s.lin.entails_ge0(ml_sub(W.eng.math(s, n), q.off)):
                    out.append(('ok', ''))
                else:
                    w = judge.witness(s, lambda e: e.ml(q.off) > e.int(n), ())
                    out.append(('bad', 'an operator that ends beyond the given length is accepted for %s' % w) if w else ('und', 'cannot relate the returned position %s to the length' % (q.off,)))
            else:
                out.append(('ok', ''))
        return out
    return f


def sizes(W, pre, rel=False, upto_alloc=False):
    """every allocation on the way to the second operator or element is bounded by the length; the second one starts behind the first"""
    from props_state import place
    K, C, MANY = 64, 4096, 64

    def f():
        out = []
        p, n, res = first_operator(W, dict(enumerate(pre)), rel, upto_alloc)
        for s, o in res:
            if o[0] in ('ub', 'oob', 'undecided'):
                v = judge.outcome_verdict(s, o, 'decoding')
                out.append(v if v[0] == 'und' else ('ok', ''))      # (reads are C05's)
            count = 0
            for ev in s.events():
                if ev[0] not in ('alloc', 'size'):
                    continue
                count += 1
                size = s.obj(ev[1]).size if ev[0] == 'alloc' else ev[1]
                if size is None:
                    continue
                room = ml_sub(ml_add(ml_scale(W.eng.math(s, n), K), ml(C)), size)
                if s.lin.entails_ge0(room):
                    continue
                w = judge.witness(s, lambda e: e.ml(room) < 0, ())
                what = 'an allocation of %s bytes %s' % (size, place(ev[-1]))
                out.append(('bad', '%s exceeds %d times the length of the code for %s' % (what, K, w)) if w else ('und', 'cannot bound %s' % what))
                break
            else:
                if count > MANY:
                    out.append(('bad' if judge.feasible(s) else 'und', '%d allocations for one operator' % count))
                elif o[0] == 'stopped' and isinstance(o[1], ML) and not s.lin.entails_ge0(ml_sub(o[1], ml(1))):
                    w = judge.witness(s, lambda e: e.ml(o[1]) < 1, ())
                    out.append(('bad' if w else 'und', 'the second operator starts at %s, not behind the first' % (o[1],)))
                else:
                    out.append(('ok', ''))
        return out
    return f


def atom_of(x):
    return x.t[0][0]


def truncated(W, code, k, rel=False):
    """the first k bytes of a program whose k-th byte lies within an operator"""
    def f():
        st = W.new()
        st, r = W.rel(st) if rel else W.runner(st)
        p, res = W.decode(st, r, list(code[:k]), rel=rel)
        out = []
        for s, o in res:
            if o[0] == 'throw':
                out.append(('ok', ''))
            elif o[0] == 'ret':
                w = judge.feasible(s)
                out.append(('bad' if w else 'und', 'the first %d bytes of the program are accepted' % k))
            else:
                out.append(judge.outcome_verdict(s, o, 'decoding'))
        return out
    return f


def sym_bytes(n, name='b'):
    return [isym('%s%d' % (name, i), 8) for i in range(n)]


# one program for each form of operator (symbolic where the content is free), with the positions at which it is complete
def forms():
    r = []
    for t in (1, 2):
        for k in (1, 2, 3, 5, 10):
            for pre in (0x10, 0x20):
                r.append(('%s<%s> of %d bytes' % ('CONST' if pre == 0x10 else 'CONST_N', NAME[t], k), [pre | t] + [0x80 | (i * 3 + 1) for i in range(k - 1)] + [1]))
    r.append(('CONST<FLOAT>', [0x14] + sym_bytes(4)))
    r.append(('CONST<DOUBLE>', [0x15] + sym_bytes(8)))
    for k in (1, 2, 15, 16, 17, 40):
        r.append(('CONST<STRING> of %d characters' % k, [0x17, k] + sym_bytes(k)))
    r.append(('CONST<STRING> of 130 characters', [0x17, 0x82, 0x01] + sym_bytes(130)))
    for t in (1, 2, 3, 4, 5, 7):
        for k in (1, 2, 5):
            r.append(('VAR<%s> of %d bytes' % (NAME[t], k), [0x30 | t] + [0x80] * (k - 1) + [1]))
    for x in sorted(encoding.FIRST2):
        y = next(c[1] for c in encoding.TABLE if c[0] == x)
        r.append(('operator 0x%02x' % x, [x, y]))
    return r


@check('C02')
def c02(c):
    c.rule = ('decode every sequence of 1 to 3 bytes (symbolic bytes, partitioned by the decoder itself), alone and after every form of operator: a path that returns admits no byte '
              'sequence with an undefined or unsupported code, a path that raises admits no documented program, and no table is read out of range')
    decode_matrix(c, 'codes')


@check('C05')
def c05(c):
    c.rule = ('decode codes of unknown length (a region of symbolic bytes and symbolic size, first byte by first byte, loops generalised to inductive invariants) and every sequence of up '
              'to 3 bytes: no byte outside the region is read and no accepted operator ends beyond it; every form of operator, cut at every inner position, alone and after others, raises')
    W = c.W
    for b0 in range(256):
        c.add('code of any length starting 0x%02x' % b0, unbounded(W, b0, 'reads'))
    for nm, code in forms():
        for k in range(1, len(code)):
            if len(code) > 60 and k not in (1, 2, 3, 64, len(code) - 1) and c.tier != 'thorough':
                continue
            for pn, pre in PREFIX if len(code) < 20 else PREFIX[:2]:
                c.add('%s cut to %d bytes after %s' % (nm, k, pn), truncated(W, pre + code, len(pre) + k))
    for op in spec.OPS:
        if len(op.code) == 2:
            c.add('%s without its second byte' % op.name, truncated(W, op.code, 1))
    decode_matrix(c, 'reads')
    rel_reads(c)


# ------------------------------------------------------------------ relational codes
REL_PREFIX = [
    ('nothing', []),
    ('the filter byte', [0x71]),
    ('the projection byte', [0x72]),
    ('a filter with an expression', [0x71, 0x33, 0x00]),
    ('a projection with expressions', [0x72, 0x31, 0x00, 0x11, 0x05, 0x00]),
    ('the grouped aggregation byte', [0x73]),
    ('the array byte', [0x73, 0x61]),
    ('one group column', [0x73, 0x61, 1]),
    ('two group columns, one given', [0x73, 0x61, 2, 0]),
    ('the group columns', [0x73, 0x61, 1, 0]),
    ('no group columns', [0x73, 0x61, 0]),
    ('group columns and an aggregation count', [0x73, 0x61, 1, 0, 1]),
    ('group columns and one of two aggregations', [0x73, 0x61, 1, 0, 2, 0x10]),
    ('a grouped aggregation', [0x73, 0x61, 1, 0, 1, 0x21, 1]),
    ('the ungrouped aggregation byte', [0x74]),
    ('an aggregation count', [0x74, 1]),
    ('one of two aggregations', [0x74, 2, 0x10]),
    ('an aggregation kind', [0x74, 1, 0x32]),
    ('one of three aggregations with a column', [0x74, 3, 0x12, 5]),
    ('an ungrouped aggregation', [0x74, 1, 0x10]),
    ('an empty ungrouped aggregation', [0x74, 0]),
    ('two operators', [0x71, 0x33, 0x00, 0x72, 0x31, 0x00, 0x00]),
    ('a filter within whose expression', [0x71, 0x31, 0x00, 0x11, 0x01]),
]


def rel_matrix(c, what):
    W = c.W
    for pn, pre in REL_PREFIX:
        for h, bs in CLASSES:
            c.add('relational: all single bytes 0x%x_ after %s' % (h, pn), judge_decode(W, pre, 1, bs, what, True))
            if counted(pre):
                continue               # two symbolic bytes of a count: decided for code of any length
            c.add('relational: all sequences of 2 bytes starting 0x%x_ after %s' % (h, pn), judge_decode(W, pre, 2, bs, what, True))


def counted(pre):
    return pre in ([0x73, 0x61], [0x74], [0x73, 0x61, 1, 0], [0x73, 0x61, 0])


def rel_forms():
    return [
        ('filter', [0x71, 0x33, 0x00, 0x00], {3}),
        ('filter with a comparison', [0x71, 0x31, 0x00, 0x11, 0x85, 0x01, 0x95, 0x01, 0x00], {3, 7 + 1}),
        ('projection', [0x72, 0x37, 0x00, 0x17, 0x02, 0x41, 0x42, 0x15, 1, 2, 3, 4, 5, 6, 7, 8, 0x00], {1, 3, 7, 16}),
        ('grouped aggregation', [0x73, 0x61, 0x02, 0x00, 0x81, 0x01, 0x02, 0x21, 0x01, 0x10], set()),
        ('grouped aggregation of no columns', [0x73, 0x61, 0x00, 0x01, 0x47, 0x85, 0x02], set()),
        ('ungrouped aggregation', [0x74, 0x03, 0x10, 0x11, 0x80, 0x01, 0x44, 0x05], set()),
        ('ungrouped aggregation of many', [0x74, 0x0c] + [0x22, 0x01] * 12, set()),
    ]


def rel_reads(c):
    W = c.W
    for b0 in (0x00, 0x70, 0x75, 0x61, 0xff):
        c.add('relational code of any length starting 0x%02x' % b0, unbounded(W, b0, 'reads', True))
    for b1 in range(256):
        if b1 != 0x61:
            if b1 < 16 or b1 % 16 == 0:
                c.add('relational code of any length starting 0x73 0x%02x' % b1, unbounded(W, 0x73, 'reads', True, [b1]))
        c.add('filter expression of any length starting 0x%02x' % b1, unbounded(W, 0x71, 'reads', True, [b1]))
        c.add('aggregations of any length starting 0x%02x' % b1, unbounded(W, 0x74, 'reads', True, [0x02, b1]))
    for n in (0, 1, 2, 3, 127):
        c.add('%d aggregations in code of any length' % n, unbounded(W, 0x74, 'reads', True, [n]))
        if n:
            c.add('%d aggregations after a group column, in code of any length' % n, unbounded(W, 0x73, 'reads', True, [0x61, 1, 0, n]))
        c.add('%d aggregations after no group columns, in code of any length' % n, unbounded(W, 0x73, 'reads', True, [0x61, 0, n]))
    c.add('127 group columns in code of any length', unbounded(W, 0x73, 'reads', True, [0x61, 127]))
    for nm, code, ends_ in rel_forms():
        for k in range(1, len(code)):
            if encoding.rel_parse(code[:k])[0] != 'trunc':
                continue
            for pn, pre in (('nothing', []), ('a filter', [0x71, 0x33, 0, 0]), ('an aggregation', [0x74, 1, 0x10])):
                c.add('relational: %s cut to %d bytes after %s' % (nm, k, pn), truncated(W, pre + code, len(pre) + k, True))
    rel_matrix(c, 'reads')


@check('C03')
def c03(c):
    c.rule = ('every sequence of 1 to 3 bytes, alone and after every form of operator: the position returned is the documented end for every byte sequence of the path; every operator, '
              'constant and variable followed by EOE and by arbitrary bytes ends just after EOE, and evaluates to the same number of results as steps encoded; bytes after EOE are not read')
    W = c.W
    decode_matrix(c, 'length')
    for op in spec.OPS:
        c.add('%s, EOE, anything' % op.name, ends(W, scen.program(op.ins, op.code), 1 if op.name not in TEXTUAL else None, op.ins))
    for nm, code in forms():
        c.add('%s, EOE, anything' % nm, ends(W, code, 1 if code[0] < 0x30 else None) if code[0] < 0x80 else ends(W, [0x31, 0, 0x31, 1] + code, None))
    for t in (1, 2, 3, 4, 5, 7):
        c.add('NULL<%s>, EOE, anything' % NAME[t], ends(W, [t], 1))
        for code in (0xF0, 0xFC):
            c.add('cast 0x%02x of %s to itself, EOE, anything' % (code, NAME[t]), ends(W, [0x30 | t, 0, code, t << 4 | t], 1, [t]))
    c.add('EOE only', ends(W, [], 0))
    for n in W.sizes():
        c.add('%d steps of all forms' % n, ends(W, sum((([0x11, 1], [0x31, 0], [0x07], [0x17, 1, 65], [0x13])[i % 5] for i in range(n)), []), n, [I32]))
    c.add('13 values', ends(W, [0x11, 1] * 13, 13))
    c.add('8 values with casts to themselves', ends(W, [0x11, 1, 0xF0, 0x11] * 8, 8))
    for pn, pre in PREFIX:
        c.add('EOE after %s' % pn, ends(W, pre, None))
    for k in range(0, 12):
        c.add('decoding starts at the given position, %d bytes into a buffer' % k, inside(W, k))
    c.add('nothing is decoded from no bytes', empty(W))


def ends(W, code, results, types=None):
    """code, EOE and three arbitrary bytes: ends after EOE, reads nothing after it, and leaves `results` values"""
    def f():
        out = []
        e = W.eng
        st = W.new()
        vals = [W.sym(t, 'abc'[i]) for i, t in enumerate(types)] if types else [(I32, iconst(32, 1))] * 4
        st, tp = W.tuple(st, vals)
        st, r = W.runner(st)
        items = list(code) + [0] + sym_bytes(3, 'after')
        p = W.code(st, items)
        late = []

        def on_load(s, q, k, o):
            if o.id == p.o and not q.off.t and q.off.c + k > len(code) + 1:
                late.append(q.off.c)
        e.on_load = on_load
        try:
            res = W.call(st, 'vd_runner_decode', r, p, iconst(64, len(items)))
        finally:
            e.on_load = None
        for s, o in res:
            if o[0] != 'ret':
                out.append(judge.outcome_verdict(s, o, 'decoding'))
                continue
            q = o[1]
            if not isinstance(q, P) or q.o != p.o or q.off.t:
                out.append(('und', 'returns %r' % (q,)))
                continue
            if q.off.c != len(code) + 1:
                w = judge.feasible(s)
                out.append(('bad' if w else 'und', 'returns position %d, EOE ends at %d' % (q.off.c, len(code) + 1)))
                continue
            out.append(('ok', ''))
        if late and not any(v == 'bad' for v, _ in out):
            out.append(('und', 'bytes after EOE are read'))
        if results is None or any(v != 'ok' for v, _ in out):
            return out
        # the steps appended: the number of values they leave
        for s, o in res:
            s = W.call1(s, 'vd_runner_bind', r, tp)[0]
            for s2, o2 in W.call(s, 'vd_runner_run', r):
                if o2[0] == 'throw':
                    out.append(('ok', ''))
                    continue
                if o2[0] != 'ret':
                    out.append(judge.outcome_verdict(s2, o2, 'evaluating'))
                    continue
                for s3, stage, pl in read_all(W, s2, r):
                    if stage != 'values':
                        out.append(judge.outcome_verdict(s3, pl, stage))
                    elif len(pl) == results:
                        out.append(('ok', ''))
                    else:
                        w = judge.feasible(s3)
                        out.append(('bad' if w else 'und', '%d values after evaluating instead of %d for %s' % (len(pl), results, w)))
        return out
    return f


def inside(W, k):
    def f():
        out = []
        st, r = W.runner(W.new())
        items = sym_bytes(k, 'before') + [0x11, 5, 0x17, 2, 65, 66, 0, 0x14, 0x14]
        p = W.code(st, items)
        q = P(p.o, ml(k))
        for s, o in W.call(st, 'vd_runner_decode', r, q, iconst(64, 9)):
            if o[0] != 'ret':
                out.append(judge.outcome_verdict(s, o, 'decoding'))
                continue
            e = o[1]
            if not isinstance(e, P) or e.o != p.o or e.off.t:
                out.append(('und', 'returns %r' % (e,)))
            elif e.off.c != k + 7:
                out.append(('bad', 'returns position %d instead of %d' % (e.off.c - k, 7)))
            else:
                for s2, o2 in W.call(s, 'vd_runner_run', r):
                    if o2[0] != 'ret':
                        out.append(judge.outcome_verdict(s2, o2, 'evaluating'))
                        continue
                    for s3, stage, pl in read_all(W, s2, r):
                        out += check_values(W, s3, pl, [(I32, iconst(32, 5)), (STR, slit(b'AB'))]) if stage == 'values' else [judge.outcome_verdict(s3, pl, stage)]
        return out
    return f


TEXTUAL = ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER')


def empty(W):
    def f():
        out = []
        for given in (True, False):
            st, r = W.runner(W.new())
            p = W.code(st, []) if given else NULL
            for s, o in W.call(st, 'vd_runner_decode', r, p, iconst(64, 0)):
                if o[0] != 'ret':
                    out.append(judge.outcome_verdict(s, o, 'decoding no bytes'))
                    continue
                for s2, o2 in W.call(s, 'vd_runner_run', r):
                    if o2[0] != 'ret':
                        out.append(judge.outcome_verdict(s2, o2, 'evaluating'))
                        continue
                    for s3, stage, pl in read_all(W, s2, r):
                        out += check_values(W, s3, pl, []) if stage == 'values' else [judge.outcome_verdict(s3, pl, stage)]
        return out
    return f


# ------------------------------------------------------------------ immediates
def group_term(bs, w):
    """the value of a VarInt with the given bytes (the low seven bits of each are the payload), truncated to w bits"""
    acc = iconst(64, 0)
    for i, b in enumerate(bs):
        if 7 * i >= 64:
            break
        x = zext(trunc(b, 7), 64)
        acc = add(acc, shift('shl', x, iconst(64, 7 * i)))
    return trunc(acc, w) if w < 64 else acc


def varint_bytes(st, k, name='v'):
    """k symbolic bytes of which exactly the last has a clear top bit"""
    return [bitop('or', zext(isym('%s%d' % (name, i), 7), 8), iconst(8, 0x80 if i < k - 1 else 0)) for i in range(k)]


def immediate(W, make, before=(), after=(), off=0):
    """make(state) -> (bytes, expected value); before/after: further operators with their values; off: alignment of the code"""
    def f():
        out = []
        st = W.new()
        bs, exp = make(st)
        items = [0x99] * off
        want = []
        for code, v in before:
            items += code
            want.append(v)
        items += bs
        want.append(exp)
        for code, v in after:
            items += code
            want.append(v)
        st, r = W.runner(st)
        p = W.code(st, items)
        for s, o in W.call(st, 'vd_runner_decode', r, P(p.o, ml(off)), iconst(64, len(items) - off)):
            if o[0] != 'ret':
                out.append(judge.outcome_verdict(s, o, 'decoding'))
                continue
            if isinstance(o[1], P) and not o[1].off.t and o[1].off.c != len(items):
                w = judge.feasible(s)
                out.append(('bad' if w else 'und', 'decoding ends at %d of %d bytes' % (o[1].off.c - off, len(items) - off)))
                continue
            for s2, o2 in W.call(s, 'vd_runner_run', r):
                if o2[0] != 'ret':
                    out.append(judge.outcome_verdict(s2, o2, 'evaluating'))
                    continue
                for s3, stage, pl in read_all(W, s2, r):
                    out += check_values(W, s3, pl, want) if stage == 'values' else [judge.outcome_verdict(s3, pl, stage)]
        return out
    return f


def m_int(t, k, neg):
    def make(st):
        bs = varint_bytes(st, k)
        v = group_term(bs, 32 if t == I32 else 64)
        return [(0x20 if neg else 0x10) | t] + bs, (t, scale(v, -1) if neg else v)
    return make


def m_const_int(t, v, neg, extra=0):
    """a given value, possibly with redundant groups"""
    def make(st):
        w = 32 if t == I32 else 64
        bs = varint(v & MASK(64))
        for _ in range(extra):
            bs = bs[:-1] + [bs[-1] | 0x80, 0]
        return [(0x20 if neg else 0x10) | t] + bs, (t, iconst(w, -v if neg else v))
    return make


def m_float(t):
    def make(st):
        n = 4 if t == F32 else 8
        bs = sym_bytes(n, 'f')
        acc = iconst(8 * n, 0)
        for i, b in enumerate(bs):
            acc = add(acc, shift('shl', zext(b, 8 * n), iconst(8 * n, 8 * (n - 1 - i))))
        return [0x10 | t] + bs, (t, fl(spec.FK[t], 'frombits', acc))
    return make


def m_float_const(t, v):
    import struct

    def make(st):
        return [0x10 | t] + list(struct.pack('>f' if t == F32 else '>d', v)), (t, fconst(spec.FK[t], v))
    return make


def m_text(k, wide=0):
    def make(st):
        bs = sym_bytes(k, 'c')
        n = varint(k)
        for _ in range(wide):
            n = n[:-1] + [n[-1] | 0x80, 0]
        return [0x17] + n + bs, (STR, models.t_chars(bs))
    return make


def m_text_lit(b):
    return lambda st: ([0x17] + varint(len(b)) + list(b), (STR, slit(bytes(b))))


def m_bool(neg):
    return lambda st: ([0x23 if neg else 0x13], (BOOL, iconst(1, 0 if neg else 1)))


def m_index(k, idx, n=0):
    return None


@check('C04')
def c04(c):
    c.rule = ('constants with symbolic immediates: every bit of VarInts of 1 to 10 bytes, of FLOAT and DOUBLE representations at 8 alignments, every byte of texts up to 300 bytes: the value '
              'pushed is the documented function of those bits (as a term); CONST_N its negation; boundary values; also between other operators; no read needs an alignment the code may not have')
    W = c.W
    around = ([([0x17, 1, 0], (STR, slit(b'\0')))], [([0x12, 9], (I64, iconst(64, 9))), ([0x13], (BOOL, iconst(1, 1)))])
    for t in (I32, I64):
        for neg in (False, True):
            nm = ('CONST_N' if neg else 'CONST') + '<%s>' % NAME[t]
            for k in range(1, 11):
                c.add('%s: VarInt of %d symbolic bytes' % (nm, k), immediate(W, m_int(t, k, neg)))
                c.add('%s: VarInt of %d symbolic bytes among others' % (nm, k), immediate(W, m_int(t, k, neg), *around))
            w = 32 if t == I32 else 64
            vals = set()
            for i in range(w):
                vals.update((1 << i, (1 << i) - 1, (1 << i) + 1, -(1 << i)))
            for v in sorted(vals):
                if -(1 << (w - 1)) <= v < 1 << (w - 1):
                    c.add('%s %d' % (nm, v), immediate(W, m_const_int(t, v, neg)))
            for v in (0, 1, 127, 128, 300, 16383, 16384):
                for x in (1, 2):
                    c.add('%s %d with %d redundant groups' % (nm, v, x), immediate(W, m_const_int(t, v, neg, x)))
    for t in (F32, F64):
        for off in range(8):
            c.add('CONST<%s>: symbolic bits at alignment %d' % (NAME[t], off), immediate(W, m_float(t), off=off))
        c.add('CONST<%s>: symbolic bits among others' % NAME[t], immediate(W, m_float(t), *around))
        for v in (0.0, -0.0, 1.0, -1.0, 0.5, 7.8, 1e-40, 5e-324, 3.4e38, 1e300, math.inf, -math.inf, math.nan, 7.5, 123456.789):
            if t == F64 or v != v or abs(v) == math.inf or abs(v) < 3.5e38 and f32r(v) == v:
                c.add('CONST<%s> %r' % (NAME[t], v), immediate(W, m_float_const(t, v)))
        c.add('reads of CONST<%s> assume no alignment' % NAME[t], unaligned(W, t))
    ks = list(range(0, 34)) + [63, 64, 126, 127, 128, 129, 255, 256, 257, 300] + ([1000, 16383, 16384] if c.tier == 'thorough' else [])
    for k in ks:
        c.add('CONST<STRING> of %d symbolic characters' % k, immediate(W, m_text(k), *(around if k < 40 else ())))
    for k in (0, 1, 5):
        c.add('CONST<STRING> of %d characters, redundant length groups' % k, immediate(W, m_text(k, 1), *around))
    for b in (b'', b'\0', b'\0\0\0', b'a\0b', b'\xff', b'\x80\x81', b'abc\0', '\u4e2d\u6587'.encode(), b'\0' * 20):
        c.add('CONST<STRING> %r' % b, immediate(W, m_text_lit(b), *around))
    for neg in (False, True):
        c.add('CONST%s<BOOL>' % ('_N' if neg else ''), immediate(W, m_bool(neg), *around))
    for t in VALUE_TYPES:
        c.add('NULL<%s>' % NAME[t], immediate(W, lambda st, t=t: ([t], None), *around))
    for t in (I32, I64, F32, F64, STR):
        c.add('equal constants of type %s stay apart' % NAME[t], apart(W, t))


def apart(W, t):
    """two constants of the same form with different symbolic content"""
    def f():
        out = []
        st = W.new()
        items, want = [], []
        for nm in 'uvw':
            if t in (I32, I64):
                bs = varint_bytes(st, 2, nm)
                items += [0x10 | t] + bs
                want.append((t, group_term(bs, 32 if t == I32 else 64)))
            elif t == STR:
                bs = sym_bytes(3, nm)
                items += [0x17, 3] + bs
                want.append((STR, models.t_chars(bs)))
            else:
                n = 4 if t == F32 else 8
                bs = sym_bytes(n, nm)
                acc = iconst(8 * n, 0)
                for i, b in enumerate(bs):
                    acc = add(acc, shift('shl', zext(b, 8 * n), iconst(8 * n, 8 * (n - 1 - i))))
                items += [0x10 | t] + bs
                want.append((t, fl(spec.FK[t], 'frombits', acc)))
        for s, stage, pl in run_program(W, st, [], [], items):
            out += check_values(W, s, pl, want) if stage == 'values' else judge_case(W, s, stage, pl, None, [])
        return out
    return f


def unaligned(W, t):
    """no load from the code carries an alignment above 1"""
    def f():
        e = W.eng
        bad = []
        st, r = W.runner(W.new())
        n = 4 if t == F32 else 8
        p = W.code(st, [0x10 | t] + sym_bytes(n, 'f'))
        seen = [0]

        def on_load(s, q, k, o):
            if o.id == p.o:
                seen[0] += 1
                fr = s.frames[-1]
                ins = fr.fn.blocks[fr.b].ins[fr.pc]
                a = llvmc.alignof(ins.ref) if ins.op == 'load' else 1
                if a > 1:
                    bad.append((W.m.loc(ins), a))
        e.on_load = on_load
        try:
            W.call(st, 'vd_runner_decode', r, p, iconst(64, n + 1))
        finally:
            e.on_load = None
        if bad:
            return [('bad', 'a read of the code assumes an alignment of %d bytes (%s), which an immediate at an odd position does not have' % (bad[0][1], bad[0][0]))]
        return [('ok', '')] if seen[0] else []
    return f


@check('C33')
def c33(c):
    c.rule = ('decode codes of unknown length n (a region of symbolic bytes), first byte by first byte, up to the second operator or element: every allocation on every path is at most '
              '64 n + 4096 bytes (linear inequalities), an operator or element makes a bounded number of them, and the next one starts behind it')
    W = c.W
    for b0 in range(256):
        c.add('allocations for code of any length starting 0x%02x' % b0, sizes(W, [b0]))
    for b0 in range(256):
        if b0 not in (0x71, 0x72, 0x73, 0x74):
            c.add('allocations for relational code of any length starting 0x%02x' % b0, sizes(W, [b0], True))
    for b1 in range(256):
        c.add('allocations for a filter expression of any length starting 0x%02x' % b1, sizes(W, [0x71, b1], True))
        if b1 % 16 == 0 or b1 < 8 or c.tier == 'thorough':
            c.add('allocations for a projection of any length starting 0x%02x' % b1, sizes(W, [0x72, b1], True))
    c.add('allocations for any number of group columns', sizes(W, [0x73, 0x61], True, True))
    for k in (0, 1, 2):
        c.add('allocations for any number of aggregations after %d group columns' % k, sizes(W, [0x73, 0x61, k] + list(range(k)), True))
    c.add('allocations for any number of aggregations', sizes(W, [0x74], True))
    for b in range(256):
        if b % 16 < 6:
            c.add('allocations for any number of aggregations after one starting 0x%02x' % b, sizes(W, [0x74, 2, b], True))
