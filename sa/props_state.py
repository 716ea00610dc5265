"""Checks of ownership and state: C14, C15, C17, C18."""
import itertools
from dom import *
import models, judge, spec, scen, pipe
from api import *
from scen import *
from pipe import cols
from props_rel import V, B, C, stages
from props_misc import outcomes, expect_bool
from reg import check
from interp import Stop
from llvmc import P, NULL, Undef
from spec import BYNAME, OPS


# ------------------------------------------------------------------ heap accounting
def heap(W, s):
    """the heap objects alive in a state that the analysis has created"""
    return {i for i, o in s.objs.items() if o.kind == 'heap' and o.alive and i not in W.eng.base_objs}


def born(s):
    return {ev[1]: ev for ev in s.events() if ev[0] == 'alloc'}


def origin(W, s, i):
    ev = born(s).get(i)
    w = ev[3] if ev and len(ev) > 3 else None
    return 'allocated %s' % place(w) if w else 'allocated'


def place(w):
    """the innermost place of the library on a call chain"""
    if isinstance(w, (list, tuple)):
        for x in reversed(w):
            fn, l = (x[0], x[1]) if isinstance(x, (list, tuple)) else (x, '')
            if '/src/' in str(l) and '/driver/' not in str(l):
                return 'at %s in %s' % (l, fn)
        return 'in %s' % (w[-1],) if w else ''
    return str(w)


def leak(W, s, before, what):
    """[(verdict, text)]: nothing but `before` may be alive"""
    left = heap(W, s) - before
    if not left:
        return [('ok', '')]
    w = judge.feasible(s)
    return [('bad' if w else 'und', '%s: %d allocations are never released, the first %s, for %s' % (what, len(left), origin(W, s, sorted(left, key=lambda x: int(x[1:]) if x[1:].isdigit() else 0)[0]), w))]


# ------------------------------------------------------------------ C18
def decode_own(W, codes, rel, run=None, lengths=None):
    """decode the codes one after the other with one runner (each may fail), optionally run each, destroy the runner: everything is released once"""
    def f():
        out = []
        s = W.new()
        s, r = W.rel(s) if rel else W.runner(s)
        work = [s]
        for j, code in enumerate(codes):
            nxt = []
            for s in work:
                p, res = W.decode(s, r, code, rel=rel)
                for s2, o in res:
                    if o[0] not in ('ret', 'throw'):
                        out.append(judge.outcome_verdict(s2, o, 'decoding %s' % hexs(code)))
                        continue
                    s2.caught = []
                    if run and o[0] == 'ret' and not rel:
                        for s3, o3 in W.call(s2, 'vd_runner_run', r):
                            if o3[0] not in ('ret', 'throw'):
                                out.append(judge.outcome_verdict(s3, o3, 'evaluating %s' % hexs(code)))
                                continue
                            s3.caught = []
                            nxt.append(s3)
                        continue
                    nxt.append(s2)
            work = nxt
        for s in work:
            for s2, _ in outcomes(W, W.call(s, 'vd_rel_dtor' if rel else 'vd_runner_dtor', r), 'destroying the runner', out):
                out += leak(W, s2, set(), 'after the runner was destroyed')
        return out
    return f


def hexs(c):
    return ' '.join('%02x' % x if isinstance(x, int) else '??' for x in c[:24])


def expr_codes():
    """every way an evaluation step comes into being"""
    r = []
    for o in OPS:
        r.append((o.name, list(o.code)))
    for t in VALUE_TYPES:
        r.append(('NULL<%s>' % NAME[t], [t]))
        r.append(('VAR<%s>' % NAME[t], var(t, 3)))
    for nm, x in (('CONST INT32', C(I32, 7)), ('CONST_N INT32', C(I32, -7)), ('CONST INT64', C(I64, 1 << 40)), ('CONST_N INT64', C(I64, -(1 << 40))), ('CONST FLOAT', C(F32, 1.5)),
                  ('CONST DOUBLE', C(F64, -2.5)), ('CONST STRING', C(STR, b'abc')), ('the empty text', C(STR, b'')), ('a long text', C(STR, b'x' * 40)), ('TRUE', C(BOOL, True)), ('FALSE', C(BOOL, False))):
        r.append((nm, pipe.encode(x)))
    return r


def rel_codes():
    lt = ('LT<INT32>', V(I32, 0), V(I32, 1))
    fs = ('EQ<STRING>', V(STR, 0), C(STR, b'abc'))
    ag = [('SUM', I32, 1), ('COUNT_ALL',), ('MAX', STR, 0)]
    return [
        ('a filter', [('filter', lt)]), ('a filter with a text', [('filter', fs)]), ('a projection', [('project', [V(I32, 0), C(STR, b'abc'), lt])]),
        ('grouped', [('group', [0, 1], ag)]), ('grouped without keys', [('group', [], ag)]), ('grouped without aggregations', [('group', [0], [])]),
        ('ungrouped', [('all', ag)]), ('ungrouped without aggregations', [('all', [])]),
        ('filter, project', [('filter', lt), ('project', [lt, V(I32, 0)])]), ('filter, group', [('filter', fs), ('group', [0], ag)]),
        ('group, filter, project', [('group', [0], ag), ('filter', fs), ('project', [V(I32, 0)])]), ('project, ungrouped, project', [('project', [V(STR, 0), V(I32, 1)]), ('all', ag), ('project', [V(STR, 2)])]),
        ('four operators', [('filter', lt), ('project', [V(I32, 1), V(I32, 0)]), ('group', [1], [('SUM', I32, 0)]), ('filter', lt)]),
    ] + [('aggregation %s' % (a,), [('all', [a if len(a) == 1 else a + (0,)])]) for a in pipe.AGGS]


BADS = [0xee, 0x16, 0x06, 0x3f, 0x8f, 0xf0, 0xf1, 0xfc]


@check('C18')
def c18(c):
    c.rule = ('every operator code and immediate, every relational operator and aggregation: decode (also twice, after a failure, and cut off or continued by an invalid byte at every position), destroy the runner: '
              'every allocation of the decoder is released exactly once, nothing is used after its release, operators shared by all runners are never released; the runners have no copy operation')
    W = c.W
    ex = expr_codes()
    for nm, code in ex:
        c.add('expression %s' % nm, decode_own(W, [code], False))
        c.add('expression %s, decoded twice' % nm, decode_own(W, [code, code], False))
        c.add('expression %s behind and before others' % nm, decode_own(W, [pipe.encode(C(STR, b'ab')) + code + pipe.encode(C(I32, 5)) + code], False))
        for b in BADS[:3] if len(code) < 6 else BADS[:1]:
            c.add('expression %s, then the invalid byte 0x%02x' % (nm, b), decode_own(W, [code + pipe.encode(C(I64, 9)) + [b], code], False))
        for n in range(1, min(len(code), 10)):
            c.add('expression %s cut off after %d bytes' % (nm, n), decode_own(W, [pipe.encode(C(STR, b'z')) + code[:n], code], False))
    mix = pipe.encode(C(STR, b'ab')) + pipe.encode(C(I32, 3)) + var(I32, 0) + BYNAME['ADD<INT32>'].code + pipe.encode(C(STR, b'')) + [0x13]
    for n in range(len(mix) + 1):
        for b in [None] + BADS:
            c.add('expression %s%s' % (hexs(mix[:n]), ' then 0x%02x' % b if b is not None else ''), decode_own(W, [mix[:n] + ([b] if b is not None else [])], False))
    for (n1, a), (n2, b) in itertools.product([('a text', pipe.encode(C(STR, b'ab'))), ('a number', pipe.encode(C(I32, 3))), ('a shared operator', [0x51]), ('nothing', []), ('a failure', [0x17, 0x02, 0x41]), ('a later failure', [0x17, 0x01, 0x41, 0xee]), ('a variable', var(I64, 2))], repeat=2):
        for k in (1, 2, 3):
            c.add('%s, then %s, %d times' % (n1, n2, k), decode_own(W, [a, b] * k, False))
    for n in sorted({1, 2, 3, 4, 5, 8, 9, 17} | set(W.sizes())):
        c.add('%d constants' % n, decode_own(W, [sum((pipe.encode(C(I32, i)) for i in range(n)), []), mix], False))
    for nm, code in (('a text constant', pipe.encode(C(STR, b'ab'))), ('all kinds', mix[-6:]), ('a failing evaluation', [0x51])):
        c.add('%s decoded, evaluated, decoded again' % nm, decode_own(W, [code, mix, code], False, run=True))
    for nm, ops in rel_codes():
        code = pipe.encode_pipe(ops)
        c.add('relational: %s' % nm, decode_own(W, [code], True))
        c.add('relational: %s, decoded twice' % nm, decode_own(W, [code, code], True))
        for n in range(1, len(code)):
            c.add('relational: %s cut off after %d bytes' % (nm, n), decode_own(W, [code[:n]], True))
        c.add('relational: %s cut off, then decoded' % nm, decode_own(W, [code[:-1], code], True))
        bad = [0xee] if len(ops) > 2 else [0xee, 0x06, 0x62]
        for n in range(0, len(code) + 1):
            for b in bad:
                c.add('relational: %s, 0x%02x after %d bytes' % (nm, b, n), decode_own(W, [code[:n] + [b] + code[n:]], True))
        c.add('relational: %s, then an unknown operator, then decoded' % nm, decode_own(W, [code + [0x77], code], True))
    for kind in ('copy', 'assign', 'move'):
        for sw in (False, True):
            for nm, code in (('a constant', pipe.encode(C(I32, 5))), ('a text', pipe.encode(C(STR, b'abc'))), ('a shared operator', pipe.encode(C(I32, 5)) + [0x13])):
                c.add('%s of an expression runner with %s, destroyed %s' % (kind, nm, 'first' if sw else 'last'), no_copy(W, 'runner', kind, code, sw))
            for nm, ops in rel_codes()[:4]:
                c.add('%s of a relational runner with %s, destroyed %s' % (kind, nm, 'first' if sw else 'last'), no_copy(W, 'rel', kind, pipe.encode_pipe(ops), sw))
    for k in ('runner', 'rel'):
        c.add('a %s that decodes nothing' % k, decode_own(W, [], k == 'rel'))


def no_copy(W, n, kind, code, swap):
    """where the type allows a copy, an assignment or a move, both objects are destroyed: everything is still released once"""
    rel = n == 'rel'

    def f():
        out = []
        s, r = W.rel(W.new()) if rel else W.runner(W.new())
        if kind == 'assign':
            s, q = W.rel(s) if rel else W.runner(s)
        else:
            q = W.obj(s, W.size[n])
        p, res = W.decode(s, r, code, rel=rel)
        for s, _ in outcomes(W, res, 'decoding', out):
            for s1, v in outcomes(W, W.call(s, 'vd_%s_%s' % (kind, n), q, r), kind, out):
                both = True
                if is_const(v) and v.c == 0:
                    if kind != 'assign':
                        both = False
                work = [s1]
                for x in ((q, r) if swap else (r, q)):
                    if x is q and not both:
                        continue
                    work = [s3 for s2 in work for s3, _ in outcomes(W, W.call(s2, 'vd_%s_dtor' % n, x), 'destroying the second of two runners that own one program' if both else 'destroying the runner', out)]
                for s2 in work:
                    out += leak(W, s2, set(), 'after the runners were destroyed')
        return out
    return f


# ------------------------------------------------------------------ C17
def own(W, ops, script, order, tail='read'):
    """script: ('put', values) | ('get',) | ('decode', ops); order: when the handed out tuples are deleted: 'at once', 'before' or 'after' the runner is destroyed, or 'never' if the caller keeps them"""
    code = pipe.encode_pipe(ops)

    def f():
        out = []
        s, r = W.rel(W.new())
        p, res = W.decode(s, r, code, rel=True)
        work = [(s, []) for s, _ in outcomes(W, res, 'decoding', out)]
        for k, a in enumerate(script):
            nxt = []
            for s, held in work:
                if a[0] == 'decode':
                    p, res = W.decode(s, r, pipe.encode_pipe(a[1]), rel=True)
                    nxt += [(s2, held) for s2, _ in outcomes(W, res, 'decoding again', out)]
                    continue
                t = None
                if a[0] == 'put':
                    s, t = W.tuple(s, a[1])
                    res = W.call(s, 'vd_rel_put', r, t)
                else:
                    res = W.call(s, 'vd_rel_get', r)
                for s2, o in res:
                    if o[0] not in ('ret', 'throw'):
                        out.append(judge.outcome_verdict(s2, o, 'step %d (%s)' % (k, a[0])))
                        continue
                    s2.caught = []
                    q = o[1] if o[0] == 'ret' else NULL
                    if not (isinstance(q, P) and not q.off.t and not q.off.c):
                        out.append(('und', 'step %d returns %r' % (k, q)))
                        continue
                    if q.o != 0:
                        ob = s2.obj(q.o)
                        w = None
                        if ob is None or not ob.alive:
                            w = judge.feasible(s2)
                            out.append(('bad' if w else 'und', 'step %d (%s): the tuple that is returned has been released, for %s' % (k, a[0], w)))
                            continue
                        if any(q == h[0] for h in held):
                            w = judge.feasible(s2)
                            out.append(('bad' if w else 'und', 'step %d (%s): a tuple is handed out a second time, for %s' % (k, a[0], w)))
                            continue
                    if t is not None and q != t:
                        ob = s2.obj(t.o)
                        if ob is not None and ob.alive:
                            w = judge.feasible(s2)
                            out.append(('bad' if w else 'und', 'step %d (%s): the tuple is neither returned nor released when %s, for %s' % (k, a[0], 'the call raises %s' % o[1] if o[0] == 'throw' else 'the call returns', w)))
                            continue
                    if q.o != 0:
                        for s3, vs in W.read_tuple(s2, q):
                            b = [v for v in vs if isinstance(v, tuple) and v and v[0] == 'bad']
                            if b:
                                out.append(judge.outcome_verdict(s3, b[0][1], 'step %d: reading the returned tuple' % k))
                                continue
                            if order == 'at once':
                                for s4, _ in outcomes(W, W.call(s3, 'vd_tuple_delete', q), 'step %d: releasing the returned tuple' % k, out):
                                    nxt.append((s4, held))
                            else:
                                nxt.append((s3, held + [(q, vs)]))
                    else:
                        nxt.append((s2, held))
            work = nxt
        for s, held in work:
            sts = [s]
            if order != 'before':
                sts = [s2 for s in sts for s2, _ in outcomes(W, W.call(s, 'vd_rel_dtor', r), 'destroying the runner', out)]
            for q, vs in held:
                nxt = []
                for s in sts:
                    for s2, vs2 in W.read_tuple(s, q):
                        good = True
                        for x, y in zip(vs2, vs):
                            if isinstance(x, tuple) and x and x[0] == 'bad':
                                out.append(judge.outcome_verdict(s2, x[1], 'reading a tuple handed out earlier'))
                                good = False
                                break
                            rr = judge.same_value(W, s2, x, y)
                            bad = [(v, 'a tuple handed out earlier has changed: ' + m) for _, v, m in rr if v != 'ok']
                            if bad:
                                out += bad
                                good = False
                                break
                        if good:
                            nxt += [s3 for s3, _ in outcomes(W, W.call(s2, 'vd_tuple_delete', q), 'releasing a tuple handed out earlier', out)]
                sts = nxt
            if order == 'before':
                sts = [s2 for s in sts for s2, _ in outcomes(W, W.call(s, 'vd_rel_dtor', r), 'destroying the runner', out)]
            for s in sts:
                out += leak(W, s, set(), 'after everything was destroyed')
        return out
    return f


ABS_C = 'ABS_C<INT64>' if 'ABS_C<INT64>' in BYNAME else next(n for n in BYNAME if n.startswith('ABS') and 'INT64' in n and n != 'ABS<INT64>')


def throwing():
    """operators whose evaluation raises an error for some tuple: the checked ABS of the minimum integer, a missing operand"""
    return [
        ('a filter that may raise', ('filter', ('LT<INT64>', (ABS_C, V(I64, 0)), V(I64, 2)))),
        ('a projection that may raise', ('project', [V(I64, 2), V(BOOL, 1), (ABS_C, V(I64, 0))])),
        ('a projection that may raise at its first result', ('project', [(ABS_C, V(I64, 0)), V(BOOL, 1), V(I64, 2)])),
    ]


@check('C17')
def c17(c):
    c.rule = ('chains of one to three relational operators (filters, projections, aggregations, some of which raise errors), tuples that pass, are dropped, cached or raise an error, results taken completely, partly or '
              'not at all: after every call the given tuple is the returned one and alive, or has been released exactly once; every tuple handed out stays alive and unchanged until the caller releases it, before or after '
              'the runner is destroyed; at the end nothing is left and nothing was released twice or used after its release')
    W = c.W
    S = stages(W) + throwing()
    ty = [I64, BOOL, I64]

    def okay(ch):
        for i, (nm, o) in enumerate(ch):
            if nm == 'group':          # a group delivers (a, b, sum)
                continue
            if nm == 'sum' and any(n2 not in ('filter b',) for n2, _ in ch[i + 1:]):
                return False
        return True
    a, b = cols(W, ty, 'a'), cols(W, ty, 'b')
    mn = [(I64, iconst(64, 1 << 63)), (BOOL, iconst(1, 1)), W.sym(I64, 'm')]
    nul = cols(W, ty, 'n', (0, 1))
    full = [('put', a), ('put', b), ('get',), ('get',), ('get',)]
    for n in (1, 2):
        for ch in itertools.product(S, repeat=n):
            if not okay(ch):
                continue
            ops = [o for _, o in ch]
            nm = ', '.join(k for k, _ in ch)
            c.add('%s: two tuples, results taken, kept' % nm, own(W, ops, full, 'after'))
            c.add('%s: two tuples, results released at once' % nm, own(W, ops, full, 'at once'))
            c.add('%s: NULL columns' % nm, own(W, ops, [('put', nul), ('put', a), ('get',), ('get',)], 'before'))
            c.add('%s: results not taken' % nm, own(W, ops, [('put', a), ('put', b)], 'after'))
            c.add('%s: results partly taken' % nm, own(W, ops, [('put', a), ('put', b), ('get',)], 'after'))
            c.add('%s: a tuple that raises an error' % nm, own(W, ops, [('put', mn), ('put', a), ('get',), ('get',), ('get',)], 'after'))
            c.add('%s: an error between two tuples' % nm, own(W, ops, [('put', a), ('put', mn), ('get',), ('get',), ('get',)], 'at once'))
            c.add('%s: more after the results' % nm, own(W, ops, [('put', a), ('get',), ('put', b), ('get',), ('get',)], 'before'))
            c.add('%s: decoded again' % nm, own(W, ops, [('put', a), ('put', b), ('decode', [('filter', B(1))]), ('put', a), ('get',)], 'after'))
            c.add('%s: nothing put in' % nm, own(W, ops, [('get',), ('get',)], 'after'))
    for ch in itertools.product(S, repeat=3):
        if not okay(ch):
            continue
        ops = [o for _, o in ch]
        nm = ', '.join(k for k, _ in ch)
        if c.tier == 'thorough' or len(set(k for k, _ in ch)) == 3:
            c.add('%s: two tuples' % nm, own(W, ops, [('put', a), ('put', mn), ('get',), ('get',)], 'after'))
    # types whose values own memory
    for t in VALUE_TYPES:
        k = [W.sym(t, 'k%d' % i) for i in range(3)]
        rows = [('put', [k[i], W.sym(t, 'v%d' % i)]) for i in range(2)]
        c.add('groups with keys of type %s' % NAME[t], own(W, [('group', [0], [('COUNT', t, 1)])], rows + [('get',), ('get',), ('get',)], 'after'))
        c.add('groups with keys of type %s, not taken' % NAME[t], own(W, [('group', [0, 1], [('COUNT_ALL',)])], rows, 'after'))
        c.add('groups with keys of type %s, one taken' % NAME[t], own(W, [('group', [0, 1], [('COUNT_ALL',)])], rows + [('get',)], 'after'))
        c.add('a projection of type %s' % NAME[t], own(W, [('project', [V(t, 1), V(t, 0), V(t, 1)])], rows + [('get',)], 'after'))
        c.add('a filter with columns of type %s' % NAME[t], own(W, [('filter', ('EQ<%s>' % NAME[t], V(t, 0), V(t, 1)))], rows, 'after'))
        if t != BOOL:
            c.add('MAX of type %s' % NAME[t], own(W, [('all', [('MAX', t, 1), ('MIN', t, 0)])], rows + [('get',), ('get',)], 'after'))
    for n in (0, 1, 2, 3, 4):
        rows = [('put', [(I64, iconst(64, i)), (BOOL, iconst(1, 1)), W.sym(I64, 'v%d' % i)]) for i in range(n)]
        for m in range(0, n + 2):
            for od in ('before', 'after', 'at once'):
                c.add('%d groups, %d results taken, released %s' % (n, m, od), own(W, [('group', [0], [('SUM', I64, 2)])], rows + [('get',)] * m, od))
        if n < 4 or c.tier == 'thorough':
            c.add('%d groups through a filter that raises an error' % n, own(W, [('group', [0], [('SUM', I64, 2)]), ('filter', ('LT<INT64>', (ABS_C, V(I64, 1)), C(I64, 5)))], rows + [('get',)] * (n + 1), 'after'))
        c.add('%d groups through a projection that raises an error' % n, own(W, [('group', [0], [('SUM', I64, 2)]), ('project', [V(I64, 0), (ABS_C, V(I64, 1))])], rows + [('get',)] * (n + 1), 'at once'))
    for n in W.sizes(40):
        rows = [('put', [(I64, iconst(64, i)), (BOOL, iconst(1, 1)), W.sym(I64, 'v%d' % i)]) for i in range(n)]
        c.add('%d groups, all taken' % n, own(W, [('group', [0], [('SUM', I64, 2)])], rows + [('get',)] * (n + 1), 'after'))
        c.add('%d groups, half of them taken' % n, own(W, [('group', [0], [('SUM', I64, 2)])], rows + [('get',)] * (n // 2), 'after'))
        c.add('%d groups through a projection' % n, own(W, [('group', [0], [('SUM', I64, 2)]), ('project', [V(I64, 1)])], rows + [('get',)] * (n + 1), 'at once'))
        c.add('%d tuples in turn through a filter and a projection' % n, own(W, [('filter', V(BOOL, 1)), ('project', [V(I64, 0)])], [('put', [x[1][0], (BOOL, iconst(1, i % 2)), x[1][2]]) for i, x in enumerate(rows)], 'at once'))
    # values of a wrong type raise an error inside the aggregation or the filter
    wrong = [(I32, iconst(32, 5)), (STR, slit(b'x')), (I32, iconst(32, 6))]
    for nm, o in S:
        c.add('%s: a tuple of other types' % nm, own(W, [o], [('put', wrong), ('put', a), ('get',)], 'after'))
        for nm2, o2 in S:
            if okay([(nm, o), (nm2, o2)]) :
                c.add('%s, %s: a tuple of other types' % (nm, nm2), own(W, [o, o2], [('put', wrong), ('put', a), ('get',), ('get',)], 'after'))
                c.add('%s, %s: a tuple of other types after one that was cached' % (nm, nm2), own(W, [o, o2], [('put', a), ('put', wrong), ('get',), ('get',)], 'before'))


# ------------------------------------------------------------------ C14
class Watch:
    """stores to objects that an evaluation must not change"""
    def __init__(self, W, ids, what):
        self.W, self.ids, self.what, self.hits = W, ids, what, []

    def __enter__(self):
        e = self.W.eng

        def on_store(s, p, n, o, v):
            owner = s.memo.get(('owner', o.id))
            i = owner.o if isinstance(owner, P) else o.id
            if i not in self.ids or s.memo.get('refcount'):
                return
            if isinstance(v, models.SV) and v.did is not None:
                c = o.cells.get(p.off)
                if c is not None and isinstance(c[1], models.SV) and (c[1].term is v.term and c[1].did is None):
                    return           # the text is not changed, its characters get an identity
            # writing the value that is there changes nothing another reader can see, except to a racing thread
            s.event('changed', '%s (%s)' % (self.ids[i], self.W.eng.oname(o)), e.where(s), s.fork())
        e.on_store = on_store
        return self

    def __exit__(self, *a):
        self.W.eng.on_store = None

    @staticmethod
    def verdicts(s):
        r = []
        for ev in s.events():
            if ev[0] == 'changed':
                w = judge.feasible(ev[3])
                r.append(('bad' if w else 'und', '%s is written %s, for %s' % (ev[1], place(ev[2]), w)))
                break
        return r


def reach(W, s, p):
    """heap objects reachable from an object"""
    seen, work = set(), [p.o]
    while work:
        i = work.pop()
        if i in seen or i == 0:
            continue
        seen.add(i)
        o = s.obj(i)
        if o is None:
            continue
        for n, v in o.cells.values():
            if isinstance(v, P) and isinstance(v.o, str) and not v.o.startswith(('g:', 'f:')):
                work.append(v.o)
    return seen


def repeat(W, types, vals, code, check_twice=True, chars=None):
    """bind, run, read twice, run again, read: the same results; the tuple and the operators are never written"""
    def f():
        out = []
        s, tp = W.tuple(W.new(), vals)
        tids = {i: 'the bound tuple' for i in reach(W, s, tp)}
        s, r = W.runner(s)
        before = set(s.objs)
        p, res = W.decode(s, r, program(types, code))
        for s, _ in outcomes(W, res, 'decoding', out):
            dec = {i: 'a decoded operator' for i, o in s.objs.items() if i not in before and o.alive and o.kind == 'heap'}
            for i in W.eng.base_objs:
                if W.eng.base_objs[i].kind == 'heap':
                    dec[i] = 'an operator shared by all runners'
            s = W.call1(s, 'vd_runner_bind', r, tp)[0]
            with Watch(W, {**tids, **dec}, ''):
                for s1, o1 in W.call(s, 'vd_runner_run', r):
                    out += Watch.verdicts(s1)
                    if o1[0] == 'throw':
                        # the same error again
                        s1.caught = []
                        for s2, o2 in W.call(s1, 'vd_runner_run', r):
                            out += Watch.verdicts(s2)
                            if o2[0] == 'throw' and o2[1] == o1[1]:
                                out.append(('ok', ''))
                            elif o2[0] in ('ret', 'throw'):
                                w = judge.feasible(s2)
                                out.append(('bad' if w else 'und', 'the second evaluation %s, the first one raised %s, for %s' % ('raises %s' % o2[1] if o2[0] == 'throw' else 'returns', o1[1], w)))
                            else:
                                out.append(judge.outcome_verdict(s2, o2, 'evaluating again'))
                        continue
                    if o1[0] != 'ret':
                        out.append(judge.outcome_verdict(s1, o1, 'evaluating'))
                        continue
                    out += twice(W, s1, r, check_twice)
            if tp is not None:
                for s2, vs in W.read_tuple(s, tp):
                    out += check_values(W, s2, vs, vals)
        return out
    return f


def reads(W, s, r, out, what):
    """GetAll twice and Get: [(state, values)]"""
    nxt = []
    for s2, stage, vs in read_all(W, s, r):
        if stage != 'values':
            out.append(judge.outcome_verdict(s2, vs, what))
            continue
        out += Watch.verdicts(s2)
        nxt.append((s2, vs))
    return nxt


def twice(W, s, r, again):
    out = []
    for s1, v1 in reads(W, s, r, out, 'reading the results'):
        sts = [s1]
        if v1:
            g = W.obj(s1, W.size['operand'])
            sts = []
            for s2, _ in outcomes(W, W.call(s1, 'vd_runner_get', r, g), 'reading the result', out):
                for s3, v in W.read_operand(s2, g):
                    rr = judge.same_value(W, s3, v, v1[-1])
                    out += [(x, 'Get: ' + m) for _, x, m in rr if x != 'ok']
                    sts += [q for q, x, m in rr if x == 'ok']
        for s2 in sts:
            for s3, v2 in reads(W, s2, r, out, 'reading the results again'):
                for x, m in check_values(W, s3, v2, v1):
                    out.append((x, 'reading the results again: ' + m))
                if not again:
                    continue
                for k in range(2):
                    nx = []
                    for s4, _ in outcomes(W, W.call(s3, 'vd_runner_run', r), 'evaluating again', out):
                        for s5, v3 in reads(W, s4, r, out, 'reading the results'):
                            for x, m in check_values(W, s5, v3, v1):
                                out.append((x, 'evaluation %d: %s' % (k + 2, m)))
                            nx.append(s5)
                    if not nx:
                        break
                    s3 = nx[0]
    return out


def after_failure(W, op):
    """an evaluation that raises an error in the middle, then the same program on other operands"""
    def f():
        out = []
        e = W.eng
        junk = [W.sym(STR, 'j0'), W.sym(I64, 'j1')]
        bad = (I64, iconst(64, 1 << 63))
        types = [STR, I64] + list(op.ins)
        good = [W.sym(t, 'abcdef'[i]) if not (op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER') and t == STR) else (STR, models.t_chars([byte('c')])) for i, t in enumerate(op.ins)]
        for s, exp in W.split(W.new(), lambda s: spec.expect(op, e, s, good)):
            if isinstance(exp, tuple) and exp and exp[0] in ('throw', 'free'):
                continue
            # program: j0 (operands) OP  ABS_C(j1)
            code = var(STR, 0) + sum((var(t, i + 2) for i, t in enumerate(op.ins)), []) + list(op.code) + var(I64, 1) + BYNAME[ABS_C].code
            s, t1 = W.tuple(s, [junk[0], bad] + good)
            s, t2 = W.tuple(s, [junk[0], (I64, iconst(64, 5))] + good)
            s, r = W.runner(s)
            p, res = W.decode(s, r, code)
            for s1, _ in outcomes(W, res, 'decoding', out):
                s1 = W.call1(s1, 'vd_runner_bind', r, t1)[0]
                for s2, o in W.call(s1, 'vd_runner_run', r):
                    if o[0] != 'throw':
                        out.append(('und', 'the first evaluation raises no error') if o[0] == 'ret' else judge.outcome_verdict(s2, o, 'evaluating'))
                        continue
                    s2.caught = []
                    s2 = W.call1(s2, 'vd_runner_bind', r, t2)[0]
                    for s3, _ in outcomes(W, W.call(s2, 'vd_runner_run', r), 'evaluating after an error', out):
                        for s4, stage, vs in read_all(W, s3, r):
                            if stage != 'values':
                                out.append(judge.outcome_verdict(s4, vs, 'reading the results'))
                            else:
                                out += check_values(W, s4, vs, [junk[0], exp, (I64, iconst(64, 5))])
        return out
    return f


def replaced(W, first, op, run_first):
    """decode another program first, evaluate it or not, then this one: only this one counts"""
    def f():
        out = []
        e = W.eng
        good = operands(W, op, (False,) * len(op.ins), chars=1 if op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER') else None)
        for s, exp in W.split(W.new(), lambda s: spec.expect(op, e, s, good)):
            if isinstance(exp, tuple) and exp and exp[0] in ('throw', 'free'):
                continue
            s, tp = W.tuple(s, good)
            s, r = W.runner(s)
            p, res = W.decode(s, r, first)
            for s1, o in res:
                if o[0] not in ('ret', 'throw'):
                    out.append(judge.outcome_verdict(s1, o, 'decoding first'))
                    continue
                ok = o[0] == 'ret'
                s1.caught = []
                sts = [s1]
                if run_first and ok:
                    sts = []
                    for s2, o2 in W.call(s1, 'vd_runner_run', r):
                        if o2[0] in ('ret', 'throw'):
                            s2.caught = []
                            sts.append(s2)
                        else:
                            out.append(judge.outcome_verdict(s2, o2, 'evaluating first'))
                for s2 in sts:
                    p, res2 = W.decode(s2, r, program(op.ins, op.code))
                    for s3, o3 in res2:
                        if o3[0] != 'ret':
                            out.append(judge.outcome_verdict(s3, o3, 'decoding again'))
                            continue
                        s3, ty = W.call1(s3, 'vd_runner_type', r)
                        if not (is_const(ty) and ty.c == op.out):
                            w = judge.feasible(s3)
                            out.append(('bad' if w else 'und', 'the result type is %r instead of %s after decoding again' % (ty, NAME[op.out])))
                            continue
                        s3 = W.call1(s3, 'vd_runner_bind', r, tp)[0]
                        for s4, _ in outcomes(W, W.call(s3, 'vd_runner_run', r), 'evaluating', out):
                            for s5, stage, vs in read_all(W, s4, r):
                                if stage != 'values':
                                    out.append(judge.outcome_verdict(s5, vs, 'reading the results'))
                                else:
                                    out += check_values(W, s5, vs, [exp])
        return out
    return f


def unbound(W):
    """results of one binding do not depend on the binding before"""
    def f():
        out = []
        s, r = W.runner(W.new())
        a, b = [W.sym(I64, 'a'), W.sym(STR, 'at')], [W.sym(I64, 'b'), W.sym(STR, 'bt')]
        s, t1 = W.tuple(s, a)
        s, t2 = W.tuple(s, b)
        p, res = W.decode(s, r, program([I64, STR], []))
        for s, _ in outcomes(W, res, 'decoding', out):
            sts = [s]
            for t, v in ((t1, a), (t2, b), (t1, a)):
                nxt = []
                for s in sts:
                    s = W.call1(s, 'vd_runner_bind', r, t)[0]
                    for s2, _ in outcomes(W, W.call(s, 'vd_runner_run', r), 'evaluating', out):
                        for s3, stage, vs in read_all(W, s2, r):
                            if stage != 'values':
                                out.append(judge.outcome_verdict(s3, vs, 'reading'))
                            else:
                                out += check_values(W, s3, vs, v)
                                nxt.append(s3)
                sts = nxt
        return out
    return f


def many(W, n, mode):
    """the same runner used n times over"""
    def f():
        out = []
        add_, neg, cat = BYNAME['ADD<INT64>'], BYNAME['NEG<INT64>'], BYNAME['CONCAT']
        code = var(I64, 0) + BYNAME[ABS_C].code + var(I64, 1) + add_.code + var(STR, 2) + var(STR, 2) + cat.code

        def values(i):
            return [(I64, iconst(64, 5 + i)), W.sym(I64, 'b%d' % i), (STR, slit(b't%d' % i)) if i % 5 != 4 else None]

        def results(v):
            return [(I64, add(iconst(64, v[0][1].c), v[1][1])), None if v[2] is None else (STR, slit(v[2][1].args[0] * 2))]
        codes = {0: code}
        if mode == 'decoded':
            codes = {i: (code, [0x31, 0, 0xee], [0x11, 1, 0x17, 1, 65], [0x37, 2])[i % 4] if i < n - 1 else code for i in range(n)}
        s, r = W.runner(W.new())
        for i in range(n):
            if i in codes:
                p, res = W.decode(s, r, codes[i])
                good = [(s2, o) for s2, o in res if o[0] in ('ret', 'throw')]
                out += [judge.outcome_verdict(s2, o, 'decoding') for s2, o in res if o[0] not in ('ret', 'throw')]
                if not good:
                    return out
                s = good[0][0]
                s.caught = []
            if mode == 'decoded' and i < n - 1 and codes[i] is not code:
                continue
            v = values(0 if mode == 'same' else i)
            fail = mode == 'failed' and i < n - 1
            if fail:
                v[0] = (I64, iconst(64, 1 << 63))
            if i == 0 or mode != 'same':
                s, tp = W.tuple(s, v)
                s = W.call1(s, 'vd_runner_bind', r, tp)[0]
            nxt = []
            for s2, o in W.call(s, 'vd_runner_run', r):
                s2.caught = []
                if fail:
                    if o[0] == 'throw':
                        nxt.append(s2)
                    else:
                        out.append(('bad', 'use %d raises no error' % (i + 1)) if o[0] == 'ret' else judge.outcome_verdict(s2, o, 'use %d' % (i + 1)))
                    continue
                if o[0] != 'ret':
                    out.append(judge.outcome_verdict(s2, o, 'use %d' % (i + 1)))
                    continue
                for s3, stage, vs in read_all(W, s2, r):
                    if stage != 'values':
                        out.append(judge.outcome_verdict(s3, vs, 'reading the results of use %d' % (i + 1)))
                        continue
                    bad = [(x, 'use %d: %s' % (i + 1, m)) for x, m in check_values(W, s3, vs, results(v)) if x != 'ok']
                    out += bad
                    nxt.append(s3)
            if not nxt or any(x != 'ok' for x, _ in out):
                return out
            s = nxt[0]
        return out or [('ok', '')]
    return f


@check('C14')
def c14(c):
    c.rule = ('every operator: three evaluations of the same program on one tuple give the same terms and reading (Get, GetAll) changes nothing; no store of an evaluation reaches the bound tuple, the decoded operators '
              'or operators shared by all runners (reference counts excepted); an evaluation after one that raised an error, and a program decoded after another one (also one that failed to decode), gives exactly its own results')
    W = c.W
    CH = ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER')
    for op in OPS:
        for nulls in null_patterns(op):
            ch = 2 if op.name in CH else None
            c.add('%s again' % pat(op, nulls), repeat(W, op.ins, operands(W, op, nulls, chars=ch), op.code))
        c.add('%s after an error' % op.name, after_failure(W, op))
        firsts = [('a constant', pipe.encode(C(STR, b'q')), True), ('an error', [0x13, 0xee], False)]
        for nm, code, run in firsts:
            c.add('%s decoded after %s' % (op.name, nm), replaced(W, code, op, run))
    add_ = BYNAME['ADD<INT32>']
    for nm, code in expr_codes():
        c.add('decoded after %s' % nm, replaced(W, code, add_, True))
    for n in sorted({0, 1, 2, 3, 5, 8, 9, 16, 17, 33} | set(W.sizes())):
        c.add('%d results again' % n, repeat(W, [I64, STR], [W.sym(I64, 'a'), W.sym(STR, 'b')], sum((var((I64, STR)[i % 2], i % 2) for i in range(n)), [])))
        c.add('%d operators in a row, again' % n, repeat(W, [I64], [W.sym(I64, 'a')], BYNAME['NEG<INT64>'].code * n))
    for t in VALUE_TYPES:
        c.add('NULL<%s> again' % NAME[t], repeat(W, [], [], [t]))
    for nm, x in (('INT32', C(I32, 7)), ('STRING', C(STR, b'abc')), ('empty text', C(STR, b'')), ('DOUBLE', C(F64, 1.5)), ('FLOAT', C(F32, 1.5)), ('BOOL', C(BOOL, True)), ('INT64', C(I64, -9))):
        c.add('CONST %s again' % nm, repeat(W, [], [], pipe.encode(x)))
        c.add('CONST %s twice again' % nm, repeat(W, [], [], pipe.encode(x) * 2))
    for op in [o for o in OPS if STR in o.ins]:
        # operands that are constants of the program: their texts must not change either
        args = {STR: C(STR, b' aB '), I32: C(I32, 1), I64: C(I64, 1), BOOL: C(BOOL, True), F32: C(F32, 1.0), F64: C(F64, 1.0)}
        c.add('%s of constants again' % op.name, repeat(W, [], [], sum((pipe.encode(args[t]) for t in op.ins), []) + list(op.code)))
        c.add('%s of one column twice' % op.name, repeat(W, [], [W.sym(STR, 's') if op.name not in CH else (STR, models.t_chars([byte('c'), byte('d')])), (I32, iconst(32, 1)), (I64, iconst(64, 2))],
              var(STR, 0) + sum((var(t, {STR: 0, I32: 1, I64: 2}.get(t, 0)) for t in op.ins), []) + list(op.code) + var(STR, 0)))
    c.add('one tuple after another', unbound(W))
    for n in W.sizes():
        for mode, nm in (('same', 'evaluated %d times on one tuple'), ('rebind', 'evaluated on %d tuples in turn'), ('failed', 'evaluated after %d evaluations that raise errors'), ('decoded', 'decoded %d times')):
            c.add(nm % n, many(W, n, mode))


# ------------------------------------------------------------------ C15
class Shared:
    """stores to anything that exists once for all runners"""
    def __init__(self, W):
        self.W = W

    def __enter__(self):
        W, e = self.W, self.W.eng

        def on_store(s, p, n, o, v):
            owner = s.memo.get(('owner', o.id))
            i = owner.o if isinstance(owner, P) else o.id
            if s.memo.get('guard') or s.memo.get('refcount') or not (i in e.base_objs or isinstance(i, str) and i.startswith('g:')):
                return
            if isinstance(i, str) and i.startswith('g:') and W.thread_local(i[2:]):
                return
            if isinstance(v, models.SV) and v.did is not None:
                c = o.cells.get(p.off)
                if c is not None and isinstance(c[1], models.SV) and c[1].term is v.term and c[1].did is None:
                    return
            s.event('shared', W.shared_name(i), e.where(s), s.fork())
        e.on_store = on_store
        self.hits = []
        orig = W.call

        def call(st, name, *args):
            r = orig(st, name, *args)
            for s, o in r:
                for ev in s.events():
                    if ev[0] == 'shared':
                        self.hits.append((s, ev))
                        break
            return r
        W.call = call
        return self

    def __exit__(self, *a):
        self.W.eng.on_store = None
        del self.W.call


def quiet(W, g):
    """run a scenario of another check: nothing shared is written on any of its paths"""
    def f():
        with Shared(W) as sh:
            r = g()
        out = []
        for s, ev in sh.hits[:8]:
            w = judge.feasible(ev[3])      # what held when the store happened
            out.append(('bad' if w else 'und', '%s is written %s, for %s' % (ev[1], place(ev[2]), w)))
            if w:
                break
        if not sh.hits:
            und = [x for x in r if x[0] == 'und']
            out += und or [('ok', '')]
        return out
    return f


UNSAFE = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'localtime', 'gmtime', 'asctime', 'ctime', 'setlocale', 'strerror', 'tmpnam', 'putenv', 'setenv', 'unsetenv',
          'lgamma', 'lgammaf', 'ecvt', 'fcvt', 'l64a', 'qecvt', 'mblen', 'mbtowc', 'wctomb'}


def scan(W):
    """library functions that no scenario interprets: direct stores to static variables, calls of C functions with hidden static state"""
    def f():
        from llvmc import OPN
        m = W.m
        out = []
        work = [x for x in m.fns.values() if x.name.startswith('vd_')] 
        seen = set()
        import llvmc
        for g, ref in m.globals.items():
            if g.startswith('_ZTV'):
                init = llvmc.ginit(ref)
                if init:
                    v = m.const(init)
                    st = [v]
                    while st:
                        x = st.pop()
                        if isinstance(x, llvmc.Agg):
                            st += list(x)
                        elif isinstance(x, P) and isinstance(x.o, str) and x.o.startswith('f:') and x.o[2:] in m.fns:
                            work.append(m.fns[x.o[2:]])
        n = 0
        while work:
            fn = work.pop()
            if fn.name in seen:
                continue
            seen.add(fn.name)
            if fn.decl:
                continue
            m.fn(fn)
            calls = []
            stores = []
            guard = False
            for b in fn.blocks.values() if isinstance(fn.blocks, dict) else fn.blocks:
                for ins in b.ins:
                    for o in ins.a or ():
                        if isinstance(o, P) and isinstance(o.o, str) and o.o.startswith('f:'):
                            calls.append((o.o[2:], ins))
                    if ins.op == 'store':
                        q = ins.a[1]
                        if isinstance(q, P) and isinstance(q.o, str) and q.o.startswith('g:'):
                            stores.append((q.o[2:], ins))
            src = (m.fnloc(fn.name) or '')
            for c, ins in calls:
                if c == '__cxa_guard_acquire':
                    guard = True
                if c in UNSAFE:
                    out.append(('bad', 'the function %s with hidden static state is called at %s' % (c, m.loc(ins))))
                if c in m.fns:
                    work.append(m.fns[c])
            n += 1
            if guard:
                continue
            for g, ins in stores:
                ref = m.globals.get(g)
                if ref is None or llvmc.tls(ref) or llvmc.gconst(ref):
                    continue
                out.append(('bad', 'the static variable %s is written at %s in %s' % (llvmc.demangle(g), m.loc(ins), fn.dem)))
        return out or [('ok', '')]
    return f


@check('C15')
def c15(c):
    c.rule = ('every operator over all NULL patterns, every way to decode a program or to fail, pipelines of one and two relational operators, adaptors and hexadecimal conversions: no store of any path reaches a static variable or '
              'an object created when the library was loaded (reference counts and guarded initialisation of function-local constants excepted); all functions reachable from the public interface are scanned for stores to static variables and for C functions with hidden state')
    import props_misc as pm
    W = c.W
    CH = ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER')
    for op in OPS:
        for nulls in null_patterns(op):
            c.add(pat(op, nulls), quiet(W, op_scenario(W, op, nulls, chars=2 if op.name in CH else None)))
    for nm, code in expr_codes():
        c.add('decoding %s' % nm, quiet(W, decode_own(W, [code, code + [0xee], code], False)))
        if len(code) > 1:
            c.add('decoding %s cut off' % nm, quiet(W, decode_own(W, [code[:-1]], False)))
    for b in range(256):
        c.add('decoding 0x%02x' % b, quiet(W, decode_own(W, [pipe.encode(C(I32, 3)) + [b]], False)))
        c.add('decoding relational 0x%02x' % b, quiet(W, decode_own(W, [[b]], True)))
    for nm, ops in rel_codes():
        code = pipe.encode_pipe(ops)
        c.add('relational: %s' % nm, quiet(W, decode_own(W, [code, code + [0x77], code[:-1]], True)))
    S = stages(W) + throwing()
    ty = [I64, BOOL, I64]
    a, b = cols(W, ty, 'a'), cols(W, ty, 'b')
    full = [('put', a), ('put', b), ('get',), ('get',), ('get',)]
    for ch in [(x,) for x in S] + list(itertools.product(S, repeat=2)):
        if any(nm == 'sum' for nm, _ in ch[:-1]):
            continue
        c.add('pipeline %s' % ', '.join(k for k, _ in ch), quiet(W, own(W, [o for _, o in ch], full, 'after')))
    for ag in pipe.AGGS:
        ag = ag if len(ag) == 1 else ag + (0,)
        t = ag[1] if len(ag) > 1 else I64
        rows = [('put', [W.sym(t, 'r%d' % i)]) for i in range(2)] + [('put', [None])]
        c.add('aggregation %s' % (ag,), quiet(W, own(W, [('all', [ag])], rows + [('get',), ('get',)], 'after')))
        c.add('grouped aggregation %s' % (ag,), quiet(W, own(W, [('group', [0], [ag])], rows + [('get',), ('get',)], 'after')))
    for t in VALUE_TYPES:
        for i, (_, x) in enumerate(pm.samples(W, t) + [('', None)]):
            c.add('adaptors %s %d' % (NAME[t], i), quiet(W, pm.to_operand(W, t, x)))
            for back in (False, True):
                c.add('adaptors %s %d back %s' % (NAME[t], i, back), quiet(W, pm.from_operand(W, t, x, back)))
        c.add('hash and equality %s' % NAME[t], quiet(W, pm.eq_pair(W, W.sym(t, 'a'), W.sym(t, 'b'))))
    for k in ('hex_bytes', 'bytes_hex'):
        c.add('hexadecimal %s' % k, quiet(W, pm.any_length(W, k)))
    c.add('hexadecimal digits', quiet(W, pm.hex_of(W)))
    c.add('static variables and C functions with hidden state', scan(W))
