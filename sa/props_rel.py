"""Checks of the relational runner: C19 to C23."""
import itertools
from dom import *
import models, judge, spec, scen, pipe
from api import *
from scen import *
from pipe import *
from reg import check
from spec import BYNAME


def B(i):
    return ('var', BOOL, i)


def V(t, i):
    return ('var', t, i)


def C(t, v):
    return ('const', t, v)


# ------------------------------------------------------------------ C19
CONDS = [
    ('a column', B(0), [BOOL]),
    ('NOT of a column', ('NOT', B(0)), [BOOL]),
    ('AND of two columns', ('AND', B(0), B(1)), [BOOL, BOOL]),
    ('OR of two columns', ('OR', B(0), B(1)), [BOOL, BOOL]),
    ('a comparison of columns', ('LT<INT32>', V(I32, 0), V(I32, 1)), [I32, I32]),
    ('a comparison with a constant', ('GE<INT64>', V(I64, 1), C(I64, -3)), [STR, I64]),
    ('a comparison of doubles', ('GT<DOUBLE>', V(F64, 0), C(F64, 1.5)), [F64, I32]),
    ('a comparison of texts', ('EQ<STRING>', V(STR, 0), V(STR, 1)), [STR, STR]),
    ('IS_NULL of a column', ('IS_NULL<INT32>', V(I32, 0)), [I32]),
    ('NOT of IS_NULL', ('NOT', ('IS_NULL<STRING>', V(STR, 1))), [I32, STR]),
    ('IS_TRUE of a column', ('IS_TRUE<INT64>', V(I64, 0)), [I64]),
    ('arithmetic within a comparison', ('EQ<INT32>', ('MOD<INT32>', V(I32, 0), V(I32, 1)), C(I32, 0)), [I32, I32]),
    ('the constant TRUE', C(BOOL, True), [I32]),
    ('the constant FALSE', C(BOOL, False), [I32]),
    ('NULL', ('null', BOOL), [I32]),
    ('a cast to BOOL', ('CAST<BOOL,INT32>', V(I32, 0)), [I32]),
    ('a range', ('AND', ('GT<FLOAT>', V(F32, 0), C(F32, 0.5)), ('LE<FLOAT>', V(F32, 0), C(F32, 2.0))), [F32]),
]


def nullsets(n):
    return list(itertools.chain.from_iterable(itertools.combinations(range(n), k) for k in range(n + 1)))


@check('C19')
def c19(c):
    c.rule = ('filters with every kind of condition over symbolic columns and every NULL pattern: in every partition Put returns the given pointer with unchanged content iff the condition is TRUE, '
              'else nothing; also as a second tuple, after a tuple that was dropped or raised an error, and between other operators')
    W = c.W
    for nm, x, types in CONDS:
        if x[0] in BYNAME or x[0] in ('var', 'const', 'null'):
            for ns in nullsets(len(types)):
                c.add('%s, NULL columns %s' % (nm, list(ns) or 'none'), pipe.compare(W, [('filter', x)], [('put', cols(W, types, 'a', ns)), ('drain',)]))
    for a, b in itertools.product((None, True, False), repeat=2):
        def row(v):
            return [None if v is None else (BOOL, iconst(1, int(v))), W.sym(STR, 's')]
        c.add('%s then %s' % (a, b), pipe.compare(W, [('filter', B(0))], [('put', row(a)), ('put', row(b)), ('drain',), ('put', row(a)), ('put', row(b))]))
    for nm, x, types in CONDS[:8]:
        c.add('three tuples in turn: %s' % nm, pipe.compare(W, [('filter', x)], [('put', cols(W, types, 'a')), ('put', cols(W, types, 'b', (len(types) - 1,))), ('put', cols(W, types, 'c'))]))
    for k, (nm, x, types) in enumerate(CONDS):
        c.add('two filters: a column, %s' % nm, pipe.compare(W, [('filter', V(BOOL, len(types))), ('filter', x)], [('put', cols(W, types + [BOOL], 'a'))]))
    c.add('no column is read twice', pipe.compare(W, [('filter', ('AND', ('NOT', B(0)), ('OR', B(1), B(2))))], [('put', cols(W, [BOOL] * 3, 'a')), ('put', cols(W, [BOOL] * 3, 'b'))]))
    for ty in (I32, I64, F32, F64, STR):
        c.add('an untyped tail: the condition is the last of two results, columns of type %s' % NAME[ty],
              pipe.compare(W, [('filter', ('EQ<%s>' % NAME[ty], V(ty, 0), V(ty, 2)))], [('put', cols(W, [ty, BOOL, ty], 'a'))]))
    for n in W.sizes():
        types = [(I32, STR, F64, BOOL)[i % 4] for i in range(n - 1)] + [BOOL]
        c.add('a tuple of %d columns' % n, pipe.compare(W, [('filter', V(BOOL, n - 1))], [('put', cols(W, types, 'a')), ('put', cols(W, types, 'b', range(n // 2)))]))
    for n in W.sizes():
        rows = [('put', [(BOOL, iconst(1, int(i % 3 == 1))) if i % 5 < 4 else None, W.sym(I32, 'a%d' % i)]) for i in range(n)]
        c.add('%d tuples in turn' % n, pipe.compare(W, [('filter', V(BOOL, 0))], rows + [('drain',)]))
    for op in spec.OPS:
        if op.out != BOOL or op.kind == 'strict' and op.name.startswith('CAST') and op.ins[0] == STR:
            continue
        x = (op.name,) + tuple(V(t, i) for i, t in enumerate(op.ins))
        c.add('the condition %s' % op.name, pipe.compare(W, [('filter', x)], [('put', cols(W, op.ins, 'a')), ('put', cols(W, op.ins, 'b', (0,)))]))


# ------------------------------------------------------------------ C20
@check('C20')
def c20(c):
    c.rule = ('projections of every operator, every type of column, constants and NULLs, in every order: Put returns one new tuple whose values are the terms of the documented results, in encoding order; '
              'for one tuple, for tuples in turn and after an error')
    W = c.W
    for op in spec.OPS:
        if op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER') or op.name.startswith(('CHECK', 'ABS_C', 'CAST_C')):
            continue
        x = (op.name,) + tuple(V(t, i) for i, t in enumerate(op.ins))
        c.add('%s and its operands' % op.name, project(W, [x] + [V(t, i) for i, t in reversed(list(enumerate(op.ins)))], op.ins))
    for t in VALUE_TYPES:
        c.add('a column of type %s' % NAME[t], project(W, [V(t, 0)], [t]))
        c.add('a NULL column of type %s' % NAME[t], pipe.compare(W, [('project', [V(t, 0)])], [('put', [None])]))
        c.add('NULL<%s>' % NAME[t], project(W, [('null', t)], [I32]))
        c.add('NULL<%s> among columns' % NAME[t], project(W, [V(t, 0), ('null', t), V(t, 1)], [t, t]))
    for pm in itertools.permutations(range(4)):
        ty = [I32, STR, F64, BOOL]
        c.add('columns in the order %s' % (pm,), project(W, [V(ty[i], i) for i in pm], ty))
    for n in sorted(set(list(range(1, 18)) + [31, 32, 33, 64, 65] + W.sizes())):
        c.add('%d results' % n, project(W, [V(I64, i % 3) if i % 4 else ('ADD<INT64>', V(I64, i % 3), C(I64, i)) for i in range(n)], [I64, I64, I64]))
    for n in W.sizes():
        types = [(I32, STR, F64, BOOL)[i % 4] for i in range(n)]
        c.add('columns of a tuple of %d' % n, pipe.compare(W, [('project', [V(types[i], i) for i in (n - 1, 0, n // 2)])], [('put', cols(W, types, 'a')), ('put', cols(W, types, 'b', range(n // 2)))]))
        c.add('%d tuples in turn' % n, pipe.compare(W, [('project', [V(I64, 1), ('NEG<INT64>', V(I64, 0))])], [('put', cols(W, [I64, I64], 'a%d_' % i, (i % 2,) if i % 3 == 2 else ())) for i in range(n)] + [('drain',)]))
    c.add('constants', project(W, [C(I32, -5), C(STR, b'x\0y'), C(BOOL, True), C(F64, 2.5), C(F32, -1.0), C(I64, 1 << 40), C(STR, b'')], [I32]))
    c.add('the same expression twice', project(W, [('SUB<INT32>', V(I32, 0), V(I32, 1)), ('SUB<INT32>', V(I32, 1), V(I32, 0)), ('SUB<INT32>', V(I32, 0), V(I32, 1))], [I32, I32]))
    for ns in nullsets(3):
        c.add('arithmetic and columns, NULL columns %s' % (list(ns) or 'none'),
              pipe.compare(W, [('project', [('MUL<INT64>', V(I64, 0), V(I64, 1)), V(STR, 2), V(I64, 1), ('IS_NULL<STRING>', V(STR, 2)), ('NEG<INT64>', V(I64, 0))])],
                           [('put', cols(W, [I64, I64, STR], 'a', ns)), ('put', cols(W, [I64, I64, STR], 'b')), ('drain',)]))
    for t in VALUE_TYPES:
        c.add('after a tuple that raised an error, columns of type %s' % NAME[t], after_error(W, [('project', [V(t, 0), ('ABS_C<INT32>', V(I32, 1)) if 'ABS_C<INT32>' in BYNAME else ('ABS_CHECK<INT32>', V(I32, 1))])], t))


def project(W, xs, types):
    return pipe.compare(W, [('project', xs)], [('put', cols(W, types, 'a')), ('put', cols(W, types, 'b')), ('drain',)])


def after_error(W, ops, t):
    """a first tuple raises an error in the middle of the evaluation, the second one must not see anything of it"""
    def f():
        out = []
        first = [W.sym(t, 'e0'), (I32, iconst(32, 1 << 31))]
        second = [W.sym(t, 'a0'), (I32, iconst(32, 5))]
        st, r = W.rel(W.new())
        p, res = W.decode(st, r, encode_pipe(ops), rel=True)
        for s, o in res:
            if o[0] != 'ret':
                out.append(judge.outcome_verdict(s, o, 'decoding'))
                continue
            s, t1 = W.tuple(s, first)
            for s2, o2 in W.call(s, 'vd_rel_put', r, t1):
                if o2[0] != 'throw':
                    out.append(('und', 'the first tuple raised no error') if o2[0] == 'ret' else judge.outcome_verdict(s2, o2, 'putting the first tuple'))
                    continue
                s2.caught = []
                s2, t2 = W.tuple(s2, second)
                for s3, o3 in W.call(s2, 'vd_rel_put', r, t2):
                    if o3[0] != 'ret':
                        out.append(judge.outcome_verdict(s3, o3, 'putting the second tuple'))
                        continue
                    if null(o3[1]):
                        out.append(('bad', 'no tuple is returned after an earlier one raised an error'))
                        continue
                    for s4, vs in W.read_tuple(s3, o3[1]):
                        out += check_values(W, s4, vs, [second[0], (I32, iconst(32, 5))])
        return out
    return f


# ------------------------------------------------------------------ C22
def value_at(W, t, k, tag):
    return W.sym(t, '%s%d' % (tag, k))


@check('C22')
def c22(c):
    c.rule = ('every aggregation and type, ungrouped and grouped by one key, over 0 to 4 tuples and every NULL pattern of the column: the delivered value is the documented fold, as a term (sums, order partitions '
              'for MIN and MAX, counts), at every position among other aggregations and for every column index')
    W = c.W
    deep = c.tier == 'thorough'
    for a in AGGS:
        t = a[1] if len(a) > 1 else I32
        nm = a[0] if len(a) == 1 else '%s<%s>' % (a[0], NAME[t])
        ag = a if len(a) == 1 else a + (0,)
        for n in range(1, 6 if deep else 5):
            pats = list(itertools.product((False, True), repeat=n))
            if n == 4 and not deep:
                pats = [p for p in pats if sum(p) != 2 or p[0] != p[3]]
            if n > 3 and a[0] in ('MAX', 'MIN'):
                pats = [p for p in pats if sum(p) >= n - 3] if t != STR else [p for p in pats if sum(p) >= n - 2]
            for pt in pats:
                rows = [('put', [None if z else W.sym(t, 'v%d' % i)]) for i, z in enumerate(pt)]
                c.add('%s over %s' % (nm, ' '.join('NULL' if z else 'value' for z in pt)), pipe.compare(W, [('all', [ag])], rows + [('drain',)]))
        for pt in ((False,), (True,), (False, False), (False, True), (True, False), (True, True), (False, True, False)):
            rows = [('put', [(I32, iconst(32, 7)), None if z else W.sym(t, 'v%d' % i)]) for i, z in enumerate(pt)]
            c.add('%s of one group over %s' % (nm, ' '.join('NULL' if z else 'value' for z in pt)), pipe.compare(W, [('group', [0], [a if len(a) == 1 else a + (1,)])], rows + [('drain',)]))
        # the column index: each of several columns, the others holding other values
        if len(a) > 1:
            for idx in (0, 1, 2, 3):
                rows = [('put', [W.sym(t, 'r%dc%d' % (k, j)) for j in range(4)]) for k in range(2)]
                c.add('%s of column %d of four' % (nm, idx), pipe.compare(W, [('all', [a + (idx,)])], rows + [('drain',)]))
            for idx in (127, 128, 200):
                rows = [('put', [(I32, iconst(32, j)) if j != idx else W.sym(t, 'r%d' % k) for j in range(idx + 1)]) for k in range(2)]
                c.add('%s of column %d' % (nm, idx), pipe.compare(W, [('all', [a + (idx,)])], rows + [('drain',)]))
    # several aggregations: each has its own column and its own accumulator
    for x, y in itertools.product(AGGS, repeat=2):
        tx, ty = (x[1] if len(x) > 1 else I32), (y[1] if len(y) > 1 else I64)
        if x[0] in ('MAX', 'MIN') and y[0] in ('MAX', 'MIN') and STR in (tx, ty) and not deep:
            continue
        rows = [('put', [W.sym(tx, 'x0'), None]), ('put', [None, W.sym(ty, 'y1')]), ('put', [W.sym(tx, 'x2'), W.sym(ty, 'y2')])]
        c.add('%s and %s' % (agname(x), agname(y)), pipe.compare(W, [('all', [x if len(x) == 1 else x + (0,), y if len(y) == 1 else y + (1,)])], rows + [('drain',)]))
    many = [('COUNT_ALL',), ('SUM', I64, 0), ('COUNT', I64, 1), ('SUM', F64, 2), ('SUM', I64, 1), ('COUNT', F64, 2), ('COUNT_ALL',), ('SUM', I64, 0), ('MAX', I64, 0)]
    for k in range(0, len(many) + 1):
        rows = [('put', [W.sym(I64, 'x%d' % i), None if i == 1 else W.sym(I64, 'y%d' % i), W.sym(F64, 'z%d' % i)]) for i in range(2)]
        c.add('%d aggregations' % k, pipe.compare(W, [('all', many[:k])], rows + [('drain',)]))
        c.add('%d aggregations of groups' % k, pipe.compare(W, [('group', [0], many[:k])], [('put', [(I64, iconst(64, 3))] + r[1][1:]) for r in rows] + [('drain',)]))
    c.add('nothing was put in', pipe.compare(W, [('all', [('COUNT_ALL',), ('SUM', I32, 0)])], [('drain',)]))
    for n in W.sizes():
        for t in (I64, F64):
            rows = [('put', [None if i % 7 == 3 else W.sym(t, 'v%d' % i), (I64, iconst(64, i * 37 % n)), (STR, slit(b'%d' % (i * 37 % n)))]) for i in range(n)]
            aggs = [('COUNT_ALL',), ('SUM', t, 0), ('COUNT', t, 0), ('MAX', I64, 1), ('MIN', I64, 1)] + ([('MAX', STR, 2), ('MIN', STR, 2)] if n <= 65 else [])
            c.add('aggregations over %d tuples, type %s' % (n, NAME[t]), pipe.compare(W, [('all', aggs)], rows + [('drain',)]))
            if t == I64:
                c.add('aggregations of a group of %d tuples' % n, pipe.compare(W, [('group', [3], aggs)], [('put', r[1] + [(I32, iconst(32, 1))]) for r in rows] + [('drain',)]))
    for a in AGGS:
        t = a[1] if len(a) > 1 else I32
        ag = a if len(a) == 1 else a + (0,)
        rows = [('put', [W.sym(t, 'v0')]), ('put', [W.sym(t, 'v1')])]
        c.add('%s starts again after its result was taken' % agname(a), pipe.compare(W, [('all', [ag])], rows[:1] + [('drain',)] + rows[1:] + [('drain',)]))
        c.add('%s of a projected column' % agname(a), pipe.compare(W, [('project', [C(I32, 1), V(t, 0)]), ('all', [a if len(a) == 1 else a + (1,)])], rows + [('drain',)]))


def agname(a):
    return a[0] if len(a) == 1 else '%s<%s>' % (a[0], NAME[a[1]])


# ------------------------------------------------------------------ C23
@check('C23')
def c23(c):
    c.rule = ('grouped aggregation over 1 to 4 tuples with symbolic keys of every type (and NULL), in every partition of key equality: one tuple per distinct key, key values first in encoded order, then the '
              'aggregates in encoded order, then nothing; ungrouped aggregation: exactly one tuple iff anything was put in')
    W = c.W
    deep = c.tier == 'thorough'
    ag = [('COUNT_ALL',), ('SUM', I64, 1)]
    for t in VALUE_TYPES:
        for n in (1, 2, 3) + ((4,) if deep and t not in (STR,) else ()):
            for pt in itertools.product((False, True), repeat=n):
                rows = [('put', [None if z else W.sym(t, 'k%d' % i), W.sym(I64, 'v%d' % i)]) for i, z in enumerate(pt)]
                if n == 3 and t in (F32, F64, STR) and not any(pt) and not deep:
                    pass
                c.add('keys of type %s: %s' % (NAME[t], ' '.join('NULL' if z else 'key' for z in pt)), pipe.compare(W, [('group', [0], ag)], rows + [('drain',)], extra_gets=2))
    for t, u in itertools.product(VALUE_TYPES, repeat=2):
        if STR in (t, u) and t in (F32, F64) + (STR,) and not deep and t != u:
            continue
        rows = [('put', [W.sym(t, 'k%d' % i), W.sym(I64, 'v%d' % i), W.sym(u, 'l%d' % i)]) for i in range(2)]
        for gi in ([0, 2], [2, 0]):
            c.add('keys of columns %s, types %s %s' % (gi, NAME[t], NAME[u]), pipe.compare(W, [('group', gi, ag)], rows + [('drain',)]))
    for ns in itertools.product(nullsets(2), repeat=2):
        rows = [('put', [None if 0 in z else W.sym(I32, 'k%d' % i), W.sym(I64, 'v%d' % i), None if 1 in z else W.sym(I64, 'l%d' % i)]) for i, z in enumerate(ns)]
        c.add('two key columns, NULL in %s' % (ns,), pipe.compare(W, [('group', [0, 2], ag)], rows + [('drain',)]))
    # keys that agree in one column or are permutations of one another are different groups
    a, b = (I32, iconst(32, 1)), (I32, iconst(32, 2))
    for x, y in itertools.product(itertools.product((a, b, None), repeat=2), repeat=2):
        rows = [('put', [p, q, W.sym(I64, 'v%d' % i)]) for i, (p, q) in enumerate((x, y))]
        c.add('keys %s and %s' % (text(x), text(y)), pipe.compare(W, [('group', [0, 1], [('COUNT_ALL',), ('SUM', I64, 2)])], rows + [('drain',)]))
    for x, y in itertools.combinations([b'', b'\0', b'a', b'b', b'ab', b'ba', b'a\0', b'a\0b', b'a\0c', b'\xff', b'A'], 2):
        rows = [('put', [(STR, slit(k)), W.sym(I64, 'v%d' % i)]) for i, k in enumerate((x, y, x))]
        c.add('text keys %r %r %r' % (x, y, x), pipe.compare(W, [('group', [0], ag)], rows + [('drain',)]))
    for x, y in ((0.0, -0.0), (1.0, 1.5), (math_inf(), -math_inf()), (0.0, 5e-324)):
        rows = [('put', [(F64, fconst('f64', k)), W.sym(I64, 'v%d' % i)]) for i, k in enumerate((x, y, x))]
        c.add('double keys %r %r %r' % (x, y, x), pipe.compare(W, [('group', [0], ag)], rows + [('drain',)]))
    for n in (0, 1, 2, 3, 5):
        rows = [('put', [(I32, iconst(32, j)) for j in range(n)] + [W.sym(I64, 'v%d' % i)]) for i in range(2)]
        c.add('%d group columns' % n, pipe.compare(W, [('group', list(range(n)), [('COUNT_ALL',), ('SUM', I64, n)])], rows + [('drain',)], extra_gets=2))
        c.add('%d group columns, reversed' % n, pipe.compare(W, [('group', list(reversed(range(n))), [('SUM', I64, n), ('COUNT_ALL',)])], rows + [('drain',)]))
    for k in range(0, 5):
        aggs = [('SUM', I64, 1), ('COUNT_ALL',), ('MAX', I64, 1), ('COUNT', I64, 1)][:k]
        rows = [('put', [W.sym(I32, 'k'), W.sym(I64, 'v%d' % i)]) for i in range(2)]
        c.add('a group with %d aggregations' % k, pipe.compare(W, [('group', [0], aggs)], rows + [('drain',)], extra_gets=2))
    c.add('the same column twice in a key', pipe.compare(W, [('group', [0, 0, 1], [('COUNT_ALL',)])], [('put', [W.sym(I32, 'k%d' % i), W.sym(STR, 's%d' % i)]) for i in range(2)] + [('drain',)]))
    keys = [0, 1, 2, 0, 1, 0]
    for n in (4, 5, 6):
        c.add('%d tuples of three groups' % n, pipe.compare(W, [('group', [0], ag)], [('put', [(I32, iconst(32, 10 * k)), W.sym(I64, 'v%d' % i)]) for i, k in enumerate(keys[:n])] + [('drain',)], extra_gets=2))
    c.add('groups start again after they were taken', pipe.compare(W, [('group', [0], ag)], [('put', [W.sym(I32, 'k0'), W.sym(I64, 'v0')]), ('drain',), ('put', [W.sym(I32, 'k1'), W.sym(I64, 'v1')]), ('drain',)], extra_gets=2))
    for n in W.sizes(70):
        rows = [('put', [(I32, iconst(32, 3 * (i % n) - 5)), W.sym(I64, 'v%d' % i)]) for i in range(n + 2)]
        c.add('%d groups' % n, pipe.compare(W, [('group', [0], ag)], rows + [('drain',)], extra_gets=2))
        rows = [('put', [(STR, slit(b'key %d' % i)) if i else None, W.sym(I64, 'v%d' % i)]) for i in range(n)]
        c.add('%d groups of texts' % n, pipe.compare(W, [('group', [0], ag)], rows + [('drain',)], extra_gets=2))
        rows = [('put', [(I32, iconst(32, j if j < n - 1 else i)) for j in range(n)] + [W.sym(I64, 'v%d' % i)]) for i in range(2)]
        c.add('%d group columns, different in the last' % n, pipe.compare(W, [('group', list(range(n)), [('COUNT_ALL',), ('SUM', I64, n)])], rows + [('drain',)], extra_gets=2))
    for n in (3, 4, 5) + ((6, 7) if deep else ()):
        for sc in itertools.product((1, 2, 'get'), repeat=n - 1):
            if 'get' in sc:
                c.add('groups: put 1, %s' % ', '.join('get' if x == 'get' else 'put %d' % x for x in sc), interleaved(W, [('group', [0], ag)], [1] + list(sc)))
    for n in (2, 3, 4, 5) + ((6, 7) if deep else ()):
        for sc in itertools.product((1, 'get'), repeat=n):
            c.add('ungrouped: %s' % ', '.join('get' if x == 'get' else 'put' for x in sc), interleaved(W, [('all', ag)], list(sc), False))
    for sc in ([1, 2, 'get', 2, 1, 2], [1, 2, 3, 'get', 3, 'get', 3, 1, 2], [1, 2, 3, 'get', 'get', 1, 2, 3, 'get', 1], [1, 1, 2, 'get', 'get', 'get', 2, 1], [3, 2, 1, 'get', 1, 1, 'get', 2, 3]):
        c.add('groups: %s' % ', '.join('get' if x == 'get' else 'put %d' % x for x in sc), interleaved(W, [('group', [0], ag)], sc))
        c.add('groups through a projection: %s' % ', '.join('get' if x == 'get' else 'put %d' % x for x in sc), interleaved(W, [('group', [0], ag), ('project', [V(I32, 0), V(I64, 1), V(I64, 2)])], sc))
    c.add('no group without input', pipe.compare(W, [('group', [0], ag)], [('drain',)], extra_gets=2))
    for n in range(0, 4):
        rows = [('put', [W.sym(I32, 'k%d' % i), W.sym(I64, 'v%d' % i)]) for i in range(n)]
        c.add('ungrouped over %d tuples' % n, pipe.compare(W, [('all', ag)], rows + [('drain',)], extra_gets=2))
        c.add('ungrouped over %d tuples, no aggregation' % n, pipe.compare(W, [('all', [])], rows + [('drain',)], extra_gets=2))


def interleaved(W, ops, script, keyed=True):
    """puts (of a constant key) and gets in any order: a get delivers one of the groups that are due, or nothing when none is"""
    from props_misc import outcomes
    code = pipe.encode_pipe(ops)

    def f():
        out = []
        s, r = W.rel(W.new())
        work = [(s2, {}, '') for s2, _ in outcomes(W, W.decode(s, r, code, rel=True)[1], 'decoding', out)]
        for i, a in enumerate(script + ['end'] * 4):
            nxt = []
            for s, due, done in work:
                if a not in ('get', 'end'):
                    v = W.sym(I64, 'v%d' % i)
                    s, t = W.tuple(s, [(I32, iconst(32, a)), v])
                    for s2, q in outcomes(W, W.call(s, 'vd_rel_put', r, t), 'step %d (put)' % i, out):
                        if not pipe.null(q):
                            w = judge.feasible(s2)
                            out.append(('bad' if w else 'und', 'step %d: a tuple is returned by Put' % i))
                            continue
                        d = dict(due)
                        n, x = d.get(a if keyed else 0, (0, iconst(64, 0)))
                        d[a if keyed else 0] = (n + 1, add(x, v[1]) if n else v[1])
                        nxt.append((s2, d, done + ' put %d' % a))
                    continue
                if a == 'end' and done.endswith('end'):
                    nxt.append((s, due, done))
                    continue
                for s2, q in outcomes(W, W.call(s, 'vd_rel_get', r), 'after%s: a get' % done, out):
                    if pipe.null(q):
                        if due:
                            w = judge.feasible(s2)
                            out.append(('bad' if w else 'und', 'after%s: no result, although the group of key %d is due' % (done, sorted(due)[0])))
                        else:
                            nxt.append((s2, due, done + (' end' if a == 'end' else ' get')))
                        continue
                    for s3, x in pipe.read(W, s2, q):
                        vs = x.vals
                        b = [v for v in vs if isinstance(v, tuple) and v and v[0] == 'bad']
                        if b:
                            out.append(judge.outcome_verdict(s3, b[0][1], 'after%s: reading a result' % done))
                            continue
                        k = 0
                        if keyed:
                            if not (vs and vs[0] and vs[0][0] == I32 and is_const(vs[0][1])):
                                out.append(('und', 'after%s: a group without its key: %s' % (done, text(vs))))
                                continue
                            k = vs[0][1].c
                        if k not in due:
                            w = judge.feasible(s3)
                            out.append(('bad' if w else 'und', 'after%s: %s is delivered, which is not due' % (done, text(vs))))
                            continue
                        n, y = due[k]
                        want = ([(I32, iconst(32, k))] if keyed else []) + [(I64, iconst(64, n)), (I64, y)]
                        for s4, x, m in pipe.same_values(W, s3, vs, want):
                            if x == 'ok':
                                nxt.append((s4, {z: u for z, u in due.items() if z != k}, done + ' get'))
                            else:
                                out.append((x, 'after%s: %s' % (done, m)))
            work = nxt
        return out or [('ok', '')]
    return f


def math_inf():
    return float('inf')


# ------------------------------------------------------------------ C21
def stages(W):
    ty = [I64, BOOL, I64]
    return [
        ('filter a', ('filter', ('IS_TRUE<BOOL>', V(BOOL, 1)))),
        ('filter b', ('filter', ('LT<INT64>', V(I64, 0), V(I64, 2)))),
        ('swap', ('project', [V(I64, 2), V(BOOL, 1), V(I64, 0)])),
        ('negate', ('project', [('NEG<INT64>', V(I64, 0)), ('NOT', V(BOOL, 1)), ('ADD<INT64>', V(I64, 2), C(I64, 1))])),
        ('group', ('group', [0, 1], [('SUM', I64, 2)])),
        ('sum', ('all', [('SUM', I64, 0), ('COUNT', BOOL, 1), ('SUM', I64, 2)])),
    ]


@check('C21')
def c21(c):
    c.rule = ('every chain of two and three operators (filters, projections, grouped and ungrouped aggregation) over two symbolic tuples and NULLs, against a reference pipeline: what Put returns and what draining '
              'delivers are the documented terms, dropped and cached tuples stop, aggregated tuples pass through the rest of the chain')
    W = c.W
    S = stages(W)
    ty = [I64, BOOL, I64]

    def valid(ch):
        # 'sum' turns column 1 into INT64, so that only column 0 and 2 of it can be used afterwards
        for i, (nm, o) in enumerate(ch):
            if nm == 'sum':
                for nm2, _ in ch[i + 1:]:
                    if nm2 not in ('filter b', 'swap64', 'sum64'):
                        return False
        return True
    S64 = [('swap64', ('project', [V(I64, 2), V(I64, 1), V(I64, 0)])), ('sum64', ('all', [('SUM', I64, 0), ('COUNT', I64, 1), ('SUM', I64, 2)]))]

    def okay(ch):
        seen = False
        for nm, _ in ch:
            if nm in ('swap64', 'sum64') and not seen:
                return False
            if nm == 'sum':
                seen = True
        return valid(ch)
    rows = [('put', cols(W, ty, 'a')), ('put', cols(W, ty, 'b'))]
    nrows = [('put', cols(W, ty, 'a', (1,))), ('put', cols(W, ty, 'b', (0,)))]
    for n in (2, 3):
        for ch in itertools.product(S + S64, repeat=n):
            if not okay(ch):
                continue
            ops = [o for _, o in ch]
            names = [k for k, _ in ch]
            nm = ', '.join(names)
            if c.tier == 'quick' and n == 3 and 'filter b' in names[1:] and set(names) & {'negate', 'group', 'sum'}:
                continue      # comparisons of sums: many order cases, the pairs among them are decided below
            c.add('%s: two tuples' % nm, pipe.compare(W, ops, rows + [('drain',)], extra_gets=2))
            if n == 2 or c.tier == 'thorough':
                c.add('%s: NULL columns' % nm, pipe.compare(W, ops, nrows + [('drain',)], extra_gets=2))
                c.add('%s: put, drain, put, drain' % nm, pipe.compare(W, ops, rows[:1] + [('drain',)] + nrows[1:] + [('drain',)], extra_gets=2))
    for ch in ([0, 1, 2, 3], [2, 3, 2, 3], [3, 0, 3, 0], [4, 0, 2, 5], [0, 4, 3, 4], [2, 4, 1, 4], [4, 4, 4, 4], [0, 0, 0, 0, 0]) + (([2, 3, 4, 1, 5],) if c.tier == 'thorough' else ()):
        ops = [S[i][1] for i in ch]
        c.add('longer chain %s' % ', '.join(S[i][0] for i in ch), pipe.compare(W, ops, rows + [('drain',)], extra_gets=2))
    # many groups drained through a filter that drops some of them
    g = ('group', [0], [('SUM', I64, 1)])
    for keep in itertools.product((True, False), repeat=3):
        vals = [(I64, iconst(64, 100 + i if k else -100 - i)) for i, k in enumerate(keep)]
        rws = [('put', [(I64, iconst(64, i)), v]) for i, v in enumerate(vals)]
        c.add('three groups, of which a filter keeps %s' % (keep,), pipe.compare(W, [g, ('filter', ('GT<INT64>', V(I64, 1), C(I64, 0)))], rws + [('drain',)], extra_gets=2))
        c.add('three groups, of which a filter keeps %s, counted' % (keep,), pipe.compare(W, [g, ('filter', ('GT<INT64>', V(I64, 1), C(I64, 0))), ('all', [('COUNT_ALL',)])], rws + [('drain',)], extra_gets=2))
        c.add('three groups, of which a filter keeps %s, projected' % (keep,), pipe.compare(W, [g, ('filter', ('GT<INT64>', V(I64, 1), C(I64, 0))), ('project', [V(I64, 1)])], rws + [('drain',)], extra_gets=2))
    for n in W.sizes(33):
        ops = [(('filter', V(BOOL, 1)), ('project', [V(I64, 2), V(BOOL, 1), V(I64, 0)]))[i % 2] for i in range(n)]
        c.add('a chain of %d operators' % n, pipe.compare(W, ops, rows + [('drain',)], extra_gets=2))
        rws = [('put', [(I64, iconst(64, i * 5 % n)), (I64, iconst(64, i * (-1) ** i)), W.sym(STR, 's%d' % i)]) for i in range(n)]
        c.add('%d groups, of which a filter keeps some, projected' % n, pipe.compare(W, [('group', [0], [('SUM', I64, 1)]), ('filter', ('GT<INT64>', V(I64, 1), C(I64, 0))), ('project', [V(I64, 1)])], rws + [('drain',)], extra_gets=2))
        c.add('%d groups, counted' % n, pipe.compare(W, [('group', [0], [('SUM', I64, 1)]), ('all', [('COUNT_ALL',)])], rws + [('drain',)], extra_gets=2))
    for n in range(0, 4):
        c.add('one operator of each kind alone, %d tuples' % n, pipe.compare(W, [S[n][1]], rows + [('drain',)], extra_gets=2))


# ------------------------------------------------------------------ C24
@check('C24')
def c24(c):
    import props_decode as d
    c.rule = ('every leading byte, array byte, count and aggregation byte (symbolic bytes partitioned by the decoder, at every position of the encoding): a path that returns admits no undefined code and ends at the '
              'documented position, a path that raises admits no documented program; every aggregation code, column and group index with VarInts of every length behaves as encoded')
    W = c.W
    d.rel_matrix(c, 'all')
    for h, bs in d.CLASSES:
        if h == 7: c.add('relational: all sequences of 3 bytes starting 0x%x_' % h, d.judge_decode(W, [], 3, [b for b in bs if b not in (0x73, 0x74)], 'all', True))
    for a in AGGS:
        t = a[1] if len(a) > 1 else I32
        for idx in (0, 1, 5, 127, 128) if len(a) > 1 else (0,):
            rows = [('put', [(I32, iconst(32, j)) for j in range(idx)] + [W.sym(t, v)]) for v in ('v', 'w')]
            c.add('aggregation %s of column %d' % (agname(a), idx), pipe.compare(W, [('all', [a if len(a) == 1 else a + (idx,)])], rows + [('drain',)]))
    for idx in [[0], [1], [2, 0], [127], [128], [200, 3], [0, 1, 2, 3], [], [3] * 9] + [list(range(n)) for n in sorted({20} | set(W.sizes(70)))]:
        n = max(idx, default=0) + 1
        row = [W.sym((I32, I64, STR, BOOL)[j % 4], 'c%d' % j) if j in idx else (I32, iconst(32, j)) for j in range(n)]
        c.add('group columns %s' % (idx if len(idx) < 12 else '0..%d' % (n - 1)), pipe.compare(W, [('group', idx, [('COUNT_ALL',)])], [('put', row), ('drain',)]))
    # redundant groups of a VarInt are the same number
    for nm, code, ops in (
            ('a long aggregation count', [0x74, 0x81, 0x00, 0x21, 0x01], [('all', [('SUM', I32, 1)])]),
            ('a long column', [0x74, 0x01, 0x21, 0x81, 0x80, 0x00], [('all', [('SUM', I32, 1)])]),
            ('a long array count', [0x73, 0x61, 0x82, 0x00, 0x01, 0x00, 0x01, 0x10], [('group', [1, 0], [('COUNT_ALL',)])]),
            ('a long group column', [0x73, 0x61, 0x01, 0x81, 0x00, 0x01, 0x10], [('group', [1], [('COUNT_ALL',)])]),
            ('expressions without EOE at the end', [0x71, 0x95 - 0x95 + 0x31, 0x00, 0x31, 0x01, 0x95, 0x01], [('filter', ('LT<INT32>', V(I32, 0), V(I32, 1)))] if False else None)):
        if ops is not None:
            c.add(nm, coded(W, code, ops, [('put', [W.sym(I32, 'a'), W.sym(I32, 'b')]), ('put', [W.sym(I32, 'c'), W.sym(I32, 'd')]), ('drain',)]))
    lt = ('LT<INT32>', V(I32, 0), V(I32, 1))
    rows = [('put', [W.sym(I32, 'a'), W.sym(I32, 'b')]), ('drain',)]
    c.add('a filter without EOE at the end of the code', coded(W, [0x71] + encode(lt), [('filter', lt)], rows))
    c.add('a projection without EOE at the end of the code', coded(W, [0x72] + encode(lt) + encode(V(I32, 1)), [('project', [lt, V(I32, 1)])], rows))
    for n in sorted({1, 2, 3, 8, 13, 33} | set(W.sizes())):
        aggs = [(('SUM', I32, 0), ('SUM', I32, 1), ('COUNT_ALL',), ('MAX', I32, 1), ('COUNT', I32, 0))[(3 * j + n) % 5] for j in range(n)]
        c.add('%d aggregations in encoded order' % n, pipe.compare(W, [('all', aggs)], rows[:1] + [('put', [W.sym(I32, 'c'), None]), ('drain',)]))
    ops = [('filter', lt), ('project', [V(I32, 1), V(I32, 0)]), ('group', [0], [('SUM', I32, 1)]), ('all', [('COUNT_ALL',), ('SUM', I32, 1)])]
    for k in range(1, 5):
        for pm in itertools.permutations(ops, k):
            if any(o[0] == 'all' for o in pm[:-1]) and k > 2:
                continue
            if any(o[0] == 'all' for o in pm[:-1]):
                continue
            c.add('operators %s in encoded order' % ', '.join(o[0] for o in pm), pipe.compare(W, list(pm), [('put', [W.sym(I32, 'a'), W.sym(I32, 'b')]), ('put', [W.sym(I32, 'c'), W.sym(I32, 'd')]), ('drain',)]))
    c.add('decoding again replaces the operators', redecode(W))


def coded(W, code, ops, script):
    """like compare, for a given encoding of the operators"""
    old = pipe.encode_pipe

    def f():
        pipe.encode_pipe = lambda o: code
        try:
            return g()
        finally:
            pipe.encode_pipe = old
    g = pipe.compare(W, ops, script)
    return f


def redecode(W):
    def f():
        out = []
        firsts = [[0x71, 0x33, 0, 0], [0x72, 0x31, 0, 0], [0x73, 0x61, 1, 0, 1, 0x10], [0x74, 1, 0x10], [0x71, 0x33, 0, 0, 0x72, 0x31, 1, 0], [0x71, 0xee], [0x74, 1, 0x10, 0xff]]
        second = [0x72, 0x31, 1, 0x31, 0, 0]
        a, b = W.sym(I32, 'a'), W.sym(I32, 'b')
        for code in firsts:
            st, r = W.rel(W.new())
            p, res = W.decode(st, r, code, rel=True)
            for s, o in res:
                if o[0] not in ('ret', 'throw'):
                    out.append(judge.outcome_verdict(s, o, 'decoding first'))
                    continue
                s.caught = []
                p2, res2 = W.decode(s, r, second, rel=True)
                for s2, o2 in res2:
                    if o2[0] != 'ret':
                        out.append(judge.outcome_verdict(s2, o2, 'decoding again'))
                        continue
                    s2, t = W.tuple(s2, [a, b])
                    for s3, o3 in W.call(s2, 'vd_rel_put', r, t):
                        if o3[0] != 'ret':
                            out.append(judge.outcome_verdict(s3, o3, 'putting a tuple'))
                        elif null(o3[1]):
                            out.append(('bad', 'the projection decoded last returns nothing after %s' % d_hex(code)))
                        else:
                            for s4, vs in W.read_tuple(s3, o3[1]):
                                out += check_values(W, s4, vs, [b, a])
        return out
    return f


def d_hex(c):
    return ' '.join('%02x' % x for x in c)
