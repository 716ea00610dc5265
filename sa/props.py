"""The checks, by property."""
import itertools, math
from dom import *
import models, judge, spec, scen
from api import *
from spec import OPS, BYNAME, ANY
from scen import *

from reg import CHECKS, check


@check('C01')
def c01(c):
    c.rule = ('for every operator code and type listed as implemented: decode [VAR 0]..[VAR n-1] op from concrete bytes, evaluate on symbolic non-NULL operands, and relate '
              'the resulting term to the documented operation in every partition of the operands')
    W = c.W
    for op in OPS:
        nn = (False,) * len(op.ins)
        texts = [None]
        if op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER'):
            texts = [0, 1, 2]
        for ch in texts:
            c.add('%s%s' % (pat(op, nn), '' if ch is None else ' on %d symbolic characters' % ch), op_scenario(W, op, nn, chars=ch))


# ------------------------------------------------------------------ operators
@check('C06')
def c06(c):
    c.rule = ('every strict operator, every pattern of NULL operands: the result is NULL iff some operand is NULL (or a zero divisor), and nothing is raised; '
              'the operands that are not NULL stay symbolic')
    W = c.W
    for op in OPS:
        if op.kind != 'strict':
            continue
        for nulls in null_patterns(op):
            if op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER') and not any(nulls):
                for k in (0, 1, 2):
                    c.add('%s, %d characters' % (pat(op, nulls), k), nullness(W, op, nulls, k))
                continue
            c.add(pat(op, nulls), nullness(W, op, nulls))


def nullness(W, op, nulls, chars=None):
    def f():
        e = W.eng
        args = operands(W, op, nulls, chars=chars)
        out = []
        for s, exp in W.split(W.new(), lambda s: spec.expect(op, e, s, args)):
            if isinstance(exp, tuple) and exp[0] in ('throw', 'free'):
                continue           # documented errors of checked operators, and text out of range
            x = None if exp is None else (ANY, None)
            for s2, stage, pl in run_program(W, s, op.ins, args, op.code):
                out += judge_case(W, s2, stage, pl, x, [])
        return out
    return f


@check('C07')
def c07(c):
    c.rule = ('AND, OR, NOT over {TRUE, FALSE, NULL} from variables and from encoded constants, IS_NULL/IS_TRUE/IS_FALSE over every type and NULL: '
              'the result term equals the three-valued truth table in every partition')
    W = c.W
    for op in OPS:
        if op.kind == 'strict':
            continue
        for nulls in null_patterns(op):
            c.add(pat(op, nulls), op_scenario(W, op, nulls))
    # operands from constants of the encoding
    enc = {True: [0x13], False: [0x23], None: [0x03]}
    for op in ('NOT', 'AND', 'OR'):
        o = BYNAME[op]
        for vs in itertools.product((True, False, None), repeat=len(o.ins)):
            c.add('%s%r as constants' % (op, vs), const_logic(W, o, vs, enc))
    for nm, want in (('IS_NULL', None), ('IS_TRUE', True), ('IS_FALSE', False)):
        for v in (True, False, None):
            c.add('%s(%r as a constant)' % (nm, v), const_is(W, BYNAME[nm + '<BOOL>'], v, want, enc))
    # nested: the results of logic feed logic
    for x in ('AND', 'OR'):
        for y in ('AND', 'OR'):
            c.add('nested %s over %s and NOT' % (x, y), nested_logic(W, x, y))


def const_logic(W, o, vs, enc):
    def f():
        e = W.eng
        args = [None if v is None else (BOOL, iconst(1, int(v))) for v in vs]
        st = W.new()
        exp = spec.expect(o, e, st, args)
        code = sum((enc[v] for v in vs), []) + o.code
        out = []
        for s, stage, pl in run_program(W, st, [], [], code):
            out += judge_case(W, s, stage, pl, exp, [])
        return out
    return f


def const_is(W, o, v, want, enc):
    def f():
        st = W.new()
        out = []
        for s, stage, pl in run_program(W, st, [], [], enc[v] + o.code):
            out += judge_case(W, s, stage, pl, (BOOL, iconst(1, int(v is want))), [])
        return out
    return f


def nested_logic(W, x, y):
    def f():
        e = W.eng
        out = []
        for nulls in itertools.product((False, True), repeat=3):
            vals = [None if n else W.sym(BOOL, nm) for n, nm in zip(nulls, 'abc')]
            # a (b c Y) X NOT

            def sp(s):
                r = spec.expect(BYNAME[y], e, s, vals[1:])
                r = spec.expect(BYNAME[x], e, s, [vals[0], r])
                return spec.expect(BYNAME['NOT'], e, s, [r])
            for s, exp in W.split(W.new(), sp):
                for s2, stage, pl in run_program(W, s, [BOOL] * 3, vals, BYNAME[y].code + BYNAME[x].code + [0x51]):
                    out += judge_case(W, s2, stage, pl, exp, [])
        return out
    return f


@check('C08')
def c08(c):
    c.rule = ('every operator evaluated on top of two foreign values, for every NULL pattern: exactly its operands are replaced by one result and the values below are the same; '
              'with one operand too few an error is raised; nested and concatenated programs give their results in encoding order')
    W = c.W
    for op in OPS:
        for nulls in null_patterns(op):
            ch = 1 if op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER') else None
            c.add('%s above two values' % pat(op, nulls), stack_effect(W, op, nulls, ch))
        for k in range(len(op.ins)):
            c.add('%s with %d of %d operands' % (op.name, k, len(op.ins)), underflow(W, op, k))
    for t in VALUE_TYPES:
        c.add('NULL<%s> pushes one value' % NAME[t], pushes(W, [t], None))
    c.add('constants push one value each', const_pushes(W))
    for p in (['ADD<INT32>', 'MUL<INT32>', 'SUB<INT32>', 'NEG<INT32>'], ['CONCAT', 'MAX<STRING>'], ['SUB<INT64>', 'ABS<INT64>', 'MIN<INT64>'],
              ['SUB<DOUBLE>', 'MUL<DOUBLE>', 'FLOOR'], ['LT<INT32>', 'NOT'], ['EQ<STRING>', 'NOT']):
        c.add('nested: ' + ' '.join(p), nested(W, p))
    for a, b in itertools.product(['SUB<INT32>', 'CONCAT', 'LT<DOUBLE>', 'IS_NULL<INT64>', 'DIV<INT64>', 'SUBSTR2', 'CAST<INT64,INT32>', 'AND'], repeat=2):
        c.add('concatenated: %s, %s' % (a, b), concatenated(W, a, b))


def stack_effect(W, op, nulls, ch):
    def f():
        e = W.eng
        args = operands(W, op, nulls, chars=ch)
        bl = [W.sym(I64, 'below0'), W.sym(STR, 'below1')]
        out = []
        for s2, stage, pl in run_program(W, W.new(), [I64, STR] + list(op.ins), bl + args, op.code):
            if stage == 'run' and pl[0] == 'throw':
                out.append(('ok', ''))        # documented errors are decided elsewhere
                continue
            if stage == 'values':
                if len(pl) == 3:
                    out += check_values(W, s2, pl[:2], bl)
                    if isinstance(pl[2], tuple) and pl[2] and pl[2][0] == 'bad':
                        out.append(judge.outcome_verdict(s2, pl[2][1], 'reading the result'))
                else:
                    w = judge.feasible(s2)
                    out.append(('bad' if w else 'und', '%d values %s remain instead of 3 for %s' % (len(pl), text(pl), w)))
                continue
            out += judge_case(W, s2, stage, pl, (ANY, None), bl)
        return out
    return f


def underflow(W, op, k):
    def f():
        out = []
        args = operands(W, op, (False,) * len(op.ins), chars=1 if op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER') else None)[:k]
        for vals in itertools.product(*[(a, None) for a in args]):
            for s, stage, pl in run_program(W, W.new(), list(op.ins[:k]), list(vals), op.code):
                if stage == 'decode' and pl[0] == 'throw':
                    out.append(('ok', ''))
                    continue
                out += judge_case(W, s, stage, pl, ('throw', None), [])
        return out
    return f


def pushes(W, code, exp):
    def f():
        out = []
        for s, stage, pl in run_program(W, W.new(), [], [], code):
            out += judge_case(W, s, stage, pl, exp, [])
        return out
    return f


def const_pushes(W):
    def f():
        code = [0x11, 5, 0x12, 6, 0x13, 0x14, 0x3f, 0x80, 0, 0, 0x15, 0x3f, 0xf0, 0, 0, 0, 0, 0, 0, 0x17, 2, 65, 66, 0x21, 7, 0x22, 8, 0x23]
        exp = [(I32, iconst(32, 5)), (I64, iconst(64, 6)), (BOOL, iconst(1, 1)), (F32, fconst('f32', 1.0)), (F64, fconst('f64', 1.0)), (STR, slit(b'AB')),
               (I32, iconst(32, -7)), (I64, iconst(64, -8)), (BOOL, iconst(1, 0))]
        out = []
        for s, stage, pl in run_program(W, W.new(), [], [], code):
            out += check_values(W, s, pl, exp) if stage == 'values' else judge_case(W, s, stage, pl, None, [])
        return out
    return f


def nested(W, names):
    """operands v0..vn, applied right to left: (v0 op_k (v1 ... ))"""
    def f():
        e = W.eng
        ops = [BYNAME[n] for n in names]
        types, plan = [], []
        # the first operator takes its operands from the tuple; the others take missing ones below
        need = []
        for i, o in enumerate(ops):
            if i == 0:
                need.append(list(o.ins))
            else:
                need.append(list(o.ins[:-1]))
        order = []
        for i in reversed(range(len(ops))):
            order.append((i, len(types), len(need[i])))
            types += need[i]
        vals = [W.sym(t, 'v%d' % i) for i, t in enumerate(types)]
        pos = {i: (p, n) for i, p, n in order}

        def sp(s):
            r = None
            for i, o in enumerate(ops):
                p, n = pos[i]
                a = vals[p:p + n]
                if i:
                    a = a + [r]
                r = spec.expect(o, e, s, a)
            return r
        out = []
        for s, exp in W.split(W.new(), sp):
            for s2, stage, pl in run_program(W, s, types, vals, sum((o.code for o in ops), [])):
                out += judge_case(W, s2, stage, pl, exp, [])
        return out
    return f


def concatenated(W, a, b):
    def f():
        e = W.eng
        A, B = BYNAME[a], BYNAME[b]
        va = [W.sym(t, 'a%d' % i) for i, t in enumerate(A.ins)]
        vb = [W.sym(t, 'b%d' % i) for i, t in enumerate(B.ins)]
        items = []
        for i, t in enumerate(A.ins):
            items += var(t, i)
        items += A.code
        for i, t in enumerate(B.ins):
            items += var(t, len(A.ins) + i)
        items += B.code
        out = []
        for s, (x, y) in W.split(W.new(), lambda s: (spec.expect(A, e, s, va), spec.expect(B, e, s, vb))):
            for s2, stage, pl in run_program(W, s, [], va + vb, items):
                if stage == 'values':
                    out += check_values(W, s2, pl, [x, y])
                else:
                    out += judge_case(W, s2, stage, pl, None, [])
        return out
    return f


@check('C09')
def c09(c):
    c.rule = ('for every operator, constant, variable and NULL: the type the decoded program reports equals the documented result type, and the non-NULL result holds exactly that type')
    W = c.W
    for op in OPS:
        ch = 1 if op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER') else None
        c.add('%s reports %s and yields it' % (op.name, NAME[op.out]), typed(W, op, ch))
    for t in VALUE_TYPES:
        c.add('NULL<%s>' % NAME[t], reports(W, [t], t))
    for t in VALUE_TYPES:
        c.add('VAR<%s>' % NAME[t], reports(W, var(t, 0), t))
    for code, t in (([0x11, 5], I32), ([0x12, 5], I64), ([0x13], BOOL), ([0x14, 1, 2, 3, 4], F32), ([0x15] + [1] * 8, F64), ([0x17, 1, 65], STR), ([0x21, 5], I32), ([0x22, 5], I64), ([0x23], BOOL)):
        c.add('constant 0x%02x' % code[0], reports(W, code, t))
    items = [('constant %02x' % code[0], code, t) for code, t in (([0x11, 5], I32), ([0x22, 5], I64), ([0x13], BOOL), ([0x14, 1, 2, 3, 4], F32), ([0x15] + [1] * 8, F64), ([0x17, 1, 65], STR))]
    items += [('variable %s' % NAME[t], var(t, 0), t) for t in VALUE_TYPES] + [('NULL<%s>' % NAME[t], [t], t) for t in VALUE_TYPES]
    for nm, code, t in items:
        c.add('two items, the last is %s' % nm, each(W, [(c1 + code, t) for _, c1, _ in items]))
        c.add('three items, the last is %s' % nm, each(W, [(c1 + c2 + code, t) for (_, c1, _), (_, c2, _) in zip(items, items[5:] + items[:5])] + [(c1 + program(BYNAME['LT<INT32>'].ins, BYNAME['LT<INT32>'].code) + code, t) for _, c1, _ in items]))
    for n in W.sizes():
        c.add('%d items' % n, each(W, [(sum((items[(i * k + k) % len(items)][1] for i in range(n)), []), items[((n - 1) * k + k) % len(items)][2]) for k in (1, 5, 7)]))
    for a, b in itertools.product(['LT<INT32>', 'CONCAT', 'SUB<DOUBLE>', 'CAST<STRING,INT64>', 'NOT'], repeat=2):
        c.add('%s then %s reports the type of the last operator' % (a, b), reports(W, program(BYNAME[a].ins, BYNAME[a].code) + program(BYNAME[b].ins, BYNAME[b].code), BYNAME[b].out))


def typed(W, op, ch):
    def f():
        out = []
        for nulls in null_patterns(op):
            args = operands(W, op, nulls, chars=ch)
            st, tp = W.tuple(W.new(), args)
            st, r = W.runner(st)
            p, res = W.decode(st, r, program(op.ins, op.code))
            for s, o in res:
                if o[0] != 'ret':
                    out.append(judge.outcome_verdict(s, o, 'decoding'))
                    continue
                for s1, o1 in W.call(s, 'vd_runner_type', r):
                    if o1[0] != 'ret':
                        out.append(judge.outcome_verdict(s1, o1, 'asking for the type'))
                        continue
                    if not is_const(o1[1]) or o1[1].c != op.out:
                        out.append(('bad' if is_const(o1[1]) else 'und', 'reports type %s instead of %s' % (o1[1], NAME[op.out])))
                        continue
                    s1 = W.call1(s1, 'vd_runner_bind', r, tp)[0]
                    for s2, o2 in W.call(s1, 'vd_runner_run', r):
                        if o2[0] == 'throw':
                            out.append(('ok', ''))
                            continue
                        if o2[0] != 'ret':
                            out.append(judge.outcome_verdict(s2, o2, 'evaluating'))
                            continue
                        for s3, stage, pl in read_all(W, s2, r):
                            if stage == 'values' and len(pl) == 1 and pl[0] is None:
                                out.append(('ok', ''))
                            else:
                                out += judge_case(W, s3, stage, pl, (ANY, op.out), [])
        return out
    return f


def each(W, cases):
    def f():
        return [x for code, t in cases for x in reports(W, code, t)()]
    return f


def reports(W, code, t):
    def f():
        out = []
        st, r = W.runner(W.new())
        p, res = W.decode(st, r, code)
        for s, o in res:
            if o[0] != 'ret':
                out.append(judge.outcome_verdict(s, o, 'decoding'))
                continue
            for s1, o1 in W.call(s, 'vd_runner_type', r):
                if o1[0] != 'ret':
                    out.append(judge.outcome_verdict(s1, o1, 'asking for the type'))
                elif not is_const(o1[1]):
                    out.append(('und', 'type %s' % o1[1]))
                else:
                    out.append(('ok', '') if o1[1].c == t else ('bad', 'reports type %d instead of %s' % (o1[1].c, NAME[t])))
        return out
    return f


@check('C10')
def c10(c):
    c.rule = ('DIV and MOD of every supporting type, on symbolic operands partitioned into zero, -1 and other divisors, and on the extreme operands: NULL exactly for zero, '
              'the truncated quotient or remainder otherwise, and no path raises or traps (undefined division is an alarm of the interpreter)')
    W = c.W
    for op in OPS:
        if op.group not in ('DIV', 'MOD'):
            continue
        for nulls in null_patterns(op):
            c.add(pat(op, nulls), op_scenario(W, op, nulls))
        t = op.ins[0]
        if t in (I32, I64):
            w = spec.W[t]
            ext = [('min', 1 << (w - 1)), ('max', (1 << (w - 1)) - 1), ('-1', -1), ('1', 1), ('0', 0), ('2', 2), ('-7', -7)]
            for (n, x), (m, y) in itertools.product(ext, repeat=2):
                c.add('%s(%s, %s)' % (op.name, n, m), fixed(W, op, [(t, iconst(w, x)), (t, iconst(w, y))]))
            for m, y in ext:
                c.add('%s(any, %s)' % (op.name, m), fixed(W, op, [W.sym(t, 'a'), (t, iconst(w, y))]))
                c.add('%s(%s, any)' % (op.name, m), fixed(W, op, [(t, iconst(w, y)), W.sym(t, 'b')]))
        else:
            k = spec.FK[t]
            for y in (0.0, -0.0, 1.0, -1.0, math.inf, math.nan):
                c.add('%s(any, %r)' % (op.name, y), fixed(W, op, [W.sym(t, 'a'), (t, fconst(k, y))]))


def fixed(W, op, args, below=()):
    def f():
        e = W.eng
        out = []
        for s, exp in W.split(W.new(), lambda s: spec.expect(op, e, s, args)):
            for s2, stage, pl in run_program(W, s, op.ins, args, op.code):
                out += judge_case(W, s2, stage, pl, exp, [])
        return out
    return f


@check('C11')
def c11(c):
    c.rule = ('checked casts and checked ABS on symbolic operands, partitioned at the exact limits of the target type: inside, the value of the plain operator; outside and for NaN, '
              'the limit error naming the target type')
    W = c.W
    for op in OPS:
        if op.group in ('CAST_C', 'ABS_C') and op.out in (I32, I64) and op.ins[0] in (I32, I64, F32, F64, BOOL):
            for nulls in null_patterns(op):
                c.add(pat(op, nulls), op_scenario(W, op, nulls))
            t = op.ins[0]
            if t in (F32, F64):
                k = spec.FK[t]
                vals = [0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.49999999999999994, 2147483646.5, 2147483647.0, 2147483647.25, 2147483647.5, 2147483648.0, -2147483648.0,
                        -2147483648.25, -2147483648.5, -2147483649.0, 4294967296.0, 4294967297.0, -4294967296.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0,
                        -9223372036854777856.0, 1.8446744073709552e19, 1e300, -1e300, math.inf, -math.inf, math.nan]
                for v in vals:
                    if k == 'f32' and f32r(v) != v and v == v:
                        continue
                    c.add('%s(%r)' % (op.name, v), fixed(W, op, [(t, fconst(k, v))]))
            elif t in (I32, I64):
                w = spec.W[t]
                for v in (0, 1, -1, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, 1 << 32, (1 << 32) + 5, -(1 << 32), (1 << 63) - 1, -(1 << 63)):
                    if -(1 << (w - 1)) <= v < 1 << (w - 1):
                        c.add('%s(%d)' % (op.name, v), fixed(W, op, [(t, iconst(w, v))]))


@check('C12')
def c12(c):
    c.rule = ('comparisons, MIN and MAX of every type on symbolic operands, partitioned by the order of the type (numeric; false before true; bytewise lexicographic, also on texts of '
              'symbolic characters): each result agrees with that one order; and all six comparisons evaluated together agree with each other')
    W = c.W
    for op in OPS:
        if op.group not in ('REL', 'MIN', 'MAX'):
            continue
        c.add(pat(op, (False, False)), op_scenario(W, op, (False, False)))
        c.add('%s(same operand twice)' % op.name, twice(W, op))
        if op.ins[0] == STR:
            n = 4 if c.tier == 'thorough' else 3
            for k, l in itertools.product(range(n), repeat=2):
                if k + l <= (5 if c.tier == 'thorough' else 4):
                    c.add('%s on %d and %d symbolic characters' % (op.name, k, l), op_scenario(W, op, (False, False), chars=(k, l)))
    for t in VALUE_TYPES:
        c.add('all comparisons of %s in one program' % NAME[t], together(W, t))


def twice(W, op):
    def f():
        e = W.eng
        a = W.sym(op.ins[0], 'a')
        out = []
        for s, exp in W.split(W.new(), lambda s: spec.expect(op, e, s, [a, a])):
            for s2, stage, pl in run_program(W, s, [], [a], var(op.ins[0], 0) + var(op.ins[0], 0) + op.code):
                out += judge_case(W, s2, stage, pl, exp, [])
        return out
    return f


def together(W, t):
    def f():
        e = W.eng
        a, b = W.sym(t, 'a'), W.sym(t, 'b')
        ops = [o for o in OPS if o.group in ('REL', 'MIN', 'MAX') and o.ins[0] == t]
        items = sum((var(t, 0) + var(t, 1) + o.code for o in ops), [])
        out = []
        for s, exp in W.split(W.new(), lambda s: [spec.expect(o, e, s, [a, b]) for o in ops]):
            if any(x[0] == ANY for x in exp):
                continue
            for s2, stage, pl in run_program(W, s, [], [a, b], items):
                out += check_values(W, s2, pl, exp) if stage == 'values' else judge_case(W, s2, stage, pl, None, [])
        return out
    return f


@check('C13')
def c13(c):
    c.rule = ('LEFT, RIGHT, SUBSTR, MID, CONCAT on symbolic texts of any length with symbolic positions (the result is the documented slice as a term), also at extreme positions; '
              'TRIM, LTRIM, RTRIM, LOWER, UPPER on every text of up to n symbolic characters; no path raises or leaves the text')
    W = c.W
    n = 5 if c.tier == 'thorough' else 4
    for op in OPS:
        if op.group != 'TEXT' and op.name != 'ADD<STRING>':
            continue
        nn = (False,) * len(op.ins)
        if op.name in ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER'):
            for k in range(n + (0 if op.name != 'UPPER' else 0)):
                c.add('%s on %d symbolic characters' % (op.name, k), op_scenario(W, op, nn, chars=k))
            continue
        c.add(pat(op, nn), op_scenario(W, op, nn))
        ints = [i for i, t in enumerate(op.ins) if t == I32]
        ext = (-(1 << 31), -(1 << 31) + 1, -2, -1, 0, 1, 2, (1 << 31) - 2, (1 << 31) - 1)
        for vs in itertools.product(ext, repeat=len(ints)) if ints else ():
            args = [W.sym(t, 'ab'[i] if t == STR else 'x') if t == STR else (I32, iconst(32, vs[ints.index(i)])) for i, t in enumerate(op.ins)]
            c.add('%s(text, %s)' % (op.name, ', '.join(map(str, vs))), fixed(W, op, args))
        if ints:
            for k in range(4):
                c.add('%s on %d symbolic characters' % (op.name, k), op_scenario(W, op, nn, chars=k))


@check('C26')
def c26(c):
    c.rule = ('variables of every type, NULL included, at indexes of one and two VarInt bytes, among neighbours of the same and of other types: the pushed value is the element at the encoded index of '
              'the tuple bound last; without a bound tuple an error is raised')
    W = c.W
    for t in VALUE_TYPES:
        for null in (False, True):
            for n, i in ((1, 0), (3, 0), (3, 1), (3, 2), (5, 4)):
                c.add('VAR<%s> %s, element %d of %d' % (NAME[t], 'NULL' if null else 'symbolic', i, n), element(W, t, n, i, null))
        c.add('VAR<%s> without a tuple' % NAME[t], unbound(W, t))
        c.add('VAR<%s> after rebinding' % NAME[t], rebound(W, t))
        c.add('VAR<%s> leaves the tuple unchanged' % NAME[t], element(W, t, 2, 1, False, keep=True))
    for n in sorted({127, 128, 129, 255, 256, 300} | set(W.sizes(1000))):
        c.add('VAR<INT32> %d' % n, element(W, I32, n + 2, n, False))
    c.add('several variables in one program', several(W))
    c.add('the same variable twice', several(W, (0, 0, 1, 0)))
    c.add('unbinding', unbind(W))


def element(W, t, n, i, null, keep=False):
    def f():
        vals = [W.sym(t, 'e%d' % j) if abs(j - i) < 3 else None for j in range(n)]
        if null:
            vals[i] = None
        out = []
        st, tp = W.tuple(W.new(), vals)
        st, r = W.runner(st)
        p, res = W.decode(st, r, var(t, i))
        for s, o in res:
            if o[0] != 'ret':
                out.append(judge.outcome_verdict(s, o, 'decoding'))
                continue
            s = W.call1(s, 'vd_runner_bind', r, tp)[0]
            for s2, o2 in W.call(s, 'vd_runner_run', r):
                if o2[0] != 'ret':
                    out.append(judge.outcome_verdict(s2, o2, 'evaluating'))
                    continue
                for s3, stage, pl in read_all(W, s2, r):
                    out += judge_case(W, s3, stage, pl, vals[i], [])
                    if keep and stage == 'values':
                        for s4, vs in W.read_tuple(s3, tp):
                            out += check_values(W, s4, vs, vals)
        return out
    return f


def unbound(W, t):
    def f():
        out = []
        st, r = W.runner(W.new())
        p, res = W.decode(st, r, var(t, 0))
        for s, o in res:
            if o[0] != 'ret':
                out.append(judge.outcome_verdict(s, o, 'decoding'))
                continue
            for s2, o2 in W.call(s, 'vd_runner_run', r):
                out.append(('ok', '') if o2[0] == 'throw' else ('bad', 'no error is raised') if o2[0] == 'ret' else judge.outcome_verdict(s2, o2, 'evaluating'))
        return out
    return f


def rebound(W, t):
    def f():
        out = []
        a, b = W.sym(t, 'a'), W.sym(t, 'b')
        st, t1 = W.tuple(W.new(), [a])
        st, t2 = W.tuple(st, [b])
        st, r = W.runner(st)
        p, res = W.decode(st, r, var(t, 0))
        for s, o in res:
            if o[0] != 'ret':
                out.append(judge.outcome_verdict(s, o, 'decoding'))
                continue
            s = W.call1(s, 'vd_runner_bind', r, t1)[0]
            for s2, o2 in W.call(s, 'vd_runner_run', r):
                if o2[0] != 'ret':
                    out.append(judge.outcome_verdict(s2, o2, 'evaluating'))
                    continue
                s2 = W.call1(s2, 'vd_runner_bind', r, t2)[0]
                for s3, o3 in W.call(s2, 'vd_runner_run', r):
                    if o3[0] != 'ret':
                        out.append(judge.outcome_verdict(s3, o3, 'evaluating again'))
                        continue
                    for s4, stage, pl in read_all(W, s3, r):
                        out += judge_case(W, s4, stage, pl, b, [])
        return out
    return f


def several(W, idx=(2, 0, 1)):
    def f():
        vals = [W.sym(I32, 'a'), W.sym(STR, 'b'), W.sym(F64, 'c')]
        ts = [I32, STR, F64]
        out = []
        for s, stage, pl in run_program(W, W.new(), [], vals, sum((var(ts[i], i) for i in idx), [])):
            out += check_values(W, s, pl, [vals[i] for i in idx]) if stage == 'values' else judge_case(W, s, stage, pl, None, [])
        return out
    return f


def unbind(W):
    def f():
        out = []
        st, t1 = W.tuple(W.new(), [W.sym(I32, 'a')])
        st, r = W.runner(st)
        p, res = W.decode(st, r, var(I32, 0))
        for s, o in res:
            s = W.call1(s, 'vd_runner_bind', r, t1)[0]
            s = W.call1(s, 'vd_runner_bind', r, NULL)[0]
            for s2, o2 in W.call(s, 'vd_runner_run', r):
                out.append(('ok', '') if o2[0] == 'throw' else ('bad', 'no error is raised with no tuple bound') if o2[0] == 'ret' else judge.outcome_verdict(s2, o2, 'evaluating'))
        return out
    return f


@check('C27')
def c27(c):
    c.rule = ('unchecked casts of every supported pair on symbolic operands and on boundary values: the documented conversion as a term, text without a leading number gives 0, '
              'and the same type and the checked codes of unrestricted pairs agree')
    W = c.W
    for op in OPS:
        if op.group == 'CAST' or op.group == 'CAST_C' and not (op.out in (I32, I64) and op.ins[0] in (I64, F32, F64)):
            for nulls in null_patterns(op):
                c.add(pat(op, nulls), op_scenario(W, op, nulls))
            t = op.ins[0]
            if t == STR and op.group == 'CAST':
                for v in (b'', b'abc', b'12', b'-12', b'12abc', b' 7', b'x7', b'+', b'-', b'3.9', b'.5', b'1e2', b'   ', b'0', b'\xff1', b'+5', b'--5', b'007'):
                    c.add('%s(%r)' % (op.name, v), fixed(W, op, [(STR, slit(v))]))
            if t in (F32, F64) and op.group == 'CAST' and op.out in (I32, I64, BOOL):
                k = spec.FK[t]
                for v in (0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.25, 0.75, -0.75, 1.0, 100.0, 1e9, -1e9, 1e-30, 2147483646.5):
                    if k == 'f64' or f32r(v) == v:
                        c.add('%s(%r)' % (op.name, v), fixed(W, op, [(t, fconst(k, v))]))
    for t in VALUE_TYPES:
        for code in (0xF0, 0xFC):
            c.add('cast 0x%02x of %s to itself' % (code, NAME[t]), identity(W, t, code))


def identity(W, t, code):
    def f():
        a = W.sym(t, 'a')
        out = []
        for v in (a, None):
            for s, stage, pl in run_program(W, W.new(), [t], [v], [code, t << 4 | t]):
                out += judge_case(W, s, stage, pl, v, [])
        return out
    return f


import props_decode
import props_rel
import props_misc, props_state, props_result
