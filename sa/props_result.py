"""Checks of what is handed out: C32 (results are independent of their origin)."""
from dom import *
import models, judge, spec, scen, pipe
from api import *
from scen import *
from pipe import cols
from props_rel import V, C, stages
from props_misc import outcomes
from props_state import ABS_C, expr_codes
from reg import check
from llvmc import P, NULL
from spec import BYNAME, OPS


def gone(s, p):
    """the caller releases a buffer it has given"""
    s.wobj(p.o).alive = False


def held(W, s, q, g, want, what, out):
    """the results taken still hold their values: [states]"""
    nxt = []
    for s2, vs in W.read_tuple(s, q):
        b = [v for v in vs if isinstance(v, tuple) and v and v[0] == 'bad']
        if b:
            x, m = judge.outcome_verdict(s2, b[0][1], 'reading a result')
            out.append((x, what + ': ' + m))
            continue
        rr = [(x, what + ': ' + m) for x, m in check_values(W, s2, vs, want) if x != 'ok']
        out += rr
        if rr:
            continue
        if g is None:
            nxt.append(s2)
            continue
        for s3, v in W.read_operand(s2, g):
            if isinstance(v, tuple) and v and v[0] == 'bad':
                x, m = judge.outcome_verdict(s3, v[1], 'reading a result')
                out.append((x, what + ': ' + m))
                continue
            for s4, x, m in judge.same_value(W, s3, v, want[-1]):
                if x == 'ok':
                    nxt.append(s4)
                else:
                    out.append((x, what + ': ' + m))
    return nxt


OTHER = pipe.encode(C(STR, b'other')) + pipe.encode(C(I64, 77))


def snapshot(W, types, vals, vals2, code, early=True):
    """decode, forget the code, evaluate, take the results; then everything they were made from goes away step by step"""
    def f():
        out = []
        s, t1 = W.tuple(W.new(), vals)
        s, t2 = W.tuple(s, vals2)
        s, r = W.runner(s)
        p, res = W.decode(s, r, program(types, code))
        work = []
        for s, _ in outcomes(W, res, 'decoding', out):
            if early:
                gone(s, p)
            s = W.call1(s, 'vd_runner_bind', r, t1)[0]
            for s1, o in W.call(s, 'vd_runner_run', r):
                if o[0] == 'throw':
                    continue          # no result to keep
                if o[0] != 'ret':
                    out.append(judge.outcome_verdict(s1, o, 'evaluating after the code bytes are gone'))
                    continue
                for s2, q in W.result_all(s1, r):
                    if isinstance(q, tuple):
                        out.append(judge.outcome_verdict(s2, q[1], 'GetAll'))
                        continue
                    g = W.obj(s2, W.size['operand'])
                    for s3, _ in outcomes(W, W.call(s2, 'vd_runner_get', r, g), 'Get', out):
                        for s4, vs in W.read_tuple(s3, q):
                            b = [v for v in vs if isinstance(v, tuple) and v and v[0] == 'bad']
                            if b:
                                out.append(judge.outcome_verdict(s4, b[0][1], 'reading the results'))
                            elif not vs:
                                out.append(('und', 'no result'))
                            else:
                                work.append((s4, q, g, vs))

        def bind(s, t):
            return [W.call1(s, 'vd_runner_bind', r, t)[0]]

        def run(s):
            return tolerant(W.call(s, 'vd_runner_run', r), 'evaluating another tuple')

        def other(s):
            res = W.decode(s, r, OTHER)[1]
            return tolerant(res, 'decoding another expression')

        def bad(s):
            return tolerant(W.decode(s, r, OTHER + [0xee])[1], 'decoding invalid code')

        def free(t, what):
            return lambda s: [x for x, _ in outcomes(W, W.call(s, 'vd_tuple_delete', t), what, out)]

        def dtor(s):
            return [x for x, _ in outcomes(W, W.call(s, 'vd_runner_dtor', r), 'destroying the runner', out)]

        def tolerant(res, what):
            nx = []
            for s2, o in res:
                if o[0] not in ('ret', 'throw'):
                    out.append(judge.outcome_verdict(s2, o, what))
                    continue
                s2.caught = []
                nx.append(s2)
            return nx
        steps = [('the bound tuple is released', free(t1, 'releasing the bound tuple')), ('another tuple is evaluated', lambda s: [x for y in bind(s, t2) for x in run(y)]),
                 ('another expression is decoded', other), ('it is evaluated', run), ('invalid code is decoded', bad), ('the runner is destroyed', dtor), ('the other tuple is released', free(t2, 'releasing the other tuple'))]
        for s, q, g, vs in work:
            sts = [s]
            for nm, step in steps:
                sts = [y for x in sts for z in step(x) for y in held(W, z, q, g, vs, 'a result after ' + nm, out)]
                if len(sts) > 6:
                    sts = sts[:6]
            for s2 in sts[:2]:
                # a copy of a result is independent as well
                c = W.obj(s2, W.size['operand'])
                s2 = W.call1(s2, 'vd_operand_copy', c, g)[0]
                for s3, _ in outcomes(W, W.call(s2, 'vd_operand_dtor', g), 'releasing a result', out):
                    for s4 in held(W, s3, q, c, vs, 'a copy of a result after the result was released', out):
                        for s5, _ in outcomes(W, W.call(s4, 'vd_tuple_delete', q), 'releasing the results', out):
                            for s6, v in W.read_operand(s5, c):
                                if isinstance(v, tuple) and v and v[0] == 'bad':
                                    out.append(judge.outcome_verdict(s6, v[1], 'reading a copy of a result'))
                                    continue
                                out += [(x, 'a copy of a result after the results were released: ' + m) for _, x, m in judge.same_value(W, s6, v, vs[-1])]
        return out
    return f


def delivered(W, ops, rows, late):
    """tuples delivered by a relational runner, while more tuples pass through it and it decodes again"""
    code = pipe.encode_pipe(ops)

    def f():
        out = []
        s, r = W.rel(W.new())
        p, res = W.decode(s, r, code, rel=True)
        work = []
        for s, _ in outcomes(W, res, 'decoding', out):
            gone(s, p)
            work.append((s, []))

        def take(res, what, got):
            nx = []
            for s2, o in res:
                if o[0] != 'ret':
                    if o[0] == 'throw':
                        s2.caught = []
                        nx.append((s2, got))
                    else:
                        out.append(judge.outcome_verdict(s2, o, what))
                    continue
                q = o[1]
                if q == NULL:
                    nx.append((s2, got))
                    continue
                for s3, vs in W.read_tuple(s2, q):
                    b = [v for v in vs if isinstance(v, tuple) and v and v[0] == 'bad']
                    if b:
                        out.append(judge.outcome_verdict(s3, b[0][1], 'reading a delivered tuple'))
                        continue
                    nx.append((s3, got + [(q, vs)]))
            return nx

        def still(work, what):
            nx = []
            for s, got in work:
                sts = [s]
                for q, vs in got:
                    sts = [y for x in sts for y in held(W, x, q, None, vs, 'a tuple delivered earlier, after ' + what, out)]
                nx += [(x, got) for x in sts]
            return nx
        for i, v in enumerate(rows):
            nx = []
            for s, got in work:
                s, t = W.tuple(s, v)
                nx += take(W.call(s, 'vd_rel_put', r, t), 'putting tuple %d' % i, got)
            work = still(nx, 'another tuple was put in')
        for k in range(late):
            work = still([x for s, got in work for x in take(W.call(s, 'vd_rel_get', r), 'getting a result', got)], 'another result was taken')
        nx = []
        for s, got in work:
            for s2, _ in outcomes(W, W.decode(s, r, pipe.encode_pipe([('project', [C(STR, b'other')])]), rel=True)[1], 'decoding again', out):
                nx.append((s2, got))
        work = still(nx, 'another program was decoded')
        nx = []
        for s, got in work:
            s, t = W.tuple(s, [W.sym(STR, 'zz')])
            nx += take(W.call(s, 'vd_rel_put', r, t), 'putting a tuple into the other program', got)
        work = still(nx, 'the other program was used')
        nx = []
        for s, got in work:
            nx += [(s2, got) for s2, _ in outcomes(W, W.call(s, 'vd_rel_dtor', r), 'destroying the runner', out)]
        work = still(nx, 'the runner was destroyed')
        for s, got in work:
            sts = [s]
            for i, (q, vs) in enumerate(got):
                sts = [y for x in sts for y, _ in outcomes(W, W.call(x, 'vd_tuple_delete', q), 'releasing a delivered tuple', out)]
                for q2, vs2 in got[i + 1:]:
                    sts = [y for x in sts for y in held(W, x, q2, None, vs2, 'a delivered tuple after another one was released', out)]
        return out or [('ok', '')]
    return f


@check('C32')
def c32(c):
    c.rule = ('every operator and immediate: evaluate after the code bytes are released, take the results (Get, GetAll), then release the bound tuple, evaluate another one, decode and evaluate another expression, decode '
              'invalid code, destroy the runner, release copies: after each step the results hold the same terms and reading them touches no released memory; likewise tuples delivered by relational runners')
    W = c.W
    CH = ('TRIM', 'LTRIM', 'RTRIM', 'LOWER', 'UPPER')
    for op in OPS:
        ch = 1 if op.name in CH else None
        v1 = operands(W, op, (False,) * len(op.ins), chars=ch)
        v2 = [W.sym(t, 'n%d' % i) if not (ch and t == STR) else (STR, models.t_chars([byte('z')])) for i, t in enumerate(op.ins)]
        c.add('%s' % op.name, snapshot(W, op.ins, v1, v2, op.code))
        if STR in op.ins:
            args = {STR: C(STR, b' aB '), I32: C(I32, 1), I64: C(I64, 1), BOOL: C(BOOL, True), F32: C(F32, 1.0), F64: C(F64, 1.0)}
            c.add('%s of constants' % op.name, snapshot(W, [], [], [], sum((pipe.encode(args[t]) for t in op.ins), []) + list(op.code)))
            if op.out == STR:
                lit = {STR: (STR, slit(b' aB cd')), I32: (I32, iconst(32, 1)), I64: (I64, iconst(64, 2))}
                ops = [lit.get(t, W.sym(t, 'o%d' % i)) for i, t in enumerate(op.ins)]
                c.add('%s of a text with fixed characters' % op.name, snapshot(W, op.ins, ops, [lit[t] if t != STR else (STR, slit(b'Q')) for t in op.ins] if all(t in lit for t in op.ins) else v2, op.code))
                # operands the operation may hand on as they are
                for nm, x in (('an empty text', b''), ('a short text', b'ab'), ('a text longer than fits inline', b'abcdefghijklmnopqrstuvwxyz')):
                    a = [(STR, slit(x)) if t == STR else (t, iconst(32 if t == I32 else 64, 40)) for t in op.ins] if all(t in lit for t in op.ins) else None
                    if a:
                        c.add('%s of %s' % (op.name, nm), snapshot(W, op.ins, a, [(t, y) if t != STR else (STR, slit(b'Q')) for t, y in a], op.code))
    for nm, code in expr_codes():
        if nm not in BYNAME and not nm.startswith('VAR'):
            c.add(nm, snapshot(W, [], [], [], code))
            c.add('%s twice' % nm, snapshot(W, [], [], [], list(code) + list(code)))
    for t in VALUE_TYPES:
        c.add('VAR<%s>' % NAME[t], snapshot(W, [t], [W.sym(t, 'a')], [W.sym(t, 'b')], []))
        c.add('VAR<%s> twice' % NAME[t], snapshot(W, [t], [W.sym(t, 'a')], [W.sym(t, 'b')], var(t, 0)))
        c.add('VAR<%s> of NULL' % NAME[t], snapshot(W, [t], [None], [W.sym(t, 'b')], []))
    for n in W.sizes():
        c.add('%d results' % n, snapshot(W, [STR, I64], [W.sym(STR, 'a'), W.sym(I64, 'b')], [W.sym(STR, 'c'), W.sym(I64, 'd')], sum((var((STR, I64)[i % 2], i % 2) for i in range(n)), [])))
    a, b = cols(W, [I64, BOOL, I64], 'a'), cols(W, [I64, BOOL, I64], 'b')
    for nm, o in stages(W):
        c.add('delivered: %s' % nm, delivered(W, [o], [a, b], 3))
    for t in VALUE_TYPES:
        rows = [[W.sym(t, 'k%d' % i), W.sym(t, 'v%d' % i)] for i in range(2)]
        c.add('delivered: a projection of type %s' % NAME[t], delivered(W, [('project', [V(t, 1), V(t, 0), V(t, 1)])], rows, 1))
        c.add('delivered: a filtered tuple of type %s' % NAME[t], delivered(W, [('filter', C(BOOL, True))], rows, 1))
        c.add('delivered: groups with keys of type %s' % NAME[t], delivered(W, [('group', [0], [('COUNT', t, 1)])], rows, 3))
        if t != BOOL:
            c.add('delivered: MAX and MIN of type %s' % NAME[t], delivered(W, [('all', [('MAX', t, 1), ('MIN', t, 0)])], rows, 2))
            c.add('delivered: groups with MAX of type %s' % NAME[t], delivered(W, [('group', [1], [('MAX', t, 0)]), ('project', [V(t, 1), V(t, 0)])], rows, 3))
    k = C(STR, b'abc')
    c.add('delivered: constants', delivered(W, [('project', [k, ('CONCAT', k, V(STR, 0))])], [[W.sym(STR, 'p')], [W.sym(STR, 'q')]], 1))
    c.add('delivered: constants behind a filter', delivered(W, [('filter', ('EQ<STRING>', V(STR, 0), k)), ('project', [k, V(STR, 0)])], [[W.sym(STR, 'p')], [W.sym(STR, 'q')]], 1))
