"""Scenarios shared by the checks."""
import itertools
from dom import *
import models, judge, spec
from api import *
from interp import Stop
from llvmc import P, NULL, Undef


def operands(W, op, nulls, below=0, names='abcdef', chars=None):
    """symbolic operands; nulls: tuple of booleans; chars: number of symbolic characters of text operands"""
    r = []
    for i, (t, n) in enumerate(zip(op.ins, nulls)):
        if n:
            r.append(None)
        elif t == STR and chars is not None:
            k = chars[i] if isinstance(chars, (tuple, list)) else chars
            r.append((STR, models.t_chars([byte('%s%d' % (names[i], j)) for j in range(k)])))
        else:
            r.append(W.sym(t, names[i]))
    return r


def byte(n):
    return isym(n, 8)


def program(args, code):
    items = []
    for i, (t) in enumerate(args):
        items += var(t, i)
    return items + list(code)


def run_program(W, st, types, vals, code, what='', length=None):
    """bind a tuple of the given values, decode [VAR...] code, run and read everything:
    list of (state, stage, payload): ('decode'|'run'|'getall', outcome) or ('values', [..])"""
    st, tp = W.tuple(st, vals)
    st, r = W.runner(st)
    items = program(types, code)
    out = []
    p, res = W.decode(st, r, items)
    for s, o in res:
        if o[0] != 'ret':
            out.append((s, 'decode', o))
            continue
        end = o[1]
        if isinstance(end, P) and end.o == p.o and not end.off.t and end.off.c != len(items):
            out.append((s, 'consumed', end.off.c))
        s = W.call1(s, 'vd_runner_bind', r, tp)[0]
        for s2, o2 in W.call(s, 'vd_runner_run', r):
            if o2[0] != 'ret':
                out.append((s2, 'run', o2))
                continue
            out += read_all(W, s2, r)
    return out


def read_all(W, s, r):
    out = []
    for s3, q in W.result_all(s, r):
        if isinstance(q, tuple):
            out.append((s3, 'getall', q[1]))
            continue
        for s4, vs in W.read_tuple(s3, q):
            out.append((s4, 'values', vs))
    return out


def text(vs):
    return '[' + ', '.join(judge.show(v) for v in vs) + ']'


def check_values(W, s, got, exp):
    """compare a list of operand values with the expected ones: list of (verdict, text)"""
    if len(got) != len(exp):
        w = judge.feasible(s)
        return [('bad' if w else 'und', '%d results %s instead of %d %s for %s' % (len(got), text(got), len(exp), text(exp), w))]
    sts = [(s, 'ok', '')]
    res = []
    for i, (g, x) in enumerate(zip(got, exp)):
        nxt = []
        for t, v, m in sts:
            nxt += value(W, t, g, x)
        bad = [(v, 'result %d: %s' % (i, m)) for t, v, m in nxt if v != 'ok']
        res += bad
        sts = [(t, v, m) for t, v, m in nxt if v == 'ok']
        if not sts:
            break
    return res if res else [('ok', '')]


def value(W, s, got, exp):
    if isinstance(exp, tuple) and exp and exp[0] == spec.ANY:
        if isinstance(got, tuple) and got and got[0] == 'bad':
            return [(s,) + judge.outcome_verdict(s, got[1], 'reading the result')]
        if got is not None and (exp[1] is None or got[0] == exp[1]):
            return [(s, 'ok', '')]
        w = judge.feasible(s)
        return [(s, 'bad' if w else 'und', 'got %s, expected a %s for %s' % (judge.show(got), NAME.get(exp[1]), w))]
    return judge.same_value(W, s, got, exp)


def judge_case(W, s, stage, payload, exp, below):
    """one outcome of a scenario against the expected result"""
    if exp == ('free',):
        if stage == 'values':
            return [('ok', '')]
        if payload[0] == 'throw':
            return [('ok', '')]
        return [judge.outcome_verdict(s, payload, stage)]
    if isinstance(exp, tuple) and exp and exp[0] == 'throw':
        if stage == 'run' and payload[0] == 'throw':
            ti = str(payload[1])
            if exp[1] is None or exp[1] in ti:
                return [('ok', '')]
            w = judge.feasible(s)
            if 'ExceedsLimits' in ti and w:
                return [('bad', 'raises %s instead of %s for %s' % (ti, exp[1], w))]
            return [('und', 'raises %s instead of %s' % (ti, exp[1]))]
        if stage == 'values':
            w = judge.feasible(s)
            return [('bad' if w else 'und', 'no error is raised (result %s) for %s' % (text(payload), w))]
        return [judge.outcome_verdict(s, payload, stage)] if stage != 'consumed' else [('und', 'stops early')]
    if stage == 'values':
        return check_values(W, s, payload, list(below) + [exp])
    if stage == 'consumed':
        w = judge.feasible(s)
        return [('bad' if w else 'und', 'decoding stops after %d bytes' % payload)]
    return [judge.outcome_verdict(s, payload, {'decode': 'decoding', 'run': 'evaluating', 'getall': 'reading the results'}[stage])]


def op_scenario(W, op, nulls, below=0, chars=None, only=None):
    """decode and evaluate one operator on symbolic operands, in every partition of its specification"""
    def f():
        e = W.eng
        args = operands(W, op, nulls, chars=chars)
        bl = [W.sym(I64, 'below0'), W.sym(STR, 'below1')][:below]
        out = []
        for s, exp in W.split(W.new(), lambda s: spec.expect(op, e, s, args)):
            if only is not None and not only(exp):
                continue
            types = [b[0] for b in bl] + list(op.ins)
            for s2, stage, pl in run_program(W, s, types, bl + args, op.code):
                out += judge_case(W, s2, stage, pl, exp, bl)
        return out
    return f


def null_patterns(op):
    return list(itertools.product((False, True), repeat=len(op.ins)))


def pat(op, nulls):
    return '%s(%s)' % (op.name, ', '.join('NULL' if n else NAME[t] for t, n in zip(op.ins, nulls)))
