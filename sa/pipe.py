"""A reference model of chains of relational operators over symbolic tuples, and the scenarios that compare the
relational runner with it. The model works on terms and partitions the operands as the specification asks for."""
import itertools
from dom import *
import models, judge, spec
from api import *
from spec import BYNAME
from scen import text
from interp import Stop
from llvmc import P, NULL, Undef


# ---- expressions: ('var', type, index) | ('const', type, value) | ('null', type) | (operator name, expression...)
def encode(x):
    if x[0] == 'var':
        return var(x[1], x[2])
    if x[0] == 'null':
        return [x[1]]
    if x[0] == 'const':
        t, v = x[1:]
        if t == BOOL:
            return [0x13 if v else 0x23]
        if t in (I32, I64):
            return ([0x20 | t] + varint(-v)) if v < 0 else ([0x10 | t] + varint(v))
        if t == STR:
            return [0x17] + varint(len(v)) + list(v)
        import struct
        return [0x10 | t] + list(struct.pack('>f' if t == F32 else '>d', v))
    return sum((encode(a) for a in x[1:]), []) + BYNAME[x[0]].code


def literal(t, v):
    if t == BOOL:
        return (t, iconst(1, int(v)))
    if t in (I32, I64):
        return (t, iconst(32 if t == I32 else 64, v))
    if t == STR:
        return (t, slit(v))
    return (t, fconst(spec.FK[t], v))


def evaluate(e, s, x, tup):
    if x[0] == 'var':
        return tup[x[2]]
    if x[0] == 'null':
        return None
    if x[0] == 'const':
        return literal(*x[1:])
    r = spec.expect(BYNAME[x[0]], e, s, [evaluate(e, s, a, tup) for a in x[1:]])
    if r is not None and r[0] in ('free', 'throw'):
        raise Open()
    return r


# ---- relational operators: ('filter', expr) | ('project', [expr]) | ('group', [index], [agg]) | ('all', [agg])
# aggregations: ('COUNT_ALL',) | ('COUNT'|'SUM'|'MAX'|'MIN', type, index)
KIND = {'COUNT': 0x10, 'SUM': 0x20, 'MAX': 0x30, 'MIN': 0x40}
AGGS = [('COUNT_ALL',)] + [('COUNT', t) for t in VALUE_TYPES] + [('SUM', t) for t in (I32, I64, F32, F64)] + \
       [(k, t) for k in ('MAX', 'MIN') for t in (I32, I64, F32, F64, STR)]


def encode_agg(a):
    return [0x10] if a[0] == 'COUNT_ALL' else [KIND[a[0]] | a[1]] + varint(a[2])


def encode_op(o, last=False, eoe=True):
    if o[0] == 'filter':
        return [0x71] + encode(o[1]) + ([0] if eoe or not last else [])
    if o[0] == 'project':
        return [0x72] + sum((encode(x) for x in o[1]), []) + ([0] if eoe or not last else [])
    aggs = varint(len(o[-1])) + sum((encode_agg(a) for a in o[-1]), [])
    if o[0] == 'group':
        return [0x73, 0x61] + varint(len(o[1])) + sum((varint(i) for i in o[1]), []) + aggs
    return [0x74] + aggs


def encode_pipe(ops, eoe=True):
    r = []
    for i, o in enumerate(ops):
        r += encode_op(o, i == len(ops) - 1, eoe)
    return r


def same_key(e, s, a, b):
    for x, y in zip(a, b):
        if x is None or y is None:
            if x is not y:
                return False
            continue
        if x[0] != y[0]:
            return False
        if x[1] is y[1] and not isinstance(x[1], Fl):
            continue
        if spec.cmp3(e, s, x[0], x[1], y[1]) != 'eq':
            return False
    return True


def agg_step(e, s, a, acc, tup):
    if a[0] == 'COUNT_ALL':
        return (I64, iconst(64, 1)) if acc is None else (I64, add(acc[1], iconst(64, 1)))
    v = tup[a[2]]
    if v is None:
        return acc
    if a[0] == 'COUNT':
        return (I64, iconst(64, 1)) if acc is None else (I64, add(acc[1], iconst(64, 1)))
    if acc is None or acc[0] == spec.ANY:
        return v if acc is None else acc
    return spec.expect(BYNAME['%s<%s>' % ({'SUM': 'ADD'}.get(a[0], a[0]), NAME[a[1]])], e, s, [acc, v])


class Open(Exception):
    """the documentation leaves open what happens for these operands"""


class T:
    """a tuple of the model: values, and the number of the input tuple it is (None for a new one)"""
    def __init__(self, vals, src=None):
        self.vals, self.src = vals, src

    def __repr__(self):
        return 'input %d' % self.src if self.src is not None else text(self.vals)


class Model:
    def __init__(self, e, s, ops):
        self.e, self.s, self.ops = e, s, ops
        self.held = [[] for _ in ops]         # per aggregation: [(key, [acc])]

    def feed(self, i, t):
        """give t to operator i: what comes out of the end of the chain, or None"""
        if i == len(self.ops):
            return t
        o = self.ops[i]
        if o[0] == 'filter':
            v = evaluate(self.e, self.s, o[1], t.vals)
            if v is None:
                return None
            if v[0] == spec.ANY:
                raise Open()
            if not self.e.branch(self.s, v[1]):
                return None
            return self.feed(i + 1, t)
        if o[0] == 'project':
            return self.feed(i + 1, T([evaluate(self.e, self.s, x, t.vals) for x in o[1]]))
        key = [t.vals[k] for k in o[1]] if o[0] == 'group' else []
        for g in self.held[i]:
            if same_key(self.e, self.s, g[0], key):
                break
        else:
            g = (key, [None] * len(o[-1]))
            self.held[i].append(g)
        for j, a in enumerate(o[-1]):
            g[1][j] = agg_step(self.e, self.s, a, g[1][j], t.vals)
        return None

    def drain(self):
        """everything that comes out when results are fetched until there are none: [T] in chain order, groups in any order"""
        out = []
        for i, o in enumerate(self.ops):
            if o[0] not in ('group', 'all'):
                continue
            held, self.held[i] = self.held[i], []
            for key, accs in held:
                r = self.feed(i + 1, T(list(key) + list(accs)))
                if r is not None:
                    out.append(r)
        return out


def predict(W, ops, script):
    """script: list of ('put', values) | ('drain',) | ('get',): [(state, [expected per step])]; partitions the operands"""
    def f(s):
        m = Model(W.eng, s, ops)
        out, n = [], 0
        for a in script:
            if a[0] == 'put':
                out.append(m.feed(0, T(list(a[1]), n)))
                n += 1
            else:
                out.append(m.drain())
        return out

    def g(s):
        try:
            return f(s)
        except Open:
            return None
    return W.split(W.new(), g)


class Obs:
    """what a returned tuple is: the input it is, or its values"""
    def __init__(self, p, vals):
        self.p, self.vals = p, vals

    def __repr__(self):
        return text(self.vals)


def null(p):
    return isinstance(p, P) and p.o == 0


def read(W, s, p):
    """[(state, Obs)]"""
    return [(t, Obs(p, vs)) for t, vs in W.read_tuple(s, p)]


def play(W, s, code, script, extra_gets=1, decode_more=None):
    """run a script on the relational runner: [(state, stage, payload, inputs)]; stage 'done' has the observations per step"""
    out = []
    s, r = W.rel(s)
    p, res = W.decode(s, r, code, rel=True)
    work = []
    for s, o in res:
        if o[0] != 'ret':
            out.append((s, 'decode', o, None))
            continue
        if isinstance(o[1], P) and o[1].o == p.o and not o[1].off.t and o[1].off.c != len(code):
            out.append((s, 'consumed', o[1].off.c, None))
            continue
        work.append((s, [], []))
    for a in script:
        nxt = []
        for s, seen, ins in work:
            if a[0] == 'put':
                s, t = W.tuple(s, a[1])
                for s2, o in W.call(s, 'vd_rel_put', r, t):
                    if o[0] != 'ret':
                        out.append((s2, 'put', o, ins + [t]))
                        continue
                    q = o[1]
                    if null(q):
                        nxt.append((s2, seen + [None], ins + [t]))
                    elif isinstance(q, P) and not q.off.t and not q.off.c:
                        ob = s2.obj(q.o)
                        if ob is None or not ob.alive:
                            out.append((s2, 'dead', 'the tuple that Put returns has been released', ins + [t]))
                            continue
                        for s3, x in read(W, s2, q):
                            nxt.append((s3, seen + [x], ins + [t]))
                    else:
                        out.append((s2, 'odd', 'Put returns %r' % (q,), ins + [t]))
            else:
                sub_ = [(s, [])]
                for k in range(a[1] + extra_gets):
                    n2 = []
                    for s1, got in sub_:
                        if k >= a[1] and got and got[-1] is None and k > a[1] + extra_gets:
                            n2.append((s1, got))
                            continue
                        for s2, o in W.call(s1, 'vd_rel_get', r):
                            if o[0] != 'ret':
                                out.append((s2, 'get', o, ins))
                                continue
                            q = o[1]
                            if null(q):
                                n2.append((s2, got + [None]))
                            elif isinstance(q, P) and not q.off.t and not q.off.c:
                                ob = s2.obj(q.o)
                                if ob is None or not ob.alive:
                                    out.append((s2, 'dead', 'the tuple that Get returns has been released', ins))
                                    continue
                                for s3, x in read(W, s2, q):
                                    n2.append((s3, got + [x]))
                            else:
                                out.append((s2, 'odd', 'Get returns %r' % (q,), ins))
                    sub_ = n2
                for s1, got in sub_:
                    nxt.append((s1, seen + [got], ins))
        work = nxt
    for s, seen, ins in work:
        out.append((s, 'done', (seen, r), ins))
    return out


def same_values(W, s, got, exp):
    """all results equal: [(state, verdict, text)]"""
    if len(got) != len(exp):
        w = judge.feasible(s)
        return [(s, 'bad' if w else 'und', 'got %s, expected %s for %s' % (text(got), text(exp), w))]
    sts = [(s, 'ok', '')]
    out = []
    for i, (g, x) in enumerate(zip(got, exp)):
        nxt = []
        for t, v, m in sts:
            if isinstance(x, tuple) and x and x[0] == 'any':
                if isinstance(g, tuple) and g and g[0] == 'bad':
                    nxt.append((t,) + judge.outcome_verdict(t, g[1], 'reading a result'))
                else:
                    nxt.append((t, 'ok', ''))
                continue
            nxt += judge.same_value(W, t, g, x)
        out += [(t, v, 'value %d: %s' % (i, m)) for t, v, m in nxt if v != 'ok']
        sts = [(t, v, m) for t, v, m in nxt if v == 'ok']
    return out + sts


def ev(e, v):
    """a concrete value under a valuation"""
    if v is None:
        return None
    if v[0] == 'any' or v[0] == 'bad':
        raise judge.NoEval('open value')
    x = e.any(v[1])
    if isinstance(x, tuple):
        x = x[0]
    if isinstance(x, float) and x != x:
        x = 'nan'
    if isinstance(x, float) and x == 0.0:
        x = 0.0
    return (v[0], x)


def apart(g, x):
    """two values that are certainly different"""
    if (g is None) != (x is None):
        return not (x is not None and x[0] == 'any') and not (g is not None and g[0] == 'bad')
    if g is None or g[0] in ('any', 'bad') or x[0] == 'any':
        return False
    a, b = g[1], x[1]
    if isinstance(a, Int) and isinstance(b, Int):
        return is_const(a) and is_const(b) and a is not b and a.c != b.c
    if isinstance(a, Str) and isinstance(b, Str):
        return a.op == 'lit' and b.op == 'lit' and a is not b
    if isinstance(a, Fl) and isinstance(b, Fl):
        return a.op == 'const' and b.op == 'const' and a.args[0] != b.args[0]
    return False


def matching(got, exp):
    """an order of exp in which constants agree: every got takes the first one left that is not certainly different"""
    left = list(range(len(exp)))
    r = []
    for g in got:
        j = next((j for j in left if len(g) == len(exp[j]) and not any(apart(a, b) for a, b in zip(g, exp[j]))), left[0])
        left.remove(j)
        r.append(j)
    return tuple(r)


def multiset(W, s, got, exp):
    """got and exp: lists of value lists, equal up to order: [(verdict, text)]"""
    if len(got) != len(exp):
        w = judge.feasible(s)
        return [('bad' if w else 'und', '%d results %s, expected %d: %s, for %s' % (len(got), [text(g) for g in got], len(exp), [text(x) for x in exp], w))]
    best = None
    perms = list(itertools.permutations(range(len(exp)))) if len(exp) <= 4 else [matching(got, exp)]
    for pm in perms:
        res = []
        states = [s]
        for i, j in enumerate(pm):
            nxt = []
            for t in states:
                r = same_values(W, t, got[i], exp[j])
                res += [(v, m) for _, v, m in r if v != 'ok']
                nxt += [u for u, v, _ in r if v == 'ok']
            states = nxt
            if res:
                break
        if not res:
            return [('ok', '')]
        if best is None:
            best = res

    def differs(e):
        a = sorted((tuple(ev(e, v) for v in g) for g in got), key=repr)
        b = sorted((tuple(ev(e, v) for v in x) for x in exp), key=repr)
        return a != b
    xs = [v[1] for t in list(got) + list(exp) for v in t if v is not None and v[0] not in ('any', 'bad')]
    w = judge.witness(s, differs, xs)
    if w:
        return [('bad', 'results %s, expected %s up to order, which differ for %s' % ([text(g) for g in got], [text(x) for x in exp], w))]
    return [('und', best[0][1])]


def compare(W, ops, script, identity=True, extra_gets=1, order=False):
    """the runner against the model over a whole script"""
    def f():
        out = []
        for s, exp in predict(W, ops, script):
            sc = []
            if exp is None:
                out.append(('ok', ''))
                continue
            for a, x in zip(script, exp):
                sc.append(a if a[0] == 'put' else ('drain', len(x)))
            for s2, stage, pl, ins in play(W, s, encode_pipe(ops), sc, extra_gets):
                if stage in ('decode', 'put', 'get'):
                    out.append(judge.outcome_verdict(s2, pl, {'decode': 'decoding', 'put': 'putting a tuple', 'get': 'getting a result'}[stage]))
                    continue
                if stage == 'consumed':
                    w = judge.feasible(s2)
                    out.append(('bad' if w else 'und', 'decoding stops after %d bytes' % pl))
                    continue
                if stage == 'dead':
                    w = judge.feasible(s2)
                    out.append(('bad' if w else 'und', '%s for %s' % (pl, w)))
                    continue
                if stage == 'odd':
                    out.append(('und', pl))
                    continue
                seen, r = pl
                n = 0
                res = []
                for k, (a, x, g) in enumerate(zip(script, exp, seen)):
                    if a[0] == 'put':
                        res += judge_put(W, s2, n, ins, x, g, identity)
                        n += 1
                    else:
                        have = [y for y in g if y is not None]
                        # nothing may come after the end
                        late = [i for i in range(len(g) - 1) if g[i] is None and g[i + 1] is not None]
                        if late:
                            w = judge.feasible(s2)
                            res.append(('bad' if w else 'und', 'a result is delivered after the end was reported, for %s' % w))
                        if order and all(len(v.vals) for v in x):
                            if len(have) != len(x):
                                res += multiset(W, s2, [y.vals for y in have], [t.vals for t in x])
                            else:
                                for y, t in zip(have, x):
                                    res += [(v, m) for _, v, m in same_values(W, s2, y.vals, t.vals)]
                        else:
                            res += multiset(W, s2, [y.vals for y in have], [t.vals for t in x])
                out += res or [('ok', '')]
        return out
    return f


def judge_put(W, s, n, ins, x, g, identity=True):
    if x is None and g is None:
        return [('ok', '')]
    if x is None or g is None:
        w = judge.feasible(s)
        return [('bad' if w else 'und', 'putting tuple %d gives %s, expected %s, for %s' % (n, g if g is not None else 'nothing', x if x is not None else 'nothing', w))]
    if identity and x.src is not None and g.p != ins[x.src]:
        w = judge.feasible(s)
        return [('bad' if w else 'und', 'putting tuple %d gives another tuple instead of the given one for %s' % (n, w))]
    if identity and x.src is None and any(g.p == t for t in ins):
        w = judge.feasible(s)
        return [('bad' if w else 'und', 'putting tuple %d gives the given tuple instead of a new one for %s' % (n, w))]
    return [(v, 'putting tuple %d: %s' % (n, m)) for _, v, m in same_values(W, s, g.vals, x.vals)]


# ---- columns
def cols(W, types, tag, nulls=()):
    return [None if i in nulls else W.sym(t, '%s%d' % (tag, i)) for i, t in enumerate(types)]
