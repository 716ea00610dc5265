"""The documented encoding of expressions and relational operators, as a reference parser over concrete bytes."""
import spec

TABLE = {tuple(o.code): o for o in spec.OPS}
FIRST2 = {c[0] for c in TABLE if len(c) == 2}
ONE = {c[0] for c in TABLE if len(c) == 1}
NULLS = {t: 1 for t in (1, 2, 3, 4, 5, 7)}


def varint(b, i):
    """(value of 64 bits, position after), or None when the bytes end within it"""
    v, s = 0, 0
    while i < len(b):
        v |= (b[i] & 0x7f) << s
        s += 7
        i += 1
        if not b[i - 1] & 0x80:
            return v & ((1 << 64) - 1), i
    return None


def imm(b, i, t):
    """position after the immediate of a constant, None when truncated"""
    if t in (1, 2):
        r = varint(b, i)
        return None if r is None else r[1]
    if t == 3:
        return i
    if t in (4, 5):
        n = 4 if t == 4 else 8
        return i + n if i + n <= len(b) else None
    r = varint(b, i)
    if r is None:
        return None
    n = r[0] & 0xffffffff
    return r[1] + n if r[1] + n <= len(b) else None


def step(b, i):
    """one operator at position i: ('op', next, steps) | ('eoe', next) | ('bad',) | ('trunc',); steps: number of evaluation steps,
    None where the encoding leaves the code open"""
    x = b[i]
    if x == 0:
        return ('eoe', i + 1)
    hi, t = x >> 4, x & 15
    if hi == 0:
        return ('op', i + 1, 1) if t in NULLS else ('bad',)
    if hi == 1:
        if t not in NULLS:
            return ('bad',)
        j = imm(b, i + 1, t)
        return ('trunc',) if j is None else ('op', j, 1)
    if hi == 2:
        if t not in (1, 2, 3):
            return ('bad',)
        j = imm(b, i + 1, t)
        return ('trunc',) if j is None else ('op', j, 1)
    if hi == 3:
        if not 1 <= t <= 7:
            return ('bad',)
        r = varint(b, i + 1)
        if t == 6:
            return ('trunc',) if r is None else ('op', r[1], None)
        return ('trunc',) if r is None else ('op', r[1], 1)
    if x in ONE:
        return ('op', i + 1, 1)
    if x in FIRST2:
        if i + 1 >= len(b):
            return ('trunc',)
        y = b[i + 1]
        if (x, y) in TABLE:
            return ('op', i + 2, 1)
        if x in (0xF0, 0xFC) and y >> 4 == y & 15:
            if 1 <= y >> 4 <= 7 and y >> 4 != 6:
                return ('op', i + 2, 0)
            if y >> 4 in (0, 6):
                return ('op', i + 2, None)
        return ('bad',)
    return ('bad',)


def parse(b):
    """('ok', consumed, steps) | ('bad',) | ('trunc',); steps None: the encoding leaves it open, and rejection is as good"""
    i, n = 0, 0
    while i < len(b):
        r = step(b, i)
        if r[0] == 'eoe':
            return ('ok', r[1], n)
        if r[0] in ('bad', 'trunc'):
            return r + (n is None,)
        i = r[1]
        n = None if n is None or r[2] is None else n + r[2]
    return ('ok', i, n)


AGGS = {0x10} | {0x10 | t for t in (1, 2, 3, 4, 5, 7)} | {0x20 | t for t in (1, 2, 4, 5)} | {h | t for h in (0x30, 0x40) for t in (1, 2, 4, 5, 7)}


def aggregations(b, i):
    """a counted sequence of aggregations at i: ('op', next) | ('bad',) | ('trunc',)"""
    r = varint(b, i)
    if r is None:
        return ('trunc',)
    n, i = r
    while n:
        if i >= len(b):
            return ('trunc',)
        if b[i] not in AGGS:
            return ('bad',)
        if b[i] == 0x10:
            i += 1
        else:
            r = varint(b, i + 1)
            if r is None:
                return ('trunc',)
            i = r[1]
        n -= 1
    return ('op', i)


def rel_parse(b):
    """relational operators: ('ok', consumed, operators) | ('bad', open) | ('trunc', open)"""
    i, n, free = 0, 0, False
    while i < len(b):
        x = b[i]
        i += 1
        if x in (0x71, 0x72):
            while i < len(b):
                r = step(b, i)
                if r[0] in ('bad', 'trunc'):
                    return (r[0], free)
                i = r[1]
                if r[0] == 'eoe':
                    break
                free = free or r[2] is None
        elif x == 0x73:
            if i >= len(b):
                return ('trunc', free)
            if b[i] != 0x61:
                return ('bad', free)
            r = varint(b, i + 1)
            if r is None:
                return ('trunc', free)
            k, i = r
            while k:
                r = varint(b, i)
                if r is None:
                    return ('trunc', free)
                i = r[1]
                k -= 1
            r = aggregations(b, i)
            if r[0] != 'op':
                return (r[0], free)
            i = r[1]
        elif x == 0x74:
            r = aggregations(b, i)
            if r[0] != 'op':
                return (r[0], free)
            i = r[1]
        else:
            return ('bad', free)
        n += 1
    return ('ok', i, None if free else n)
