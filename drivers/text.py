"""Texts of values read from files, of primitive vectors and bitvectors, and of objects not to be printed."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import base64
import random
import gen
from drv import *
from graph import *

LIMIT = 3000
EXC = (ValueError, OSError, OverflowError, TypeError, UnicodeError, RecursionError)


def cs(s):
    return [ord(c) for c in s]


def text(v):
    """str() and repr()"""
    try:
        s = str(v)
    except EXC as x:
        x.__traceback__ = None
        try:
            repr(v)
        except EXC as y:
            y.__traceback__ = None
            return 'exc', '', True
        return 'exc', '', False
    r = repr(v)
    return 'ok', s, s == r == '%s' % (v,) == format(v) and str(v) == s


def measure(H, i, on, left):
    """at least how many items the text of node i has, up to a limit"""
    a = H['n'][i - 1]
    if i in on or left < 0:
        return 1
    n = 1 + len(a.get('xs', ())) + len(a.get('c', ())) + len(a.get('b', ())) // 4
    for c in list(a.get('ch', ())) + list(a.get('ks', ())) + list(a.get('vs', ())):
        n += measure(H, c, on | {i}, left - n)
        if n > left:
            break
    return n


def of_file(b, seed, np_seen):
    rng = random.Random(seed)
    p = pointless.Pointless(b)
    objs = {}
    H = observe(p.GetRoot(), objs)
    chars = sorted({c for a in H['n'] if a['k'] == 'str' for c in a['c'] if c >= 128})
    emit({'op': 'file', 'h': H, 'np': [c for c in chars if not chr(c).isprintable()]})
    todo = []
    for i, v in sorted(objs.items()):
        if type(v) not in (VT, ST, MT, BV) or H['n'][i - 1].get('n'):
            continue
        if measure(H, i, frozenset(), LIMIT // 4) > LIMIT // 4:
            continue
        todo.append((i, v, None))
        if type(v) is VT:
            for _ in range(2):
                lo = rng.randint(0, len(v))
                hi = rng.randint(lo, len(v))
                todo.append((i, v[lo:hi] if rng.random() < 0.5 else v[:hi][lo:], (lo, hi)))
        if type(v) is BV:
            todo.append((i, v.copy(), None))
    if len(todo) > 16:
        todo = todo[:1] + rng.sample(todo[1:], 15)
    shown = 0
    for i, v, part in todo:
        r, s, same_ = text(v)
        if len(s) > LIMIT:
            continue
        emit({'op': 'text', 'i': i, 'all': part is None, 'lo': part[0] if part else 0, 'hi': part[1] if part else 0, 'res': r, 't': cs(s), 'same': same_})
        shown += 1
    again = observe(p.GetRoot())
    assert repr(again) == repr(H), 'printing has changed what is read'
    # the same file, not to be printed
    q = pointless.Pointless(b, allow_print=False)
    hide = {}
    observe(q.GetRoot(), hide)
    vs = [v for _, v in sorted(hide.items()) if type(v) in (VT, ST, MT, BV)]
    for v in rng.sample(vs, min(len(vs), 4)):
        hidden(v)
        if type(v) is VT:
            hidden(v[rng.randint(0, len(v)):])
            hidden(v[:])
        if type(v) is BV:
            hidden(v.copy())
            hidden(v.copy().copy())
    # what is printed does not depend on others
    if todo and shown:
        i, v, part = todo[0]
        r, s, same_ = text(v)
        if len(s) <= LIMIT:
            emit({'op': 'text', 'i': i, 'all': True, 'lo': 0, 'hi': 0, 'res': r, 't': cs(s), 'same': same_})


def hidden(v):
    r, s, same_ = text(v)
    t = type(v)
    emit({'op': 'hidden', 'res': r, 't': cs(s[:LIMIT]), 'same': same_, 'name': cs(t.__module__ + '.' + t.__qualname__ if t.__module__ != 'builtins' else t.__qualname__), 'addr': wint(id(v))})


def of_prim(rng):
    a = gen.rprim(rng)
    if rng.random() < 0.3:
        a['xs'] = a['xs'] * rng.randint(1, 8)
    if a['t'] == 'f' and rng.random() < 0.7:
        a['xs'] = [rfloat(rng) for _ in range(rng.randint(1, 4))]
    pv = prim(a['t'], a['xs'])
    how = rng.randint(0, 5)
    xs = a['xs']
    if how == 1:
        lo = rng.randint(0, len(xs))
        pv, xs = pv[lo:], xs[lo:]
    elif how == 2 and xs:
        pv.pop()
        xs = xs[:-1]
    elif how == 3:
        pv = PV(buffer=pv.serialize())
    elif how == 4:
        pv.append_bulk(list(pv))
        xs = xs + xs
    elif how == 5 and xs:
        ix = [rng.randrange(len(xs)) for _ in range(4)]
        pv, xs = PV.FromRemap(pv, PV('u32', sequence=ix)), [xs[i] for i in ix]
    r, s, same_ = text(pv)
    now = [unf32(x) for x in pv] if a['t'] == 'f' else [wint(x) for x in pv]
    emit({'op': 'prim', 'ty': a['t'], 'xs': xs if a['t'] != 'f' else now, 'res': r, 't': cs(s), 'same': same_ and (a['t'] == 'f' or now == xs)})
    # the same, not to be printed
    pv = PV(a['t'], sequence=[f32(x) for x in a['xs']] if a['t'] == 'f' else [unwint(x) for x in a['xs']], allow_print=False)
    hidden(pv)
    hidden(pv[:])
    hidden(pv[1:][:1])
    if a['xs']:
        hidden(PV.FromRemap(pv, PV('u8', sequence=[0, 0])))
        hidden(PV.FromRemap(pv[:1], PV('u8', sequence=[0, 0])))
        pv.append(pv[0])
        pv.sort()
    pv.clear()
    hidden(pv)
    hidden(PV(buffer=PV('u8', sequence=range(5)).serialize(), allow_print=False))


def rfloat(rng):
    k = rng.randint(0, 5)
    if k == 0:
        return [rng.randint(0, 65535), rng.randint(0, 65535)]
    if k == 1:      # halves of a millionth, as near as can be
        return unf32(rng.choice([-1, 1]) * (rng.randint(0, 2000) + 0.5) / 1e6)
    if k == 2:      # exact ties
        return unf32(rng.choice([-1, 1]) * rng.randint(0, 4000) / 128)
    if k == 3:
        return unf32(rng.choice([-1, 1]) * float(2 ** rng.randint(0, 127)))
    if k == 4:
        return unf32(rng.uniform(-2, 2))
    return unf32(rng.choice([0.0, -0.0, 1e-7, 9.9999995, 0.9999995, 0.99999994, 999999.94, 5e-7, 4.9999997e-7, 3.4e38, float('inf'), float('-inf'), float('nan')]))


def of_bits(rng):
    b = gen.rbits(rng)['b']
    how = rng.randint(0, 5)
    if how == 1:
        b = [0] * len(b)
        v = BV(len(b))
    else:
        v = BV(sequence=[bool(x) for x in b])
    if how == 2:
        v = v.copy()
    elif how == 3:
        v.append(True)
        b = b + [1]
    elif how == 4 and b:
        v.pop()
        b = b[:-1]
    elif how == 5:
        v.extend_false(9)
        b = b + [0] * 9
    r, s, same_ = text(v)
    emit({'op': 'bits', 'b': b, 'res': r, 't': cs(s), 'same': same_ and [int(x) for x in v] == b})
    v = BV(sequence=[bool(x) for x in b], allow_print=False)
    hidden(v)
    hidden(v.copy())
    v.append(True)
    hidden(v)
    hidden(BV(7, allow_print=False).copy().copy())


def wrap(v, k, n):
    for i in range(n):
        c = k[i % len(k)]
        v = [v] if c == 'l' else {1: v} if c == 'm' else (v,)
    return v


def expected(k, n, leaf):
    a, b = [], []
    for i in range(n):
        c = k[i % len(k)]
        a.append('{1: ' if c == 'm' else '[')
        b.append('}' if c == 'm' else ']')
    return ''.join(reversed(a)) + leaf + ''.join(b)


def deep(k, rng):
    """values as deep as can be written, and deeper ones put together from shared parts"""
    n = 1000
    while n:
        try:
            b = pointless.serialize_to_bytearray(wrap('x', k, n))
            break
        except EXC as x:
            x.__traceback__ = None
        n -= 1
    for d in sorted({n, n - 1, n // 2, rng.randint(1, n)}):
        v = pointless.Pointless(pointless.serialize_to_bytearray(wrap('x', k, d))).GetRoot()
        r, s, same_ = text(v)
        emit({'op': 'deep', 'd': d, 'res': r, 'good': s == expected(k, d, "'x'"), 'same': same_})
    # pieces which refer to one another: a path through all of them is longer than any piece
    for m, c in ((2, n - 2), (3, n - 2 - rng.randint(0, 5)), (3, 300), (3, 256), (40, n - 6), (40, 13), (40, 12)):
        c = min(c, n - 2)
        while c % len(k):
            c -= 1
        tops = [[] if k[0] != 'm' else {} for _ in range(m)]

        def chain(v):
            return wrap(v, k, c)
        for i, t in enumerate(tops):
            x = chain(tops[i + 1]) if i + 1 < m else 'x'
            if type(t) is dict:
                t[1] = x
            else:
                t.append(x)
        # reach every top early, so that none is deep when it is first met
        try:
            b = pointless.serialize_to_bytearray(list(reversed(tops)))
        except EXC as x:
            x.__traceback__ = None
            continue
        v = pointless.Pointless(b).GetRoot()[m - 1]
        d = (m - 1) * (c + 1) + 1
        r, s, same_ = text(v)
        o, e = ('{1: ', '}') if k[0] == 'm' else ('[', ']')
        mid = expected(k, c, '\0').split('\0')
        want = (o + mid[0]) * (m - 1) + o + "'x'" + e + (mid[1] + e) * (m - 1)
        emit({'op': 'deep', 'd': d, 'res': r, 'good': s == want, 'same': same_})
        # others can still be printed
        r, s, same_ = text(pointless.Pointless(b).GetRoot()[0])
        emit({'op': 'deep', 'd': 1, 'res': r, 'good': s == o + "'x'" + e, 'same': same_})


def run(case):
    rng = random.Random(case['seed'])
    if 'deep' in case:
        emit({'op': 'file', 'h': {'n': [], 'r': 0}, 'np': []})
        return deep(case['deep'], rng)
    if 'g' in case:
        try:
            b = pointless.serialize_to_bytearray(build(case['g'])[0], **case.get('o', {}))
        except EXC as x:
            x.__traceback__ = None
            b = None
        if b is None:
            b = pointless.serialize_to_bytearray([1])
        elif 'b' in case:
            b = bytearray(base64.b64decode(case['b']))
        of_file(b, case['seed'], None)
    for _ in range(case.get('prims', 0)):
        of_prim(rng)
    for _ in range(case.get('bits', 0)):
        of_bits(rng)


loop(run)
