"""Vectors that are read, and their slices (see specs/View.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import base64
import operator
from drv import *
from graph import *


class Own:
    pass


OTHER = [b'x', 1j, Own(), Own, Ellipsis, range(3), iter(())]


def tree(v):
    t = type(v)
    if t is VT:
        return {'k': 'seq', 'xs': [tree(x) for x in v]}
    if t in (ST, MT):
        return {'k': 'con'}
    if t is bool:
        return {'k': 'bool', 'v': int(v)}
    if t is int:
        return {'k': 'int', 'w': wint(v)}
    if t is float:
        return {'k': 'flt', 'f': unf32(v)}
    if v is None:
        return {'k': 'none'}
    if t is str:
        return {'k': 'str', 'c': [ord(c) for c in v]}
    if t is BV:
        return {'k': 'bits', 'b': [int(x) for x in v]}
    raise AssertionError(t)


def untree(a, how=0):
    k = a['k']
    if k == 'seq':
        xs = [untree(x, how) for x in a['xs']]
        if how == 2 and all(type(x) is float for x in xs):
            return PV('f', sequence=xs)
        if how == 2 and all(type(x) is int and 0 <= x < 1 << 64 for x in xs):
            return PV('u64', sequence=xs)
        if how == 3:
            return pointless.Pointless(pointless.serialize_to_bytearray(xs)).GetRoot()
        return tuple(xs) if how else xs
    if k == 'con':
        return {1: 2} if how else {3}
    return {'int': lambda: unwint(a['w']), 'flt': lambda: f32(a['f']), 'bool': lambda: bool(a['v']), 'none': lambda: None,
            'str': lambda: ''.join(map(chr, a['c'])), 'bits': lambda: BV(sequence=[bool(x) for x in a['b']])}[k]()


def empty(w):
    try:
        memoryview(w)
        return 'e'
    except BufferError:
        return 'v'


def bad(v, k):
    k %= 12
    if k == 0:
        return v['x']
    if k == 1:
        return v[1.0]
    if k == 2:
        return v[None]
    if k == 3:
        return v[1 << 70]
    if k == 4:
        return v['a':'b']
    if k == 5:
        return v[0, 1]
    if k == 6:
        return v[-(1 << 70)]
    if k == 7:
        return v[1.0:2.0]
    if k == 8:
        return v[::0]
    if k == 9:
        return v.bisect_left()
    if k == 10:
        return v.bisect_left('x')
    if k == 11:
        return v.bisect_left(1.0)


def run_case(case):
    views, iters = {}, {}
    emit({'op': 'reset'})
    for e in case['ops']:
        op = e['op']
        v = views.get(e.get('id'))
        r = None
        out = {k: x for k, x in e.items() if k != 'file'}
        try:
            if op == 'open':
                if e['as'] == 'img':
                    p = pointless.Pointless(bytearray(base64.b64decode(e['file']))).GetRoot()
                    views[e['id']] = p
                else:
                    o = [untree(x) for x in e['xs']]
                    if e['as'] == 'prim':
                        o = PV(e['pt'], sequence=o)
                    w = e.get('where', 0)
                    o = [o, [None, o, 'x'], {'k': o}, [o, {1: [o]}]][w]
                    p = pointless.Pointless(pointless.serialize_to_bytearray(o)).GetRoot()
                    views[e['id']] = [lambda: p, lambda: p[1], lambda: p['k'], lambda: p[1][1][0]][w]()
                    o = None
                p = None
                w = views[e['id']]
                out['t'] = empty(w) if len(w) == 0 else typecode(w)
            elif op == 'slice':
                lo, hi = [x[0] if x else None for x in (e['lo'], e['hi'])]
                if e['step'] != 1:
                    views[e['dst']] = v[lo:hi:e['step']]
                elif e.get('how'):
                    views[e['dst']] = v[lo:hi:1]
                else:
                    views[e['dst']] = v[lo:hi]
            elif op == 'drop':
                del views[e['id']]
                v = None
            elif op == 'len':
                r = len(v)
            elif op == 'get':
                r = tree(v[e['i']])
            elif op == 'list':
                r = [tree(x) for x in ([*v] if e.get('how') else [v[i] for i in range(len(v))])]
            elif op == 'reversed':
                r = [tree(x) for x in reversed(v)]
            elif op == 'set':
                v[0] = 1
            elif op == 'del':
                del v[0]
            elif op == 'badkey':
                bad(v, e.get('how', 0))
            elif op == 'hash':
                hash(v)
            elif op == 'add':
                r = v + v
            elif op == 'bufwrite':
                m = memoryview(v)
                assert m.readonly
                m[0] = 0
            elif op == 'contains':
                r = (untree(e['x'][0], e.get('how', 0)) if e['x'] else OTHER[e.get('how', 0) % len(OTHER)]) in v
                assert type(r) is bool
            elif op == 'rel':
                r = getattr(operator, e['rel'])(v, views[e['src']])
                assert type(r) is bool
            elif op == 'foreign':
                x = [7, 'x', None, list(v), tuple(v), PV('u8')][e.get('how', 0)]
                r = getattr(operator, e['rel'])(v, x) if not e.get('swap') else getattr(operator, e['rel'])(x, v)
            elif op == 'typecode':
                r = v.typecode
            elif op in ('min', 'max'):
                r = tree(getattr(v, op)())
            elif op == 'range':
                r = v.range()
                assert type(r) is tuple and len(r) == 2
                r = [tree(x) for x in r]
            elif op == 'bisect':
                r = v.bisect_left(unwint(e['x']) if e['x'] else [1 << 64, 'x', 1.0, None, -1 << 64][e.get('how', 0) % 5])
            elif op == 'buffer':
                m = memoryview(v)
                r = list(m.tobytes())
                assert m.nbytes == len(r) and list(m.cast('B')) == r
            elif op == 'iter':
                iters[e['it']] = reversed(v) if e['rev'] else iter(v)
            elif op == 'next':
                x = next(iters[e['it']], iters)
                r = [] if x is iters else [tree(x)]
            else:
                raise AssertionError(op)
            res = {'k': 'ok', 'v': [] if r is None else r}
        except AssertionError:
            raise
        except Exception as x:
            res = {'k': 'exc', 'e': type(x).__name__}
            x.__traceback__ = None
        out['res'] = res
        out['post'] = {i: [tree(x) for x in w] for i, w in views.items()} or []
        out['ids'] = {i: w.container_id for i, w in views.items()} or []
        emit(out)


loop(run_case)
