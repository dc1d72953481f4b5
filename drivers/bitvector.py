import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import base64
import operator
from drv import *
import pointless
BV = pointless.PointlessBitvector


class Own:
    pass


def obj(a):
    if a['k'] == 'b':
        return bool(a['n'])
    if a['k'] == 'i':
        return a['n']
    return [None, 'x', 1.0, 0.0, Own(), [], 1 << 70, -(1 << 70), b'', 1j][a.get('o', 0)]


def wrong_seq(k):
    def it():
        yield True
        if k == 0:
            raise KeyError('in the middle')
        yield 1
        yield 2
    return it()


def make(e, make=BV):
    kw = {} if e['show'] else {'allow_print': False}
    how = e['how']
    if how == 'none':
        return make(**kw)
    if how == 'size':
        return make(e['n'], **kw) if e.get('pos') else make(size=e['n'], **kw)
    if how == 'seq':
        xs = [obj(a) for a in e['xs']]
        f = [list, tuple, iter, lambda x: (y for y in x)][e.get('as', 0)]
        return make(sequence=f(xs), **kw)
    b = e.get('bad', 0)
    if b == 0:
        return make(size=1, sequence=[True], **kw)
    if b == 1:
        return make(size=1 << 32, **kw)
    if b == 2:
        return make(size=-1, **kw)
    if b == 3:
        return make(size=1 << 64, **kw)
    if b == 4:
        return make(size=1.0, **kw)
    if b == 5:
        return make(sequence=7, **kw)
    if b == 6:
        return make(sequence=wrong_seq(0), **kw)
    if b == 7:
        return make(sequence=wrong_seq(1), **kw)
    if b == 8:
        return make(1, None, 3)
    if b == 9:
        return make(other=3)
    if b == 10:
        return make(size='1')
    raise AssertionError(b)


def huge():
    out = []

    def do(f):
        try:
            r = f()
            out.append('ok' if r is None else str(int(r)))
        except AssertionError:
            raise
        except Exception:
            out.append('exc')
    v = BV(size=(1 << 32) - 1)
    do(lambda: len(v))
    do(lambda: v.append(True))
    do(lambda: v.extend_true(2))
    do(lambda: v.append_bulk(BV(sequence=[True])))
    do(lambda: len(v))
    do(lambda: v[-1])
    v[(1 << 32) - 2] = True
    do(lambda: v[-1])
    do(lambda: v.pop())
    do(lambda: len(v))
    do(lambda: v.append(False))
    do(lambda: v.append(False))
    do(lambda: len(v))
    return out


def bad(v, k):
    k %= 16
    if k == 0:
        return v['x']
    if k == 1:
        return v[1.0]
    if k == 2:
        return v[None]
    if k == 3:
        return v[1 << 70]
    if k == 4:
        v['x'] = True
        return
    if k == 5:
        return v[0:1]
    if k == 6:
        return v.append(1)
    if k == 7:
        return v.append()
    if k == 8:
        return v.append_bulk([True])
    if k == 9:
        return v.extend_true('x')
    if k == 10:
        return v.extend_false(1 << 40)
    if k == 11:
        return v.extend_true(-(1 << 40))
    if k == 12:
        return v.append(True, True)
    if k == 13:
        v[1 << 40] = True
        return
    if k == 14:
        return v.extend_true(1.5)
    if k == 15:
        return type(iter(v))(v)


def run_case(case):
    bvs, iters = {}, {}
    emit({'op': 'reset'})
    for e in case['ops']:
        op = e['op']
        if op == 'huge':
            emit({'op': 'huge', 'res': huge()})
            continue
        v = bvs.get(e.get('id'))
        r = None
        try:
            if op == 'new':
                bvs[e['id']] = make(e)
            elif op == 'reinit':
                make(e, v.__init__)
            elif op == 'drop':
                del bvs[e['id']]
                v = None
            elif op == 'copy':
                bvs[e['dst']] = v.copy()
            elif op == 'store':
                how = e.get('how', 0)
                o = v if how == 0 else [v] if how == 1 else {'k': v} if how == 2 else [v, v]
                p = pointless.Pointless(pointless.serialize_to_bytearray(o, normalize_bitvector=e['norm'])).GetRoot()
                bvs[e['dst']] = p if how == 0 else p[0] if how == 1 else p['k'] if how == 2 else p[1]
                p = o = None
            elif op == 'load':
                bvs[e['dst']] = pointless.Pointless(bytearray(base64.b64decode(e['file']))).GetRoot()
            elif op == 'append':
                r = v.append(obj(e['x']))
            elif op == 'extend':
                r = (v.extend_true if e['bit'] else v.extend_false)(e['n'])
            elif op == 'append_bulk':
                r = v.append_bulk(bvs[e['src']])
            elif op == 'pop':
                r = v.pop()
                assert type(r) is bool
                r = int(r)
            elif op == 'set':
                v[e['i']] = obj(e['x'])
            elif op == 'get':
                r = v[e['i']]
                assert type(r) is bool
                r = int(r)
            elif op == 'del':
                del v[0]
            elif op == 'badarg':
                bad(v, e.get('how', 0))
            elif op == 'len':
                r = len(v)
            elif op in ('zpre', 'opre', 'zpost', 'opost', 'any'):
                r = {'zpre': v.NumZeroPrefix, 'opre': v.NumOnePrefix, 'zpost': v.NumZeroPostfix, 'opost': v.NumOnePostfix, 'any': v.IsAnySet}[op]()
            elif op == 'text':
                s = repr(v) if e.get('how') else str(v)
                r = 'hidden' if s.startswith('<') else [ord(c) for c in s]
            elif op == 'rel':
                r = getattr(operator, e['rel'])(v, bvs[e['src']])
                assert type(r) is bool
            elif op == 'foreign':
                x = [7, 'x', [], None, [True], pointless.PointlessPrimVector('u8')][e.get('how', 0)]
                r = getattr(operator, e['rel'])(v, x) if not e.get('swap') else getattr(operator, e['rel'])(x, v)
            elif op == 'hash':
                r = {i: str(hash(w)) for i, w in bvs.items()}
            elif op == 'iter':
                iters[e['it']] = iter(v)
            elif op == 'next':
                x = next(iters[e['it']], None)
                r = [] if x is None else [int(x)]
            else:
                raise AssertionError(op)
            res = {'k': 'ok', 'v': [] if r is None else r}
        except AssertionError:
            raise
        except Exception as x:
            res = {'k': 'exc', 'e': type(x).__name__}
            x.__traceback__ = None
        out = {k: x for k, x in e.items() if k != 'file'}
        out['res'] = res
        out['post'] = {i: [int(x) for x in w] for i, w in bvs.items()} or []
        emit(out)


loop(run_case)
