import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import gc
import struct
from drv import *
import pointless
PV = pointless.PointlessPrimVector
V = type(pointless.Pointless(pointless.serialize_to_bytearray([1])).GetRoot())


def obj(a):
    k = a['k']
    if k == 'i':
        return unwint(a['w'])
    if k == 'f':
        return unf64(a['d'])
    if k == 'big':
        return a['sign'] * (1 << 64) + a['sign']
    return {'str': 'x', 'none': None, 'list': [], 'obj': object()}[a['o']]


def item(t, x):
    if t == 'f':
        assert type(x) is float
        b = struct.unpack('<I', struct.pack('<f', x))[0]
        return [b >> 16, b & 0xffff]
    assert type(x) is int
    return wint(x)


def step(e, vecs, bufs, iters):
    """Does one operation, returns its result."""
    op = e['op']
    v = vecs.get(e.get('id'))
    t = v.typecode if v is not None else 'i8'
    r = []
    if op == 'new':
        xs = [obj(a) for a in e['xs']]
        how = e.get('how', 0)
        vecs[e['id']] = PV(e['t'], sequence=xs if how == 0 else tuple(xs) if how == 1 else iter(xs)) if xs or how else PV(e['t'])
    elif op == 'reinit':
        v.__init__(e['t'], sequence=[obj(a) for a in e['xs']])
    elif op == 'load':
        b = bytes(e['b'])
        vecs[e['id']] = PV(buffer=b if e.get('how', 0) == 0 else bytearray(b) if e['how'] == 1 else memoryview(b))
    elif op == 'drop':
        del vecs[e['id']]
        v = None
    elif op == 'append':
        r = v.append(obj(e['x']))
    elif op == 'append_bulk':
        xs = [obj(a) for a in e['xs']]
        how = e.get('how', 0)
        if how == 1:
            xs = iter(xs)
        elif how == 2 and xs:
            try:   # a view of a file with the same values
                w = pointless.Pointless(pointless.serialize_to_bytearray([0] + xs + [0] if isinstance(xs[0], int) else [0.0] + xs + [0.0])).GetRoot()
                xs = w[1:-1]
            except Exception:
                pass
        elif how == 3:
            try:   # a view of a prim-vector which was written to a file
                w = pointless.Pointless(pointless.serialize_to_bytearray([PV(t, sequence=xs), 1])).GetRoot()
                xs = w[0]
            except Exception:
                pass
        r = v.append_bulk(xs)
    elif op == 'append_vec':
        r = v.append_bulk(vecs[e['src']])
    elif op == 'pop':
        r = item(t, v.pop())
    elif op == 'pop_bulk':
        r = v.pop_bulk(e['n'])
    elif op == 'clear':
        r = v.clear()
    elif op == 'index':
        r = v.index(obj(e['x']))
        assert type(r) is int
    elif op == 'contains':
        r = obj(e['x']) in v
    elif op == 'remove':
        r = v.remove(obj(e['x']))
    elif op == 'fast_remove':
        r = v.fast_remove(obj(e['x']))
    elif op == 'get':
        r = item(t, v[e['i']])
    elif op == 'set':
        v[e['i']] = obj(e['x'])
    elif op == 'del':
        del v[e['i']]
    elif op == 'badkey':
        h = e['how']
        if h == 0:
            r = v['a']
        elif h == 1:
            v['a'] = 1
        elif h == 2:
            v[0:1] = [1]
        elif h == 3:
            r = v[1.5]
        elif h == 4:
            r = v[1 << 70]
        elif h == 5:
            v[1 << 70] = 1
        elif h == 6:
            del v[0:1]
        elif h == 7:
            v.append()
        elif h == 8:
            v.pop_bulk('a')
        elif h == 9:
            v.append_bulk(5)
        r = 'no exception'
    elif op == 'slice':
        lo = e['lo'][0] if e['lo'] else None
        hi = e['hi'][0] if e['hi'] else None
        vecs[e['dst']] = v[lo:hi] if e['step'] == 1 and e.get('how', 0) == 0 else v[lo:hi:e['step']]
    elif op == 'len':
        r = len(v)
    elif op == 'typecode':
        r = v.typecode
    elif op == 'reversed':
        r = [item(t, x) for x in reversed(v)]
    elif op == 'max':
        r = item(t, v.max())
    elif op == 'min':
        r = item(t, v.min())
    elif op == 'range':
        r = [item(t, x) for x in v.range()]
    elif op == 'sort':
        r = v.sort()
    elif op == 'serialize':
        r = list(v.serialize())
    elif op == 'remap':
        vecs[e['dst']] = PV.FromRemap(vecs[e['src']], v)
    elif op == 'export':
        bufs[e['buf']] = memoryview(v)
        r = bufs[e['buf']].nbytes
    elif op == 'release':
        bufs.pop(e['buf']).release()
    elif op == 'bread':
        r = list(bytes(bufs[e['buf']]))
    elif op == 'bwrite':
        bufs[e['buf']].cast('B')[e['at']] = e['byte']
    elif op == 'iter':
        iters[e['it']] = iter(v)
    elif op == 'next':
        x = next(iters[e['it']], None)
        r = [] if x is None else [item('f' if type(x) is float else 'i8', x)]
    else:
        raise AssertionError(op)
    return r


def attempt(f, e, *args):
    try:
        r = f(e, *args)
        return {'k': 'ok', 'v': [] if r is None else r}
    except AssertionError:
        raise
    except Exception as x:
        x.__traceback__ = None
        return {'k': 'exc', 'e': type(x).__name__}


def items(w):
    xs = [item(w.typecode, x) for x in w]
    if w.typecode == 'f':
        # Python may change the bits of a NaN; take them as they are
        bits = struct.unpack('<%dI' % len(xs), bytes(w.serialize())[8:8 + 4 * len(xs)])
        xs = [[b >> 16, b & 0xffff] if x != x else y for x, y, b in zip(w, xs, bits)]
    return xs


def contents(vecs):
    return {i: {'t': w.typecode, 'xs': items(w)} for i, w in vecs.items()} or []


def run_case(case):
    vecs, bufs, iters = {}, {}, {}
    emit({'op': 'reset'})
    for e in case['ops']:
        if e['op'] == 'drop?':
            if e['id'] not in vecs:
                continue
            e = dict(e, op='drop')
        out = dict(e)
        out['res'] = attempt(step, e, vecs, bufs, iters)
        out['post'] = contents(vecs)
        emit(out)


if __name__ == '__main__':
    loop(run_case)
