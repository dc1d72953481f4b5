"""Sorting (see specs/Sorter.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ctypes
from drv import *
from graph import *

LIB = ctypes.CDLL(os.environ['CLIB'])
CMP = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.POINTER(ctypes.c_int), ctypes.c_void_p)
SWAP = ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_int, ctypes.c_void_p)


def val(t, x):
    return f32(x) if t == 'f' else unwint(x)


def enc(t, x):
    return unf32(x) if t == 'f' else wint(x)


class Other:
    def __len__(self):
        return 2

    def __getitem__(self, i):
        return [1, 2][i]


def vector(v):
    """The object for a value vector, and a way to look at it."""
    t, how = v['t'], v['how']
    if t == 'o':
        return [Other(), [1, 2], (1, 2), 'ab', bytearray(b'ab'), None, range(2), BV(sequence=[1, 0])][how % 8], lambda: v['xs']
    if t == 'v':
        o = pointless.Pointless(pointless.serialize_to_bytearray(['a', None][:2])).GetRoot()
        return o, lambda: v['xs']
    xs = [val(t, x) for x in v['xs']]
    if how == 0:
        o = PV(t, sequence=xs)
    elif how == 1 or (how == 3 and t in ('i64', 'u64')):        # a part of a vector of a file
        pre, post = xs[:2] + xs[:1], xs[-1:]
        o = pointless.Pointless(pointless.serialize_to_bytearray(PV(t, sequence=pre + xs + post))).GetRoot()[len(pre):len(pre) + len(xs)]
    elif how == 2:
        o = pointless.Pointless(pointless.serialize_to_bytearray(PV(t, sequence=xs))).GetRoot()
    else:
        o = pointless.Pointless(pointless.serialize_to_bytearray(xs)).GetRoot()         # its own type
    return o, lambda: [enc(t, x) for x in o]


def res(f):
    try:
        r = f()
        assert r is None
        return {'k': 'ok'}
    except Exception as x:
        return {'k': 'exc', 'e': type(x).__name__}


def csort(e):
    xs = list(e['xs'])
    n = [0]

    def cmp(i, j, c, user):
        n[0] += 1
        if n[0] == e.get('fail'):
            c[0] = e.get('garbage', 0)
            emit({'op': 'cmp', 'i': i, 'j': j, 'c': []})
            return 0
        if not (0 <= i < len(xs) and 0 <= j < len(xs)):
            emit({'op': 'cmp', 'i': i, 'j': j, 'c': [0]})
            os._exit(3)
        r = (xs[i] > xs[j]) - (xs[i] < xs[j])
        if e.get('lies') and (n[0] * 7919 + i * 31 + j) % 97 < e['lies']:
            r = (n[0] * 31 + e['lies']) % 3 - 1
        c[0] = r
        emit({'op': 'cmp', 'i': i, 'j': j, 'c': [r]})
        return 1

    def swap(i, j, user):
        emit({'op': 'swap', 'i': i, 'j': j})
        if not (0 <= i < len(xs) and 0 <= j < len(xs)):
            os._exit(3)
        xs[i], xs[j] = xs[j], xs[i]
    emit({'op': 'begin', 'xs': e['xs']})
    r = LIB.bentley_sort_(len(xs), CMP(cmp), SWAP(swap), None)
    emit({'op': 'end', 'ret': r, 'xs': xs})


def run_case(case):
    emit({'op': 'reset'})
    for e in case['ops']:
        if e['op'] == 'csort':
            csort(e)
        elif e['op'] == 'sort':
            t = e['t']
            v = PV(t, sequence=[val(t, x) for x in e['xs']])
            m = memoryview(v) if e['how'] else None
            r = res(v.sort)
            emit({'op': 'sort', 't': t, 'xs': e['xs'], 'ys': [enc(t, x) for x in v], 'res': r})
            if m is not None:
                m.release()
        else:
            pt = e['pt']
            p = PV(pt, sequence=[val(pt, x) for x in e['p']])
            vs = [vector(v) for v in e['vs']]
            args = [p if v['how'] == 'self' else o for v, (o, _) in zip(e['vs'], vs)] if e['self'] else [o for o, _ in vs]
            r = res(lambda: p.sort_proj(*args))
            emit({'op': 'proj', 'pt': pt, 'p': e['p'], 'q': [enc(pt, x) for x in p], 'self': e['self'], 'res': r,
                  'vs': [{'t': v['t'], 'xs': v['xs']} for v in e['vs']],
                  'vs2': [{'t': v['t'], 'xs': look() if v['how'] != 'self' else v['xs']} for v, (_, look) in zip(e['vs'], vs)]})


loop(run_case)
