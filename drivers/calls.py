"""Sequences of serializer calls, with what they do to the world around them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ctypes
import gc
import zlib
from drv import *
from graph import *

libc = ctypes.CDLL(None)
try:
    _alloc = libc.__sanitizer_get_current_allocated_bytes
    _alloc.restype = ctypes.c_size_t
except AttributeError:
    _alloc = None
try:
    libc.fault_arm.argtypes = [ctypes.c_long]
    libc.fault_hits.restype = libc.fault_count.restype = ctypes.c_long
    FAULT = True
except AttributeError:
    FAULT = False


def crc(b):
    c = zlib.crc32(b)
    return [c >> 16, c & 0xffff]


def listing():
    out = []
    for n in sorted(os.listdir('.')):
        if n == 'stderr':
            continue
        b = open(n, 'rb').read()
        out.append([n, len(b)] + crc(b))
    return out


def snapshot(memo):
    out = []
    for i in sorted(memo):
        o = memo[i]
        t = type(o)
        if t in (list, tuple):
            c = [id(x) for x in o]
        elif t is dict:
            c = [(id(k), id(v)) for k, v in o.items()]
        elif t in (set, frozenset):
            c = [id(x) for x in o]
        elif t in (PV, bytearray, BV):
            c = list(o)
        else:
            c = repr(o) if t in (int, float, str, bool, bytes) else None
        out.append((i, id(o), t.__name__, c))
    return crc(repr(out).encode('utf8', 'backslashreplace'))


def refs(memo):
    gc.collect(0)
    return [sys.getrefcount(memo[i]) for i in sorted(memo)]


GOOD = [1, 'abc', {2: [3.5, None]}, {7, 'x'}, BV(sequence=[True, False])]


def reference():
    return crc(pointless.serialize_to_bytearray(GOOD))


def call(obj, c):
    kw = {}
    if 'unwiden' in c:
        kw['unwiden_strings'] = c['unwiden']
    if 'normalize' in c:
        kw['normalize_bitvector'] = c['normalize']
    try:
        if c['how'] == 'file':
            r = pointless.serialize(obj, c['name'], **kw)
            if r is not None:
                return 'result', None
            return 'ok', open(c['name'], 'rb').read()
        if c['how'] == 'ba':
            return 'ok', bytes(pointless.serialize_to_bytearray(obj, **kw))
        return 'ok', bytes(memoryview(pointless.serialize_to_buffer(obj, **kw)))
    except (ValueError, OSError, MemoryError, TypeError, OverflowError) as x:
        x.__traceback__ = None
        return 'exc', None


def wanted(obj, c):
    """What the same call gives when it goes to memory and no allocation fails."""
    res, out = call(obj, dict(c, how='ba'))
    return ([len(out)] + crc(out)) if out is not None else []


def nest(kinds, n):
    """n containers around None"""
    x = None
    for i in range(n):
        k = kinds[i % len(kinds)]
        x = [x] if k == 'l' else (x,) if k == 't' else {1: x} if k == 'm' else {0: 1, 5: x, 'a': 0}
    return x


def run_case(case):
    for n in os.listdir('.'):
        if n != 'stderr':
            os.unlink(n)
    for n, b in case.get('files', []):
        with open(n, 'wb') as f:
            f.write(bytes(b))
    emit({'op': 'reset', 'dir': listing()})
    for c in case['calls']:
        if 'nest' in c:
            obj, memo = nest(c['nest'], c['n']), {}
            memo = {1: obj}
        else:
            obj, memo = build(c['g'])
        fail = c.get('fail', 0)
        ref1 = reference()
        want = wanted(obj, c)
        dir1, refs1, arg1 = listing(), refs(memo), snapshot(memo)
        if fail and FAULT:
            libc.fault_arm(fail)
        res, out = call(obj, c)
        hit = 0
        if fail and FAULT:
            hit = libc.fault_hits()
            libc.fault_arm(0)
        dir2, refs2, arg2 = listing(), refs(memo), snapshot(memo)
        ref2 = reference()
        grow = 0
        if _alloc is not None and case.get('heap', 1):
            def again(k):
                for _ in range(k):
                    if fail and FAULT:
                        libc.fault_arm(fail)
                    call(obj, c)
                    if fail and FAULT:
                        libc.fault_arm(0)
            again(2)
            for _ in range(4):
                gc.collect()
                a = _alloc()
                again(3)
                gc.collect()
                grow = max(0, min(_alloc() - a, 1 << 30))
                if grow == 0:
                    break
        ev = {'op': 'call', 'how': c['how'], 'name': c.get('name', ''), 'res': res, 'fail': int(hit > 0), 'dir1': dir1, 'dir2': dir2, 'refs1': refs1, 'refs2': refs2,
              'arg1': arg1, 'arg2': arg2, 'ref1': ref1, 'ref2': ref2, 'grow': grow, 'out': ([len(out)] + crc(out)) if out is not None else [], 'want': want}
        if 'nest' in c:
            ev['nest'] = [1 if k in 'mM' else 0 for k in (c['nest'] * (c['n'] // len(c['nest']) + 1))[:c['n']]]
            ev['g'] = {'n': [], 'r': 0}
        else:
            ev['nest'] = []
            ev['g'] = c['g']
        emit(ev)
        del obj, memo


loop(run_case)
