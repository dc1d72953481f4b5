"""Walks through files, and iteration and printing, by the C library."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import base64
import ctypes
import random
from ctypes import byref, c_int, c_size_t, c_uint32, c_void_p, POINTER
from drv import *
from graph import *

LIB = ctypes.CDLL(os.environ['CLIB'])
EXC = (ValueError, OSError, OverflowError, TypeError, UnicodeError, RecursionError)
IN, PAST, STOP = 0, 1, 2


class Value(ctypes.Structure):
    _pack_ = 1
    _fields_ = [('type', c_uint32), ('data', c_uint32)]


def fn(name, res):
    f = getattr(LIB, name)
    f.restype = res
    return f


CALLBACK = ctypes.CFUNCTYPE(c_uint32, c_void_p, POINTER(Value), c_uint32, c_void_p)
h_open, h_close, h_root = fn('h_open', c_void_p), fn('h_close', None), fn('h_root', None)
h_hashed, h_print, h_free = fn('h_hashed', c_uint32), fn('h_print', c_void_p), fn('h_free', None)
walk, count, number = fn('pointless_walk', None), fn('pointless_n_containers', c_uint32), fn('pointless_container_id', c_uint32)
vec_n, vec_v = fn('pointless_reader_vector_n_items', c_uint32), fn('pointless_reader_vector_value', POINTER(Value))
set_n, map_n = fn('pointless_reader_set_n_items', c_uint32), fn('pointless_reader_map_n_items', c_uint32)
set_b, map_b = fn('pointless_reader_set_n_buckets', c_uint32), fn('pointless_reader_map_n_buckets', c_uint32)
set_iter, map_iter = fn('pointless_reader_set_iter', c_uint32), fn('pointless_reader_map_iter', c_uint32)
PARTS = {17: [fn('pointless_set_%s_vector' % x, POINTER(Value)) for x in ('hash', 'key')],
         18: [fn('pointless_map_%s_vector' % x, POINTER(Value)) for x in ('hash', 'key', 'value')]}
hash32 = fn('pointless_hash_reader_32', c_uint32)


def told(v):
    return [v.type if v.type < 65536 else -1, v.data >> 16, v.data & 0xffff]


def key(v):
    return v.type, v.data


class File:
    def __init__(self, b):
        self.buf = ctypes.create_string_buffer(b, len(b))
        self.p = c_void_p(h_open(self.buf, c_size_t(len(b))))
        assert self.p, 'opened'
        emit({'op': 'file', 'b': list(b)})

    def items(self, v):
        n = vec_n(self.p, byref(v))
        q = vec_v(self.p, byref(v))
        vs = [Value(q[j].type, q[j].data) for j in range(n)]
        emit({'op': 'items', 'v': told(v), 'n': n, 'vs': [told(x) for x in vs]})
        return vs

    def entries(self, v):
        k, w, st = POINTER(Value)(), POINTER(Value)(), c_uint32(0)
        ks, vs = [], []
        if v.type == 17:
            while len(ks) < 5000 and set_iter(self.p, byref(v), byref(k), byref(st)):
                ks.append(Value(k[0].type, k[0].data))
        else:
            while len(ks) < 5000 and map_iter(self.p, byref(v), byref(k), byref(w), byref(st)):
                ks.append(Value(k[0].type, k[0].data))
                vs.append(Value(w[0].type, w[0].data))
        emit({'op': 'entries', 'v': told(v), 'n': (set_n if v.type == 17 else map_n)(self.p, byref(v)), 'buckets': (set_b if v.type == 17 else map_b)(self.p, byref(v)),
              'ks': [told(x) for x in ks], 'vs': [told(x) for x in vs], 'parts': [told(f(self.p, byref(v))[0]) for f in PARTS[v.type]]})
        return ks, vs

    def explore(self):
        """what can be got at: values, and the keys of sets and maps"""
        r = Value()
        h_root(self.p, byref(r))
        todo, seen, keys = [r], {}, {}
        while todo:
            v = todo.pop()
            if key(v) in seen:
                continue
            seen[key(v)] = v
            if v.type in (0, 1):
                todo += self.items(v)
            elif v.type in (17, 18):
                ks, vs = self.entries(v)
                keys[key(v)] = ks
                todo += ks + vs
        self.root, self.vals, self.keys = r, seen, keys

    def hashed(self, v, h):
        out = (Value * 128)()
        n = h_hashed(self.p, byref(v), c_uint32(h), out, c_uint32(64))
        emit({'op': 'hashed', 'v': told(v), 'h': [h >> 16, h & 0xffff], 'es': [[told(out[2 * j]), told(out[2 * j + 1])] for j in range(n)]})

    def walk(self, answer, most):
        emit({'op': 'walk'})
        st = {'n': 0, 'stop': False}

        def cb(p, v, depth, user):
            v = Value(v[0].type, v[0].data)
            st['n'] += 1
            # more calls after an end would go on forever
            a = STOP if st['n'] >= most or st['stop'] else answer(st['n'], v)
            st['stop'] = a == STOP
            if st['n'] < most + 50:
                emit({'op': 'visit', 'v': told(v), 'd': depth, 'act': a})
            return a
        walk(self.p, CALLBACK(cb), None)
        emit({'op': 'walked'})

    def text(self, v, root=False):
        n, ok = c_size_t(0), c_int(0)
        b = c_void_p(h_print(self.p, byref(v), c_int(root), byref(n), byref(ok)))
        t = ctypes.string_at(b.value, n.value)
        h_free(b)
        emit({'op': 'print', 'v': told(v), 'ok': bool(ok.value), 't': list(t)})


def unfolded(F, v, on, left):
    """at least how many values the text of v shows"""
    if left < 0 or key(v) in on:
        return 1
    n = 1
    if v.type in (0, 1):
        c = vec_v(F.p, byref(v))
        kids = [Value(c[j].type, c[j].data) for j in range(vec_n(F.p, byref(v)))]
    elif v.type in (17, 18):
        kids = list(F.kids[key(v)])
    else:
        return 8
    for k in kids:
        n += unfolded(F, k, on | {key(v)}, left - n)
        if n > left:
            break
    return n


def run(case):
    rng = random.Random(case['seed'])
    if 'b' in case:
        b = base64.b64decode(case['b'])
        try:
            pointless.Pointless(bytearray(b))
        except EXC as x:
            x.__traceback__ = None
            emit({'op': 'refused'})
            return
    else:
        try:
            b = bytes(pointless.serialize_to_bytearray(build(case['g'])[0], **case.get('o', {})))
        except EXC as x:
            x.__traceback__ = None
            emit({'op': 'refused'})
            return
    F = File(b)
    emit({'op': 'count', 'n': count(F.p)})
    if 'acts' in case:
        acts = case['acts']
        F.walk(lambda n, v: acts[n - 1] if n <= len(acts) else STOP, len(acts) + 20)
        h_close(F.p)
        return
    F.explore()
    vals = [F.vals[k] for k in sorted(F.vals)]
    for v in vals:
        if v.type in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17, 18, 25, 26):
            emit({'op': 'number', 'v': told(v), 'n': number(F.p, byref(v))})
    for k, ks in sorted(F.keys.items()):
        hs = [hash32(F.p, byref(x)) for x in ks]
        for h in set(rng.sample(hs, min(len(hs), 4)) + [rng.choice(hs) ^ (1 << rng.randint(0, 31)) if hs else 0, rng.choice([0, 1, 2**32 - 1, rng.getrandbits(32)])]):
            F.hashed(F.vals[k], h)
    # each container once
    seen = set()

    def once(n, v):
        if key(v) in seen:
            return PAST
        seen.add(key(v))
        return IN
    F.walk(once, 3000)
    for _ in range(2):
        w = rng.choice([(1, 0, 0), (8, 1, 0), (8, 2, 1), (3, 2, 0)])
        F.walk(lambda n, v: rng.choices((IN, PAST, STOP), w)[0], rng.choice([1, 5, 40, 200]))
    # texts
    F.kids = {}
    for k in F.keys:
        v = F.vals[k]
        x, w, st, r = POINTER(Value)(), POINTER(Value)(), c_uint32(0), []
        if v.type == 17:
            while set_iter(F.p, byref(v), byref(x), byref(st)):
                r.append(Value(x[0].type, x[0].data))
        else:
            while map_iter(F.p, byref(v), byref(x), byref(w), byref(st)):
                r += [Value(x[0].type, x[0].data), Value(w[0].type, w[0].data)]
        F.kids[k] = r
    if unfolded(F, F.root, frozenset(), 400) <= 400:
        F.text(F.root, True)
    for v in rng.sample(vals, min(len(vals), 4)):
        if unfolded(F, v, frozenset(), 300) <= 300:
            F.text(v)
    h_close(F.p)


loop(run)
