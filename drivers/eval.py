"""Lookups and access expressions through the C library."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import base64
import ctypes
import random
import struct
import gen
from ctypes import byref, c_char_p, c_float, c_int32, c_int64, c_size_t, c_uint32, c_uint64, c_void_p, POINTER
from drv import *
from graph import *

LIB = ctypes.CDLL(os.environ['CLIB'])
EXC = (ValueError, OSError, OverflowError, TypeError, UnicodeError, RecursionError)


class Value(ctypes.Structure):
    _pack_ = 1
    _fields_ = [('type', c_uint32), ('data', c_uint32)]


def fn(name, res):
    f = getattr(LIB, name)
    f.restype = res
    return f


h_open, h_close, h_root = fn('h_open', c_void_p), fn('h_close', None), fn('h_root', None)
h_int, h_float, h_bool = fn('h_int', c_int64), fn('h_float', c_float), fn('h_bool', c_uint32)
container_id = fn('pointless_container_id', c_uint32)
vec_n, vec_v = fn('pointless_reader_vector_n_items', c_uint32), fn('pointless_reader_vector_value', POINTER(Value))
bits_n, bits_is = fn('pointless_reader_bitvector_n_bits', c_uint32), fn('pointless_reader_bitvector_is_set', c_uint32)
str8, str32 = fn('pointless_reader_string_value_ascii', c_void_p), fn('pointless_reader_unicode_value_ucs4', c_void_p)
set_n, map_n = fn('pointless_reader_set_n_items', c_uint32), fn('pointless_reader_map_n_items', c_uint32)
set_iter, map_iter = fn('pointless_reader_set_iter', c_uint32), fn('pointless_reader_map_iter', c_uint32)
set_lookup, map_lookup = fn('pointless_reader_set_lookup', None), fn('pointless_reader_map_lookup', None)

VEC = {0: 'v', 1: 'v', 2: 'i8', 3: 'u8', 4: 'i16', 5: 'u16', 6: 'i32', 7: 'u32', 25: 'i64', 26: 'u64', 8: 'f', 9: 'e'}
FMT = {'i8': 'b', 'u8': 'B', 'i16': 'h', 'u16': 'H', 'i32': 'i', 'u32': 'I', 'i64': 'q', 'u64': 'Q', 'f': 'f'}
NOTHING = {'k': 'nothing'}


def items(st, ptr, n):
    b = ctypes.string_at(ptr, n * struct.calcsize('<' + FMT[st])) if n else b''
    xs = struct.unpack('<%d%s' % (n, FMT[st]), b)
    return [unf32(x) for x in xs] if st == 'f' else [wint(x) for x in xs]


def string_at8(q):
    return list(ctypes.string_at(q))


def string_at32(q):
    r = []
    while True:
        c = c_uint32.from_address(q + 4 * len(r)).value
        if not c:
            return r
        r.append(c)


class File:
    def __init__(self, b):
        self.b = bytes(b)
        # exactly these bytes, so that reading beyond them is seen
        self.buf = ctypes.create_string_buffer(self.b, len(self.b))
        self.p = c_void_p(h_open(self.buf, c_size_t(len(self.b))))
        assert self.p, 'opened'
        self.H = observe(pointless.Pointless(bytearray(b)).GetRoot())
        self.vals = {}
        v = Value()
        h_root(self.p, byref(v))
        todo = [(self.H['r'], v)]
        while todo:
            i, v = todo.pop()
            if i in self.vals:
                continue
            self.vals[i] = v
            a = self.H['n'][i - 1]
            if a['k'] == 'vec' and a['st'] == 'e':      # which may have a type all the same
                a['st'] = VEC[v.type]
                if a['st'] == 'v':
                    a['ch'] = []
            if a['k'] == 'vec' and a['st'] == 'v' and a['ch']:
                q = vec_v(self.p, byref(v))
                todo += [(c, Value(q[j].type, q[j].data)) for j, c in enumerate(a['ch'])]
            elif a['k'] == 'set':
                k, st, j = POINTER(Value)(), c_uint32(0), 0
                while set_iter(self.p, byref(v), byref(k), byref(st)):
                    todo.append((a['ch'][j], Value(k[0].type, k[0].data)))
                    j += 1
                assert j == len(a['ch'])
            elif a['k'] == 'map':
                k, q, st, j = POINTER(Value)(), POINTER(Value)(), c_uint32(0), 0
                while map_iter(self.p, byref(v), byref(k), byref(q), byref(st)):
                    todo.append((a['ks'][j], Value(k[0].type, k[0].data)))
                    todo.append((a['vs'][j], Value(q[0].type, q[0].data)))
                    j += 1
                assert j == len(a['ks'])

    def tell(self, v):
        """what a value is"""
        p, t, r = self.p, v.type, byref(v)
        if t in VEC:
            return {'k': 'vec', 'st': VEC[t], 'id': container_id(p, r), 'n': vec_n(p, r), 'ty': t}
        if t == 17:
            return {'k': 'set', 'id': container_id(p, r), 'n': set_n(p, r), 'ty': t}
        if t == 18:
            return {'k': 'map', 'id': container_id(p, r), 'n': map_n(p, r), 'ty': t}
        if 11 <= t <= 16:
            return {'k': 'bits', 'b': [bits_is(p, r, c_uint32(j)) and 1 for j in range(bits_n(p, r))], 'ty': t}
        if t in (20, 21):
            return {'k': 'int', 'w': wint(h_int(r)), 'ty': t}
        if t == 22:
            return {'k': 'flt', 'f': unf32(h_float(r)), 'ty': t}
        if t == 23:
            return {'k': 'bool', 'v': h_bool(r), 'ty': t}
        if t == 24:
            return {'k': 'none', 'ty': t}
        if t == 29:
            return {'k': 'str', 'c': string_at8(str8(p, r)), 'ty': t}
        if t == 10:
            return {'k': 'str', 'c': string_at32(str32(p, r)), 'ty': t}
        return {'k': 'unknown', 'ty': t}

    # expressions
    def eval(self, i, e, args):
        """one expression, with all functions"""
        root = self.vals[i]
        eb = bytes(e)
        cargs = [c_char_p(bytes(a['c'])) if a['k'] == 'str' else {'u32': c_uint32, 'u64': c_uint64, 'i32': c_int32, 'i64': c_int64}[a['t']](unwint(a['w'])) for a in args]

        def call(name, *outs):
            r0 = Value(root.type, root.data)
            ok = fn(name, c_int32)(self.p, byref(r0), *[byref(o) for o in outs], c_char_p(eb), *cargs)
            assert (r0.type, r0.data) == (root.type, root.data), 'the root was changed'
            return ok != 0
        v = Value(99, 99)
        ok = call('pointless_eval_get', v)
        ev = {'op': 'eval', 'i': i, 'e': list(e), 'args': args, 'ok': ok, 'v': self.tell(v) if ok else NOTHING, 'as': []}

        def out(name, ok, what, kept):
            ev['as'].append({'f': name, 'ok': ok, 'v': what if ok else NOTHING, 'kept': ok or kept})
        x = c_uint32(77)
        ok = call('pointless_eval_get_as_u32', x)
        out('u32', ok, {'k': 'int', 'w': wint(x.value)}, x.value == 77)
        x = c_uint32(77)
        ok = call('pointless_eval_get_as_boolean', x)
        out('boolean', ok, {'k': 'bool', 'v': x.value}, x.value == 77)
        v = Value(99, 99)
        ok = call('pointless_eval_get_as_map', v)
        out('map', ok, self.tell(v) if ok else 0, True)
        v, n = Value(99, 99), c_uint32(77)
        ok = call('pointless_eval_get_as_bitvector', v, n)
        out('bitvector', ok, self.tell(v) if ok else 0, n.value == 77)
        if ok:
            assert n.value == len(ev['as'][-1]['v']['b']), 'number of bits'
        q = c_void_p(77)
        ok = call('pointless_eval_get_as_string', q)
        out('string', ok, {'k': 'str', 'c': string_at8(q.value)} if ok else 0, q.value == 77)
        for st, name in (('u8', 'u8'), ('u16', 'u16'), ('u32', 'u32'), ('u64', 'u64'), ('f', 'f')):
            q, n = c_void_p(77), c_uint32(77)
            ok = call('pointless_eval_get_as_vector_' + name, q, n)
            out('vector_' + st, ok, {'k': 'items', 'xs': items(st, q.value, n.value)} if ok else 0, (q.value, n.value) == (77, 77))
        q, n = POINTER(Value)(), c_uint32(77)
        ok = call('pointless_eval_get_as_vector_value', q, n)
        out('vector_v', ok, {'k': 'values', 'vs': [self.tell(Value(q[j].type, q[j].data)) for j in range(n.value)]} if ok else 0, n.value == 77 and not q)
        emit(ev)

    # lookups in maps
    def by_string(self, i, cs, rng):
        """a string of 8-bit characters"""
        m = self.vals[i]
        key = c_char_p(bytes(cs))
        ev = {'op': 'string', 'i': i, 'c': list(cs), 'as': []}

        def call(name, *outs):
            return fn('pointless_get_mapping_' + name, c_int32)(self.p, byref(m), key, *[byref(o) for o in outs]) != 0

        def out(name, ok, what, kept):
            ev['as'].append({'f': name, 'ok': ok, 'v': what if ok else NOTHING, 'kept': ok or kept})
        v = Value(99, 99)
        ok = call('string_to_value', v)
        out('value', ok, self.tell(v) if ok else 0, v.type == 99)
        x = c_uint32(77)
        ok = call('string_to_u32', x)
        out('u32range', ok, {'k': 'int', 'w': wint(x.value)}, x.value == 77)
        x = c_int64(-77)
        ok = call('string_to_i64', x)
        out('i64', ok, {'k': 'int', 'w': wint(x.value)}, x.value == -77)
        for name in ('set', 'map'):
            v = Value(99, 99)
            ok = call('string_to_' + name, v)
            out(name, ok, self.tell(v) if ok else 0, v.type == 99)
        v, n = Value(99, 99), c_uint32(77)
        ok = call('string_to_vector', v, n)
        out('vector', ok, self.tell(v) if ok else 0, n.value == 77)
        if ok:
            assert n.value == ev['as'][-1]['v']['n'], 'number of items'
        for st in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f'):
            q, n = c_void_p(77), c_uint32(77)
            ok = call('string_to_vector_' + ('float' if st == 'f' else st), q, n)
            out('vector_' + st, ok, {'k': 'items', 'xs': items(st, q.value, n.value)} if ok else 0, (q.value, n.value) == (77, 77))
        q, n = POINTER(Value)(), c_uint32(77)
        ok = call('string_to_vector_value', q, n)
        out('vector_v', ok, {'k': 'values', 'vs': [self.tell(Value(q[j].type, q[j].data)) for j in range(n.value)]} if ok else 0, n.value == 77 and not q)
        emit(ev)

    def by_part(self, i, cs, n):
        """the first characters of a buffer"""
        v = Value(99, 99)
        buf = ctypes.create_string_buffer(bytes(cs), max(len(cs), 1))
        ok = fn('pointless_get_mapping_string_n_to_value', c_int32)(self.p, byref(self.vals[i]), buf, c_size_t(n), byref(v)) != 0
        emit({'op': 'string', 'i': i, 'c': list(cs[:n]), 'as': [{'f': 'value', 'ok': ok, 'v': self.tell(v) if ok else NOTHING, 'kept': ok or v.type == 99}]})

    def by_unicode(self, i, cs):
        key = (c_uint32 * (len(cs) + 1))(*cs, 0)
        v, x = Value(99, 99), c_uint32(77)
        m = byref(self.vals[i])
        a = fn('pointless_get_mapping_unicode_to_value', c_int32)(self.p, m, key, byref(v)) != 0
        b = fn('pointless_get_mapping_unicode_to_u32', c_int32)(self.p, m, key, byref(x)) != 0
        emit({'op': 'string', 'i': i, 'c': list(cs), 'as': [{'f': 'value', 'ok': a, 'v': self.tell(v) if a else NOTHING, 'kept': a or v.type == 99},
                                                           {'f': 'u32range', 'ok': b, 'v': {'k': 'int', 'w': wint(x.value)} if b else NOTHING, 'kept': b or x.value == 77}]})

    def by_int(self, i, n):
        v = Value(99, 99)
        m = byref(self.vals[i])
        if self.H['n'][i - 1]['k'] == 'set':
            ok = fn('pointless_is_int_in_set', c_int32)(self.p, m, c_int64(n)) != 0
            return emit({'op': 'int', 'i': i, 'w': wint(n), 'ok': ok, 'v': NOTHING, 'kept': True, 'in': ok})
        ok = fn('pointless_get_mapping_int_to_value', c_int32)(self.p, m, c_int64(n), byref(v)) != 0
        has = fn('pointless_is_int_in_map', c_int32)(self.p, m, c_int64(n)) != 0
        emit({'op': 'int', 'i': i, 'w': wint(n), 'ok': ok, 'v': self.tell(v) if ok else NOTHING, 'kept': ok or v.type == 99, 'in': has})

    def by_key(self, i, j):
        """a key which is another value of the file"""
        c, k = byref(self.vals[i]), byref(self.vals[j])
        err = c_char_p()
        kk, vv = POINTER(Value)(), POINTER(Value)()
        if self.H['n'][i - 1]['k'] == 'set':
            has = fn('pointless_is_in_set_acyclic', c_int32)(self.p, c, k) != 0
            set_lookup(self.p, c, k, byref(kk), byref(err))
            v = NOTHING
        else:
            has = fn('pointless_is_in_map_acyclic', c_int32)(self.p, c, k) != 0
            map_lookup(self.p, c, k, byref(kk), byref(vv), byref(err))
            v = self.tell(vv[0]) if kk else NOTHING
        emit({'op': 'key', 'i': i, 'j': j, 'ty': self.vals[j].type, 'in': has, 'ok': bool(kk), 'v': v, 'kk': self.tell(kk[0]) if kk else NOTHING, 'err': bool(err.value)})

    def same_keys(self, i, j):
        H = self.H['n']
        f = fn('pointless_has_same_keys_%s_%s' % (H[i - 1]['k'], H[j - 1]['k']), c_int32)
        emit({'op': 'samekeys', 'i': i, 'j': j, 'in': f(self.p, byref(self.vals[i]), byref(self.vals[j])) != 0})


# ---- expressions to try

def space(rng):
    return ''.join(rng.choice(' \t\n\r\f\v') for _ in range(rng.choice([0, 0, 0, 1, 2]))).encode('latin-1')


def number(rng, n, args):
    """a way to write a number"""
    k = rng.randint(0, 5)
    if k < 2 or not -2**63 <= n < 2**64:
        return (b'+' if n >= 0 and rng.random() < 0.2 else b'-' if n < 0 or n == 0 and rng.random() < 0.2 else b'') + b'0' * rng.choice([0, 0, 0, 1, 3, 30]) + b'%d' % abs(n)
    ts = [t for t in ('u32', 'u64', 'i32', 'i64') if gen.LIM[t][0] <= n <= gen.LIM[t][1]]
    t = rng.choice(ts)
    args.append({'k': 'int', 't': t, 'w': wint(n)})
    return b'%' + t.encode()


def string(rng, cs, args):
    if rng.random() < 0.5 and 0x27 not in cs:
        return b"'" + bytes(cs) + b"'"
    args.append({'k': 'str', 'c': list(cs)})
    return b'%s'


NUMBERS = [0, 1, 2, 3, -1, -2, 255, 256, 2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 1, 2**63, 2**64 - 1, 2**64, 2**64 + 1, -2**63, -2**63 - 1, -2**64, -2**64 - 1, 10**25]


def step(H, i, rng, args, good):
    """the text of a step from node i, and the node it leads to (if it does and that is a node)"""
    a = H['n'][i - 1]
    k = a['k']
    if good and k == 'vec':
        xs = a.get('ch') or a.get('xs') or []
        if xs:
            j = rng.randrange(len(xs))
            return number(rng, j, args), xs[j] if a['st'] == 'v' else None
    if good and k == 'bits' and a.get('b'):
        return number(rng, rng.randrange(len(a['b'])), args), None
    if good and k == 'map':
        can = []
        for key, v in zip(a['ks'], a['vs']):
            b = H['n'][key - 1]
            if b['k'] == 'int' or b['k'] == 'str' and all(0 < c < 256 for c in b['c']):
                can.append((b, v))
        if can:
            b, v = rng.choice(can)
            return (number(rng, unwint(b['w']), args) if b['k'] == 'int' else string(rng, b['c'], args)), v
    r = rng.random()
    if r < 0.15 and k in ('vec', 'bits'):
        n = len(a.get('ch') or a.get('xs') or a.get('b') or [])
        return number(rng, rng.choice([n, n + 1, n - 1 + 2**32, n + 2**32 - 1, n - 1 - 2**32, -1, 2**32, 2**64 - 1, -2**63]), args), None
    if r < 0.5:
        return number(rng, rng.choice(NUMBERS), args), None
    if r < 0.9:
        return string(rng, keyish(H, rng, 255), args), None
    return rng.choice([b'', b'%', b'%u', b'%u16', b'%i', b'%i6', b'%x', b'+', b'-', b'--1', b'+-1', b"'", b"'a", b'"a"', b'a', b' 1', b'1 2', b'1.0', b'0x1', b"'a'b", b'1]', b'[1']), None


def keyish(H, rng, top):
    """characters like those of a string in the file"""
    cs = [c for a in H['n'] if a['k'] == 'str' for c in [a['c']] if all(0 < x <= top for x in c)]
    if not cs or rng.random() < 0.1:
        return [rng.choice([97, 98, 120, 32, 255, 39]) for _ in range(rng.choice([0, 1, 2]))]
    c = list(rng.choice(cs))
    r = rng.random()
    if r < 0.2:
        c = c[:-1]
    elif r < 0.3:
        c = c + [rng.choice([1, 97, 255])]
    elif r < 0.4 and c:
        c[rng.randrange(len(c))] ^= rng.choice([1, 32])
    return [x or 1 for x in c]


def expression(H, i, rng):
    args, e = [], space(rng)
    n = rng.choice([0, 1, 1, 2, 2, 3, 4])
    bad = rng.choice([None, None, None, rng.randrange(n) if n else None])
    for j in range(n):
        s, t = step(H, i, rng, args, j != bad)
        e += b'[' + s + space(rng) + b']' + space(rng)
        if t is None and rng.random() < 0.9:
            break
        i = t or i
    if rng.random() < 0.15 and e:
        j = rng.randrange(len(e))
        r = rng.random()
        e2 = e[:j] if r < 0.3 else e[:j] + e[j + 1:] if r < 0.6 else e[:j] + bytes([rng.choice(b"[]' 019-+%uis36")]) + e[j + 1:] if r < 0.8 else e[:j] + rng.choice([b']', b'[', b' ', b"'", b'x', b'0']) + e[j:]
        # the arguments must be those that it asks for
        if b'%' not in e and b'%' not in e2 or fits(e2, args):
            e = e2
    return e, args


def fits(e, args):
    """whether arguments are as an expression asks for them, from the first to the last, whatever becomes of it"""
    want, i = [], 0
    while i < len(e):
        if e[i:i + 1] == b'%':
            for t in (b's', b'u32', b'u64', b'i32', b'i64'):
                if e[i + 1:].startswith(t):
                    want.append(t.decode())
        i += 1
    have = ['s' if a['k'] == 'str' else a['t'] for a in args]
    return want == have


def run(case):
    rng = random.Random(case['seed'])
    try:
        b = pointless.serialize_to_bytearray(build(case['g'])[0], **case.get('o', {}))
    except EXC as x:
        x.__traceback__ = None
        b = pointless.serialize_to_bytearray({'a': [1]})
    else:
        if 'b' in case:
            b = bytearray(base64.b64decode(case['b']))
    F = File(b)
    H = F.H
    emit({'op': 'file', 'h': H, 'root': F.tell(F.vals[H['r']])})
    if 'exprs' in case:
        for e, args in case['exprs']:
            F.eval(H['r'], e, args)
    for _ in range(case.get('evals', 0)):
        i = H['r'] if rng.random() < 0.8 else rng.choice(sorted(F.vals))
        e, args = expression(H, i, rng)
        F.eval(i, e, args)
    maps = [i for i in sorted(F.vals) if H['n'][i - 1]['k'] == 'map']
    sets = [i for i in sorted(F.vals) if H['n'][i - 1]['k'] == 'set']
    for i in maps[:3] + sets[:3]:
        a = H['n'][i - 1]
        ks = a['ks'] if i in maps else a['ch']
        ints = [unwint(H['n'][k - 1]['w']) for k in ks if H['n'][k - 1]['k'] == 'int']
        for _ in range(case.get('lookups', 2)):
            n = rng.choice(ints) + rng.choice([0, 0, 0, 1, 2**32, -2**32]) if ints and rng.random() < 0.8 else rng.choice(NUMBERS)
            if -2**63 <= n < 2**63:
                F.by_int(i, n)
            keys = [j for j in sorted(F.vals) if key_like(H, j)]
            if keys:
                F.by_key(i, rng.choice(keys) if rng.random() < 0.5 or not ks else rng.choice(ks))
        if i in maps:
            for _ in range(case.get('lookups', 2)):
                F.by_string(i, keyish(H, rng, 255), rng)
                c = keyish(H, rng, 255) + [rng.choice([0, 97, 255])] * rng.choice([0, 1, 2])
                F.by_part(i, c, rng.randint(0, len(c)))
                F.by_unicode(i, keyish(H, rng, 0x10ffff))
    for _ in range(2):
        if maps:
            F.same_keys(rng.choice(sets + maps), rng.choice(maps))
    h_close(F.p)


def key_like(H, j, depth=6):
    a = H['n'][j - 1]
    if a['k'] in ('set', 'map') or depth == 0:
        return False
    return all(key_like(H, c, depth - 1) for c in a.get('ch', ()))


loop(run)
