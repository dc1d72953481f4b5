"""Object graphs: building Python objects from their description, and describing what is read."""
import struct
from drv_enc import wint, unwint, f64, unf64
import pointless
PV = pointless.PointlessPrimVector
BV = pointless.PointlessBitvector
_p = pointless.Pointless(pointless.serialize_to_bytearray([[1], {1}, {1: 2}, 'x']))
VT, ST, MT = (type(_p.GetRoot()[i]) for i in range(3))
del _p


class Plain:
    pass


def bad(o):
    if o == 'bytes':
        return b'abc'
    if o == 'complex':
        return 1j
    if o == 'range':
        return range(3)
    if o == 'object':
        return Plain()
    if o == 'type':
        return int
    if o == 'big':
        return 1 << 32
    if o == 'small':
        return -(1 << 31) - 1
    if o == 'huge':
        return 1 << 200
    if o == 'nhuge':
        return -(1 << 200)
    if o == 'i64':
        return (1 << 63) - 1
    if o == 'gen':
        return (i for i in ())
    if o == 'func':
        return bad
    if o == 'ellipsis':
        return Ellipsis
    if o == 'memview':
        return memoryview(b'xx')
    if o == 'pointless':
        return pointless.Pointless(pointless.serialize_to_bytearray(1))
    if o == 'nul0':
        return '\0'
    if o == 'nul1':
        return 'ab\0'
    if o == 'nul2':
        return '\u0100\0x'
    if o == 'nul4':
        return '\U00010000\0x'
    raise AssertionError(o)


def prim(t, xs):
    return PV(t, sequence=[f32(x) for x in xs] if t == 'f' else [unwint(x) for x in xs])


def f32(w):
    return struct.unpack('<f', struct.pack('<I', w[0] << 16 | w[1]))[0]


def unf32(x):
    b = struct.unpack('<I', struct.pack('<f', x))[0]
    return [b >> 16, b & 0xffff]


def build(g, memo=None):
    """The Python object a graph describes, and the objects by node (some of which may be given)."""
    n = g['n']
    memo, work = memo or {}, []

    def get(i):
        if i in memo:
            return memo[i]
        a = n[i - 1]
        k = a['k']
        if k == 'int':
            r = unwint(a['w'])
        elif k == 'flt':
            r = unf64(a['d'])
        elif k == 'bool':
            r = bool(a['v'])
        elif k == 'none':
            r = None
        elif k == 'str':
            r = ''.join(map(chr, a['c']))
        elif k == 'bits':
            r = BV(sequence=[bool(x) for x in a['b']])
        elif k == 'prim':
            r = bytearray(unwint(x) for x in a['xs']) if a.get('ba') else prim(a['t'], a['xs'])
        elif k == 'list':
            r = []
            work.append((i, r))
        elif k == 'map':
            r = {}
            work.append((i, r))
        elif k == 'tup':
            r = tuple([get(c) for c in a['ch']])
        elif k == 'set':
            r = set()
            work.append((i, r))
        elif k == 'fset':
            r = frozenset([get(c) for c in a['ch']])
        elif k == 'bad':
            r = bad(a['o'])
        else:
            raise AssertionError(k)
        memo[i] = r
        return r
    root = get(g['r'])
    while work:
        i, r = work.pop()
        a = n[i - 1]
        if a['k'] == 'list':
            r.extend([get(c) for c in a['ch']])
        elif a['k'] == 'map':
            for k, v in zip(a['ks'], a['vs']):
                r[get(k)] = get(v)
        else:
            for c in a['ch']:
                r.add(get(c))
    return root, memo


def typecode(v):
    try:
        return v.typecode
    except ValueError:
        return 'v'


def observe(root, objs=None):
    """Describes what is reachable from a value that was read; every way to get at the items must agree."""
    nodes, memo, work = [], {}, []

    def add(v):
        i = describe(v)
        if objs is not None:
            objs.setdefault(i, v)
        return i

    def describe(v):
        t = type(v)
        if t in (VT, ST, MT):
            if t is VT and len(v) == 0:
                nodes.append({'k': 'vec', 'st': 'e', 'xs': [], 'id': v.container_id, 'h': v.is_hashable})
                return len(nodes)
            key = (t, v.container_id, typecode(v) if t is VT else '')
            if key in memo:
                return memo[key]
            nodes.append(None)
            memo[key] = len(nodes)
            work.append((len(nodes), v))
            return len(nodes)
        if t is bool:
            a = {'k': 'bool', 'v': int(v)}
        elif t is int:
            a = {'k': 'int', 'w': wint(v)}
        elif t is float:
            a = {'k': 'flt', 'f': unf32(v)}
            assert v != v or f32(a['f']) == v, 'not a single'
        elif v is None:
            a = {'k': 'none'}
        elif t is str:
            a = {'k': 'str', 'c': [ord(c) for c in v]}
        elif t is BV and len(v) > 100000:
            a = {'k': 'bits', 'n': len(v)}
        elif t is BV:
            a = {'k': 'bits', 'b': [int(x) for x in v]}
            assert len(v) == len(a['b'])
            assert all(v[i] is bool(x) for i, x in enumerate(a['b']))
        else:
            raise AssertionError(t)
        nodes.append(a)
        return len(nodes)

    r = add(root)
    while work:
        i, v = work.pop()
        t = type(v)
        if t is VT:
            items = list(v)
            n = len(v)
            assert len(items) == n, 'length of iteration'
            a = {'k': 'vec', 'id': v.container_id, 'h': v.is_hashable}
            st = a['st'] = typecode(v)
            if st == 'v':
                a['ch'] = [add(x) for x in items]
                for j in range(n):
                    for y in (v[j], v[j - n]):
                        assert same(y, items[j]), 'item by index'
            else:
                for j in range(n):
                    for y in (v[j], v[j - n]):
                        assert same(y, items[j]), 'item by index'
                if st == 'f':
                    assert all(type(x) is float for x in items)
                    a['xs'] = [unf32(x) for x in items]
                else:
                    assert all(type(x) is int for x in items)
                    a['xs'] = [wint(x) for x in items]
        elif t is ST:
            items = list(v)
            assert len(items) == len(v), 'length of set'
            a = {'k': 'set', 'id': v.container_id, 'ch': [add(x) for x in items]}
        else:
            ks = list(v)
            ks2 = list(v.keys())
            vs = list(v.values())
            kv = list(v.items())
            assert len(v) == len(ks) == len(ks2) == len(vs) == len(kv), 'length of map'
            for x, y, z, (p, q) in zip(ks, ks2, vs, kv):
                assert same(x, y) and same(x, p) and same(z, q), 'keys, values, items'
            a = {'k': 'map', 'id': v.container_id, 'ks': [add(x) for x in ks], 'vs': [add(x) for x in vs]}
        nodes[i - 1] = a
    return {'n': nodes, 'r': r}


def same(x, y):
    """Two reads of the same place."""
    if type(x) is not type(y):
        return False
    t = type(x)
    if t in (VT, ST, MT):
        return x.container_id == y.container_id and len(x) == len(y)
    if t is float:
        return struct.pack('<d', x) == struct.pack('<d', y)
    if t is BV:
        return list(x) == list(y)
    return x == y
