"""Random object graphs (see specs/Store.tla for the encoding)."""
import random
import struct
from drv_enc import wint, f64

INTS = sorted({s * (1 << k) + d for k in (0, 1, 4, 7, 8, 15, 16, 24, 31, 32) for s in (1, -1) for d in (-1, 0, 1)})
INTS = [i for i in INTS if -2**31 <= i < 2**32]
FLTS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -2.5, 255.0, 256.0, 16777216.0, 16777217.0, -16777217.0, 2147483648.0, -2147483648.0, 4294967295.0, 4294967296.0,
        3.4e38, 3.41e38, 1e300, -1e300, 1e-40, 1e-46, 1e-300, float('inf'), float('-inf'), float('nan'), 1.0000001, 65504.0, 9007199254740993.0, 1.5, 1e10]
CHARS = [1, 9, 0x20, 0x41, 0x61, 0x62, 0x7f, 0x80, 0xe9, 0xff, 0x100, 0x7ff, 0x800, 0x3b1, 0x20ac, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff]
LIM = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1), 'i32': (-2**31, 2**31 - 1),
       'u32': (0, 2**32 - 1), 'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}
PTYPES = list(LIM) + ['f']


def f32(x):
    try:
        b = struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        b = struct.unpack('<I', struct.pack('<f', float('inf') if x > 0 else float('-inf')))[0]
    return [b >> 16, b & 0xffff]


def alias(rng, n):
    """Another number, which some narrower or differently signed word can not tell from n."""
    m = rng.choice([n + s * 2**k for k in (8, 16, 32, 64) for s in (1, -1)] + [n & 2**64 - 1, -n, -n - 1, n ^ 2**31, n ^ 2**63])
    return m if -2**64 < m < 2**64 else n


def INT(n):
    return {'k': 'int', 'w': wint(n)}


def FLT(x):
    return {'k': 'flt', 'd': f64(x)}


def STR(s):
    return {'k': 'str', 'c': [ord(c) for c in s]}


def rstr(rng):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 9])
    pool = rng.choice([CHARS[:7], CHARS[:10], CHARS[:19], CHARS, CHARS[3:6]])
    return {'k': 'str', 'c': [rng.choice(pool) for _ in range(n)]}


def rbits(rng):
    n = rng.choice([0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 20, 26, 27, 28, 31, 32, 33, 40, 63, 64, 65])
    m = rng.randint(0, 5)
    k = rng.randint(0, n)
    b = [0] * n if m == 0 else [1] * n if m == 1 else [0] * k + [1] * (n - k) if m == 2 else [1] * k + [0] * (n - k) if m == 3 else [rng.randint(0, 1) for _ in range(n)]
    return {'k': 'bits', 'b': b}


def rint(rng):
    return rng.choice(INTS) if rng.random() < 0.5 else rng.randint(-5, 300) if rng.random() < 0.7 else rng.randint(-2**31, 2**32 - 1)


def rflt(rng):
    return rng.choice(FLTS) if rng.random() < 0.6 else rng.uniform(-1e3, 1e3)


def rleaf(rng):
    k = rng.randint(0, 9)
    if k < 3:
        return INT(rint(rng))
    if k < 5:
        return FLT(rflt(rng))
    if k == 5:
        return {'k': 'bool', 'v': rng.randint(0, 1)}
    if k == 6:
        return {'k': 'none'}
    if k < 9:
        return rstr(rng)
    return rbits(rng)


def rprim(rng):
    t = rng.choice(PTYPES)
    n = rng.choice([0, 1, 2, 3, 5])
    if t == 'f':
        return {'k': 'prim', 't': t, 'xs': [f32(rflt(rng)) for _ in range(n)]}
    lo, hi = LIM[t]
    xs = [wint(rng.choice([lo, hi, lo + 1, hi - 1, max(lo, -1), 0, 1, 5, rng.randint(lo, hi)])) for _ in range(n)]
    a = {'k': 'prim', 't': t, 'xs': xs}
    if t == 'u8' and rng.random() < 0.5:
        a['ba'] = 1
    return a


class G:
    """A graph under construction."""

    def __init__(self, rng):
        self.rng, self.n = rng, []

    def add(self, a):
        self.n.append(a)
        return len(self.n)

    def key(self, depth=2):
        rng = self.rng
        if depth and rng.random() < 0.25:
            return self.add({'k': 'tup', 'ch': [self.key(depth - 1) for _ in range(rng.choice([0, 1, 2, 2, 3]))]})
        if rng.random() < 0.07:
            a = rprim(rng)
            a.pop('ba', None)
            return self.add(a)
        return self.add(rleaf(rng))

    def keys(self, n):
        """n keys which Python takes for different ones"""
        out, seen = [], set()
        for _ in range(n):
            k = self.key()
            c = self.canon(k)
            if c in seen:
                continue
            seen.add(c)
            out.append(k)
        return out

    def canon(self, i):
        a = self.n[i - 1]
        k = a['k']
        if k == 'int':
            w = a['w']
            v = w[1] << 48 | w[2] << 32 | w[3] << 16 | w[4]
            return ('n', -v if w[0] else v)
        if k == 'flt':
            d = a['d']
            x = struct.unpack('<d', struct.pack('<Q', d[0] << 63 | d[1] << 52 | d[2] << 29 | d[3]))[0]
            return ('n', x) if x == x else ('nan', i)
        if k == 'bool':
            return ('n', a['v'])
        if k == 'none':
            return ('0',)
        if k == 'str':
            return ('s', tuple(a['c']))
        if k == 'bits':
            return ('b', tuple(a['b']))
        if k == 'prim':
            return ('p', i)
        return ('t',) + tuple(self.canon(c) for c in a['ch'])

    def value(self, depth, pool):
        rng = self.rng
        if pool and rng.random() < 0.2:
            return rng.choice(pool)
        if depth == 0 or rng.random() < 0.35:
            return self.add(rleaf(rng))
        k = rng.randint(0, 9)
        if k < 4:
            a = {'k': 'list', 'ch': []}
            i = self.add(a)
            pool.append(i)
            m = rng.random()
            n = rng.choice([0, 1, 2, 3, 4])
            if m < 0.2:
                a['ch'] = [self.add(INT(rint(rng))) for _ in range(n)]
            elif m < 0.3:
                a['ch'] = [self.add(FLT(rflt(rng))) for _ in range(n)]
            else:
                a['ch'] = [self.value(depth - 1, pool) for _ in range(n)]
            return i
        if k == 4:
            # children first, so that no cycle consists of tuples only
            i = self.add({'k': 'tup', 'ch': [self.value(depth - 1, pool) for _ in range(rng.randint(0, 3))]})
            pool.append(i)
            return i
        if k == 5:
            i = self.add(rprim(rng))
            pool.append(i)
            return i
        if k == 6:
            i = self.add({'k': rng.choice(['set', 'set', 'fset']), 'ch': self.keys(rng.choice([0, 1, 2, 3, 5, 8]))})
            pool.append(i)
            return i
        a = {'k': 'map', 'ks': [], 'vs': []}
        i = self.add(a)
        pool.append(i)
        a['ks'] = self.keys(rng.choice([0, 1, 2, 3, 5, 8]))
        a['vs'] = [self.value(depth - 1, pool) for _ in a['ks']]
        return i


def graph(rng, depth=4):
    g = G(rng)
    r = g.value(depth, [])
    return {'n': g.n, 'r': r}


def container_graph(rng, depth=4):
    for _ in range(50):
        g = graph(rng, depth)
        if g['n'][g['r'] - 1]['k'] in ('list', 'map', 'tup', 'set') and len(g['n']) < 60:
            return g
    return g


def digraph(rng, n):
    """Containers with random edges: lists, maps and tuples (a tuple only refers to later nodes or to lists and maps)."""
    nodes = []
    kinds = [rng.choice(['list', 'list', 'map', 'map', 'tup', 'tup']) for _ in range(n)]
    leaf = n + 1
    fill = rng.random() * 0.6
    for i in range(n):
        ch = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
            if rng.random() < fill:
                ch.append(leaf + rng.randint(0, 2))
            else:
                ch.append(rng.randint(1, n))
        if kinds[i] == 'tup':
            ch = [c for c in ch if c > n or c > i + 1 or kinds[c - 1] != 'tup']
        if kinds[i] == 'map':
            nodes.append({'k': 'map', 'ks': [leaf + 3 + j for j in range(len(ch))], 'vs': ch})
        else:
            nodes.append({'k': kinds[i], 'ch': ch})
    nodes += [{'k': 'none'}, STR('x'), {'k': 'set', 'ch': [n + 4]}, INT(1), INT(2), INT(3)]
    return {'n': nodes, 'r': 1}


def number_list(rng):
    n = rng.choice([1, 2, 3, 4, 6])
    m = rng.randint(0, 6)
    if m < 3:
        lo, hi = rng.choice([(-128, 127), (0, 255), (-129, 128), (0, 256), (-32768, 32767), (0, 65535), (-32769, 32768), (0, 65536), (-2**31, 2**31 - 1), (0, 2**32 - 1), (-1, 2**31), (-1, 255), (-1, 65535)])
        xs = [INT(rng.choice([lo, hi, rng.randint(lo, hi), 0])) for _ in range(n)]
    elif m == 3:
        xs = [FLT(rflt(rng)) for _ in range(n)]
    elif m == 4:
        xs = [rng.choice([INT(rint(rng)), FLT(rflt(rng)), {'k': 'bool', 'v': 1}]) for _ in range(n)]
    else:
        xs = [INT(rint(rng)) for _ in range(n)]
    if m == 5 and n > 1:
        xs[rng.randrange(n)] = rng.choice([{'k': 'none'}, STR('a'), {'k': 'bool', 'v': 0}, FLT(1.0)])
    return xs


BADS = ['bytes', 'complex', 'range', 'object', 'type', 'big', 'small', 'huge', 'nhuge', 'i64', 'func', 'ellipsis', 'pointless', 'nul0', 'nul1', 'nul2', 'nul4']
