"""Another writer of the file format, which lays files out in many ways (see specs/Format.tla)."""
import struct
import pyhash
from drv_enc import unwint, unf64

ITEM = {'i8': (2, 'b'), 'u8': (3, 'B'), 'i16': (4, 'h'), 'u16': (5, 'H'), 'i32': (6, 'i'), 'u32': (7, 'I'), 'i64': (25, 'q'), 'u64': (26, 'Q'), 'f': (8, 'I')}
LIM = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1), 'i32': (-2**31, 2**31 - 1), 'u32': (0, 2**32 - 1)}
M = 0xffffffff


def f32bits(x):
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def bitsf32(b):
    return struct.unpack('<f', struct.pack('<I', b))[0]


def hash_float(b):
    x = bitsf32(b)
    if x == x and abs(x) != float('inf') and x == int(x) and -2**31 <= x < 2**32:
        return int(x) & M
    return b


def hash_int(n):
    if -2**31 <= n < 2**32:
        return n & M
    b = f32bits(float(n))
    return b if int(bitsf32(b)) == n and abs(bitsf32(b)) < 2**64 and not (n > 0 and bitsf32(b) >= 2**64) else n & M


def hash_bits(bits):
    h = 1
    for i in range(0, len(bits), 8):
        h = (h * 1000000001 + sum(b << j for j, b in enumerate(bits[i:i + 8]))) & M
    return h


def hash_seq(hs):
    x, m = 0x345678, 1000003
    for h in hs:
        x = (x ^ h) * m & M
        m = (m + 82520 + 2 * len(hs)) & M
    return (x + 97531) & M


def n_buckets(n):
    if n == 1:
        return 2
    p = 1
    while p < n + n // 2:
        p *= 2
    return p


class Image:
    def __init__(self, g, rng, plain=False, last=None):
        self.g, self.rng, self.plain, self.last = g['n'], rng, plain, last
        self.slots = []                              # of each set or map: the vectors with its slots
        self.tabs = {k: [] for k in 'svbem'}         # contents of each table's entries
        self.ids = {}                                # graph node -> index of the container
        self.loops = {}
        self.cached = {}
        self.fields = []
        root = self.value(g['r'])
        self.bytes = self.layout(root)

    def pick(self, *alts):
        return alts[0] if self.plain else self.rng.choice(alts)

    def entry(self, t, content):
        self.tabs[t].append(content)
        return len(self.tabs[t]) - 1

    # --- values: (type, data)
    def kids(self, i):
        a = self.g[i - 1]
        return list(a.get('ch', [])) + list(a.get('ks', [])) + list(a.get('vs', []))

    def reach(self, i):
        seen, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j not in seen:
                seen.add(j)
                todo += self.kids(j)
        return seen

    def hashable(self, i):
        """may be referred to as hashable: in no cycle (what it holds does not matter to a reference)"""
        if i not in self.loops:
            self.loops[i] = any(i in self.reach(j) for j in self.kids(i))
        return not self.loops[i]

    def deep(self, i):
        return all(self.g[j - 1]['k'] not in ('set', 'fset', 'map') and self.hashable(j) for j in self.reach(i))

    def int_(self, n):
        t = []
        if n < 2**31:
            t.append(20)
        if n >= 0:
            t.append(21)
        return (self.pick(*t), n & M)

    def str_(self, cs):
        t = []
        if all(c < 256 for c in cs):
            t.append(29)
        t.append(10)
        t = self.pick(*t)
        key = (t, tuple(cs))
        if key not in self.cached or not self.plain and self.rng.random() < 0.3:
            if t == 29:
                c = [('n', len(cs)), ('raw', bytes(cs) + b'\0')]
            else:
                c = [('n', len(cs)), ('raw', b''.join(struct.pack('<I', x) for x in cs + [0]))]
            self.cached[key] = self.entry('s', c)
        return (t, self.cached[key])

    def bits_(self, b):
        n = len(b)
        alts = []
        if n <= 27:
            alts.append((16, n | sum(x << (5 + i) for i, x in enumerate(b))))
        if not any(b):
            alts.append((12, n))
        if all(b):
            alts.append((13, n))
        z = next((i for i, x in enumerate(b) if x), n)
        if all(b[z:]):
            alts.append((14, (n - z) << 16 | z))
        o = next((i for i, x in enumerate(b) if not x), n)
        if not any(b[o:]):
            alts.append((15, (n - o) << 16 | o))
        alts.append(None)
        a = self.pick(*alts)
        if a is None:
            raw = bytearray((n + 7) // 8)
            for i, x in enumerate(b):
                raw[i // 8] |= x << i % 8
            a = (11, self.entry('b', [('n', n), ('raw', bytes(raw))]))
        return a

    def vec(self, i, key=False):
        """reference to list, tuple or primitive vector i"""
        a = self.g[i - 1]
        if i in self.ids:
            t, d = self.ids[i]
        elif a['k'] == 'prim':
            if not a['xs'] and self.pick(True, False):
                return (9, 0)
            t, f = ITEM[a['t']]
            xs = [x[0] << 16 | x[1] for x in a['xs']] if a['t'] == 'f' else [unwint(x) for x in a['xs']]
            d = self.entry('v', [('n', len(xs)), ('raw', b''.join(struct.pack('<' + f, x) for x in xs))])
        else:
            ch = [self.g[j - 1] for j in a['ch']]
            if not ch and self.pick(True, True, False):
                return (9, 0)
            t = None
            if ch and all(c['k'] == 'int' for c in ch):
                ns = [unwint(c['w']) for c in ch]
                fit = [s for s in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32') if all(LIM[s][0] <= n <= LIM[s][1] for n in ns)]
                s = self.pick(*(fit + [None])) if fit else None
                if s:
                    t, f = ITEM[s]
                    raw = b''.join(struct.pack('<' + f, n) for n in ns)
            elif ch and all(c['k'] == 'flt' for c in ch) and self.pick(True, True, False):
                t = 8
                raw = b''.join(struct.pack('<I', f32bits(unf64(c['d']))) for c in ch)
            if t is not None:
                d = self.entry('v', [('n', len(ch)), ('raw', raw)])
            else:
                t = 0
                d = self.entry('v', None)
                self.ids[i] = (t, d)
                self.tabs['v'][d] = [('n', len(ch))] + [('v', self.value(j, key)) for j in a['ch']]
        self.ids[i] = (t, d)
        if t == 0 and (key or self.hashable(i) and self.pick(True, False)):
            t = 1
        return (t, d)

    def value(self, i, key=False):
        a = self.g[i - 1]
        k = a['k']
        if k == 'int':
            return self.int_(unwint(a['w']))
        if k == 'flt':
            return (22, f32bits(unf64(a['d'])))
        if k == 'bool':
            return (23, a['v'])
        if k == 'none':
            return (24, 0)
        if k == 'str':
            return self.str_(list(a['c']))
        if k == 'bits':
            return self.bits_(a['b'])
        if k in ('list', 'tup', 'prim'):
            return self.vec(i, key)
        if i in self.ids:
            return self.ids[i]
        ks = a['ks'] if k == 'map' else a['ch']
        tab = 'm' if k == 'map' else 'e'
        d = self.entry(tab, None)
        self.ids[i] = (18 if k == 'map' else 17, d)
        n, B = len(ks), n_buckets(len(ks))
        order = list(range(n))
        if not self.plain:
            self.rng.shuffle(order)
        slots = [None] * B
        hs = [0] * B
        for j in order:
            h = self.hash(ks[j])
            p = x = h
            while slots[x % B] is not None:
                x = (5 * x + p + 1) & M
                p >>= 5
            slots[x % B] = j
            hs[x % B] = h
        E = (19, 0)
        hv = self.entry('v', [('n', B)] + [('h', h) for h in hs])
        kv = self.entry('v', None)
        self.tabs['v'][kv] = [('n', B)] + [('v', E if s is None else self.value(ks[s], True)) for s in slots]
        c = [('n', n), ('z', 0), ('v', (7, hv)), ('v', (1, kv))]
        if k == 'map':
            vv = self.entry('v', None)
            self.tabs['v'][vv] = [('n', B)] + [('v', E if s is None else self.value(a['vs'][s])) for s in slots]
            # a hashable reference must not be in a cycle
            t = 0 if any(i in self.reach(x) for x in a['vs']) else self.pick(0, 1)
            c.append(('v', (t, vv)))
        self.tabs[tab][d] = c
        self.slots.append([hv, kv] + ([vv] if k == 'map' else []))
        return self.ids[i]

    def hash(self, i):
        a = self.g[i - 1]
        k = a['k']
        if k == 'int':
            return hash_int(unwint(a['w']))
        if k == 'flt':
            return hash_float(f32bits(unf64(a['d'])))
        if k == 'bool':
            return a['v']
        if k == 'none':
            return 0
        if k == 'str':
            return pyhash.str_hash(a['c'])
        if k == 'bits':
            return hash_bits(a['b'])
        if k == 'prim':
            return hash_seq([hash_float(x[0] << 16 | x[1]) if a['t'] == 'f' else hash_int(unwint(x)) for x in a['xs']])
        return hash_seq([self.hash(j) for j in a['ch']])

    # --- bytes; self.fields: (offset, kind) of every 32-bit field
    def layout(self, root):
        rng = self.rng
        names = 'svbem'
        # indices may be in any order
        perm = {}
        for t in names:
            p = list(range(len(self.tabs[t])))
            if not self.plain:
                rng.shuffle(p)
            perm[t] = p
        where = {10: 's', 29: 's', 11: 'b', 17: 'e', 18: 'm'}

        def val(v):
            t = where.get(v[0], 'v' if v[0] in (0, 1, 2, 3, 4, 5, 6, 7, 8, 25, 26) else None)
            return (v[0], perm[t][v[1]] if t else v[1])
        heap = bytearray()
        offs = {t: [0] * len(self.tabs[t]) for t in names}
        todo = [(t, i) for t in names for i in range(len(self.tabs[t]))]
        if not self.plain:
            rng.shuffle(todo)
        if self.last:
            todo.remove(self.last)
            todo.append(self.last)
        start = 32 + 8 * sum(len(self.tabs[t]) for t in names)
        fields = [(0, 'type'), (4, 'data')] + [(8 + 4 * i, 'count') for i in range(5)] + [(28, 'version')]
        fields += [(32 + 4 * i, 'off') for i in range((start - 32) // 4)]
        self.at = {}                                 # where the entries are
        for t, i in todo:
            if not self.plain and rng.random() < 0.2:
                heap += bytes(rng.choice([0, 255, 7]) for _ in range(4 * rng.randint(1, 3)))
            self.at[t, i] = start + len(heap)
            offs[t][perm[t][i]] = len(heap)
            for kind, x in self.tabs[t][i]:
                at = start + len(heap)
                if kind == 'raw':
                    heap += x
                    fields += [(at + j, 'raw') for j in range(0, len(x) - 3, 4)]
                elif kind == 'v':
                    heap += struct.pack('<II', *val(x))
                    fields += [(at, 'type'), (at + 4, 'data')]
                else:
                    heap += struct.pack('<I', x)
                    fields.append((at, {'n': 'count', 'z': 'zero', 'h': 'hash'}[kind]))
            self.end = start + len(heap)
            heap += b'\0' * (-len(heap) % 4)
        if not self.plain and rng.random() < 0.3:
            heap += bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 9)))
        out = struct.pack('<II5II', *val(root), *[len(self.tabs[t]) for t in names], 2)
        for t in names:
            out += b''.join(struct.pack('<Q', o) for o in offs[t])
        assert len(out) == start
        self.fields = fields
        return bytes(out + heap)


def mutations(img, rng, n):
    """Changed images: (what, bytes)"""
    b, out = img.bytes, []
    words = [struct.unpack_from('<I', b, o)[0] for o, _ in img.fields]
    for _ in range(n):
        m = rng.randint(0, 11)
        c = bytearray(b)
        if m == 0:
            c = c[:rng.randint(0, len(b) - 1)]
            what = 'truncated to %d' % len(c)
        elif m == 1:
            c[rng.randrange(len(c))] ^= 1 << rng.randint(0, 7)
            what = 'bit'
        elif m == 2:
            k = rng.randrange(len(c))
            c[k] = rng.choice([0, 1, 127, 128, 255, c[k] ^ 255, rng.randint(0, 255)])
            what = 'byte at %d' % k
        elif m == 3:      # a value in the place of another one
            vs = [o for o, k in img.fields if k == 'type']
            x, y = rng.choice(vs), rng.choice(vs)
            c[x:x + 8] = b[y:y + 8]
            what = 'value %d from %d' % (x, y)
        elif m == 4 and any(k == 'off' for _, k in img.fields):
            vs = [o for o, k in img.fields if k == 'off'][::2]
            x, y = rng.choice(vs), rng.choice(vs)
            c[x:x + 8] = b[y:y + 8]
            what = 'offset %d from %d' % (x, y)
        else:
            kinds = {'type': 5, 'data': 3, 'count': 4, 'off': 2, 'hash': 1, 'version': 0.3, 'zero': 0.3, 'raw': 1}
            i = rng.choices(range(len(words)), [kinds[k] for _, k in img.fields])[0]
            o, k = img.fields[i]
            w = words[i]
            pool = [0, 1, 2, w + 1, w - 1, 2 * w, w ^ 1, 2**31 - 1, 2**31, 2**32 - 1, 2**16, len(b), w + 4, w - 4]
            if k == 'type':
                pool = list(range(31)) * 2 + [100, 2**16 + w, 2**31 + w, 2**32 - 1]
            if k == 'off':
                pool += [w + 8, w - 8, w + 2, 4 * rng.randint(0, len(b) // 4), len(b) - 32]
            w = rng.choice(pool) & M
            struct.pack_into('<I', c, o, w)
            what = '%s at %d is %d' % (k, o, w)
            if rng.random() < 0.15:      # and another field
                i = rng.randrange(len(words))
                o, k = img.fields[i]
                struct.pack_into('<I', c, o, rng.choice([0, 1, words[i] + 1, words[i] - 1, rng.choice(words)]) & M)
                what += ', %s at %d' % (k, o)
        if bytes(c) != b:
            out.append((what, bytes(c)))
    return out


def systematic(img):
    """Every truncation; every 32-bit field at every one of some values."""
    b = img.bytes
    out = [('truncated to %d' % n, b[:n]) for n in range(len(b))]
    out += [('extended by %d' % n, b + bytes([255] * n)) for n in (1, 4, 8)]
    for o, k in img.fields:
        w = struct.unpack_from('<I', b, o)[0]
        if k == 'type':
            pool = list(range(31)) + [2**16 + w, 2**32 - 1]
        elif k == 'off':
            pool = [w + 1, w + 4, w - 4, w + 8, 0, len(b), 2**32 - 1, 2**31]
        elif k == 'version':
            pool = [0, 1, 3, 2**16 + 2, 2**24 + 2]
        else:
            pool = [0, 1, w + 1, w - 1, w + 2, 2**31, 2**32 - 1, 2**24 + w]
        for x in pool:
            if x & M != w:
                c = bytearray(b)
                struct.pack_into('<I', c, o, x & M)
                out.append(('%s at %d is %d' % (k, o, x & M), bytes(c)))
    return out


def structural(g, rng):
    """Changes that keep the rest of a file right: every entry at the very end of the file, and cut off there;
    slots of tables moved, emptied or filled."""
    out = []
    base = Image(g, rng, plain=True)
    for t in 'svbem':
        for i in range(len(base.tabs[t])):
            img = Image(g, rng, plain=True, last=(t, i))
            for n in range(0, 10):
                if img.end - n > img.at[t, i] - 2:
                    out.append(('%s %d is last, %d bytes cut off' % (t, i, n), img.bytes[:img.end - n]))
            for n in (2**29 - 1, 2**30 - 1, 2**31 - 1, 2**32 - 1, 2**32 - 4, 2**32 - 5, 2**29, 2**30):
                c = bytearray(img.bytes[:img.end])
                struct.pack_into('<I', c, img.at[t, i], n)
                out.append(('%s %d is last, count is %d' % (t, i, n), bytes(c)))
                if t == 's':
                    c[img.at[t, i] + 4:] = b'A' * (len(c) - img.at[t, i] - 4)
                    out.append(('%s %d is last, count is %d, without end' % (t, i, n), bytes(c)))
    b = base.bytes
    for sl in base.slots:
        o = [base.at['v', i] + 4 for i in sl]
        w = [4, 8, 8]
        n = struct.unpack_from('<I', b, o[0] - 4)[0]

        def get(j):
            return [bytes(b[o[k] + w[k] * j:o[k] + w[k] * (j + 1)]) for k in range(len(o))]

        def put(c, j, x, only=None):
            for k in range(len(o)):
                if only is None or k == only:
                    c[o[k] + w[k] * j:o[k] + w[k] * (j + 1)] = x[k]
        for i in range(n):
            for j in range(n):
                if i != j:
                    c = bytearray(b)
                    put(c, i, get(j))
                    out.append(('slot %d copied to %d' % (j, i), bytes(c)))
                    for only in [None] + list(range(len(o))):
                        if i < j:
                            c = bytearray(b)
                            put(c, i, get(j), only)
                            put(c, j, get(i), only)
                            out.append(('slots %d and %d exchanged (%s)' % (i, j, only), bytes(c)))
    for o, k in base.fields:
        if k == 'type' and struct.unpack_from('<I', b, o)[0] == 16:
            w = struct.unpack_from('<I', b, o + 4)[0]
            for n in range(32):
                c = bytearray(b)
                struct.pack_into('<I', c, o + 4, w & ~31 | n)
                out.append(('%d bits' % n, bytes(c)))
    return [(x, y) for x, y in out if y != b]
