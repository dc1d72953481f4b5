"""Long objects (specs/Large.tla): the part of several checks that no small example shows."""
import math
import random
import vlib

NS = [255, 256, 257, 4095, 32767, 32768, 65535, 65536, 65537, 70000, 100003]
BIG = 2147483647
RANGE = {'i8': (-128, 256), 'u8': (0, 256), 'i16': (-32768, 65536), 'u16': (0, 65536), 'i32': (-2**30, 2**30), 'u32': (0, 2**30), 'i64': (-2**30, 2**30), 'u64': (0, 2**30), 'f': (0, 2**24)}


def seg(n, a=0, b=0, d=1, m=1, e=0):
    return {'n': n, 'a': a, 'b': b, 'd': d, 'm': m, 'e': e}


def const(n, v):
    return seg(n, e=v)


def total(q):
    return sum(s['n'] for s in q)


def edges(q):
    out, p = [], 0
    for s in q:
        out += [p - 1, p, p + 1]
        p += s['n']
    return out + [p - 1]


class Case:
    def __init__(self, rng):
        self.rng, self.ops, self.n = rng, [], 0

    def name(self):
        self.n += 1
        return 'o%d' % self.n

    def new(self, k, q, v=(), t='', **kw):
        i = self.name()
        self.ops.append(dict({'op': 'new', 'id': i, 'k': k, 'q': q, 'v': list(v), 't': t, 'near': edges(q)}, **kw))
        return i

    def do(self, op, obj, **kw):
        self.ops.append(dict({"op": op, "id": obj}, **kw))
        return kw.get('dst')

    def store(self, i, **kw):
        return self.do('store', i, dst=self.name(), how=self.rng.randint(0, 2), **kw)

    def gets(self, i, q):
        n = total(q)
        for x in self.rng.sample(sorted({0, -1, n - 1, n, -n, -n - 1, n // 2, -65536, 65536, -65537, 32768} | set(edges(q))), 5):
            self.do('get', i, i=x)

    def done(self):
        return {'ops': self.ops, 'seed': self.rng.randrange(10**6)}


def bits(rng):
    c = Case(rng)
    ab = [rng.choice([1, 7, 28, 65534, 65535, 65536, 65537, 40000, 131072]) for _ in range(2)]
    m = rng.random()
    if m < 0.3:
        q = [const(ab[0], 0), const(ab[1], 1)]
    elif m < 0.6:
        q = [const(ab[0], 1), const(ab[1], 0)]
    elif m < 0.7:
        q = [const(ab[0], rng.randint(0, 1))]
    else:
        q = [const(rng.choice([1, 2, 8, 100, 30000, 65536]), rng.randint(0, 1)) for _ in range(rng.randint(3, 9))]
    b = c.new('bits', q)
    v, w = c.store(b, norm=True), c.store(b, norm=False)
    x = c.do('copy', rng.choice([b, v, w]), dst=c.name())
    for i in (b, v, w, x):
        for o in ('len', 'zpre', 'opre', 'zpost', 'opost', 'any'):
            c.do(o, i)
        c.gets(i, q)
    n = total(q)
    c.do('set', v, i=n - 1, x=1)
    c.do('runs', v)
    c.do('runs', w)
    for _ in range(6):
        o = rng.choice(['append', 'extend', 'bulk', 'pop', 'set', 'set'])
        c.do(o, x, **{'append': {'x': rng.randint(0, 1)}, 'extend': {'x': rng.randint(0, 1), 'n': rng.choice([1, 9, 65536, 70001])}, 'bulk': {'src': rng.choice([v, w, b])}, 'pop': {},
                      'set': {'i': rng.choice([0, n - 1, n // 2, n, 65535, 65536, -1]), 'x': rng.randint(0, 1)}}[o])
    y = c.store(x, norm=rng.random() < 0.5)
    for o in ('len', 'zpre', 'opre', 'zpost', 'opost', 'any'):
        c.do(o, rng.choice([x, y]))
    c.do('runs', x)
    c.do('runs', y)
    return c.done()


def numbers(rng, t):
    lo, m = RANGE[t]
    n = rng.choice(NS)
    m = min(m, rng.choice([7, 256, 65536, 2**24, 2**30]))
    a = rng.randint(0, min(9999, m))
    q = [seg(n, a, 0, 1, m, lo if rng.random() < 0.3 and lo + m < 2**31 else max(lo, 0) if RANGE[t][1] > m else lo)]
    if rng.random() < 0.5:
        q.append(const(1, rng.choice([lo, lo + RANGE[t][1] - 1])))
    return q


def prim(rng):
    c = Case(rng)
    t = rng.choice([t for t in RANGE if t != 'f'])
    lo, m = RANGE[t]
    q = numbers(rng, t)
    p = c.new('prim', q, t=t)
    n = total(q)
    c.gets(p, q)
    for o in ('len', 'max', 'min'):
        c.do(o, p)
    s = c.do('slice', p, dst=c.name(), lo=rng.choice([0, 1, n // 2, -65536, 65536, 65535]), hi=rng.choice([n, n - 1, 65536, 65537, -1]))
    for _ in range(6):
        o = rng.choice(['append', 'bulk', 'pop', 'popn', 'set', 'remove'])
        x = rng.choice([lo, lo + m - 1, lo + rng.randrange(m)])
        c.do(o, p, **{'append': {'x': x}, 'bulk': {'src': s}, 'pop': {}, 'popn': {'n': rng.choice([1, 300, 65536, n])}, 'set': {'i': rng.choice([0, n // 2, 65535, 65536, -1, n - 400]), 'x': x}, 'remove': {'x': x}}[o])
    v = c.store(p)
    c.do('type', v)
    c.do('all', p)
    c.do('all', v, back=rng.random() < 0.5)
    c.do('slice', v, dst=c.name(), lo=1, hi=65537)
    return c.done()


def sort(rng):
    c = Case(rng)
    t = rng.choice([t for t in RANGE if t != 'f'])
    n = rng.choice(NS + [1000, 46368])
    ms = [m for m in range(1, min(n, RANGE[t][1]) + 1) if n % m == 0]
    m = rng.choice(ms[-3:] + [rng.choice(ms)])
    a = rng.choice([x for x in range(1, 9999) if math.gcd(x, m) == 1][:: rng.choice([1, 7, 100])][:50])
    p = c.new('prim', [seg(n, a, rng.randint(0, 1000), 1, m, rng.choice([RANGE[t][0], RANGE[t][0] + RANGE[t][1] - m]))], t=t)
    c.do('sort', p)
    c.do('all', p)
    # sorting what is sorted, or turned around
    if rng.random() < 0.5:
        q = c.new('prim', [seg(n, m - 1, 0, 1, m, RANGE[t][0])], t=t) if n * m < 2**30 else c.new('prim', [seg(n, 1, 0, 1, m, RANGE[t][0])], t=t)
        c.do('sort', q)
        c.do('all', q)
    n = rng.choice([x for x in NS if x > 256] + [1000, 46368])
    a = rng.choice([x for x in range(2, 9999) if math.gcd(x, n) == 1 and pow(x, -1, n) * n < 2**31][:: rng.choice([1, 7, 50])][:50] or [1])
    f = [t for t in RANGE if RANGE[t][1] + RANGE[t][0] >= n]
    p = c.new('prim', [seg(n, 1, 0, 1, n, 0)], t=rng.choice([x for x in f if x != 'f']))
    v = c.new(rng.choice(['prim', 'view']), [seg(n, a, 0, 1, n, 0)], t=rng.choice(f), how=0)
    if c.ops[-1]['k'] == 'view':
        c.ops[-1]['t'] = ''
    c.do('proj', p, src=v, inv=pow(a, -1, n))
    c.do('all', p)
    c.do('all', v)
    return c.done()


def view(rng):
    c = Case(rng)
    n = rng.choice(NS)
    m = rng.choice([1, 2, 256, 60000])
    base = rng.choice([0, 0, -1, -128, -30000])
    q = [seg(n, rng.randint(0, 900), 0, 1, m, base)]
    # one item that decides the type, far behind or at any place
    x = rng.choice([255, 256, -1, -129, 65535, 65536, -32768, -32769, 2**30, 127, 128, 32767, 32768])
    at = rng.choice([0, 1, n // 2, n - 1, n, 65535 if n > 65535 else n])
    q = [s for s in [seg(at, q[0]['a'], 0, 1, m, base), const(1, x), seg(n - at, q[0]['a'], q[0]['a'] * at, 1, m, base)] if s['n']]
    v = c.new('view', q, how=rng.randint(0, 2))
    c.do('type', v)
    c.do('len', v)
    c.do('max', v)
    c.do('min', v)
    c.gets(v, q)
    c.do('set', v, i=0, x=1)
    s = c.do('slice', v, dst=c.name(), lo=rng.choice([1, n // 2, -65536, 65536, 65535]), hi=rng.choice([n + 1, n - 1, 65536, 65537, -1]))
    for o in ('len', 'max', 'min'):
        c.do(o, s)
    c.do('all', v, back=rng.random() < 0.5)
    c.do('all', s, back=rng.random() < 0.5)
    w = c.store(v if rng.random() < 0.5 else s)
    c.do('all', w)
    return c.done()


def text(rng):
    c = Case(rng)
    n = rng.choice(NS)
    base, m = rng.choice([(97, 26), (1, 127), (128, 128), (0x400, 256), (0x20000, 5)])
    q = [seg(n, rng.randint(0, 50), 0, 1, m, base)]
    if rng.random() < 0.6:
        q.insert(rng.randint(0, 1), const(1, rng.choice([1, 127, 128, 255, 256, 0xffff, 0x10000, 0x10ffff])))
    v = c.store(c.new('str', q))
    c.do('len', v)
    c.do('all', v)
    return c.done()


def table(rng):
    c = Case(rng)
    n = rng.choice([0, 1, 255, 256, 1000, 8191, 8192, 20000, 40000] if rng.random() < 0.8 else [65535, 65536, 70001])
    step = rng.choice([1, 1, 2, 7, 16, 256, 1024, 4096])
    base = rng.choice([0, 1, -5, -n * step // 2, 1000])
    k = rng.choice(['map', 'set'])
    q = [seg(n, step, 0, 1, BIG, base)] if n else []
    kk = rng.choice('iswt' + 'f' * (abs(base) + step * n < 2**24) if n < 40000 else 'is')     # floats of files have 24 bits
    o = c.new(k, q, [seg(n, rng.randint(0, 9), 0, 1, 1000, -3)] if k == 'map' and n else [], kk=kk, mix=rng.randint(0, 1))
    v = c.store(o)
    c.do('len', v)
    for _ in range(60):
        j = rng.randrange(n) if n else 0
        c.do('find', v, x=base + step * j + rng.choice([0, 0, 0, 1, -1, step // 2]))
    for j in (-1, 0, n - 1, n):
        c.do('find', v, x=base + step * j)
    c.do('pairs', v, how=rng.randint(0, 2))
    return c.done()


KINDS = {'bits': bits, 'prim': prim, 'sort': sort, 'view': view, 'text': text, 'table': table}


def run(chk, *kinds, n=None, explore=False):
    if explore:
        chk.explore('LargeGen', 'LargeGenQ' if chk.quick else 'LargeGen')
    rng = random.Random(chk.seed + 77)
    cases = [KINDS[k](rng) for k in kinds for _ in range(n or (16 if chk.quick else 200))]
    evs = vlib.standard(chk, 'large.py', 'LargeTrace', cases, weight=lambda c: 50 + sum(len(e.get('xs', [])) // 100 for e in c), case_timeout=120,
                        describe=lambda c, e: 'long objects: %s at %s' % (vlib.brief(c, 600), vlib.brief({k: v for k, v in e.items() if k not in ('xs', 'ys')}, 500)))
    r = {}
    for c in evs:
        for e in c:
            k = e['op'] + (':' + e['res']['k'] if isinstance(e.get('res'), dict) else '')
            r[k] = r.get(k, 0) + 1
    chk.cov['long'] = {'cases': len(cases), 'longest': max(sum(s['n'] for s in o['q']) for c in cases for o in c['ops'] if o['op'] == 'new'), 'operations': r}
