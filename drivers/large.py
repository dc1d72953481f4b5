"""Long vectors, bitvectors, strings, sets and maps."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import random
from drv import *
import pointless


def items(q):
    return [s['e'] + (s['a'] * j + s['b']) // s['d'] % s['m'] for s in q for j in range(s['n'])]


KEY = {'i': lambda k: k, 's': lambda k: 'k%d' % k, 'w': lambda k: '\u20ac%d' % k, 't': lambda k: (k, 'x'), 'f': lambda k: float(k)}
UNKEY = {'i': int, 's': lambda k: int(k[1:]), 'w': lambda k: int(k[1:]), 't': lambda k: k[0], 'f': int}


def stored(x, how, **kw):
    if how == 0:
        return pointless.Pointless(pointless.serialize_to_bytearray(x, **kw)).GetRoot()
    if how == 1:
        pointless.serialize(x, 'f.map', **kw)
        p = pointless.Pointless('f.map')
        os.unlink('f.map')
        return p.GetRoot()
    return pointless.Pointless(pointless.serialize_to_bytearray([x, 7, {'x': x}], **kw)).GetRoot()[2]['x']


class Run:
    def __init__(self, rng):
        self.o, self.k, self.kk, self.rng = {}, {}, {}, rng

    def new(self, e):
        k, xs = e['k'], items(e['q'])
        if k == 'bits':
            return pointless.PointlessBitvector(sequence=[bool(x) for x in xs])
        if k == 'prim':
            return pointless.PointlessPrimVector(e['t'], sequence=map(float, xs) if e['t'] == 'f' else xs)
        if k == 'view':
            return stored(xs, e['how'])
        if k == 'str':
            return ''.join(map(chr, xs))
        self.kk[e['id']] = e['kk']
        ks = [KEY[e['kk']](x) for x in xs]
        order = list(range(len(ks)))
        if e.get('mix'):
            self.rng.shuffle(order)
        return {ks[i] for i in order} if k == 'set' else dict((ks[i], v[i]) for v in [items(e['v'])] for i in order)

    def item(self, i, j):
        x = self.o[i][j]
        return ord(x) if self.k[i] == 'str' else int(x)

    def do(self, e):
        op, i = e['op'], e['id']
        v, k = self.o[i], self.k[i]
        if op == 'len':
            return len(v)
        if op == 'get':
            return self.item(i, e['i'])
        if op in ('zpre', 'opre', 'zpost', 'opost', 'any'):
            return int(getattr(v, {'zpre': 'NumZeroPrefix', 'opre': 'NumOnePrefix', 'zpost': 'NumZeroPostfix', 'opost': 'NumOnePostfix', 'any': 'IsAnySet'}[op])())
        if op in ('max', 'min'):
            return int(getattr(v, op)())
        if op == 'find':
            x = KEY[self.kk[i]](e['x'])
            return int(x in v) if k == 'set' else int(v[x])
        if op == 'append':
            v.append(bool(e['x']) if k == 'bits' else e['x'])
        elif op == 'extend':
            (v.extend_true if e['x'] else v.extend_false)(e['n'])
        elif op == 'bulk':
            v.append_bulk(self.o[e['src']])
        elif op == 'pop':
            return int(v.pop())
        elif op == 'popn':
            v.pop_bulk(e['n'])
        elif op == 'set':
            v[e['i']] = bool(e['x']) if k in ('bits', 'vbits') else e['x']
        elif op == 'remove':
            v.remove(e['x'])
        elif op == 'slice':
            self.keep(e['dst'], v[e['lo']:e['hi']], k, i)
        elif op == 'store':
            self.keep(e['dst'], stored(v, e['how'], **({'normalize_bitvector': e['norm']} if 'norm' in e else {})), {'bits': 'vbits', 'prim': 'view'}.get(k, k), i)
        elif op == 'copy':
            self.keep(e['dst'], v.copy(), 'bits', i)
        elif op == 'sort':
            v.sort()
        elif op == 'proj':
            v.sort_proj(self.o[e['src']])
        elif op == 'type':
            return v.typecode
        else:
            raise AssertionError(op)
        return 0

    def keep(self, d, v, k, i):
        self.o[d], self.k[d] = v, k
        if i in self.kk:
            self.kk[d] = self.kk[i]

    def step(self, e):
        e = dict(e)
        op = e['op']
        if op == 'new':
            self.o[e['id']], self.k[e['id']] = self.new(e), e['k']
        elif op == 'drop':
            del self.o[e['id']], self.k[e['id']]
        elif op == 'all':
            v = self.o[e['id']]
            e['xs'] = [ord(c) for c in v] if self.k[e['id']] == 'str' else [int(x) for x in (reversed(v) if e.get('back') else v)]
            if e.get('back'):
                e['xs'].reverse()
        elif op == 'runs':
            xs, n, b = [], 0, 0
            for x in self.o[e['id']]:
                if x != b:
                    xs.append(n)
                    n, b = 0, x
                n += 1
            e['xs'] = xs + [n]
        elif op == 'pairs':
            v, u = self.o[e['id']], UNKEY[self.kk[e['id']]]
            if self.k[e['id']] == 'set':
                e['xs'], e['ys'] = sorted(map(u, v)), []
            else:
                p = sorted((u(k), int(x)) for k, x in (v.items() if e['how'] == 0 else zip(v.keys(), v.values()) if e['how'] == 1 else ((k, v[k]) for k in v)))
                e['xs'], e['ys'] = [x for x, _ in p], [y for _, y in p]
        elif op == 'type':
            e['res'] = self.do(e)
        else:
            try:
                e['res'] = {'k': 'ok', 'v': self.do(e)}
            except AssertionError:
                raise
            except Exception:
                e['res'] = {'k': 'exc', 'v': 0}
        e['post'] = {}
        for i, v in self.o.items():
            if self.k[i] in ('map', 'set'):
                e['post'][i] = {'n': len(v), 'ps': [], 'vs': []}
                continue
            n = len(v)
            ps = sorted({p for p in [0, 1, n // 2, n - 2, n - 1, 255, 256, 32767, 32768, 65535, 65536] + [self.rng.randrange(n) for _ in range(6) if n] + e.get('near', []) if 0 <= p < n})
            e['post'][i] = {'n': n, 'ps': ps, 'vs': [self.item(i, p) for p in ps]}
        emit(e)


def run_case(case):
    r = Run(random.Random(case['seed']))
    emit({'op': 'reset'})
    for e in case['ops']:
        r.step(e)


loop(run_case)
