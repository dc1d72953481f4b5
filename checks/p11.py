"""P11: vectors behave as immutable sequences, slices included."""
import base64
import large
import random
import gen
import image
import vlib
from drv_enc import wint, unwint, f64

RELS = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']
PT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f']


def I(n):
    return {'k': 'int', 'w': wint(n)}


def F(x):
    return {'k': 'flt', 'f': gen.f32(x)}


FL = [0.0, -0.0, 1.0, -1.0, 0.5, 2.5, 255.0, 16777216.0, float("inf"), float("-inf"), 1e30, 1e-40, -2.5, 100.0]
S = lambda s: {'k': 'str', 'c': [ord(c) for c in s]}  # noqa: E731
LEAVES = [{'k': 'none'}, {'k': 'bool', 'v': 0}, {'k': 'bool', 'v': 1}, S(''), S('a'), S('ab'), S('b'), S('\xe9'), S('\u20ac'), S('\U0001f600'), {'k': 'bits', 'b': []}, {'k': 'bits', 'b': [1, 0]},
          {'k': 'bits', 'b': [0, 1] * 20}, I(0), I(1), I(-1), I(2**31), I(2**32 - 1), I(-2**31), F(1.0), F(0.5), F(-2.5)]


def leaf(rng):
    r = rng.random()
    if r < 0.6:
        return rng.choice(LEAVES)
    return I(rng.randint(-3, 3)) if r < 0.85 else F(rng.choice(FL))


def pitem(rng, t):
    if t == 'f':
        return F(float('nan')) if rng.random() < 0.03 else F(rng.choice(FL))
    lo, hi = gen.LIM[t]
    r = rng.random()
    return I(rng.choice([lo, hi, lo + 1, hi - 1]) if r < 0.25 else rng.randint(max(lo, -5), 5) if r < 0.7 else rng.randint(lo, hi))


def item(rng, d=2):
    r = rng.random()
    if d and r < 0.2:
        return {'k': 'seq', 'xs': [item(rng, d - 1) for _ in range(rng.randint(0, 3))]}
    if r < 0.24:
        return {'k': 'con'}
    return leaf(rng)


def graph_of(xs):
    """Graph of the list of these trees, for the other writer."""
    n = [None]

    def add(x):
        k = x['k']
        if k == 'seq':
            i = len(n)
            n.append(None)
            n[i] = {'k': 'list', 'ch': [add(y) for y in x['xs']]}
            return i + 1
        if k == 'con':
            n.append(I(3))
            n.append({'k': 'set', 'ch': [len(n)]})
            return len(n)
        n.append({'k': 'flt', 'd': f64(image.bitsf32(x['f'][0] << 16 | x['f'][1]))} if k == 'flt' else x)
        return len(n)
    n[0] = {'k': 'list', 'ch': [add(x) for x in xs]}
    return {'n': n, 'r': 1}


def contents(rng, n, kind=None):
    """(how it is written, type, items)"""
    kind = kind or rng.choice(PT + ['v', 'v', 'v', 'ints', 'floats', 'img', 'img'])
    if kind in PT:
        return {'as': 'prim', 'pt': kind, 'xs': [pitem(rng, kind) for _ in range(n)]}
    if kind == 'ints':
        t = rng.choice(['i8', 'u8', 'i16', 'u16', 'i32', 'u32'])
        return {'as': 'list', 'xs': [pitem(rng, t) for _ in range(n)]}
    if kind == 'floats':
        return {'as': 'list', 'xs': [pitem(rng, 'f') for _ in range(n)]}
    xs = [item(rng) for _ in range(n)]
    if kind == 'img':
        if rng.random() < 0.5:
            t = rng.choice(PT[:6] + ['f'])
            xs = [pitem(rng, t) for _ in range(n)]
        g = graph_of(xs)
        if any(x['k'] == 'flt' and (x['f'][0] & 0x7f80) == 0x7f80 and (x['f'][0] & 0x7f or x['f'][1]) for x in xs):
            return {'as': 'list', 'xs': xs}
        return {'as': 'img', 'xs': xs, 'file': base64.b64encode(image.Image(g, rng).bytes).decode()}
    return {'as': 'list', 'xs': xs}


def needle(rng, xs):
    """Something to look for."""
    r = rng.random()
    if r < 0.08:
        return [], rng.randint(0, 6)
    if r < 0.6 and xs:
        x = rng.choice(xs)
        if has_con(x):
            x = I(1)
        if x['k'] == 'int' and rng.random() < 0.3:
            m = gen.alias(rng, unwint(x['w']))
            x = I(m) if m >= -2**63 else x
        elif x['k'] == 'int' and rng.random() < 0.2:
            v = (-1 if x['w'][0] else 1) * (x['w'][3] << 16 | x['w'][4])
            if x['w'][1] == x['w'][2] == 0 and abs(v) < 1 << 24:
                x = F(float(v))
        return [x], rng.randint(0, 3)
    x = item(rng)
    return [I(1) if has_con(x) else x], rng.randint(0, 3)


def has_con(x):
    return x['k'] == 'con' or (x['k'] == 'seq' and any(map(has_con, x['xs'])))


def random_case(rng, size, maxlen):
    ops, live, iters = [], {}, set()
    k = [0]

    def name(p):
        k[0] += 1
        return '%s%d' % (p, k[0])

    def new():
        i = name('v')
        c = contents(rng, rng.choice([0, 1, 2, 3, 5, maxlen]))
        if live and rng.random() < 0.4:         # much like another one
            o = rng.choice(list(live))
            c = {kk: x for kk, x in live[o].items()}
            if c['as'] == 'list' and c['xs'] and rng.random() < 0.5:
                c['xs'] = list(c['xs'])
                c['xs'][rng.randrange(len(c['xs']))] = item(rng)
        live[i] = c
        ops.append(dict(c, op='open', id=i, where=rng.randint(0, 3)))
    new()
    for _ in range(size):
        i = rng.choice(list(live))
        o = rng.choice(['slice'] * 6 + ['get'] * 4 + ['len', 'list', 'reversed', 'set', 'del', 'badkey', 'hash', 'bufwrite', 'contains', 'contains', 'contains', 'rel', 'rel', 'rel', 'foreign',
                       'typecode', 'min', 'max', 'range', 'bisect', 'bisect', 'buffer', 'iter', 'next', 'next', 'next', 'drop', 'drop', 'new', 'add'])
        L = lambda: [] if rng.random() < 0.25 else [rng.choice([rng.randint(-maxlen - 1, maxlen + 1), rng.randint(-3, 3), 10**9, -10**9])]  # noqa: E731
        if o == 'slice':
            if len(live) < 6:
                e = {'op': o, 'id': i, 'dst': name('v'), 'lo': L(), 'hi': L(), 'step': rng.choice([1, 1, 1, 1, 1, 2, -1]), 'how': rng.randint(0, 1)}
                ops.append(e)
                if e['step'] == 1:
                    live[e['dst']] = live[i]
        elif o == 'get':
            ops.append({'op': o, 'id': i, 'i': rng.choice([0, -1, 1, -2, rng.randint(-maxlen - 1, maxlen + 1), 10**9, -10**9])})
        elif o == 'contains':
            x, how = needle(rng, live[i]['xs'])
            ops.append({'op': o, 'id': i, 'x': x, 'how': how})
        elif o == 'rel':
            ops.append({'op': o, 'id': i, 'src': rng.choice(list(live)), 'rel': rng.choice(RELS)})
        elif o == 'foreign':
            ops.append({'op': o, 'id': i, 'rel': rng.choice(['eq', 'ne']), 'how': rng.randint(0, 5), 'swap': rng.randint(0, 1)})
        elif o == 'bisect':
            xs = live[i]['xs']
            if live[i].get('pt') == 'u64' and any(a['w'][1:] > b['w'][1:] for a, b in zip(xs, xs[1:])):
                continue
            ops.append({'op': o, 'id': i, 'x': rng.choice([[], wint(0), wint(5), wint(2**64 - 1), wint(-1), wint(rng.randint(0, 2**64 - 1))] + [x['w'] for x in xs[:1] if 'w' in x]), 'how': rng.randint(0, 4)})
        elif o == 'iter':
            it = name('i')
            iters.add(it)
            ops.append({'op': o, 'id': i, 'it': it, 'rev': rng.random() < 0.5})
        elif o == 'next':
            if iters:
                ops.append({'op': o, 'it': rng.choice(sorted(iters))})
        elif o == 'drop':
            if len(live) > 1:
                ops.append({'op': o, 'id': i})
                del live[i]
        elif o == 'new':
            if len(live) < 5:
                new()
        elif o == 'add':
            ops.append({'op': o, 'id': i})
        else:
            ops.append({'op': o, 'id': i, 'how': rng.randint(0, 11) if o == 'badkey' else rng.randint(0, 1)})
    return {'ops': ops}


def sorted_case(rng):
    """bisect_left in sorted vectors and their slices."""
    n = rng.choice([0, 1, 2, 3, 8, 17])
    vals = sorted(rng.choice([rng.randint(0, 20), rng.randint(0, 2**64 - 1), 2**63, 2**63 - 1, 2**64 - 1, 0]) for _ in range(n))
    ops = [{'op': 'open', 'id': 'a', 'as': 'prim', 'pt': 'u64', 'xs': [I(v) for v in vals], 'where': rng.randint(0, 3)},
           {'op': 'slice', 'id': 'a', 'dst': 'b', 'lo': [rng.randint(0, n)], 'hi': [rng.randint(0, n)], 'step': 1},
           {'op': 'slice', 'id': 'b', 'dst': 'c', 'lo': [1], 'hi': [], 'step': 1}]
    for _ in range(10):
        v = rng.choice(vals) if vals and rng.random() < 0.6 else rng.randint(0, 25)
        v = max(0, min(2**64 - 1, v + rng.randint(-1, 1)))
        ops.append({'op': 'bisect', 'id': rng.choice('abc'), 'x': wint(v)})
    return {'ops': ops}


def replace(b, rng, kind, n):
    """The behaviour with other items."""
    c = contents(rng, n, kind)
    while kind == 'u64' and any(x['w'][1:] > y['w'][1:] for x, y in zip(c['xs'], c['xs'][1:])):
        c['xs'].sort(key=lambda x: x['w'][1:])
    m = {i + 1: x for i, x in enumerate(c['xs'])}
    ops = []
    for e in b:
        e = dict(e)
        if e['op'] == 'open':
            e = dict(c, op='open', id='a', where=rng.randint(0, 3))
        elif e['op'] == 'contains':
            x = m.get(e['x'][0]['w'][4]) or (pitem(rng, kind) if kind in PT else item(rng))
            e['x'] = [I(1) if has_con(x) else x]
            e['how'] = rng.randint(0, 3)
        elif e['op'] == 'bisect':
            x = m.get(e['x'][4])
            e['x'] = x['w'] if x and 'w' in x else wint(rng.randint(0, 2**64 - 1))
        elif e['op'] in ('badkey', 'list', 'slice'):
            e['how'] = rng.randint(0, 11)
        ops.append(e)
    return {'ops': ops}


def run(chk):
    chk.build('asan')
    rng = random.Random(chk.seed)
    cases = []
    kinds = PT + ['v', 'ints', 'floats', 'img']
    for cfg, n, cap in (('ViewGen', 3, 1000 if chk.quick else 20000), ('ViewGen2', 3, 700 if chk.quick else 20000)) + ((('ViewGen4', 4, 20000),) if not chk.quick else ()):
        t = chk.explore('ViewGen', cfg)
        bs, total = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(behaviours=total, replayed=len(bs))
        for j, b in enumerate(bs):
            cases.append(replace(b, rng, kinds[j % len(kinds)], n))
    for i in range(400 if chk.quick else 10000):
        cases.append(random_case(rng, 30, 8 if i % 5 else 40))
    for i in range(60 if chk.quick else 1500):
        cases.append(sorted_case(rng))
    evs = vlib.standard(chk, 'view.py', 'ViewTrace', cases, describe=lambda c, e: 'vector: %s' % vlib.brief(e))
    vlib.outcomes(chk, evs, ['open', 'slice', 'contains', 'bisect', 'buffer', 'range', 'rel', 'next'])
    large.run(chk, 'view')
