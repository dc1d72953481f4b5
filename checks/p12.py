"""P12: bitvectors behave as sequences of bits."""
import base64
import large
import random
import image
import vlib

O = ['append'] * 4 + ['extend'] * 4 + ['append_bulk'] * 3 + ['pop'] * 3 + ['set'] * 5 + ['get'] * 3 + ['copy', 'copy', 'store', 'store', 'store', 'new', 'drop', 'drop', 'reinit', 'badnew', 'del', 'badarg', 'badarg',
     'len', 'zpre', 'opre', 'zpost', 'opost', 'any', 'any', 'text', 'rel', 'rel', 'rel', 'foreign', 'hash', 'iter', 'next', 'next', 'next']
RELS = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']
LENS = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 26, 27, 28, 29, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]


def arg(rng):
    r = rng.random()
    if r < 0.5:
        return {'k': 'b', 'n': rng.randint(0, 1)}
    if r < 0.85:
        return {'k': 'i', 'n': rng.choice([0, 1, 0, 1, 0, 1, 2, -1, 255])}
    return {'k': 'o', 'o': rng.randint(0, 9)}


def bits(rng, n):
    m = rng.randint(0, 5)
    k = rng.randint(0, n)
    if m == 0:
        b = [0] * n
    elif m == 1:
        b = [1] * n
    elif m == 2:
        b = [0] * k + [1] * (n - k)
    elif m == 3:
        b = [1] * k + [0] * (n - k)
    elif m == 4:
        b = [0] * n
        if n:
            b[rng.randrange(n)] = 1
    else:
        b = [rng.randint(0, 1) for _ in range(n)]
    return [{'k': rng.choice('bi'), 'n': x} for x in b]


def random_case(rng, size, maxlen):
    ops, live, iters = [], {}, {}
    k = [0]

    def name(p):
        k[0] += 1
        return '%s%d' % (p, k[0])

    def make(op, i):
        h = rng.random()
        e = {'op': op, 'id': i, 'show': rng.random() < 0.85}
        if h < 0.2:
            e.update(how='none')
        elif h < 0.4:
            e.update(how='size', n=rng.choice([x for x in LENS if x <= maxlen]), pos=rng.randint(0, 1))
        elif h < 0.95 or op == 'reinit':
            e.update(how='seq', xs=bits(rng, rng.choice([x for x in LENS if x <= maxlen])))
            e['as'] = rng.randint(0, 3)
            if op == 'reinit' and rng.random() < 0.3:
                e['xs'].append({'k': 'o', 'o': rng.randint(0, 9)})
        else:
            e.update(how='bad', bad=rng.randint(0, 10))
        return e

    def new():
        e = make('new', name('v'))
        ops.append(e)
        if e['how'] != 'bad':
            live[e['id']] = False
    while not live:
        new()
    for _ in range(size):
        i = rng.choice(list(live))
        o = rng.choice(O)
        if o in ('append', 'set'):
            e = {'op': o, 'id': i, 'x': {'k': 'b', 'n': rng.randint(0, 1)} if rng.random() < 0.7 else arg(rng)}
            if o == 'set':
                e['i'] = rng.choice([0, -1, 1, 5, 7, 8, 9, 31, 32, -8, 63, 1000, -1000, 2**31 - 1, -2**31])
            ops.append(e)
        elif o == 'extend':
            ops.append({'op': o, 'id': i, 'bit': rng.randint(0, 1), 'n': rng.choice([0, 1, 2, 7, 8, 9, 17, 33, -1])})
        elif o in ('append_bulk', 'rel'):
            j = rng.choice(list(live))
            if o == 'append_bulk' and (sum(1 for x in ops if x['op'] == o) > 8):
                continue
            e = {'op': o, 'id': i, 'src': j}
            if o == 'rel':
                e['rel'] = rng.choice(RELS)
            ops.append(e)
        elif o == 'pop':
            for _ in range(rng.choice([1, 1, 2, 9])):
                ops.append({'op': o, 'id': i})
        elif o == 'get':
            ops.append({'op': o, 'id': i, 'i': rng.choice([0, -1, 1, 5, 7, 8, 9, 31, 32, -8, 63, 1000, -1000])})
        elif o in ('copy', 'store'):
            if len(live) < 6:
                d = name('v')
                e = {'op': o, 'id': i, 'dst': d}
                if o == 'store':
                    e.update(norm=rng.random() < 0.6, how=rng.randint(0, 3))
                ops.append(e)
                live[d] = True
        elif o == 'new':
            if len(live) < 5:
                new()
        elif o == 'badnew':
            ops.append({'op': 'new', 'id': 'bad', 'show': True, 'how': 'bad', 'bad': rng.randint(0, 10)})
        elif o == 'drop':
            if len(live) > 1 and i not in iters.values():
                ops.append({'op': o, 'id': i})
                del live[i]
        elif o == 'reinit':
            if rng.random() < 0.4:
                ops.append(make('reinit', i))
        elif o == 'badarg':
            ops.append({'op': o, 'id': i, 'how': rng.randint(0, 15)})
        elif o == 'foreign':
            ops.append({'op': o, 'id': i, 'rel': rng.choice(['eq', 'ne']), 'how': rng.randint(0, 5), 'swap': rng.randint(0, 1)})
        elif o == 'iter':
            it = name('i')
            iters[it] = i
            ops.append({'op': o, 'id': i, 'it': it})
        elif o == 'next':
            if iters:
                it = rng.choice(list(iters))
                if iters[it] in live:
                    ops.append({'op': o, 'it': it})
        elif o == 'text':
            ops.append({'op': o, 'id': i, 'how': rng.randint(0, 1)})
        else:
            ops.append({'op': o, 'id': i})
    return {'ops': ops}


def pattern_case(rng, bs):
    """One pattern of bits: in memory, in both encodings, and everything that reads it."""
    ops = [{'op': 'new', 'id': 'm', 'how': 'seq', 'show': True, 'xs': bs},
           {'op': 'store', 'id': 'm', 'dst': 'n', 'norm': True, 'how': rng.randint(0, 3)}, {'op': 'store', 'id': 'm', 'dst': 'p', 'norm': False, 'how': rng.randint(0, 3)},
           {'op': 'copy', 'id': rng.choice('mnp'), 'dst': 'c'}, {'op': 'store', 'id': rng.choice('np'), 'dst': 'q', 'norm': rng.random() < .5, 'how': 0}]
    for i in 'mnpcq':
        for o in ('len', 'zpre', 'opre', 'zpost', 'opost', 'any', 'text'):
            ops.append({'op': o, 'id': i})
        n = len(bs)
        for x in {0, n - 1, n, -n, -n - 1, n // 2}:
            ops.append({'op': 'get', 'id': i, 'i': x})
        ops.append({'op': 'rel', 'id': i, 'src': rng.choice('mnpcq'), 'rel': rng.choice(RELS)})
    ops.append({'op': 'hash', 'id': 'm'})
    for i in 'npq':
        ops.append(rng.choice([{'op': 'append', 'id': i, 'x': {'k': 'b', 'n': 1}}, {'op': 'pop', 'id': i}, {'op': 'set', 'id': i, 'i': 0, 'x': {'k': 'b', 'n': 1}}, {'op': 'extend', 'id': i, 'bit': 1, 'n': 3},
                               {'op': 'append_bulk', 'id': i, 'src': 'm'}]))
    seen = set()
    for k in range(8):
        f = base64.b64encode(image.Image({'n': [{'k': 'bits', 'b': [x['n'] for x in bs]}], 'r': 1}, rng).bytes).decode()
        if f in seen or len(seen) > 3:
            continue
        seen.add(f)
        ops.append({'op': 'load', 'dst': 'f%d' % k, 'bits': [x['n'] for x in bs], 'file': f})
        for o in ('len', 'zpre', 'opre', 'zpost', 'opost', 'any', 'text'):
            ops.append({'op': o, 'id': 'f%d' % k})
        ops.append({'op': 'rel', 'id': 'f%d' % k, 'src': rng.choice('mnpcq'), 'rel': rng.choice(RELS)})
    ops.append({'op': 'hash', 'id': 'm'})
    if seen:
        ops += [{'op': 'copy', 'id': 'f0', 'dst': 'd'}, {'op': 'any', 'id': 'd'}, {'op': 'store', 'id': 'f0', 'dst': 'e', 'norm': rng.random() < .5, 'how': 0}, {'op': 'any', 'id': 'e'}]
    ops += [{'op': 'set', 'id': 'c', 'i': 0, 'x': {'k': 'b', 'n': 1}}, {'op': 'append_bulk', 'id': 'm', 'src': 'p'}, {'op': 'pop', 'id': 'm'}, {'op': 'append', 'id': 'm', 'x': {'k': 'b', 'n': 0}}, {'op': 'any', 'id': 'm'}]
    return {'ops': ops}


def run(chk):
    chk.build('asan')
    cases = []
    for cfg, cap in (('BitvectorGen', 900 if chk.quick else 20000), ('BitvectorGen2', 700 if chk.quick else 20000), ('BitvectorGen3', 300 if chk.quick else 20000)):
        t = chk.explore('BitvectorGen', cfg)
        bs, n = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(behaviours=n, replayed=len(bs))
        cases += [{'ops': b} for b in bs]
    rng = random.Random(chk.seed)
    for i in range(300 if chk.quick else 6000):
        cases.append(random_case(rng, 30, 40 if i % 4 else 300))
    # all patterns up to a length, and longer ones around word boundaries
    for n in range(0, 6 if chk.quick else 9):
        for m in range(1 << n):
            cases.append(pattern_case(rng, [{'k': 'b', 'n': m >> i & 1} for i in range(n)]))
    for n in LENS:
        for _ in range(2 if chk.quick else 40):
            cases.append(pattern_case(rng, bits(rng, n)))
    cases.append({'ops': [{'op': 'huge'}]})
    evs = vlib.standard(chk, 'bitvector.py', 'BitvectorTrace', cases, describe=lambda c, e: 'bitvector: %s' % vlib.brief(e), case_timeout=60)
    vlib.outcomes(chk, evs, ['store', 'any', 'hash', 'huge'])
    large.run(chk, 'bits', explore=True)
