"""P09: any file is either refused or safe and consistent to read."""
import base64
import random
import gen
import image
import vlib


def seeds(rng):
    """Small graphs with every kind of field."""
    I, S_ = gen.INT, gen.STR
    gs = []

    def g(*nodes):
        gs.append({'n': list(nodes), 'r': 1})
    g({'k': 'list', 'ch': [2, 3, 4]}, {'k': 'none'}, S_('ab'), {'k': 'bits', 'b': [1, 0, 1]})
    g({'k': 'map', 'ks': [2, 3, 4], 'vs': [5, 6, 1]}, I(1), S_('k'), {'k': 'tup', 'ch': [2, 7]}, {'k': 'list', 'ch': [2, 7]}, {'k': 'set', 'ch': [7]}, {'k': 'none'})
    g({'k': 'set', 'ch': [2, 3]}, {'k': 'tup', 'ch': [4, 3]}, I(7), {'k': 'tup', 'ch': [3, 5]}, {'k': 'flt', 'd': gen.FLT(1.5)['d']})
    g({'k': 'list', 'ch': [2, 3]}, {'k': 'list', 'ch': [1, 4]}, {'k': 'map', 'ks': [], 'vs': []}, {'k': 'bool', 'v': 1})
    g({'k': 'list', 'ch': [2, 3, 4, 5]}, gen.rprim(rng), {'k': 'bits', 'b': [i % 3 % 2 for i in range(43)]}, S_('\u20acx'), {'k': 'list', 'ch': []})
    return gs


def dags():
    """Each of 60 tuples holds the next one twice."""
    n = 60
    keep = image.Image.hash
    memo = {}

    def once(self, i):
        if i not in memo:
            memo[i] = keep(self, i)
        return memo[i]
    image.Image.hash = once
    try:
        chain = [{'k': 'tup', 'ch': [i + 3, i + 3]} for i in range(n)] + [{'k': 'none'}]
        key = image.Image({'n': [{'k': 'set', 'ch': [2]}] + chain, 'r': 1}, random.Random(0), plain=True)
        lst = image.Image({'n': [{'k': 'list', 'ch': [2]}] + chain, 'r': 1}, random.Random(0), plain=True)
    finally:
        image.Image.hash = keep
    return [('open-dag-key', 'opening a file with a key of tuples which hold each other twice, 60 deep, does not end', key.bytes),
            ('hash-dag-list', 'is_hashable of a vector of vectors which hold each other twice, 60 deep, does not end', lst.bytes)]


def run(chk):
    chk.build('asan')
    ds = dags()
    dev = chk.drive('format.py', [{'bs': [base64.b64encode(b).decode()]} for _, _, b in ds], case_timeout=8)
    for (key, what, b), ev in zip(ds, dev):
        if ev and ev[-1]['op'] == 'crash':
            chk.violation(what + ': ' + ev[-1]['what'], {'file': base64.b64encode(b).decode(), 'event': ev[-1]}, key=key if ev[-1]['what'] == 'hang' else None)
    rng = random.Random(chk.seed)
    cases = []

    def add(g, muts):
        cases.append({'g': g, 'bs': [base64.b64encode(m[1]).decode() for m in muts], 'what': [m[0] for m in muts]})
    for g in seeds(rng):
        img = image.Image(g, rng, plain=True)
        add(g, [('as it is', img.bytes)])
        ms = image.systematic(img)
        if chk.quick:
            ms = [ms[i] for i in sorted(rng.sample(range(len(ms)), min(len(ms), 600)))]
        ms += image.structural(g, rng)
        for at in range(0, len(ms), 60):
            add(g, ms[at:at + 60])
    # tables with equal keys, or keys that are equal to none
    F, I, S_ = gen.FLT, gen.INT, gen.STR
    for ks in ([I(1), F(1.0)], [I(1), {'k': 'bool', 'v': 1}], [I(7), I(7), I(8)], [S_('a'), S_('a')], [F(float('nan'))], [I(3), F(float('nan')), I(4)],
               [{'k': 'bits', 'b': [1, 0]}, {'k': 'bits', 'b': [1, 0]}], [{'k': 'prim', 't': 'i8', 'xs': [[0, 0, 0, 0, 5]]}, {'k': 'prim', 't': 'u32', 'xs': [[0, 0, 0, 0, 5]]}],
               [{'k': 'none'}, {'k': 'none'}], [{'k': 'none'}, {'k': 'bool', 'v': 0}, I(0)]):
        n = len(ks)
        for g in ({'n': [{'k': 'set', 'ch': list(range(2, n + 2))}] + ks, 'r': 1}, {'n': [{'k': 'map', 'ks': list(range(2, n + 2)), 'vs': [2] * n}] + ks, 'r': 1}):
            add(g, [('as it is', image.Image(g, rng, plain=p).bytes) for p in (True, False, False)])
    # tiny files, garbage
    add({}, [('zeros', bytes(n)) for n in (0, 1, 31, 32, 33, 40)] + [('garbage', bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 90)))) for _ in range(20)]
        + [('header', bytes(28) + b'\2\0\0\0' + bytes(rng.randint(0, 3) for _ in range(40))) for _ in range(20)])
    for _ in range(90 if chk.quick else 3000):
        g = gen.container_graph(rng, rng.choice([1, 2, 2, 3]))
        if len(g['n']) > 40:
            continue
        img = image.Image(g, rng, plain=rng.random() < 0.3)
        add(g, [('as it is', img.bytes)] + image.mutations(img, rng, 16 if chk.quick else 40))
    evs = vlib.standard(chk, 'format.py', 'FormatTrace', cases, case_timeout=40,
                        describe=lambda c, e: '%s: %s' % (vlib.brief({k: v for k, v in c.items() if k != 'bs'}, 500), vlib.brief(e, 600)),
                        weight=lambda c: sum(len(e.get('b', [])) + 50 for e in c))
    vlib.outcomes(chk, evs, ['open'])
    n = {}
    for c in evs:
        for e in c:
            if e['op'] == 'open':
                k = e['res'] + '/' + e['acc']
                n[k] = n.get(k, 0) + 1
    chk.cov['outcomes'] = n
