"""P08: unsupported objects are rejected without side effects."""
import random
import gen
import vlib
from drv_enc import wint, f64
from gen import INT, FLT, STR

PAIRS = [(16777216.0, 16777217.0), (0.2, 0.20000000298023224), (1e-46, 0.0), (1e-46, 2e-46), (3.5e38, 1e300), (3.5e38, float('inf')), (1.0, 1.00000001)]


def spoil(rng, g):
    """Puts something that can not be stored, or a second key that is equal once stored, somewhere."""
    n = g['n']
    bad = rng.choice([{'k': 'bad', 'o': rng.choice(gen.BADS)}, INT(2**32), INT(-2**31 - 1), {'k': 'str', 'c': [97, 0, 98]}, INT(2**63)])
    conts = [a for a in n if a['k'] in ('list', 'tup', 'map', 'set', 'fset')]
    a = rng.choice(conts)
    m = rng.randint(0, 9)
    if m == 0:
        return
    if a['k'] in ('list', 'tup'):
        n.append(bad)
        a['ch'] = list(a['ch'])
        a['ch'].insert(rng.randint(0, len(a['ch'])), len(n))
        return
    keys = a['ks'] if a['k'] == 'map' else a['ch']
    used = {gen.G.canon(type('o', (), {'n': n})(), k) if False else k for k in keys}
    if m < 3 and a['k'] == 'map' and keys:
        n.append(bad)
        a['vs'] = list(a['vs'])
        a['vs'][rng.randrange(len(a['vs']))] = len(n)
        return
    new = []
    if m < 5:
        new = [bad]
    elif m < 8:
        x, y = rng.choice(PAIRS)
        new = [FLT(x), FLT(y)]
    elif m == 8:
        new = [FLT(float('nan'))]
    else:
        new = [{'k': 'prim', 't': 'u8', 'xs': [wint(7), wint(8)]}, {'k': 'prim', 't': rng.choice(['i8', 'u8', 'i16', 'i64', 'u64']), 'xs': [wint(7), wint(rng.choice([8, 9]))]}]
    h = gen.G(rng)
    h.n = n
    have = {h.canon(k) for k in keys if n[k - 1]['k'] not in ('bad',)}
    ks = list(keys)
    vs = list(a.get('vs', []))
    for b in new:
        n.append(b)
        if b['k'] != 'bad' and h.canon(len(n)) in have:
            continue
        at = rng.randint(0, len(ks))
        ks.insert(at, len(n))
        if a['k'] == 'map':
            vs.insert(at, rng.randint(1, len(n)))
            if not buildable_value(n, vs[at]):
                vs[at] = len(n)
    if a['k'] == 'map':
        a['ks'], a['vs'] = ks, vs
    else:
        a['ch'] = ks


def buildable_value(n, i):
    return n[i - 1]['k'] not in ('tup', 'fset')


def target(rng):
    c = {'how': rng.choice(['file', 'file', 'ba', 'buf'])}
    if c['how'] == 'file':
        c['name'] = rng.choice(['a.map', 'b.map'])
    if rng.random() < 0.3:
        c['unwiden'] = rng.random() < 0.5
    if rng.random() < 0.3:
        c['normalize'] = rng.random() < 0.5
    return c


def run(chk):
    chk.build('asan')
    rng = random.Random(chk.seed)
    calls = []
    for cfg, cap in (('AcceptGen', 1000),) if chk.quick else (('AcceptGen', 1000), ('AcceptGen2', 20000)):
        t = chk.explore('AcceptGen', cfg)
        gs, n = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(graphs=n, replayed=len(gs))
        calls += [dict(target(rng), g=g) for g in gs]
    for i in range(700 if chk.quick else 12000):
        g = gen.container_graph(rng, rng.choice([2, 3, 4]))
        spoil(rng, g)
        calls.append(dict(target(rng), g=g))
    for o in gen.BADS:
        calls.append(dict(target(rng), g={'n': [{'k': 'bad', 'o': o}], 'r': 1}))
    rng.shuffle(calls)
    cases = []
    while calls:
        k = rng.randint(2, 6)
        case = {'calls': calls[:k], 'files': []}
        calls = calls[k:]
        if rng.random() < 0.7:
            case['files'].append(['a.map', [rng.randint(0, 255) for _ in range(20)]])
        if rng.random() < 0.5:
            case['files'].append(['other', [1, 2, 3]])
        cases.append(case)
    # nesting
    for kinds in ('l', 't', 'm', 'lm', 'lt', 'M', 'lllm'):
        for n in (1, 2, 60, 120, 160, 250, 255, 256, 257, 300, 511, 512, 513, 600, 1000):
            cases.append({'calls': [dict(target(rng), nest=kinds, n=n), {'how': 'ba', 'g': {'n': [INT(1)], 'r': 1}}], 'heap': 1 if n % 2 else 0})
    std = dict(weight=lambda c: sum(4 + len(e.get('g', {'n': []})['n']) for e in c) * 4,
               describe=lambda c, e: 'serializer call: %s' % vlib.brief({k: v for k, v in e.items() if k != 'nest'}, 900))
    evs = vlib.standard(chk, 'calls.py', 'CallsTrace', cases, **std)
    # every allocation fails once
    cases = []
    ks = ('none', 'int', 'str', 'bits', 'prim', 'list', 'map', 'set', 'flt', 'tup')
    for i in range(16 if chk.quick else 150):
        g = gen.container_graph(rng, rng.choice([1, 2, 3]))
        how = ('file', 'ba', 'buf')[i % 3]
        for f in range(1, 90 if chk.quick else 200):
            c = {'how': how, 'g': g, 'fail': f}
            if how == 'file':
                c['name'] = 'a.map'
            cases.append({'calls': [c], 'files': [['a.map', [1, 2, 3]]]})
    evs2 = vlib.standard(chk, 'calls.py', 'CallsTrace', cases, env=chk.preload('fault.c'), **std)
    cov = {}
    for c in evs + evs2:
        for e in c:
            if e['op'] == 'call':
                k = '%s %s%s' % (e['how'], e['res'], ' (allocation failed)' if e['fail'] else '')
                cov[k] = cov.get(k, 0) + 1
    chk.cov['operations'] = cov
    chk.sample(event=evs[0][1] if len(evs[0]) > 1 else None)
