"""P18: C lookups and expressions select the addressed value."""
import base64
import random
import gen
import image
import vlib
from p16 import small

LONG = ['key', 'a', 'b', 'aa', 'ab', 'x', '\xff', '\xe9\x80', '\u0100', '\u0100a', '\U00010000', '']


def keyed_map(g, rng, depth, n):
    """a map with integers and strings as keys, mostly"""
    a = {'k': 'map', 'ks': [], 'vs': []}
    i = g.add(a)
    seen = set()
    for _ in range(n):
        r = rng.random()
        if r < 0.45:
            k = g.add(gen.INT(rng.choice([rng.randint(-3, 12), gen.rint(rng), gen.rint(rng)])))
        elif r < 0.85:
            k = g.add(gen.STR(rng.choice(LONG)) if rng.random() < 0.6 else gen.rstr(rng))
        else:
            k = g.key(1)
        c = g.canon(k)
        if c in seen:
            continue
        seen.add(c)
        a['ks'].append(k)
        a['vs'].append(value(g, rng, depth - 1))
    return i


def value(g, rng, depth):
    r = rng.random()
    if depth <= 0 or r < 0.3:
        return g.add(rng.choice([gen.rleaf, gen.rleaf, gen.rprim, gen.rbits])(rng))
    if r < 0.65:
        return keyed_map(g, rng, depth, rng.choice([0, 1, 2, 3, 5, 9]))
    if r < 0.75:
        xs = gen.number_list(rng)
        a = {'k': 'list', 'ch': []}
        i = g.add(a)
        a['ch'] = [g.add(x) for x in xs]
        return i
    if r < 0.85:
        return g.add({'k': 'set', 'ch': g.keys(rng.choice([0, 1, 2, 3, 5, 8]))})
    a = {'k': rng.choice(['list', 'list', 'tup']), 'ch': []}
    i = g.add(a)
    a['ch'] = [value(g, rng, depth - 1) for _ in range(rng.choice([0, 1, 2, 3]))]
    return i


def file_graph(rng):
    for _ in range(100):
        g = gen.G(rng)
        r = value(g, rng, rng.choice([2, 3, 4]))
        if len(g.n) <= 40 and g.n[r - 1]['k'] in ('map', 'list', 'tup', 'prim', 'bits', 'set'):
            break
    return {'n': g.n, 'r': r}


def twins(rng):
    """sets and maps with almost the same keys"""
    g = gen.G(rng)
    ks = g.keys(rng.choice([0, 1, 2, 4, 6]))
    r = {'k': 'list', 'ch': []}
    g.add(r)
    for _ in range(rng.choice([2, 3])):
        mine = list(ks)
        rng.shuffle(mine)
        if mine and rng.random() < 0.4:
            mine.pop()
        if rng.random() < 0.3:
            k = g.key(1)
            if all(g.canon(k) != g.canon(x) for x in mine):
                mine.append(k)
        if rng.random() < 0.3:      # the same numbers otherwise
            for j, k in enumerate(mine):
                a = g.n[k - 1]
                if a['k'] == 'int' and a['w'][1:4] == [0, 0, 0] and a['w'][4] < 9:
                    x = -a['w'][4] if a['w'][0] else a['w'][4]
                    mine[j] = g.add(gen.FLT(float(x)) if rng.random() < 0.6 or x not in (0, 1) else {'k': 'bool', 'v': x})
        if rng.random() < 0.5:
            r['ch'].append(g.add({'k': 'set', 'ch': mine}))
        else:
            r['ch'].append(g.add({'k': 'map', 'ks': mine, 'vs': [r['ch'][-1] if r['ch'] else 1 if False else mine[0] for _ in mine]}))
    return {'n': g.n, 'r': g.n.index(r) + 1}


# the file of EvalGen
_S, _I = gen.STR, gen.INT
FILE = {'r': 1, 'n': [{'k': 'map', 'ks': [2, 4, 5], 'vs': [3, 6, 7]}, _S(''), _I(5), _S('a'), _I(1), {'k': 'list', 'ch': [8, 9]}, {'k': 'list', 'ch': [10, 11]},
                      {'k': 'map', 'ks': [12, 13], 'vs': [14, 15]}, {'k': 'list', 'ch': [5, 16]}, {'k': 'bool', 'v': 1}, {'k': 'none'}, _I(0), _I(-1),
                      {'k': 'bits', 'b': [1, 0]}, _S('x'), _I(2)]}


def run(chk):
    chk.build('asan')
    rng = random.Random(chk.seed)
    cases = []
    t = chk.explore('EvalGen', 'EvalGen')
    es, n = vlib.behaviours(t, 3000 if chk.quick else 20000, chk.seed)
    chk.cov['specs']['EvalGen'].update(expressions=n, replayed=len(es))
    for i in range(0, len(es), 50):
        cases.append({'g': FILE, 'exprs': es[i:i + 50], 'seed': i})
    for i in range(1500 if chk.quick else 40000):
        r = rng.random()
        g = file_graph(rng) if r < 0.75 else twins(rng) if r < 0.9 else small(lambda: gen.container_graph(rng, 3), rng, 40)
        c = {'g': g, 'evals': 8, 'lookups': 2, 'seed': rng.randint(0, 2**30)}
        if rng.random() < 0.3:
            c['o'] = {'unwiden_strings': rng.random() < 0.5, 'normalize_bitvector': rng.random() < 0.5}
        if rng.random() < 0.4:
            c['b'] = base64.b64encode(image.Image(g, rng).bytes).decode()
        cases.append(c)
    evs = vlib.standard(chk, 'eval.py', 'EvalTrace', cases, env=chk.clib('eval.c'), case_timeout=60,
                        weight=lambda c: 5 + 2 * len(c),
                        describe=lambda c, e: 'lookup %s: %s' % (bytes(e.get('e', [])), vlib.brief(e, 1500)))
    vlib.outcomes(chk, evs, ['file', 'eval', 'string', 'int', 'key', 'samekeys'])
    n = {}
    for c in evs:
        for e in c:
            for o in e.get('as', ()):
                k = '%s.%s:%s' % (e['op'], o['f'], 'found' if o['ok'] else 'not')
                n[k] = n.get(k, 0) + 1
            if e['op'] in ('eval', 'int', 'key', 'samekeys'):
                k = '%s:%s' % (e['op'], 'found' if e.get('ok', e.get('in')) else 'not')
                n[k] = n.get(k, 0) + 1
    chk.cov['found'] = n
