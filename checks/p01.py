"""P01: what is serialized reads back as the same values."""
import large
import random
import gen
import storelib


def run(chk):
    chk.build('asan')
    cases = storelib.enumerated(chk, 'StoreGen', cap=600 if chk.quick else 5000)
    rng = random.Random(chk.seed)
    n = 2500 if chk.quick else 40000
    for i in range(n):
        cases.append({'g': gen.container_graph(rng, rng.choice([1, 2, 3, 4])), 'opts': storelib.opts(rng)})
    # leaves as roots, strings and bits of many shapes, larger containers
    for i in range(n // 8):
        cases.append({'g': {'n': [rng.choice([gen.rleaf, gen.rstr, gen.rbits, gen.rprim])(rng)], 'r': 1}, 'opts': storelib.opts(rng)})
    for i in range(n // 40):
        g = gen.G(rng)
        a = {'k': 'set', 'ch': []} if i % 2 else {'k': 'map', 'ks': [], 'vs': []}
        r = g.add(a)
        ks = g.keys(rng.choice([20, 40, 90]))
        if i % 2:
            a['ch'] = ks
        else:
            a['ks'] = ks
            a['vs'] = [g.add(gen.rleaf(rng)) for _ in ks]
        cases.append({'g': {'n': g.n, 'r': r}, 'opts': storelib.opts(rng)})
    storelib.judge(chk, cases, 'values')
    large.run(chk, 'view', 'text')
