"""P16: what was read can be written again."""
import base64
import random
import gen
import image
import storelib
import vlib


def small(f, rng, limit):
    for _ in range(100):
        g = f()
        if len(g['n']) <= limit:
            return g
    return g


def plain_file(rng):
    """a graph which can be written"""
    while True:
        r = rng.random()
        if r < 0.45:
            g = small(lambda: gen.container_graph(rng, rng.choice([1, 2, 3])), rng, 30)
        elif r < 0.75:
            g = gen.digraph(rng, rng.choice([2, 3, 4, 5]))
        elif r < 0.8:       # many values of one kind
            f = rng.choice([gen.rstr, gen.rbits, gen.rprim, lambda q: gen.STR(''.join(chr(q.randint(0x100, 0x2000)) for _ in range(3)))])
            n = [{'k': 'list', 'ch': []}] + [f(rng) for _ in range(rng.randint(10, 40))]
            n[0]['ch'] = [rng.randint(2, len(n)) for _ in range(50)]
            g = {'n': n, 'r': 1}
        else:
            n = [{'k': 'list', 'ch': []}] + [rng.choice([gen.rleaf, gen.rstr, gen.rbits, gen.rprim, gen.rprim])(rng) for _ in range(rng.randint(1, 5))]
            n[0]['ch'] = list(range(2, len(n) + 1))
            g = {'n': n, 'r': 1}
        return g


def run(chk):
    chk.build('asan')
    rng = random.Random(chk.seed)
    cases = []
    for cfg, cap in (('RewriteGen', 250 if chk.quick else 1200), ('RewriteGen3', 100 if chk.quick else 400)):
        t = chk.explore('RewriteGen', cfg)
        gs, n = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(graphs=n, replayed=len(gs))
        cases += [{'files': [{'g': g}], 'all': True, 'seed': rng.randint(0, 2**30)} for g in gs]
    for i in range(700 if chk.quick else 20000):
        fs = [{'g': plain_file(rng)} for _ in range(rng.choice([1, 1, 2]))]
        for f in fs:
            if rng.random() < 0.3:
                f['b'] = base64.b64encode(image.Image(f['g'], rng).bytes).decode()
        cases.append({'files': fs, 'alone': 3, 'mixes': rng.choice([1, 2, 4]), 'seed': rng.randint(0, 2**30)})
    for k in ('l', 'm', 'lm', 't', 'ltm', 'llm'):
        cases.append({'deep': k, 'seed': rng.randint(0, 2**30)})
    evs = vlib.standard(chk, 'rewrite.py', 'RewriteTrace', cases, env=chk.clib(), case_timeout=120,
                        weight=lambda c: sum(2 + len(e.get('g', {'n': []})['n']) for e in c) * 8,
                        describe=lambda c, e: 'rewriting: %s' % vlib.brief(e, 1500))
    vlib.outcomes(chk, evs, ['files', 'write', 'copy', 'nocopy', 'deep'])
    r = chk.cov.setdefault('results', {})
    for c in evs:
        for e in c:
            if 'res' in e:
                k = e['op'] + ':' + e['res']
                r[k] = r.get(k, 0) + 1
