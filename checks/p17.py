"""P17: text of a value is what the specification renders."""
import base64
import random
import gen
import image
import vlib
from p16 import small

CHARS = [0x27, 0x22, 0x5c, 9, 10, 13, 0, 1, 0x1f, 0x20, 0x61, 0x7e, 0x7f, 0x80, 0x9f, 0xa0, 0xa1, 0xad, 0xe9, 0xff, 0x100, 0x378, 0x1680, 0x2028, 0x3000,
         0x20ac, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x1fffe, 0xe0001, 0x10fffd, 0x10ffff]


def quoted(g, rng):
    """strings which are hard to quote, floats which are hard to round"""
    for a in g['n']:
        if a['k'] == 'str' and rng.random() < 0.6:
            pool = rng.choice([CHARS[:3], CHARS[:11], CHARS[:20], CHARS])
            a['c'] = [c for c in (rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 5]))) if c]
        if a['k'] == 'flt' and rng.random() < 0.4:
            a.update(gen.FLT(rng.choice([rng.randint(-999, 999) / 128, (rng.randint(0, 99) + .5) / 1e6, rng.uniform(-1, 1) * 10 ** rng.randint(-8, 38)])))
    return g


def run(chk):
    chk.build('asan')
    rng = random.Random(chk.seed)
    cases = []
    for cfg, cap in (('TextGen', 400 if chk.quick else 1200), ('TextGen3', 150 if chk.quick else 400)):
        t = chk.explore('TextGen', cfg)
        gs, n = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(graphs=n, replayed=len(gs))
        cases += [{'g': g, 'seed': rng.randint(0, 2**30)} for g in gs]
    for i in range(900 if chk.quick else 25000):
        g = small(lambda: gen.container_graph(rng, rng.choice([1, 2, 3])), rng, 30) if rng.random() < 0.6 else gen.digraph(rng, rng.choice([2, 3, 4, 5]))
        c = {'g': g, 'seed': rng.randint(0, 2**30)}
        if rng.random() < 0.3:
            c['o'] = {'unwiden_strings': True}
        elif rng.random() < 0.4:
            c['b'] = base64.b64encode(image.Image(g, rng).bytes).decode()
        if 'b' not in c:
            quoted(g, rng)
        cases.append(c)
    for i in range(200 if chk.quick else 4000):
        cases.append({'prims': 3, 'bits': 1, 'seed': rng.randint(0, 2**30)})
    for k in ('l', 'm', 'lm', 't', 'ltm'):
        cases.append({'deep': k, 'seed': rng.randint(0, 2**30)})
    evs = vlib.standard(chk, 'text.py', 'TextTrace', cases, case_timeout=120,
                        weight=lambda c: 5 + sum(20 + len(e.get('t', ())) for e in c) // 4,
                        describe=lambda c, e: 'text %r: %s' % (''.join(map(chr, e.get('t', [])))[:200], vlib.brief(e, 1200)))
    vlib.outcomes(chk, evs, ['file', 'text', 'prim', 'bits', 'hidden', 'deep'])
    chk.cov['characters'] = sum(len(e.get('t', ())) for c in evs for e in c)
