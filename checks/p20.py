"""P20: files have the documented layout and it does not change."""
import base64
import random
import gen
import image
import storelib
import vlib


def run(chk):
    chk.build('asan')
    cases = storelib.enumerated(chk, 'StoreGen', cap=400 if chk.quick else 4000)
    rng = random.Random(chk.seed)
    n = 500 if chk.quick else 8000
    for i in range(n):
        cases.append({'g': gen.container_graph(rng, rng.choice([1, 2, 3, 4])), 'opts': storelib.opts(rng)})
    for i in range(n // 5):
        cases.append({'g': {'n': [rng.choice([gen.rleaf, gen.rstr, gen.rbits, gen.rprim])(rng)], 'r': 1}, 'opts': storelib.opts(rng)})
    for i in range(n // 20):
        cases.append({'g': gen.digraph(rng, rng.randint(2, 5)), 'opts': storelib.opts(rng)})
    for c in cases:
        c['bytes'] = True

    def prep(c, evs):
        out = []
        for e in evs:
            if e['op'] == 'store':
                if e['res'] == 'ok':
                    out.append({'op': 'written', 'g': e['g'], 'b': e['file']})
            else:
                out.append(e)
        return out
    evs = vlib.standard(chk, 'store.py', 'FormatTrace', cases, prep=prep, describe=lambda c, e: vlib.brief(c, 700) + ' ' + vlib.brief(e, 700),
                        weight=lambda c: sum(len(e.get('b', [])) for e in c))
    vlib.outcomes(chk, evs, ['written'])

    # files of the same layout with everything that a writer may choose chosen otherwise: order of the entries,
    # gaps, wider strings and vectors, other encodings of bits, other insertion orders of the tables
    made = []
    while len(made) < (400 if chk.quick else 10000):
        i = len(made)
        if i % 4 == 0:
            g = {'n': [rng.choice([gen.rleaf, gen.rstr, gen.rbits, gen.rprim])(rng)], 'r': 1}
        elif i % 4 == 1:
            g = gen.digraph(rng, rng.randint(1, 4))
        else:
            g = gen.container_graph(rng, rng.choice([1, 2, 3, 4]))
        if len(g['n']) > 60:
            continue
        made.append({'g': g, 'bs': [base64.b64encode(image.Image(g, rng).bytes).decode()]})

    def prep2(c, evs):
        return [dict(e, op='made', g=c['g']) if e['op'] == 'open' else e for e in evs]
    evs = vlib.standard(chk, 'format.py', 'FormatTrace', made, prep=prep2, describe=lambda c, e: vlib.brief(c, 700) + ' ' + vlib.brief(e, 700),
                        weight=lambda c: sum(len(e.get('b', [])) for e in c))
    vlib.outcomes(chk, evs, ['made'])
