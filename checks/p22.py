"""P22: C programs can go through a whole file."""
import base64
import random
import gen
import image
import vlib
from p16 import small
from p17 import quoted


def run(chk):
    chk.build('asan')
    env = chk.clib('traverse.c')
    rng = random.Random(chk.seed)
    cases = []
    # all walks through small graphs, whatever is answered
    for cfg, cap in (('TraverseGen', 700),) if chk.quick else (('TraverseGen', 3000), ('TraverseGen3', 12000)):
        t = chk.explore('TraverseGen', cfg)
        bs = sorted(t.printed('B'), key=repr)
        chk.cov['specs'][cfg].update(walks=len(bs), replayed=min(len(bs), cap))
        for b in rng.sample(bs, min(len(bs), cap)):
            n = len(b['g'])
            # lists which differ, so that they are not one
            g = {'n': [{'k': 'list', 'ch': list(x)} for x in b['g']], 'r': 1}
            cases.append({'g': g, 'acts': [h['a'] for h in b['h']], 'seed': 0})
    for i in range(900 if chk.quick else 25000):
        g = small(lambda: gen.container_graph(rng, rng.choice([1, 2, 3])), rng, 40) if rng.random() < 0.7 else gen.digraph(rng, rng.choice([2, 3, 4, 5]))
        c = {'g': g, 'seed': rng.randint(0, 2**30)}
        if rng.random() < 0.4:
            c['b'] = base64.b64encode(image.Image(g, rng).bytes).decode()
        else:
            quoted(g, rng)
            if rng.random() < 0.4:
                c['o'] = {'unwiden_strings': True}
        cases.append(c)
    evs = vlib.standard(chk, 'traverse.py', 'TraverseTrace', cases, env=env, case_timeout=120,
                        prep=lambda c, es: [e for e in es if e['op'] != 'refused'],
                        weight=lambda c: sum(4 + len(e.get('b', ())) + len(e.get('t', ())) // 2 for e in c),
                        describe=lambda c, e: 'traversal of %s: %s' % (vlib.brief(c, 500), vlib.brief(e, 900)))
    vlib.outcomes(chk, evs, ['file', 'count', 'number', 'items', 'entries', 'hashed', 'walk', 'visit', 'walked', 'print'])
