"""P06: comparison is one consistent order, whatever the representation."""
import random
import gen
import vlib
import vallib


def run(chk):
    chk.build('asan')
    env = chk.clib()
    chk.explore('ValuesGen', None if chk.quick else 'ValuesGen2')
    rng = random.Random(chk.seed)
    cases = []

    def pairs(roots, n):
        ps = [(i, j) for i in roots for j in roots]
        return ps if len(ps) <= n else rng.sample(ps, n)
    for c in vallib.universe(rng):
        ps = pairs(c['roots'], 350 if chk.quick else 5000)
        for at in range(0, len(ps), 120):
            cases.append(dict(c, do=['cmp', 'ccmp'], pairs=ps[at:at + 120]))
    for _ in range(12 if chk.quick else 300):
        c = vallib.sampled(rng, 30)
        cases.append(dict(c, do=['cmp', 'ccmp'], pairs=pairs(c['roots'], 150 if chk.quick else 400)))
    # vectors of mixed items: an item which can not be compared, before and after a difference
    for _ in range(10 if chk.quick else 150):
        g = gen.G(rng)
        pool = [g.add(gen.INT(n)) for n in (0, 1, 2)] + [g.add(gen.FLT(x)) for x in (1.0, float('nan'))] + [g.add(gen.STR('a')), g.add({'k': 'none'}), g.add({'k': 'set', 'ch': []}), g.add({'k': 'list', 'ch': []})]
        roots = [g.add({'k': rng.choice(['list', 'tup']), 'ch': [rng.choice(pool) for _ in range(rng.randint(0, 3))]}) for _ in range(8)]
        # integers which can not be stored compare with everything else
        big = [g.add(gen.INT(n)) for n in (2**32, 2**63, 2**64 - 1, -2**63)]
        flt = [g.add(gen.FLT(x)) for x in (4294967296.0, 9.223372036854775e18, 1.8446744073709552e19, -9.223372036854775e18)]
        roots2 = roots + big + flt
        cases.append(dict(vallib.case(rng, g, roots2, nostore=big), do=['cmp'], pairs=pairs(roots2, 100)))
    evs = vlib.standard(chk, 'values.py', 'ValuesTrace', cases, describe=vallib.describe, env=env,
                        weight=lambda c: sum(len(e.get('cs', [])) + 5 for e in c))
    vlib.outcomes(chk, evs, ['cmp', 'ccmp'])
