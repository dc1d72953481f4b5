"""P05: equal keys have equal hashes in every representation."""
import random
import gen
import vlib
import vallib


def run(chk):
    chk.build('asan')
    chk.explore('ValuesGen', None if chk.quick else 'ValuesGen2')
    rng = random.Random(chk.seed)
    cases = []
    for c in vallib.universe(rng):
        cases.append(dict(c, do=['hash']))
    for _ in range(60 if chk.quick else 600):
        cases.append(dict(vallib.sampled(rng, 40), do=['hash']))
    evs = vlib.standard(chk, 'values.py', 'ValuesTrace', cases, describe=vallib.describe)
    vlib.outcomes(chk, evs, ['hash'])
