"""P02: sharing, cycles and hashability survive serialization."""
import random
import gen
import storelib


def run(chk):
    chk.build('asan')
    cases = storelib.enumerated(chk, 'StoreGen', 'StoreGen3', cap=1200) if chk.quick else storelib.enumerated(chk, 'StoreGen', 'StoreGen3', 'StoreGen3x', cap=60000)
    rng = random.Random(chk.seed)
    for i in range(1200 if chk.quick else 20000):
        cases.append({'g': gen.digraph(rng, rng.choice([3, 4, 5, 6, 8]))})
    for i in range(600 if chk.quick else 10000):
        cases.append({'g': gen.container_graph(rng, 4)})
    storelib.judge(chk, cases, 'sharing')
