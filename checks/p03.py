"""P03: lists of numbers get the narrowest lossless storage."""
import itertools
import large
import random
import gen
import storelib
from gen import INT, FLT


def run(chk):
    chk.build('asan')
    cases = storelib.enumerated(chk, 'StoreGen3', cap=100)
    rng = random.Random(chk.seed)
    pool = [INT(i) for i in (-2**31, -32769, -32768, -129, -128, -1, 0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1)]
    pool += [FLT(1.0), {'k': 'bool', 'v': 1}]
    lists = [list(t) for n in (1, 2) for t in itertools.product(pool, repeat=n)]
    three = [list(t) for t in itertools.product(pool, repeat=3)]
    lists += rng.sample(three, 800) if chk.quick else three
    for i, xs in enumerate(lists):
        cases.append({'g': {'n': [{'k': 'tup' if i % 5 == 0 else 'list', 'ch': list(range(2, 2 + len(xs)))}] + xs, 'r': 1}})
    for i in range(800 if chk.quick else 20000):
        xs = gen.number_list(rng)
        k = len(xs)
        nodes = [{'k': 'list', 'ch': [2, 3]}, {'k': rng.choice(['list', 'tup']), 'ch': list(range(4, 4 + k))}, gen.rprim(rng)] + xs
        cases.append({'g': {'n': nodes, 'r': 1}})
    for i in range(300 if chk.quick else 3000):     # long lists, the odd one out anywhere
        n = rng.choice([7, 20, 64, 100])
        xs = [INT(rng.randint(0, 100)) for _ in range(n)] if i % 2 else [FLT(rng.randint(0, 100) / 4) for _ in range(n)]
        xs[rng.randrange(n)] = rng.choice(pool)
        cases.append({'g': {'n': [{'k': 'list', 'ch': list(range(2, 2 + n))}] + xs, 'r': 1}})
    # lists as keys and values
    for i in range(200 if chk.quick else 2000):
        xs = gen.number_list(rng)
        k = len(xs)
        cases.append({'g': {'n': [{'k': 'map', 'ks': [2], 'vs': [2]}, {'k': 'tup', 'ch': list(range(3, 3 + k))}] + xs, 'r': 1}})
    storelib.judge(chk, cases, 'storage')
    large.run(chk, 'view')
