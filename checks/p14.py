"""P14: sorting orders exactly as requested."""
import itertools
import large
import random
import gen
import vlib
from drv_enc import wint

IT = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
ALL = IT + ['f']
FL = [0.0, -0.0, 1.0, -1.0, 0.5, 2.5, 255.0, 16777216.0, float('inf'), float('-inf'), 1e30, 1e-40, -2.5, -1e-40, 3.0]


def pool(rng, t, k, nan=False):
    """k different items, in order."""
    if t == 'f':
        xs = rng.sample(FL, min(k, len(FL))) + [float(rng.randint(-1000, 1000)) / 8 for _ in range(k - len(FL))]
        return [gen.f32(x) for x in sorted(xs)] + ([gen.f32(float('nan'))] if nan else [])
    lo, hi = gen.LIM[t]
    s = set()
    while len(s) < min(k, hi - lo):
        r = rng.random()
        s.add(rng.choice([lo, hi, lo + 1, hi - 1]) if r < 0.2 else rng.randint(max(lo, -9), 9) if r < 0.6 else
              min(hi, max(lo, rng.choice([2**31, 2**31 - 1, 2**32, 2**63, 2**15, -2**31, 2**63 - 1]))) if r < 0.7 else rng.randint(lo, hi))
    return [wint(x) for x in sorted(s)]


def shape(rng, n):
    """Ranks 0..k-1 in one of the shapes that sorts treat in different ways."""
    k = rng.choice([1, 2, 3, 4, max(1, n // 2), max(1, n)])
    r = [rng.randrange(k) for _ in range(n)]
    s = rng.randrange(9)
    if s == 1:
        r.sort()
    elif s == 2:
        r.sort(reverse=True)
    elif s == 3:
        r = sorted(r[:n // 2]) + sorted(r[n // 2:], reverse=True)
    elif s == 4:
        r = [i % k for i in range(n)]
    elif s == 5:
        r.sort()
        if n:
            r[rng.randrange(n)] = rng.randrange(k)
    elif s == 6:
        r.sort()
        for _ in range(2):
            if n:
                i, j = rng.randrange(n), rng.randrange(n)
                r[i], r[j] = r[j], r[i]
    elif s == 7:
        r = sorted(r[n // 3:]) + r[:n // 3]
    elif s == 8:
        r = [min(i, n - 1 - i) % k for i in range(n)]
    return r, k


SIZES = [0, 1, 2, 3, 5, 6, 7, 8, 9, 13, 20, 39, 40, 41, 42, 48, 64, 80, 81]


def items(rng, t, n, nan=False):
    r, k = shape(rng, n)
    p = pool(rng, t, k, nan)
    return [rng.choice(p) if nan and rng.random() < 0.3 else p[x * len(p) // k if k > len(p) else x] for x in r]


def proj(rng, n=None):
    n = rng.choice([0, 1, 2, 3, 5, 8, 30, 60]) if n is None else n
    pt = rng.choice(IT + ['u32', 'u64', 'i64'])
    m = min(rng.choice([0, 1, 2, n, n, 2 * n, 41, 50]), 60)
    lim = min(gen.LIM[pt][1], n - 1)
    p = [rng.randint(0, lim) for _ in range(m)] if n else []
    if rng.random() < 0.5 and n:
        p = list(range(min(n, lim + 1)))
        rng.shuffle(p)
    vs = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4, 8, 16])):
        t = rng.choice(ALL)
        how = rng.randint(0, 3)
        r, k = shape(rng, n)
        if rng.random() < 0.6:          # many ties
            k = min(3, k)
            r = [x % k for x in r]
        q = pool(rng, t, max(k, 1))
        vs.append({'t': t, 'how': how, 'xs': [q[x % len(q)] for x in r]})
    if rng.random() < 0.25 and n:       # only the last one tells
        for v in vs[:-1]:
            v['xs'] = v['xs'][:1] * n
    e = {'op': 'proj', 'pt': pt, 'p': [wint(x) for x in p], 'vs': vs, 'self': False}
    r = rng.random()
    if r < 0.06 and e['p']:             # out of bounds
        bad = rng.choice([n, n + 1, -1, 2**31, 2**32, 2**63, 2**64 - 1, -2**63, -2**31, gen.LIM[pt][0], gen.LIM[pt][1]])
        if gen.LIM[pt][0] <= bad <= gen.LIM[pt][1]:
            e['p'][rng.randrange(len(e['p']))] = wint(bad)
    elif r < 0.10:
        v = rng.choice(vs)
        v['xs'] = v['xs'][:-1] if rng.random() < 0.5 else v['xs'] + (v['xs'][:1] or [pool(rng, v['t'], 1)[0]])
    elif r < 0.13:
        vs.insert(rng.randint(0, len(vs)), {'t': rng.choice('ov'), 'how': rng.randint(0, 7), 'xs': [wint(0)] * n})
    elif r < 0.15:
        e['pt'], e['p'] = 'f', [gen.f32(float(x)) for x in p]
    elif r < 0.16:
        e['vs'] = []
    elif r < 0.18:
        e['vs'] = (vs * 17)[:17]
    elif r < 0.22 and n:                # by itself
        e['self'] = True
        e['p'] = [wint(x) for x in range(min(n, gen.LIM[pt][1] + 1, 60))]
        rng.shuffle(e['p'])
        e['vs'] = [{'t': pt, 'how': 'self', 'xs': []}]
    elif r < 0.26:
        for v in vs:
            if v['t'] == 'f' and v['xs']:
                v['xs'][rng.randrange(n)] = gen.f32(float('nan'))
    return e


def run(chk):
    chk.build('asan')
    env = chk.clib()
    chk.explore('Bentley')
    chk.explore('Bentley', 'Bentley2')
    if not chk.quick:
        chk.explore('Bentley', 'Bentley3')
    rng = random.Random(chk.seed)
    ops = []
    # every short vector and projection
    for n in range(0, 6 if chk.quick else 8):
        for xs in itertools.product(range(3), repeat=n):
            t = rng.choice(ALL)
            p = pool(rng, t, 3)
            ops.append({'op': 'sort', 't': t, 'xs': [p[x] for x in xs], 'how': rng.randint(0, 1)})
            ops.append({'op': 'csort', 'xs': list(xs)})
    for n in range(0, 4):
        for a in itertools.product(range(2), repeat=n):
            for b in itertools.product(range(2), repeat=n):
                t, u, pt = rng.choice(ALL), rng.choice(ALL), rng.choice(IT)
                p, q = pool(rng, t, 2), pool(rng, u, 2)
                for perm in itertools.permutations(range(n)):
                    ops.append({'op': 'proj', 'pt': pt, 'p': [wint(x) for x in perm], 'self': False,
                                'vs': [{'t': t, 'how': rng.randint(0, 3), 'xs': [p[x] for x in a]}, {'t': u, 'how': rng.randint(0, 3), 'xs': [q[x] for x in b]}]})
    for i in range(900 if chk.quick else 30000):
        t = ALL[i % 9]
        n = rng.choice(SIZES) if i % 20 else rng.randint(82, 200)
        ops.append({'op': 'sort', 't': t, 'xs': items(rng, t, n, t == 'f' and rng.random() < 0.15), 'how': rng.randint(0, 1)})
    for i in range(700 if chk.quick else 20000):
        ops.append(proj(rng))
    for i in range(160 if chk.quick else 4000):
        n = rng.choice(SIZES)
        e = {'op': 'csort', 'xs': shape(rng, n)[0]}
        r = rng.random()
        if r < 0.3:
            e['fail'] = rng.choice([1, 2, 3, rng.randint(1, 6 * n + 1)])
            e['garbage'] = rng.choice([0, 0, 1, -1])
        elif r < 0.5:
            e['lies'] = rng.choice([5, 30, 97])
        ops.append(e)
    # a comparison that fails, at every place
    for n in (4, 7, 8, 9, 12, 20, 41) if chk.quick else tuple(range(2, 50)):
        for _ in range(2):
            xs = shape(rng, n)[0]
            ks = list(range(1, 4 * n)) if n < 13 else rng.sample(range(1, 8 * n), min(8 * n - 1, 40))
            ops += [{'op': 'csort', 'xs': xs, 'fail': k, 'garbage': rng.choice([0, 1, -1])} for k in ks]
    # items of one case are independent
    rng.shuffle(ops)
    cases = [{'ops': ops[i:i + 6]} for i in range(0, len(ops), 6)]
    evs = vlib.standard(chk, 'sort.py', 'SorterTrace', cases, env=env, describe=lambda c, e: 'sorting: %s' % vlib.brief(e))
    vlib.outcomes(chk, evs, ['sort', 'proj', 'begin', 'swap', 'end'])
    large.run(chk, 'sort')
