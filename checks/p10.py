"""P10: values keep their file readable for as long as they live."""
import json
import random
import vlib


def leaf(rng):
    return {'k': 'leaf', 'v': rng.choice(['i%d' % rng.randint(-70000, 70000), 's' + rng.choice(['', 'x', 'abc', '\xe9', '\u20ac\u1234', '\U0001f600', 'y' * 300]), 'F1.5', 'F-0.25', 'BTrue', 'BFalse', 'NNone'])}


def key(rng, d=1):
    r = rng.random()
    if d and r < 0.25:
        return {'k': 'seq', 'xs': [leaf(rng), {'k': 'leaf', 'v': 'sz'}]}
    if r < 0.35:
        return {'k': 'bytes', 'xs': [rng.randint(0, 255) for _ in range(rng.randint(1, 3))]}
    if r < 0.45:
        return {'k': 'bits', 'b': [rng.randint(0, 1) for _ in range(rng.choice([2, 5, 40]))]}
    return {'k': 'leaf', 'v': rng.choice(['i%d' % rng.randint(1000, 1020), 's' + rng.choice('abcdef')])}


def keys(rng, n):
    return [json.loads(x) for x in sorted({json.dumps(key(rng)) for _ in range(n)})]


def tree(rng, d=3):
    r = rng.random()
    if not d or r < 0.15:
        return leaf(rng)
    if r < 0.3:
        return {'k': 'bytes', 'xs': [rng.randint(0, 255) for _ in range(rng.choice([1, 2, 5, 30]))]}
    if r < 0.4:
        return {'k': 'bits', 'b': [rng.randint(0, 1) for _ in range(rng.choice([0, 1, 8, 33, 70]))]}
    if r < 0.45:
        return {'k': 'seq', 'xs': [{'k': 'leaf', 'v': 'i%d' % rng.randint(1000, 70000)} for _ in range(rng.randint(1, 4))]}
    if r < 0.48:
        return {'k': 'seq', 'xs': [{'k': 'leaf', 'v': 'F%d.5' % rng.randint(0, 99)} for _ in range(rng.randint(1, 4))]}
    n = rng.choice([0, 1, 2, 2, 3, 4])
    if r < 0.6:
        return {'k': 'map', 'es': [[k, tree(rng, d - 1)] for k in keys(rng, n)]}
    if r < 0.72:
        return {'k': 'set', 'xs': keys(rng, n)}
    xs = [tree(rng, d - 1) for _ in range(n)]
    if xs and all(x['k'] == 'leaf' and x['v'][0] == 'i' for x in xs):
        xs.append({'k': 'leaf', 'v': 'sq'})
    return {'k': 'seq', 'xs': xs}


def big(rng):
    """several pages, so that a file that was unmapped does not stay readable by chance"""
    t = tree(rng)
    return {'k': 'seq', 'xs': [t, {'k': 'leaf', 'v': 's' + 'p' * 5000}, tree(rng, 2), tree(rng, 2)]} if rng.random() < 0.6 else t


def random_case(rng, size, extra=()):
    ops, n, ver = [], [0], [0]
    objs, views, iters, mems = [], [], [], []

    def name(p, d):
        n[0] += 1
        d.append('%s%d' % (p, n[0]))
        return d[-1]

    def write(p):
        ver[0] += 1
        ops.append({'op': 'write', 'src': p, 'tree': big(rng), 'ver': ver[0]})
    paths, bufs = ['p', 'q'], ['b', 'c']
    write('p')
    ops.append({'op': 'fill', 'src': 'b', 'tree': big(rng), 'w': rng.randint(0, 3)})
    while len(ops) < size:
        o = rng.choice(['open'] * 3 + ['root'] * 4 + ['sub'] * 8 + ['slice'] * 3 + ['iter'] * 4 + ['next'] * 4 + ['rest'] * 3 + ['mem'] * 3 + ['submem', 'submem'] + ['drop'] * 10
                       + ['write', 'write', 'unlink', 'rename', 'fill', 'spoil', 'dropbuf', 'reopen', 'reopen', 'detach', 'use', 'use', 'use'] + list(extra))
        w = rng.randint(0, 47)
        e = {'op': o, 'w': w}
        if o == 'write':
            write(rng.choice(paths))
            continue
        if o == 'unlink':
            e['src'] = rng.choice(paths)
        elif o == 'rename':
            a, b = rng.sample(paths, 2)
            e.update(src=a, dst=b)
        elif o == 'fill':
            e.update(src=rng.choice(bufs), tree=big(rng))
        elif o in ('spoil', 'dropbuf'):
            e['src'] = rng.choice(bufs)
        elif o == 'open':
            if len(objs) > 3:
                continue
            e.update(src=rng.choice(paths + bufs), dst=name('o', objs))
        elif o == 'reopen':
            if not objs:
                continue
            e.update(src=rng.choice(paths + bufs), id=rng.choice(objs))
        elif o == 'root':
            if not objs or len(views) > 8:
                continue
            e.update(id=rng.choice(objs), dst=name('v', views))
        elif o in ('sub', 'slice', 'use', 'detach'):
            if not views or (len(views) > 9 and o not in ('use', 'detach')):
                continue
            e['id'] = rng.choice(views)
            if o == 'sub':
                e.update(at=rng.choice([0, 0, 0, 1, 1, 2, 3, 100]), dst=name('v', views))
            if o == 'slice':
                e.update(lo=rng.choice([0, 0, 0, 1, -2]), hi=rng.choice([1, 2, 100, 100, -1, 0]), dst=name('v', views))
        elif o == 'iter':
            if not views or len(iters) > 3:
                continue
            e.update(id=rng.choice(views), how=rng.choice(['iter', 'iter', 'rev', 'values', 'items']), dst=name('i', iters))
        elif o == 'rest':
            if not iters:
                continue
            e['id'] = iters.pop(rng.randrange(len(iters)))
        elif o == 'next':
            if not iters:
                continue
            e.update(id=rng.choice(iters), dst=name('v', views))
        elif o == 'mem':
            if not views or len(mems) > 3:
                continue
            e.update(id=rng.choice(views), dst=name('m', mems))
        elif o == 'submem':
            if not mems or len(mems) > 4:
                continue
            e.update(id=rng.choice(mems), lo=rng.randint(0, 2), hi=rng.choice([1, 100, -1]), dst=name('m', mems))
        elif o == 'drop':
            d = rng.choice([objs, views, views, iters, mems])
            if not d:
                continue
            e['id'] = d.pop(rng.randrange(len(d)))
        ops.append(e)
    return {'ops': ops}


def run(chk):
    chk.build('asan')
    rng = random.Random(chk.seed)
    cases = []
    for cfg, cap in (('LifetimeGen', 900 if chk.quick else 20000), ('LifetimeGen2', 500 if chk.quick else 20000)):
        t = chk.explore('LifetimeGen', cfg)
        bs, total = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(behaviours=total, replayed=len(bs))
        for b in bs:
            cases.append({'ops': [dict(e, w=rng.randint(0, 47)) for e in b], 'heap': rng.random() < 0.15})
    for i in range(200 if chk.quick else 6000):
        cases.append(dict(random_case(rng, rng.choice([20, 60])), heap=i % 4 == 0))
    evs = vlib.standard(chk, 'lifetime.py', 'LifetimeTrace', cases, describe=lambda c, e: 'lifetime: %s' % vlib.brief(e))
    vlib.outcomes(chk, evs, ['open', 'reopen', 'root', 'sub', 'slice', 'iter', 'next', 'rest', 'mem', 'submem', 'drop', 'write', 'unlink', 'rename', 'fill', 'spoil', 'use', 'detach', 'leak'])
