"""P15: exported buffers of prim-vectors."""
import random
import vlib
import p10
from p13 import value, I, TYPES, LIM
SIZE = {'8': 1, '6': 2, '2': 4, '4': 8, 'f': 4}


def script(rng, t):
    sc = []
    for _ in range(rng.choice([0, 1, 2, 4, 8, 20])):
        r = rng.random()
        if r < 0.6:
            sc.append({'s': 'y', 'x': value(rng, t, 0.03)})
        elif r < 0.8:
            sc.append({'s': 'x'})
            if rng.random() < 0.8:
                sc.append({'s': 'r'})
        elif r < 0.95:
            sc.append({'s': 'r'})
        else:
            sc.append({'s': '!'})
    return sc


def random_case(rng, size, focus=None):
    ops, live, bufs, iters = [], {}, {}, []
    k = [0]

    def name(p):
        k[0] += 1
        return '%s%d' % (p, k[0])

    def new(t=None):
        i = name('v')
        t = t or rng.choice(TYPES)
        ops.append({'op': 'new', 'id': i, 't': t, 'xs': [value(rng, t, 0) for _ in range(rng.choice([0, 1, 2, 5]))], 'how': 0})
        live[i] = t
    new(focus)
    while len(ops) < size:
        i = rng.choice(list(live))
        t = live[i]
        o = rng.choice(['export'] * 6 + ['sub'] * 2 + ['release'] * 6 + ['bwrite'] * 3 + ['temp'] * 3 + ['readinto', 'bulk_mem', 'gen', 'gen', 'gen']
                       + ['append'] * 5 + ['append_bulk'] * 3 + ['append_vec'] * 2 + ['pop', 'pop', 'pop_bulk', 'pop_bulk', 'clear', 'remove', 'remove', 'fast_remove', 'fast_remove', 'reinit',
                       'get', 'set', 'set', 'index', 'contains', 'slice', 'len', 'sort', 'max', 'serialize', 'reversed', 'load', 'drop', 'new', 'iter', 'next', 'remap', 'sly', 'sly', 'sly'])
        e = {'op': o, 'id': i, 'w': rng.randint(0, 139)}
        if o == 'export':
            if len(bufs) > 3:
                continue
            e.update(buf=name('b'), ro=rng.random() < 0.25)
            bufs[e['buf']] = i
        elif o in ('sub', 'release', 'bwrite'):
            if not bufs or (o == 'sub' and len(bufs) > 4):
                continue
            b = rng.choice(list(bufs))
            e['buf'] = b
            del e['id']
            if o == 'sub':
                e.update(dst=name('b'), lo=rng.choice([0, 0, 1, 3, 8]), hi=rng.choice([0, 1, 4, 100, 100]))
                bufs[e['dst']] = bufs[b]
            elif o == 'release':
                del bufs[b]
            else:
                e.update(at=rng.choice([0, 0, 1, 2, 3, 7, 30]), byte=rng.randint(0, 255))
        elif o == 'readinto':
            e['b'] = [rng.randint(0, 255) for _ in range(rng.choice([0, 1, 3, 8, 40]))]
        elif o == 'bulk_mem':
            e['src'] = rng.choice(list(live))
        elif o == 'gen':
            e.update(init=rng.random() < 0.4, t=t, script=script(rng, t))
        elif o in ('append', 'remove', 'fast_remove', 'index', 'contains'):
            e['x'] = value(rng, t)
        elif o == 'append_bulk':
            e.update(xs=[value(rng, t, 0.05) for _ in range(rng.choice([0, 1, 3, 9, 40]))], how=rng.randint(0, 3))
        elif o == 'append_vec':
            e['src'] = rng.choice(list(live))
            if len(ops) > size * 0.7 and e['src'] == i:
                continue
        elif o == 'pop_bulk':
            e['n'] = rng.choice([0, 0, 1, 2, 3, 100, -1])
        elif o == 'clear':
            if rng.random() < 0.6 and i not in bufs.values():
                continue
        elif o == 'reinit':
            e.update(t=t, xs=[value(rng, t, 0) for _ in range(rng.randint(0, 5))])
        elif o in ('get', 'set'):
            e['i'] = rng.choice([0, -1, 1, 2, 100])
            if o == 'set':
                e['x'] = value(rng, t)
        elif o == 'slice':
            if len(live) > 4:
                continue
            e.update(dst=name('v'), lo=[rng.randint(0, 2)], hi=[], step=1, how=0)
            live[e['dst']] = t
        elif o == 'remap':
            if len(live) > 4 or t == 'f':
                continue
            d = name('v')
            e.update(src=rng.choice(list(live)), dst=d)
            ops.append(e)
            ops.append({'op': 'drop?', 'id': d})
            continue
        elif o == 'load':
            continue
        elif o == 'sly':
            f = rng.choice(['get', 'set', 'pop_bulk', 'pop_bulk', 'slice'])
            d = rng.choice(['export', 'clear', 'pop', 'append', 'pop_bulk'])
            if len(live) > 4 or len(bufs) > 3 or i in bufs.values():
                continue
            t2 = {'op': f, 'id': i}
            if f == 'slice':
                t2.update(dst=name('v'), lo=[rng.choice([0, 1, -1, 3])], hi=[], step=1, how=0)
                live[t2['dst']] = t
            elif f == 'pop_bulk':
                t2['n'] = rng.choice([0, 1, 2])
            else:
                t2['i'] = rng.choice([0, -1, 1, -2])
                if f == 'set':
                    t2['x'] = value(rng, t)
            d2 = {'op': d, 'id': i, 'w': e['w']}
            if d == 'export':
                d2.update(buf=name('b'), ro=False)
                bufs[d2['buf']] = i
            elif d == 'append':
                d2['x'] = value(rng, t, 0)
            elif d == 'pop_bulk':
                d2['n'] = 1
            e = {'op': o, 'then': t2, 'do': d2, 'w': e['w']}
        elif o == 'drop':
            if len(live) < 2 or i in bufs.values() or any(j == i for _, j in iters):
                continue
            del live[i]
        elif o == 'new':
            if len(live) < 4:
                new()
            continue
        elif o == 'iter':
            if len(iters) > 2:
                continue
            e['it'] = name('i')
            iters.append((e['it'], i))
        elif o == 'next':
            if not iters:
                continue
            e['it'] = rng.choice(iters)[0]
            del e['id']
        ops.append(e)
    return {'ops': ops}


def run(chk):
    chk.build('asan')
    rng = random.Random(chk.seed)
    cases = []
    for cfg, cap in (('BuffersGen', 3000), ) if chk.quick else (('BuffersGen', 20000), ('BuffersGen2', 40000)):
        t = chk.explore('BuffersGen', cfg)
        bs, total = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(behaviours=total, replayed=len(bs))
        for b in bs:
            cases.append({'ops': [dict(e, w=rng.randint(0, 139)) for e in b]})
    for i in range(300 if chk.quick else 8000):
        cases.append(random_case(rng, rng.choice([15, 40, 80]), TYPES[i % 9]))
    evs = vlib.standard(chk, 'buffers.py', 'BuffersTrace', cases, describe=lambda c, e: 'buffers: %s' % vlib.brief(e))
    vlib.outcomes(chk, evs, ['export', 'sub', 'release', 'bwrite', 'temp', 'readinto', 'bulk_mem', 'gen', 'append', 'append_bulk', 'append_vec', 'pop', 'pop_bulk', 'clear',
                             'remove', 'fast_remove', 'reinit', 'set', 'sort', 'slice', 'drop'])
    # buffers of vectors that live in files
    cases = [dict(p10.random_case(rng, rng.choice([30, 60]), ['mem', 'submem'] * 6 + ['drop'] * 4 + ['reopen'] * 4), heap=i % 4 == 0) for i in range(150 if chk.quick else 4000)]
    evs = vlib.standard(chk, 'lifetime.py', 'LifetimeTrace', cases, describe=lambda c, e: 'buffers of file vectors: %s' % vlib.brief(e))
    vlib.outcomes(chk, evs, ['mem', 'submem', 'drop', 'reopen'])
