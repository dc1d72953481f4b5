"""P13: prim-vectors are exact growable arrays of one machine type."""
import large
import random
import struct
import gen
import vlib
from drv_enc import wint, unwint, f64

TYPES = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f']
LIM = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1), 'i32': (-2**31, 2**31 - 1),
       'u32': (0, 2**32 - 1), 'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.5, 0.1, 1e10, -1e-10, 3.4e38, 3.5e38, -1e300, 1e-40, 1e-46, float('inf'), float('-inf'), float('nan'),
          16777216.0, 16777217.0, 33554433.0, 1.0000001, 2.0**-149, 2.0**-150, 1.5 * 2.0**-149, 65504.0, 123456.789]
OTHERS = [{'k': 'o', 'o': o} for o in ('str', 'none', 'list', 'obj')] + [{'k': 'big', 'sign': 1}, {'k': 'big', 'sign': -1}]


def I(n):
    return {'k': 'i', 'w': wint(n)}


def F(x):
    return {'k': 'f', 'd': f64(x)}


def value(rng, t, bad=0.1):
    if rng.random() < bad:
        r = rng.random()
        if r < 0.4:
            return rng.choice(OTHERS)
        if t == 'f':
            return I(rng.randint(-5, 5))
        lo, hi = LIM[t]
        if r < 0.6:
            return F(rng.choice([1.0, 0.5, 2.0]))
        n = rng.choice([lo - 1, hi + 1, lo - 1000, hi + 1000, -1, hi * 2 + 1, hi * 2 + 2 + rng.randint(0, 3)])
        if not -2**64 < n < 2**64:
            return OTHERS[-1]
        return I(n)
    if t == 'f':
        return F(rng.choice(FLOATS) if rng.random() < 0.6 else rng.uniform(-100, 100))
    lo, hi = LIM[t]
    r = rng.random()
    n = rng.choice([lo, hi, lo + 1, hi - 1]) if r < 0.3 else rng.randint(max(lo, -4), 4) if r < 0.6 else rng.randint(lo, hi)
    return I(n)


def serialized(rng):
    ti = rng.randint(0, 8)
    t = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'f', 'i64', 'u64'][ti]
    n = rng.randint(0, 6)
    size = {'8': 1, '6': 2, '2': 4, '4': 8, 'f': 4}[t[-1]]
    b = struct.pack('<II', ti, n) + bytes(rng.randint(0, 255) for _ in range(n * size))
    if rng.random() < 0.5:
        r = rng.randint(0, 6)
        if r == 0:
            b = b[:rng.randint(0, len(b))]
        elif r == 1:
            b += bytes(rng.randint(1, 9))
        elif r == 2:
            b = struct.pack('<I', rng.choice([9, 10, 0xffffffff, 256, 0x80000000])) + b[4:]
        elif r == 3:
            b = b[:4] + struct.pack('<I', rng.choice([n + 1, max(0, n - 1), 0xffffffff, 0x80000000, 0x40000000, 0x20000000, n | 0x10000000, n | 0x20000000, n | 0x40000000])) + b[8:]
        elif r == 4:
            b = bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 20)))
    return list(b)


def random_case(rng, size, focus=None):
    ops, live, bufs, iters, seen = [], {}, {}, set(), {}
    k = 0

    def new(t=None):
        nonlocal k
        i = 'v%d' % k
        k += 1
        t = t or rng.choice(TYPES)
        n = rng.choice([0, 0, 1, 2, 5])
        seen[i] = [value(rng, t, 0) for _ in range(n)]
        ops.append({'op': 'new', 'id': i, 't': t, 'xs': list(seen[i]), 'how': rng.randint(0, 2) if n else 0})
        live[i] = t
        return i
    new(focus)
    for _ in range(size):
        i = rng.choice(list(live))
        t = live[i]
        o = rng.choice(['append'] * 6 + ['append_bulk'] * 3 + ['pop', 'pop', 'pop_bulk', 'index', 'contains', 'remove', 'fast_remove', 'get', 'get', 'set', 'set',
                       'slice', 'slice', 'len', 'typecode', 'reversed', 'max', 'min', 'range', 'sort', 'sort', 'serialize', 'remap', 'export', 'release', 'bread', 'bwrite',
                       'iter', 'next', 'next', 'append_vec', 'append_vec', 'del', 'badkey', 'load', 'reload', 'new', 'badnew', 'drop', 'reinit', 'clear'])
        if o == 'append':
            x = value(rng, t)
            seen.setdefault(i, []).append(x)
            ops.append({'op': o, 'id': i, 'x': x})
        elif o in ('index', 'contains', 'remove', 'fast_remove'):
            x = value(rng, t)
            if seen.get(i) and rng.random() < 0.6:      # an item, or one that looks like it in another width
                x = rng.choice(seen[i])
                if x['k'] == 'i' and rng.random() < 0.6:
                    x = I(gen.alias(rng, unwint(x['w'])))
            ops.append({'op': o, 'id': i, 'x': x})
        elif o == 'append_bulk':
            ops.append({'op': o, 'id': i, 'xs': [value(rng, t, 0.04) for _ in range(rng.choice([0, 1, 3, 9]))], 'how': rng.randint(0, 3)})
        elif o == 'append_vec':
            j = rng.choice(list(live)) if rng.random() < 0.7 else i
            if len(ops) > size * 0.8 and j == i:
                continue
            ops.append({'op': o, 'id': i, 'src': j})
        elif o in ('pop', 'len', 'typecode', 'reversed', 'max', 'min', 'range', 'sort', 'serialize'):
            ops.append({'op': o, 'id': i})
        elif o == 'clear':
            if rng.random() < 0.3:
                ops.append({'op': o, 'id': i})
        elif o == 'pop_bulk':
            ops.append({'op': o, 'id': i, 'n': rng.choice([0, 1, 2, 3, 100, -1])})
        elif o in ('get', 'set'):
            e = {'op': o, 'id': i, 'i': rng.choice([0, -1, 1, 2, -2, 3, -3, 5, -9, 100, 2**30])}
            if o == 'set':
                e['x'] = value(rng, t)
            ops.append(e)
        elif o == 'slice' and len(live) < 5:
            d = 'v%d' % k
            k += 1
            L = lambda: [] if rng.random() < 0.3 else [rng.randint(-7, 7)]  # noqa: E731
            ops.append({'op': o, 'id': i, 'lo': L(), 'hi': L(), 'step': rng.choice([1, 1, 1, 1, 2, -1]), 'how': rng.randint(0, 1), 'dst': d})
            if ops[-1]['step'] == 1:
                live[d] = t
        elif o == 'remap' and len(live) < 5:
            d = 'v%d' % k
            k += 1
            src = rng.choice(list(live))
            m = 'v%d' % k
            k += 1
            mt = rng.choice(TYPES)
            ops.append({'op': 'len', 'id': src})
            xs = [value(rng, mt, 0) if rng.random() < 0.1 or mt == 'f' else I(rng.randint(0, 2)) for _ in range(rng.randint(0, 4))]
            ops.append({'op': 'new', 'id': m, 't': mt, 'xs': xs, 'how': 0})
            ops.append({'op': o, 'id': m, 'src': src, 'dst': d, 'maybe': 1})
            ops.append({'op': 'drop', 'id': m})
            ops.append({'op': 'drop?', 'id': d})
        elif o == 'export' and len(bufs) < 2:
            b = 'b%d' % k
            k += 1
            ops.append({'op': o, 'id': i, 'buf': b})
            bufs[b] = i
        elif o in ('release', 'bread', 'bwrite') and bufs:
            b = rng.choice(list(bufs))
            ops.append({'op': o, 'buf': b})
            if o == 'bwrite':
                ops[-1].update(at=rng.randint(0, 8), byte=rng.randint(0, 255))
            if o == 'release':
                del bufs[b]
        elif o == 'iter' and len(iters) < 3:
            it = 'i%d' % k
            k += 1
            iters.add((it, i))
            ops.append({'op': o, 'id': i, 'it': it})
        elif o == 'next' and iters:
            it, j = rng.choice(sorted(iters))
            if j in live:
                ops.append({'op': o, 'it': it})
        elif o == 'del':
            ops.append({'op': o, 'id': i, 'i': rng.choice([0, 1, -1, 100])})
        elif o == 'badkey':
            ops.append({'op': o, 'id': i, 'how': rng.randint(0, 9)})
        elif o == 'load' and len(live) < 5:
            d = 'v%d' % k
            k += 1
            ops.append({'op': o, 'id': d, 'b': serialized(rng), 'how': rng.randint(0, 2)})
            ops.append({'op': 'drop?', 'id': d})
        elif o == 'new' and len(live) < 5:
            new()
        elif o == 'badnew' and len(live) < 5:
            ops.append({'op': 'new', 'id': 'bad', 't': rng.choice(['i8', 'x', '', 'u128', 'f32']), 'xs': [OTHERS[0]], 'how': 0})
        elif o == 'drop' and len(live) > 1 and i not in bufs.values() and not any(j == i for _, j in iters):
            ops.append({'op': o, 'id': i})
            del live[i]
        elif o == 'reinit':
            if rng.random() < 0.3:
                ops.append({'op': o, 'id': i, 't': t, 'xs': [value(rng, t, 0) for _ in range(3)]})
    return {'ops': ops}


def cases_random(rng, n, size):
    return [random_case(rng, size, TYPES[i % 9]) for i in range(n)]


def run(chk):
    chk.build('asan')
    cases = []
    for cfg, cap in (('PrimVectorGen', 1500 if chk.quick else 20000), ('PrimVectorGen2', 700 if chk.quick else 20000), ('PrimVectorGen3', 300 if chk.quick else 20000),
                     ('PrimVectorGen4', 200 if chk.quick else 20000)):
        t = chk.explore('PrimVectorGen', cfg)
        bs, n = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(behaviours=n, replayed=len(bs))
        cases += [{'ops': b} for b in bs]
    rng = random.Random(chk.seed)
    cases += cases_random(rng, 400 if chk.quick else 6000, 40)
    cases += cases_random(rng, 20 if chk.quick else 200, 300)
    evs = vlib.standard(chk, 'primvector.py', 'PrimVectorTrace', cases,
                        describe=lambda c, e: 'prim-vector: %s' % vlib.brief(e))
    vlib.outcomes(chk, evs)
    large.run(chk, 'prim', explore=True)
