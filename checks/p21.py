"""P21: the C creation interface writes what was built."""
import json
import random
import vlib
from gen import f32
from drv_enc import wint, f64

LO = {'i8': -128, 'i16': -2**15, 'i32': -2**31, 'i64': -2**63}
HI = {'i8': 127, 'u8': 255, 'i16': 2**15 - 1, 'u16': 65535, 'i32': 2**31 - 1, 'u32': 2**32 - 1, 'i64': 2**63 - 1, 'u64': 2**64 - 1}
SINGLES = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0**-149, 3.4028234663852886e38, float('inf'), float('-inf'), 16777216.0, 7.0, 65536.0]


def item(rng, t):
    if t == 'f':
        return f32(rng.choice(SINGLES + [float('nan')]))
    lo, hi = LO.get(t, 0), HI[t]
    return wint(rng.choice([lo, hi, hi // 2, max(lo, -1), 0, 1, 7, rng.randint(lo, hi)]))


def leaf(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice([('i32', {'k': 'int', 'w': wint(rng.choice([-2**31, 2**31 - 1, -129, -128, -1, 0, 1, 2, 127, 128, 255, 1000, 1024, rng.randint(-2000, 2000)]))}),
                           ('u32', {'k': 'int', 'w': wint(rng.choice([2**32 - 1, 2**31, 65535, 65536, 0, 1, 2, 255, 256, 1000, 1024, rng.randint(0, 3000)]))})])
    if r < 0.45:
        return 'flt', {'k': 'flt', 'd': f64(rng.choice(SINGLES + [float('nan')] * (rng.random() < 0.2)))}
    if r < 0.55:
        v = rng.randint(0, 1)
        return rng.choice([('null', {'k': 'none'}), ('boolean_true', {'k': 'bool', 'v': 1}), ('boolean_false', {'k': 'bool', 'v': 0}), ('boolean', {'k': 'bool', 'v': v})])
    if r < 0.85:
        w = rng.choice([1, 1, 2, 4])
        n = rng.choice([0, 1, 1, 2, 3, 7, 30])
        top = {1: [97, 98, 255, 233, 1], 2: [97, 98, 255, 256, 0xffff, 0x20ac], 4: [97, 98, 0x10ffff, 0x10000, 0x1f600, 256]}[w]
        c = [rng.choice(top) for _ in range(n)]
        # surrogates are not characters
        kinds = ['ucs4'] if w == 4 else ['ucs2', 'ucs4'] if w == 2 else ['ascii', 'ucs2', 'ucs4']
        u = 1 if w > 1 else rng.randint(0, 1)
        return ('unicode_' if u else 'string_') + rng.choice(kinds), {'k': 'str', 'c': c, 'u': u}
    n = rng.choice([0, 1, 5, 8, 27, 28, 31, 33, 64, 70])
    m = rng.random()
    b = [rng.randint(0, 1) for _ in range(n)] if m < 0.5 else [0] * n if m < 0.6 else [1] * n if m < 0.7 else sorted(rng.randint(0, 1) for _ in range(n)) if m < 0.85 else sorted((rng.randint(0, 1) for _ in range(n)), reverse=True)
    return rng.choice(['bitvector', 'bitvector', 'bitvector_no_normalize']), {'k': 'bits', 'b': b}


def near(rng, o):
    """Almost the same once more: tables which look for duplicates must tell them apart."""
    n = dict(o['node'])
    k = 'c' if n['k'] == 'str' else 'b'
    x = list(n[k])
    at = rng.choice([len(x) - 1, len(x) - 1, len(x) // 2, 0, rng.randrange(len(x))])
    r = rng.random()
    if r < 0.15 and len(x) > 1:
        x.pop()
    elif r < 0.3:
        x.append(x[-1])
    else:
        x[at] = 1 - x[at] if k == 'b' else x[at] + 1 if x[at] == 1 else x[at] - 1
    n[k] = x
    return o['how'], n


def history(rng, size, faults):
    ops, nodes = [{'op': 'begin', 'bits': 32 if rng.random() < 0.03 else 64}], {}
    full = set()
    tame = rng.random() < 0.85       # only keys that can be keys
    used = {}

    def mk(how, node):
        nodes[len(nodes) + 1] = node
        ops.append({'op': 'mk', 'how': how, 'id': len(nodes), 'node': node})
        if node['k'] == 'bits' and rng.random() < 0.4:
            ops[-1]['slack'] = 1
        return len(nodes)

    def pick(*kinds):
        c = [i for i in nodes if not kinds or nodes[i]['k'] in kinds]
        return rng.choice(c) if c else 0
    while len(ops) < size:
        r = rng.random()
        n0 = len(ops)
        if r < 0.3:
            old = [o for o in ops if o['op'] == 'mk' and o['node']['k'] in ('str', 'bits', 'flt', 'int')]
            if old and rng.random() < 0.35:      # once more
                o = rng.choice(old)
                if o['node'].get('c', o['node'].get('b')) and rng.random() < 0.6:
                    mk(*near(rng, o))
                else:
                    mk(o['how'], dict(o['node']))
            else:
                mk(*leaf(rng))
        elif r < 0.36:
            mk('vector_value', {'k': 'list', 'ch': []})
        elif r < 0.40:
            t = rng.choice(list(HI) + ['f'])
            mk('own', {'k': 'prim', 't': t, 'xs': [item(rng, t) for _ in range(rng.choice([0, 1, 2, 3, 7]))]})
            full.add(len(nodes))
        elif r < 0.45:
            mk('lib', {'k': 'prim', 't': rng.choice(list(HI) + ['f']), 'xs': []})
        elif r < 0.49:
            mk('set', {'k': 'set', 'ch': []})
        elif r < 0.53:
            mk('map', {'k': 'map', 'ks': [], 'vs': []})
        elif r < 0.72 and pick('list'):
            i = pick('list')
            m = rng.random()
            if m < 0.05:
                ops.append({'op': 'push', 'i': i, 'x': 0})
            elif m < 0.1 and i in full:
                ops.append({'op': 'put', 'i': i, 'at': 0, 'x': pick()})
            elif m < 0.16 and (i not in full or rng.random() < 0.3):
                xs = [pick() for _ in range(rng.choice([1, 1, 2, 5]))]
                ops.append({'op': 'give', 'i': i, 'xs': xs})
                full.add(i)
            else:
                # many of a kind, so that they are stored as numbers
                k = pick()
                for _ in range(rng.choice([1, 1, 1, 2, 4, 9])):
                    ops.append({'op': 'push', 'i': i, 'x': k})
                    k = (pick(nodes[k]['k']) or k) if rng.random() < 0.8 else pick()
                full.add(i)
        elif r < 0.82 and pick('prim'):
            i = pick('prim')
            if nodes[i]['xs'] or ops and any(o['op'] == 'mk' and o['id'] == i and o['how'] == 'own' for o in ops):
                continue
            t = nodes[i]['t']
            if t == 'u32' and rng.random() < 0.4:
                ops.append({'op': 'givex', 'i': i, 'xs': [item(rng, t) for _ in range(rng.choice([1, 2, 5]))]})
            else:
                for _ in range(rng.choice([1, 2, 5])):
                    ops.append({'op': 'pushx', 'i': i, 't': t, 'n': item(rng, t)})
        elif pick('set', 'map'):
            i = pick('set', 'map')
            for _ in range(rng.choice([1, 1, 2, 6])):
                k = (pick('prim') if rng.random() < 0.3 else pick('int', 'str', 'none', 'bits', 'flt')) if tame else pick()
                if tame and (not k or repr(sorted(nodes[k].get('c', nodes[k].items()))) in used.setdefault(i, set())):
                    continue
                if tame:
                    used[i].add(repr(sorted(nodes[k].get('c', nodes[k].items()))))
                ops.append({'op': 'add', 'i': i, 'k': k} if nodes[i]['k'] == 'set' else {'op': 'add2', 'i': i, 'k': k, 'v': pick()})
        else:
            continue
        if faults:
            for o in ops[n0:]:
                if o['op'] not in ('put',) and rng.random() < faults:
                    o['fail'] = rng.choice([1, 1, 2, 3, 4])
    c = [i for i in nodes if nodes[i]['k'] in ('list', 'set', 'map')]
    if nodes and rng.random() < 0.5:        # so that the file shows all of it
        i = mk('vector_value', {'k': 'list', 'ch': []})
        for k in rng.sample(sorted(nodes), len(nodes)):
            ops.append({'op': 'push', 'i': i, 'x': k})
        c = [i]
    if rng.random() < 0.97:
        ops.append({'op': 'root', 'i': rng.choice(c) if c and rng.random() < 0.9 else pick()})
    ops.append({'op': 'end'} if rng.random() < 0.05 else {'op': 'out', 'how': rng.choice('fb')})
    if faults and ops[-1]['op'] == 'out' and rng.random() < 0.4:
        ops[-1]['fail'] = rng.randint(1, 40)
    return ops


def run(chk):
    chk.build('asan')
    env = dict(chk.clib('builder.c'))
    env.update(chk.preload('fault.c'))
    rng = random.Random(chk.seed)
    cases = []
    for cfg, cap in (('BuilderGen', 1200),) if chk.quick else (('BuilderGen', 20000), ('BuilderGen2', 20000)):
        t = chk.explore('BuilderGen', cfg)
        hs = [b for b in t.printed('B') if any(o['op'] not in ('mk',) for o in b['h'])]
        hs.sort(key=lambda b: json.dumps(b))
        n = len(hs)
        may = [b for b in hs if b['may']]
        cannot = [b for b in hs if not b['may']]
        # those which can be written weigh more
        hs = rng.sample(may, min(len(may), cap * 3 // 4)) + rng.sample(cannot, min(len(cannot), cap // 4))
        chk.cov['specs'][cfg].update(histories=n, replayed=len(hs))
        for b in hs:
            h = [{k: v for k, v in o.items() if k != 'h'} for o in b['h']]
            nn = sum(o['op'] == 'mk' for o in h)
            cases.append([{'op': 'begin', 'bits': 64}] + h + [{'op': 'root', 'i': nn}, {'op': 'out', 'how': rng.choice('fb')}])
    for i in range(900 if chk.quick else 15000):
        cases.append(history(rng, rng.choice([4, 8, 15, 25, 40]), 0))
    for i in range(700 if chk.quick else 12000):
        cases.append(history(rng, rng.choice([4, 8, 15, 25]), rng.choice([0.02, 0.1, 0.3, 0])))
    # every allocation of a history fails once, while it is written
    for i in range(12 if chk.quick else 80):
        h = history(rng, rng.choice([8, 15, 25]), 0)
        if h[-1]['op'] != 'out':
            continue
        for f in range(1, 60):
            cases.append(h[:-1] + [dict(h[-1], fail=f)])
    cases = [{'ops': c} for c in cases]
    evs = vlib.standard(chk, 'builder.py', 'BuilderTrace', cases, env=env, weight=lambda c: sum(4 + 2 * len(e.get('b', [])) for e in c),
                        describe=lambda c, e: 'creation: %s at %s' % (vlib.brief(c, 900), vlib.brief({k: v for k, v in e.items() if k not in ('b', 'again')}, 300)))
    r = {}
    for c in evs:
        for e in c:
            k = '%s%s' % (e['op'], ':' + e['res'] if e['op'] == 'out' else ':failed' if e.get('h') == -1 else '')
            r[k] = r.get(k, 0) + 1
    for k in ('mk', 'mk:failed', 'push', 'push:failed', 'pushx', 'put', 'give', 'give:failed', 'givex', 'add', 'add2', 'out:ok', 'out:exc', 'end'):
        if not r.get(k):
            raise vlib.TlcError('nothing happened in any history: ' + k)
    chk.cov['operations'] = r
