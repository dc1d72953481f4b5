"""P04: maps and sets find exactly their keys."""
import large
import random
import gen
import vlib
import vallib
import pyhash
from gen import INT, FLT, STR

HASHES = [0, 8, 32, 0x80000000, 0xffffffff]      # of HashTableGen.tla


class Keys:
    """Different keys with chosen hashes."""

    def __init__(self, g, rng):
        self.g, self.rng, self.used = g, rng, set()

    def take(self, h):
        rng, g = self.rng, self.g
        for _ in range(100):
            m = rng.randint(0, 6)
            if m < 2:
                a = INT(h if rng.random() < 0.5 or h < 2**31 else h - 2**32)
            elif m == 2:
                i = pyhash.preimage_seq1(h)
                i = i if rng.random() < 0.5 or i < 2**31 else i - 2**32
                if ('t', i) in self.used:
                    continue
                self.used.add(('t', i))
                if rng.random() < 0.4:
                    return g.add(vallib.prim('u32' if i >= 0 else 'i32', [i]))
                return g.add({'k': 'tup', 'ch': [g.add(INT(i))]})
            elif m == 3:
                x = pyhash.float_with(h)
                if x is None:
                    continue
                a = FLT(x)
            else:
                a = {'k': 'str', 'c': pyhash.preimage_str(h, rng)}
            c = str(a)
            if c in self.used:
                continue
            self.used.add(c)
            return g.add(a)


def equals(g, i, rng):
    """other objects that are the same key"""
    a = g.n[i - 1]
    if a['k'] == 'int':
        w = a['w']
        v = (w[3] << 16 | w[4]) * (-1 if w[0] else 1)
        return vallib.same_numbers(g, v) if gen.f32(float(v)) else []
    if a['k'] in ('tup', 'prim') and len(a.get('ch', a.get('xs', []))) == 1:
        if a['k'] == 'tup':
            b = g.n[a['ch'][0] - 1]
            if b['k'] != 'int':
                return []
            w = b['w']
        elif a['t'] == 'f':
            return []
        else:
            w = a['xs'][0]
        v = (w[1] << 48 | w[2] << 32 | w[3] << 16 | w[4]) * (-1 if w[0] else 1)
        return vallib.vectors(g, [v])
    if a['k'] == 'flt':
        return [g.add(dict(a))]
    return []


def container(g, kind, keys):
    if kind == 'map':
        return g.add({'k': 'map', 'ks': keys, 'vs': [g.add(INT(1000 + 7 * j)) for j in range(len(keys))]})
    return g.add({'k': kind, 'ch': keys})


def case(rng, g, kind, keys, probes):
    con = container(g, kind, keys)
    c = vallib.case(rng, g, list(dict.fromkeys(keys + probes)))
    return dict(c, con=con, do=['lookup'])


def run(chk):
    chk.build('asan')
    t = chk.explore('HashTableGen')
    bs = t.printed('B')
    if not chk.quick:
        chk.explore('HashTableGen', 'HashTableGen2', timeout=1800, heap='8g')
        bs += chk.explore('HashTableGen', 'HashTableGen3', timeout=1800, heap='8g').printed('B')
    rng = random.Random(chk.seed)
    bs.sort(key=str)
    cases = []
    # the tables of the specification, with keys that have these hashes
    for b in rng.sample(bs, min(len(bs), 120 if chk.quick else 6000)):
        g = gen.G(rng)
        ks = Keys(g, rng)
        keys = [ks.take(HASHES[h - 1]) for h in b['hs']]
        probes = list(keys)
        for i in keys:
            e = equals(g, i, rng)
            probes += e if len(e) < 3 else rng.sample(e, 3)
        for h in set(b['hs']):
            probes.append(ks.take(HASHES[h - 1]))
        cases.append(case(rng, g, rng.choice(['map', 'map', 'set', 'fset']), [keys[k - 1] for k in b['put']], probes))
    # larger tables with clustered hashes
    for j in range(40 if chk.quick else 800):
        g = gen.G(rng)
        ks = Keys(g, rng)
        n = rng.choice([0, 1, 2, 3, 5, 6, 10, 11, 12, 21, 22, 40] if j % 8 or chk.quick else [85, 86, 150, 170, 171])
        base = [rng.randint(0, 2**32 - 1), rng.choice(HASHES)]
        step = rng.choice([1, 2, 8, 32, 64, 1024, 2**16, 2**27, 2**31])
        hs = [(rng.choice(base) + step * rng.randint(0, 4)) % 2**32 for _ in range(n)]
        keys = [ks.take(h) for h in hs]
        probes = keys + [ks.take(rng.choice(hs)) if hs and rng.random() < 0.5 else ks.take((rng.choice(base) + step * rng.randint(0, 8)) % 2**32) for _ in range(6)]
        for i in rng.sample(keys, min(len(keys), 4)):
            probes += equals(g, i, rng)
        cases.append(case(rng, g, rng.choice(['map', 'set']), keys, probes))
    # random keys of all kinds, and things that can not be keys
    for _ in range(40 if chk.quick else 800):
        g = gen.G(rng)
        keys = g.keys(rng.choice([1, 2, 4, 8, 16, 30]))
        keys = distinct(g, keys)
        probes = [g.key() for _ in range(8)]
        for i in rng.sample(keys, min(len(keys), 5)):
            probes += equals(g, i, rng)
        if rng.random() < 0.4:
            probes += [g.add({'k': 'list', 'ch': []}), g.add({'k': 'set', 'ch': []}), g.add({'k': 'map', 'ks': [], 'vs': []}), g.add({'k': 'tup', 'ch': [g.add({'k': 'list', 'ch': [g.add({'k': 'set', 'ch': []})]})]})]
        cases.append(case(rng, g, rng.choice(['map', 'set', 'fset']), keys, probes))
    evs = vlib.standard(chk, 'values.py', 'ValuesTrace', cases, describe=vallib.describe,
                        weight=lambda c: sum(len(e.get('rs', [])) for e in c) * max(1, len(c[0]['g']['n'])) // 100 + 5 if c else 1)
    vlib.outcomes(chk, evs, ['lookup', 'own'])
    chk.cov['absent'] = sum(1 for c in evs for e in c if e['op'] == 'lookup' and e['rs'] and e['rs'][0][1] == 0)
    chk.cov['found'] = sum(1 for c in evs for e in c if e['op'] == 'lookup' and e['rs'] and e['rs'][0][1] == 1)
    large.run(chk, 'table')


def distinct(g, keys):
    """Keys that stay different when they are stored: floats become singles, bits and vectors have several forms."""
    import struct

    def canon(i):
        a = g.n[i - 1]
        k = a['k']
        if k == 'flt':
            c = g.canon(i)[1]
            if type(c) is not float:
                return None
            w = gen.f32(c)
            return ('n', struct.unpack('<f', struct.pack('<I', w[0] << 16 | w[1]))[0])
        if k == 'prim':
            if a['t'] == 'f':
                xs = [struct.unpack('<f', struct.pack('<I', x[0] << 16 | x[1]))[0] for x in a['xs']]
                return ('t',) + tuple(('n', x) for x in xs) if all(x == x for x in xs) else None
            return ('t',) + tuple(('n', (x[1] << 48 | x[2] << 32 | x[3] << 16 | x[4]) * (-1 if x[0] else 1)) for x in a['xs'])
        if k == 'tup':
            cs = [canon(j) for j in a['ch']]
            return None if None in cs else ('t',) + tuple(cs)
        return g.canon(i)
    seen, out = set(), []
    for i in keys:
        c = canon(i)
        if c is None or c in seen:
            continue
        seen.add(c)
        out.append(i)
    return out
