"""Values in all their representations: the universe of the checks of hashes, order and lookups."""
import random
import gen
import vlib
from gen import INT, FLT, STR, G, f32
from drv_enc import wint

BIGS = [2**32, 2**32 + 1, 2**40, 2**40 + 1, 2**53, 2**53 + 1, 2**62, 2**63 - 1, -2**31 - 1, -2**31 - 128, -2**31 - 256, -2**40, -2**63, -2**63 + 1, 2**32 + 256, 2**32 + 512, 3 * 2**31]
UBIGS = [2**63, 2**63 + 1, 2**64 - 1, 2**64 - 2**40, 2**63 + 2**40]
FBIGS = [float(2**32), float(2**40), float(2**62), float(2**63), -float(2**63), float(2**64), -2147483904.0, -2147483776.0, 4294967808.0, 6442450944.0, float(2**64 - 2**40), float(2**63 + 2**40)]


def prim(t, xs):
    return {'k': 'prim', 't': t, 'xs': [f32(x) if t == 'f' else wint(x) for x in xs]}


def same_numbers(g, n):
    """n in every representation"""
    out = []
    if -2**31 <= n < 2**32:
        out.append(g.add(INT(n)))
    out.append(g.add(FLT(float(n))))
    if n in (0, 1):
        out.append(g.add({'k': 'bool', 'v': n}))
    return out


def vectors(g, xs):
    """[xs] in every representation"""
    out = []
    for t in gen.PTYPES:
        if t == 'f' and all(float(x) == x and gen.f32(float(x)) and abs(x) < 2**24 for x in xs) or t != 'f' and all(gen.LIM[t][0] <= x <= gen.LIM[t][1] for x in xs):
            out.append(g.add(prim(t, xs)))
    if all(-2**31 <= x < 2**32 for x in xs):
        out.append(g.add({'k': 'tup', 'ch': [g.add(INT(x)) for x in xs]}))
        out.append(g.add({'k': 'list', 'ch': [g.add(INT(x)) for x in xs]}))
    out.append(g.add({'k': 'tup', 'ch': [g.add(FLT(float(x))) for x in xs]}))
    return out


def universe(rng):
    """Graphs with the values at the boundaries, grouped so that equal values in different representations are together."""
    cases = []
    for lot in range(0, len(gen.INTS), 14):
        g = G(rng)
        roots = []
        for n in gen.INTS[lot:lot + 14]:
            roots += same_numbers(g, n)
        cases.append((g, roots))
    g = G(rng)
    cases.append((g, [g.add(FLT(x)) for x in gen.FLTS + FBIGS]))
    for xs in ([], [0], [1], [-1], [127], [128], [255], [256], [-129], [65535], [65536], [2**31 - 1], [2**31], [2**32 - 1], [-2**31], [1, 2, 3], [0, 0], [300, 1], [-5, 7, 100]):
        g = G(rng)
        cases.append((g, vectors(g, xs)))
    g = G(rng)
    roots = [g.add(prim('i64', [x])) for x in BIGS] + [g.add(prim('u64', [x])) for x in BIGS + UBIGS if x >= 0] + [g.add({'k': 'tup', 'ch': [g.add(FLT(x))]}) for x in FBIGS] + [g.add(prim('f', [x])) for x in FBIGS]
    cases.append((g, roots))
    # numbers and characters which a narrower or differently signed word can not tell apart
    g = G(rng)
    cases.append((g, [g.add(prim('i64', [x])) for x in (-1, -2**63, 5, 5 + 2**8, 5 + 2**16, 5 + 2**31, 5 + 2**32, 5 - 2**32, 2**32 - 1, 2**31, -2**31)]
                  + [g.add(prim('u64', [x])) for x in (2**64 - 1, 2**63, 2**64 - 2**31, 5 + 2**32, 2**64 - 2**32 + 5, 255, 65535)]
                  + [g.add(prim('i8', [-1])), g.add(prim('i16', [-1])), g.add(prim('i32', [-1, ])), g.add(prim('f', [-1.0]))]))
    g = G(rng)
    cases.append((g, [g.add(STR(s)) for s in ('A', '\u0141', '\U00010041', '\U00010141', 'A1', '\U000100411', 'A\U00010000', '\U00010041\u0100', '\u0100A', '\U00010100A', 'aA', 'a\U00010041')]))
    g = G(rng)
    strs = ['', 'a', 'b', 'ab', 'a' * 9, '\x7f', '\x80', '\xe9', '\xff', '\xff\xff', '\u0100', '\u20ac', 'a\u20ac', '\ud800', '\uffff', '\U00010000', '\U0010ffff', 'a\U00010000', '\xe9a\U0001f600', 'abc\xff\u0100']
    cases.append((g, [g.add(STR(s)) for s in strs]))
    for lot in range(3):
        g = G(rng)
        roots = []
        for n in ([0, 1, 2, 3, 4], [7, 8, 9, 15, 16, 17], [26, 27, 28, 31, 32, 33, 63, 64, 65])[lot]:
            pats = [[0] * n, [1] * n, [0] * (n // 2) + [1] * (n - n // 2), [1] * (n // 2) + [0] * (n - n // 2), [i % 2 for i in range(n)], [rng.randint(0, 1) for _ in range(n)]]
            for b in {tuple(p): p for p in pats}.values():
                roots.append(g.add({'k': 'bits', 'b': b}))
        cases.append((g, roots))
    # keys with the same hash, which are different
    g = G(rng)
    ones = [g.add({'k': 'none'}), g.add(INT(0)), g.add(STR('')), g.add({'k': 'bits', 'b': []}), g.add(INT(1)), g.add({'k': 'tup', 'ch': []}), g.add(prim('u8', [])), g.add({'k': 'list', 'ch': []})]
    t = g.add({'k': 'tup', 'ch': [ones[0], ones[4]]})
    ones += [t, g.add({'k': 'tup', 'ch': [t, t]}), g.add({'k': 'set', 'ch': []}), g.add({'k': 'map', 'ks': [], 'vs': []})]
    ones += [g.add({'k': 'tup', 'ch': [g.add({'k': 'list', 'ch': [ones[4]]})]}), g.add({'k': 'tup', 'ch': [g.add({'k': 'set', 'ch': [ones[4]]})]})]
    cases.append((g, ones))
    return [case(rng, g, roots) for g, roots in cases]


def case(rng, g, roots, nostore=()):
    # strings with a surrogate can not be in the narrow storage; the options are different for the two files
    return {'g': {'n': g.n}, 'roots': roots, 'nostore': list(nostore),
            'opts': {'unwiden': True, 'normalize': True}, 'opts2': {'unwiden': False, 'normalize': False}}


def acyclic(n, i, path=()):
    if i in path:
        return False
    a = n[i - 1]
    return all(acyclic(n, j, path + (i,)) for j in a.get('ch', []) + a.get('vs', []))


def sampled(rng, n):
    g = G(rng)
    roots = []
    while len(g.n) < n:
        i = g.key(3)
        roots.append(i)
        a = g.n[i - 1]
        if a['k'] == 'int' and rng.random() < 0.5:
            w = a['w']
            v = (w[3] << 16 | w[4]) * (-1 if w[0] else 1)
            roots += same_numbers(g, v)
        if a['k'] == 'tup':
            roots.append(g.add({'k': 'list', 'ch': list(a['ch'])}))
        if a['k'] == 'prim' and a['t'] != 'f' and rng.random() < 0.5:
            roots += vectors(g, [(-1 if w[0] else 1) * (w[1] << 48 | w[2] << 32 | w[3] << 16 | w[4]) for w in a['xs']])
    if rng.random() < 0.3:
        i = g.value(2, [])
        if acyclic(g.n, i):
            roots.append(i)
    return case(rng, g, roots)


def describe(c, e):
    if e.get('op') == 'crash':
        return 'crash: %s' % vlib.brief(e)
    g = c['g']['n']

    def show(i, d=0):
        a = g[i - 1]
        if 'ch' in a and d < 3:
            return {a['k']: [show(j, d + 1) for j in a['ch']]}
        return a
    return '%s of %s: %s' % (e['op'], ' and '.join(str(show(e[k])) for k in ('i', 'j', 'con') if k in e)[:600], vlib.brief({k: v for k, v in e.items() if k != 'g'}, 600))
