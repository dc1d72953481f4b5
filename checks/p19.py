"""P19: checked integer arithmetic reports every overflow."""
import random
import vlib

MAX = {'u32': 2**32 - 1, 'u64': 2**64 - 1, 'sizet': 2**64 - 1}


def edges(t):
    m = MAX[t]
    b = 32 if t == 'u32' else 64
    s = {0, 1, 2, 3, 5, 7, 10, 255, 256, 1000, m, m - 1, m - 2, m // 2, m // 2 + 1, m // 3, m // 3 + 1, m // 5, m // 7}
    for k in ([8, 15, 16, 17, 31] if b == 32 else [8, 16, 31, 32, 33, 48, 63]):
        s |= {2**k - 1, 2**k, 2**k + 1}
    r = int(m ** 0.5)
    s |= {r - 1, r, r + 1}
    return sorted(x for x in s if x <= m)


def pair(rng, t):
    m = MAX[t]
    a = rng.randint(0, 2**rng.randint(0, m.bit_length()) - 1)
    r = rng.random()
    if r < 0.4:         # a product at the limit
        a = max(a, 1)
        b = m // a + rng.randint(-1, 1)
    elif r < 0.6:
        b = m - a + rng.randint(-1, 2)
    else:
        b = rng.randint(0, 2**rng.randint(0, m.bit_length()) - 1)
    b = max(0, min(m, b))
    return [a, b] if rng.random() < 0.5 else [b, a]


# ---- expressions
def number(rng):
    r = rng.random()
    m = MAX['u64']
    if r < 0.5:
        s = str(rng.randint(0, 12))
    elif r < 0.7:
        s = str(rng.choice([m, m - 1, m + 1, m // 2, m // 2 + 1, m // 3, 2**32, 2**32 - 1, 2**31, 2**63, 10 * m, 2**64 + 5, 2**65]))
    else:
        s = str(rng.randint(0, 2**rng.randint(0, 64) - 1))
    if rng.random() < 0.1:
        s = '0' * rng.choice([1, 2, 30 - len(s), 31 - len(s), 12]) + s
    return s


def expr(rng, depth):
    r = rng.random()
    if rng.random() < 0.12:     # too big, however it goes on
        m = MAX['u64']
        return rng.choice(['(%d+%d)' % (m - rng.randint(0, 2), rng.randint(1, 9)), '(%d*%d)' % (m - rng.randint(0, 2), rng.randint(1, 4)),
                           '(%d*%d)' % (2**rng.randint(30, 34), 2**rng.randint(30, 34)), '%d*%d' % (m, rng.randint(1, 3))])
    if depth <= 0 or r < 0.15:
        return 'x' if rng.random() < 0.03 else number(rng)
    if r < 0.35:
        return '(' + expr(rng, depth - 1) + ')'
    n = rng.choice([2, 2, 3, 4])
    return ''.join((rng.choice('+-*/') if i else '') + expr(rng, depth - rng.randint(1, 2)) for i in range(n))


def spoil(rng, s):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randint(0, len(s))
        r = rng.random()
        if r < 0.4 and s:
            s.pop(min(i, len(s) - 1))
        elif r < 0.8:
            s.insert(i, rng.choice(['+', '-', '*', '/', '(', ')', 'x', '1', ' ', '0']))
        else:
            s.insert(i, rng.choice(['\n', 'X', '.', '\x01', '\x7f', '\x80', '\xff', 'e', ',', '%', '^', '&', '\r', ':', '\'', '\x0b', '\xa0']))
    return ''.join(s)


def text(rng, small=False):
    s = expr(rng, rng.choice([1, 2, 3, 4] if not small else [1, 2]))
    r = rng.random()
    if r < 0.3:
        s = ''.join(c + rng.choice(['', '', ' ', '\t', '  ']) if i < len(s) - 1 and not (c.isdigit() and s[i + 1].isdigit()) else c for i, c in enumerate(s))
        s = rng.choice(['', ' ']) + s + rng.choice(['', ' '])
    if 0.25 < r < 0.4:
        s = spoil(rng, s)
    return s


def code(s):
    return list(s.encode('latin1'))


def big(rng):
    """about as many tokens as fit, no more blanks after the last one"""
    out = []
    n = rng.choice([510, 511, 512, 513, 514, 512, 600, 100])
    k = rng.random()
    if k < 0.25:
        d = (n - 1) // 2
        out = '(' * d + '7' + ')' * d
        if len(out) < n:
            out = rng.choice(['(' + out, out + ')', out + '+'])
    elif k < 0.5:
        out = '1' + ''.join(rng.choice('+*') + '1' for _ in range((n - 1) // 2))
        if len(out) < n:
            out += rng.choice(['+', ')', ''])
    elif k < 0.75:
        out = '+'.join('(%d)' % (i % 10) for i in range(n // 4 + 1))[:n]
    else:
        out = '(1+' * (n // 4) + '1' + ')' * (n // 4)
    return out


def run(chk):
    chk.build('asan')
    rng = random.Random(chk.seed)
    cases = []
    for t in ('u32', 'u64', 'sizet'):
        es = edges(t)
        for f in ('add', 'mult'):
            ps = [[a, b] for a in es + [None] for b in es + [None]]
            ps += [pair(rng, t) for _ in range(1500 if chk.quick else 100000)]
            for i in range(0, len(ps), 50):
                cases.append({'ty': t, 'f': f, 'xs': ps[i:i + 50], 'init': es if i == 0 and f == 'add' else []})
    narith = len(cases)
    texts = []
    for cfg, cap in (('IntOpsGen', 5000), ('IntOpsGen2', 2500)) if chk.quick else (('IntOpsGen', 40000), ('IntOpsGen2', 4000), ('IntOpsGen3', 60000)):
        t = chk.explore('IntOpsGen', cfg)
        bs, n = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(expressions=n, replayed=len(bs))
        texts += [b[0] for b in bs]
    rng.shuffle(texts)
    texts += [code(text(rng)) for _ in range(4000 if chk.quick else 60000)]
    texts += [code(text(rng, True)) for _ in range(4000 if chk.quick else 60000)]
    texts += [code(big(rng)) for _ in range(60 if chk.quick else 600)]
    while texts:
        n = min(len(texts), rng.choice([1, 2, 5, 10, 20]))
        hist = [texts.pop() for _ in range(n)]
        # the same context is used for another one, also a shorter one
        rng.shuffle(hist)
        fill = rng.choice([[], [255], [rng.randint(0, 255) for _ in range(rng.choice([1, 4, 7, 32]))], [1, 0, 0, 0], [0, 0, 0, 0, 3]])
        cases.append({'fill': fill, 'hist': hist, 'evals': rng.choice([1, 1, 2])})
    evs = vlib.standard(chk, 'intops.py', 'IntOpsTrace', cases, env=chk.clib('intops.c'), case_timeout=60,
                        weight=lambda c: int(sum(len(e.get('xs', ())) + 1 + len(e.get('s', ())) / 40 for e in c)),
                        describe=lambda c, e: '%s: %s' % (('expression %r' % last(c, e)) if 'hist' in c else 'arithmetic', vlib.brief(wrong(e), 1500)))
    vlib.outcomes(chk, evs, ['arith', 'init', 'new', 'compile', 'eval'])
    n = {}
    for c in evs:
        for e in c:
            if e['op'] == 'arith':
                for x in e['xs']:
                    k = '%s %s:%s' % (e['f'], e['ty'], 'exact' if x[2] else 'overflow')
                    n[k] = n.get(k, 0) + 1
            elif e['op'] in ('compile', 'eval'):
                k = '%s:%s' % (e['op'], 'ok' if e['ok'] else 'error')
                n[k] = n.get(k, 0) + 1
    chk.cov['results'] = n


def last(c, e):
    return [bytes(h) for h in c['hist']][-3:]


def wrong(e):
    """only the triples that do not fit, for the message"""
    if e.get('op') != 'arith':
        return e
    v = lambda d: int(''.join(map(str, d))) if d else None
    out = []
    for a, b, r in e['xs']:
        a, b, r = v(a), v(b), v(r)
        x = None if a is None or b is None else a + b if e['f'] == 'add' else a * b
        if (x if x is not None and x <= MAX[e['ty']] else None) != r:
            out.append([a, b, r])
    return dict(e, xs=out)
