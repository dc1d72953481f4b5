"""Common part of the checks on writing and reading object graphs."""
import random
import gen
import vlib


def judge(chk, cases, aspect, kind='asan'):
    evs = vlib.standard(chk, 'store.py', 'StoreTrace', cases, kind=kind, tlc_env={'ASPECT': aspect},
                        weight=lambda c: sum(1 + len(e.get('g', {'n': []})['n']) for e in c) * 8,
                        describe=lambda c, e: 'graph %s: %s' % (vlib.brief(c.get('g', c), 700), vlib.brief({k: v for k, v in e.items() if k != 'g'}, 900)))
    n = {}
    for c in evs:
        for e in c:
            for a in e.get('g', {'n': []})['n']:
                n[a['k']] = n.get(a['k'], 0) + 1
    chk.cov['node_kinds'] = {k: n.get(k, 0) + chk.cov.get('node_kinds', {}).get(k, 0) for k in set(n) | set(chk.cov.get('node_kinds', {}))}
    r = chk.cov.setdefault('results', {})
    for c in evs:
        for e in c:
            k = e.get('res', 'crash')
            r[k] = r.get(k, 0) + 1
    for c in evs[:3]:
        chk.sample(event=c[0] if c else None)
    return evs


def enumerated(chk, *cfgs, cap=3000):
    out = []
    for cfg in cfgs:
        t = chk.explore('StoreGen', cfg)
        gs, n = vlib.behaviours(t, cap, chk.seed)
        chk.cov['specs'][cfg].update(graphs=n, replayed=len(gs))
        out += [{'g': g} for g in gs]
    return out


def opts(rng):
    o = {}
    if rng.random() < 0.4:
        o['unwiden'] = rng.random() < 0.7
    if rng.random() < 0.4:
        o['normalize'] = rng.random() < 0.5
    return o
