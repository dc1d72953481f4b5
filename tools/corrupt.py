#!/usr/bin/env python3
"""corrupt.py ID [N]: is each specification bound to what is recorded?

Runs the quick check of a property, but changes one scalar of one recorded event in each of N cases before TLC judges them.
Prints, for every operation and field, how many of the changed logs were rejected, and examples of those accepted.
(Arguments of operations are changed too; a changed argument need not change the result.)"""
import copy
import importlib
import os
import random
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for d in ('lib', 'checks'):
    sys.path.insert(0, os.path.join(HERE, '..', d))
import vlib

ID = sys.argv[1]
N = int(sys.argv[2]) if len(sys.argv) > 2 else 300
rng = random.Random(int(os.environ.get('VERIF_SEED', '1')))
table = {}
examples = {}


def scalars(x, path):
    if isinstance(x, dict):
        for k in x:
            yield from scalars(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from scalars(y, path + (i,))
    else:
        yield path, x


def other(x):
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return rng.choice([x + 1, max(x - 1, 0)]) if x else 1
    if isinstance(x, str):
        return {'ok': 'exc', 'exc': 'ok', 'T': 'F', 'F': 'T', 'yes': 'no', 'no': 'yes'}.get(x, x + 'x')
    return 0


def judge(self, module, cases, **kw):
    import concurrent.futures as cf
    jobs = []
    for _ in range(N):
        c = rng.choice(cases)
        i = rng.randrange(len(c))
        if c[i].get('op') == 'reset':
            i = rng.randrange(len(c))
        ps = [(p, x) for p, x in scalars(c[i], ()) if p[0] not in ('op', 'id') and p[-1] != 'e']
        if not ps:
            continue
        tops = sorted({p[0] for p, _ in ps})
        t = rng.choice(tops)
        p, x = rng.choice([q for q in ps if q[0][0] == t])
        d = copy.deepcopy(c)
        y = d[i]
        for k in p[:-1]:
            y = y[k]
        y[p[-1]] = other(x)
        if y[p[-1]] == x:
            continue
        jobs.append((d, i, p, x, y[p[-1]]))

    def one(j):
        try:
            return self._judge_shard(module, kw.get('cfg'), j[0], kw.get('env'), 300).rejected is not None
        except vlib.TlcError as e:      # an event that is not even one the specification can evaluate
            return True
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, jobs))
    for (d, i, p, x, y), r in zip(jobs, rs):
        k = (module, d[i].get('op'), p[0])
        a = table.setdefault(k, [0, 0])
        a[0] += r
        a[1] += 1
        if not r:
            examples.setdefault(k, []).append('%s: %r -> %r in %s' % ('.'.join(map(str, p)), x, y, vlib.brief(d[i], 300)))
    return []


vlib.Check.judge = judge
chk = vlib.Check(ID, 'quick', 1)
try:
    importlib.import_module(ID.lower()).run(chk)
except Exception as e:
    print('(%s: %s)' % (type(e).__name__, e))
for k in sorted(table, key=str):
    print('%-16s %-12s %-8s rejected %d of %d' % (k + tuple(table[k])))
    for x in examples.get(k, [])[:2]:
        print('      accepted', x)
