"""Writes again what was read from files."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import base64
import ctypes
import random
import shutil
import gen
from drv import *
from graph import *

LIB = ctypes.CDLL(os.environ['CLIB'])
EXC = (ValueError, OSError, OverflowError, TypeError, UnicodeError, RecursionError)
NONE = {'n': [], 'r': 0}


def write(obj, how, **kw):
    """a serialized value, opened again; None if it is rejected"""
    try:
        if how == 0:
            b = pointless.serialize_to_bytearray(obj, **kw)
        elif how == 1:
            b = pointless.serialize_to_buffer(obj, **kw)
        else:
            pointless.serialize(obj, 'w.map', **kw)
            b = 'w.map'
    except EXC as x:
        x.__traceback__ = None
        return None
    p = pointless.Pointless(b)
    if how == 2:
        os.unlink('w.map')
    return p


def recreate(a, b):
    err = ctypes.c_char_p()
    LIB.pointless_recreate_64.restype = ctypes.c_int
    ok = LIB.pointless_recreate_64(a.encode(), b.encode(), ctypes.byref(err))
    return ok, err.value


def copy(f, data, over):
    with open('in.map', 'wb') as h:
        h.write(data)
    out = 'in.map' if over else 'out.map'
    ok, err = recreate('in.map', out)
    e = {'op': 'copy', 'f': f, 'res': 'ok' if ok else 'exc', 'h': NONE, 'same': True}
    if ok:
        e['h'] = observe(pointless.Pointless(out).GetRoot())
        e['same'] = over or open('in.map', 'rb').read() == data
    assert sorted(os.listdir('.')) == sorted({'in.map', out}), os.listdir('.')
    if ok:
        os.unlink(out)
    if not over:
        os.unlink('in.map')
    emit(e)


def nocopy(data, way):
    """copies that cannot be made"""
    with open('in.map', 'wb') as h:
        h.write(data[:30] if way == 1 else data)
    if way == 2:
        os.mkdir('out.map')
    ok, err = recreate('none.map' if way == 3 else 'in.map', 'nodir/out.map' if way == 0 else 'out.map')
    left = sorted(os.listdir('.'))
    want = ['in.map', 'out.map'] if way == 2 else ['in.map']
    emit({'op': 'nocopy', 'way': way, 'res': 'ok' if ok else 'exc', 'same': left == want and open('in.map', 'rb').read() == (data[:30] if way == 1 else data), 'error': bool(err)})
    if way == 2:
        os.rmdir('out.map')
    os.unlink('in.map')


def part(v, lo, hi, rng):
    """items lo..hi of a vector, taken in one way or another"""
    n = len(v)
    r = rng.randint(0, 3)
    if r == 0:
        return v[lo:][:hi - lo]
    if r == 1:
        return v[:hi][lo:]
    if r == 2:
        return v[lo - n if lo < n else n:hi]
    return v[lo:hi]


class Files:
    def __init__(self, ps, rng):
        self.rng, self.hs, self.objs = rng, [], []
        for p in ps:
            o = {}
            self.hs.append(observe(p.GetRoot(), o))
            self.objs.append(o)

    def read(self, f, i, lo=None, hi=None):
        """a node which is a value that was read, and that value"""
        v = self.objs[f][i]
        if lo is None:
            return {'k': 'read', 'f': f + 1, 'i': i, 'all': True, 'lo': 0, 'hi': 0}, v
        return {'k': 'read', 'f': f + 1, 'i': i, 'all': False, 'lo': lo, 'hi': hi}, part(v, lo, hi, self.rng)

    def some(self, used, key=False):
        rng = self.rng
        for _ in range(100):
            f = rng.randrange(len(self.hs))
            i = rng.randint(1, len(self.hs[f]['n']))
            k = self.hs[f]['n'][i - 1]['k']
            if key and k == 'vec' or k in ('int', 'none', 'bool') and rng.random() < 0.7:
                continue
            if k == 'vec' and rng.random() < 0.5:
                n = len(self.objs[f][i])
                lo = rng.randint(0, n)
                return self.read(f, i, lo, rng.randint(lo, n))
            if (f, i) not in used:
                used.add((f, i))
                return self.read(f, i)
        if key:
            return {'k': 'none'}, None
        return self.read(0, 1, 0, 0) if self.hs[0]['n'][0]['k'] == 'vec' else self.read(0, 1)

    def mix(self):
        """random objects with values that were read in them"""
        rng = self.rng
        g = gen.container_graph(rng, rng.choice([1, 2, 2]))
        while len(g['n']) > 20:
            g = gen.container_graph(rng, 1)
        n, memo, used = g['n'], {}, set()
        for _ in range(rng.choice([1, 1, 2, 3])):
            key = rng.random() < 0.25
            a, v = self.some(used, key)
            n.append(a)
            r = len(n)
            memo[r] = v
            if key:
                if rng.random() < 0.5:
                    n.append({'k': rng.choice(['set', 'fset']), 'ch': [r]})
                else:
                    n.append({'k': 'map', 'ks': [r], 'vs': [rng.choice([r, g['r']])]})
                r = len(n)
            for _ in range(rng.choice([1, 1, 2])):
                at = [x for x in n if x['k'] in ('list', 'map') and (x['k'] == 'list' or x['vs']) and x.get('ks') != [r] and r not in x.get('ks', ())]
                if not at:
                    n.append({'k': 'list', 'ch': [g['r']]})
                    g['r'] = len(n)
                    at = [n[-1]]
                x = rng.choice(at)
                if x['k'] == 'list':
                    x['ch'].insert(rng.randint(0, len(x['ch'])), r)
                else:
                    x['vs'][rng.randrange(len(x['vs']))] = r
        return g, memo


def opts(rng):
    kw = {}
    if rng.random() < 0.3:
        kw['unwiden_strings'] = rng.random() < 0.7
    if rng.random() < 0.3:
        kw['normalize_bitvector'] = rng.random() < 0.5
    return kw


def run_case(case):
    top = os.getcwd()
    os.mkdir('d')
    os.chdir('d')
    try:
        run(case)
    finally:
        os.chdir(top)
        shutil.rmtree(os.path.join(top, 'd'))


def run(case):
    rng = random.Random(case['seed'])
    if 'deep' in case:
        return deep(case, rng)
    ps, data = [], []
    for x in case['files']:
        try:
            b = pointless.serialize_to_bytearray(build(x['g'])[0], **opts(rng))
        except EXC as e:
            e.__traceback__ = None
            continue
        if 'b' in x:
            b = bytearray(base64.b64decode(x['b']))
        data.append(bytes(b))
        how = rng.randint(0, 2)
        if how == 0:
            p = pointless.Pointless(b)
        elif how == 1:
            p = pointless.Pointless(PV('u8', sequence=b))
        else:
            open('r.map', 'wb').write(b)
            p = pointless.Pointless('r.map')
            os.unlink('r.map')
        ps.append(p)
    if not ps:
        return emit({'op': 'files', 'hs': []})
    F = Files(ps, rng)
    emit({'op': 'files', 'hs': F.hs})

    def rewrite(g, memo):
        p = write(build(g, memo)[0], rng.randint(0, 2), **opts(rng))
        emit({'op': 'write', 'g': g, 'res': 'exc' if p is None else 'ok', 'h': NONE if p is None else observe(p.GetRoot())})
    if case.get('all'):
        for f in range(len(ps)):
            for i, v in sorted(F.objs[f].items()):
                todo = [F.read(f, i)]
                if type(v) is VT:
                    todo += [F.read(f, i, lo, hi) for lo in range(len(v) + 1) for hi in range(lo, len(v) + 1)]
                for a, o in todo:
                    rewrite({'n': [a], 'r': 1}, {1: o})
                rewrite({'n': [{'k': 'list', 'ch': [2, 2]}, todo[0][0]], 'r': 1}, {2: v})
                rewrite({'n': [{'k': 'map', 'ks': [2], 'vs': [3]}, {'k': 'none'}, todo[0][0]], 'r': 1}, {3: v})
    for _ in range(case.get('alone', 0)):
        a, v = F.some(set())
        rewrite({'n': [a], 'r': 1}, {1: v})
    for _ in range(case.get('mixes', 0)):
        rewrite(*F.mix())
    for f in range(len(ps)):
        copy(f + 1, data[f], rng.random() < 0.1)
        if rng.random() < 0.1:
            nocopy(data[f], rng.randint(0, 3))
    if os.path.exists('in.map'):
        os.unlink('in.map')


def nest(v, n, kinds):
    for i in range(n):
        v = [v] if kinds[i % len(kinds)] == 'l' else {'k': v} if kinds[i % len(kinds)] == 'm' else (1, v)
    return v


def depth(v):
    n = 0
    while type(v) in (VT, MT) and len(v):
        v = v['k'] if type(v) is MT else v[len(v) - 1]
        n += 1
    return n


def deep(case, rng):
    emit({'op': 'files', 'hs': []})
    kinds = case['deep']
    # the deepest that can be written
    n = 1000
    while n and write(nest(None, n, kinds), 0) is None:
        n -= 1
    b = pointless.serialize_to_bytearray(nest(None, n, kinds))
    assert depth(pointless.Pointless(b).GetRoot()) == n > 10
    for d in sorted({n, n - 1, n // 2, rng.randint(1, n)}):
        b = pointless.serialize_to_bytearray(nest(None, d, kinds))
        v = pointless.Pointless(b).GetRoot()
        for k in sorted({0, n - d, n - d + 1, n, rng.randint(0, n), 300}):
            for how in range(3):
                p = write(nest(v if how == 0 or type(v) is not VT else v[:] if how == 1 else part(v, len(v) - 1, len(v), rng), k, kinds), 0)
                # around part of a value, the value itself is as deep as it was
                emit({'op': 'deep', 'what': [d, k, how], 'res': 'exc' if p is None else 'ok', 'depth': depth(p.GetRoot()) if p else 0, 'want': k + d, 'must': k + d <= n})
        open('in.map', 'wb').write(b)
        ok, err = recreate('in.map', 'out.map')
        emit({'op': 'deep', 'what': [d, -1, 0], 'res': 'ok' if ok else 'exc', 'depth': depth(pointless.Pointless('out.map').GetRoot()) if ok else 0, 'want': d, 'must': True})
        for f in os.listdir('.'):
            os.unlink(f)


loop(run_case)
