"""Files, objects, values, iterators and buffers coming and going (see specs/Lifetime.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import copy
import ctypes
import gc
import json
import threading
from drv import *
from graph import *
Pointless = pointless.Pointless

try:
    _alloc = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    _alloc.restype = ctypes.c_size_t
except AttributeError:
    _alloc = None
D = os.path.realpath(os.getcwd())
FILES = {}


def leaf(v):
    """ints, strings, floats, booleans, None"""
    if type(v) is int:
        return 'i%d' % v
    if type(v) is str:
        return 's' + v
    return type(v).__name__[0].upper() + repr(v)


def unleaf(s):
    return int(s[1:]) if s[0] == 'i' else s[1:] if s[0] == 's' else eval(s[1:])


def build(t, hashed=False):
    k = t['k']
    if k == 'leaf':
        return unleaf(t['v'])
    if k == 'bytes':
        return PV('u8', sequence=t['xs'])
    if k == 'bits':
        return BV(sequence=[bool(b) for b in t['b']])
    if k == 'set':
        return {build(x, True) for x in t['xs']}
    if k == 'map':
        return {build(a, True): build(b) for a, b in t['es']}
    xs = [build(x, hashed) for x in t['xs']]
    return tuple(xs) if hashed else xs


def tree(v):
    t = type(v)
    if t is VT:
        if len(v) and typecode(v) == 'u8':
            return {'k': 'bytes', 'xs': [x for x in v]}
        return {'k': 'seq', 'xs': [tree(x) for x in v]}
    if t is BV:
        return {'k': 'bits', 'b': [int(x) for x in v]}
    if t is ST:
        return {'k': 'set', 'xs': [tree(x) for x in v]}
    if t is MT:
        return {'k': 'map', 'es': [[tree(a), tree(b)] for a, b in v.items()]}
    return {'k': 'leaf', 'v': leaf(v)}


def counts():
    fds = 0
    for f in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + f)
        except OSError:
            continue
        if p.startswith(D + '/f-'):
            fds += 1
    maps = set()
    for line in open('/proc/self/maps'):
        if D + '/f-' in line:
            maps.add(line.split('-')[0])
    return fds, len(maps)


def use(v, how):
    """operations that hand out nothing"""
    if how >= 32:
        for i in range(16):
            use(v, i)
        return
    how %= 16
    try:
        if how == 0:
            str(v)
        elif how == 1:
            repr(v)
        elif how == 2:
            pointless.serialize_to_bytearray([v, {1: v}])
        elif how == 3:
            pointless.pyobject_hash(v)
        elif how == 4:
            v == v, v != 3, v == [1]
        elif how == 5:
            try:
                [v.nothing, v[10 ** 6]]
            except AttributeError:
                v[10 ** 6]
        elif how == 6:
            1 in v, 'x' in v, v in v
        elif how == 7:
            copy.deepcopy(v)
        elif how == 8:
            len(v), sys.getsizeof(v), bool(v), v.__class__
        elif how == 9:
            v.range()
        elif how == 10:
            v.min(), v.max(), v.bisect_left(3), v.bisect_left('x')
        elif how == 11:
            v.get(1), v.get((1, 'x'), v), v.get([1])
        elif how == 12:
            v.copy(), v.num_bytes(), v.is_any_set(), v.append(True)
        elif how == 14:
            for x in (v.keys(), v.values(), v.items()) if type(v) is MT else (v,):
                for y in x:
                    pass
        elif how == 15:
            [x for x in reversed(v)], list(v), tuple(v)
        elif how == 13:
            pointless.pointless_cmp(v, v), pointless.pointless_is_eq(v, [1]), hash(v)
    except (ValueError, TypeError, KeyError, IndexError, AttributeError, NotImplementedError, OverflowError, RecursionError):
        pass


def run_ops(case, quiet=False):
    files, bufs, objs, views, iters, mems = {}, {}, {}, {}, {}, {}
    inode, spoiled = {}, set()
    kinds = (objs, views, iters, mems)
    src = lambda n: 'f-' + n  # noqa: E731

    def post():
        fds, maps = counts()
        p = {'fds': fds, 'maps': maps, 'views': {}, 'mems': {}, 'objs': {}}
        for n, v in views.items():
            p['views'][n] = tree(v)
        for n, m in mems.items():
            p['mems'][n] = m.tolist()
        for n, o in objs.items():
            r = o.GetRefs()
            q = {'refs': {k: r['n_%s_refs' % k] for k in ('vector', 'bitvector', 'map', 'set')}, 'open': 1, 'ver': 0}
            assert r['n_root_refs'] == 0
            try:
                q['ver'] = inode.get(o.GetINode(), -1)
                if os.fstat(o.GetFileNo()).st_ino != o.GetINode():
                    q['ver'] = -2
            except ValueError:
                if sys.getsizeof(o) < 200:
                    q['open'] = 0
            p['objs'][n] = q
        for k in ('views', 'mems', 'objs'):
            p[k] = p[k] or []
        return p

    for e in case['ops']:
        op, how = e['op'], e.get('w', 0)
        if 'id' in e and not any(e['id'] in k for k in kinds):      # was no container, or never came to be
            continue
        r = []
        try:
            if op == 'write':
                fn = src(e['src'])
                pointless.serialize(build(e['tree']), fn)
                inode[os.stat(fn).st_ino] = e['ver']
            elif op == 'unlink':
                os.unlink(src(e['src']))
            elif op == 'rename':
                os.rename(src(e['src']), src(e['dst']))
            elif op == 'fill':
                b = pointless.serialize_to_bytearray(build(e['tree'])) if not how & 1 else pointless.serialize_to_buffer(build(e['tree']))
                old = bufs.get(e['src'])
                if how & 2 and type(old) is bytearray and type(b) is bytearray:
                    old[:] = b
                else:
                    bufs[e['src']] = b
                old = b = None
                spoiled.discard(e['src'])
            elif op == 'spoil':
                b = bufs[e['src']]
                spoiled.add(e['src'])
                if how & 1 and type(b) is bytearray:
                    b.clear()
                elif how & 1:
                    while len(b):
                        b.pop()
                else:
                    for i in range(len(b)):
                        b[i] = 0xcd
                    if type(b) is bytearray:
                        b.extend(b'\xcd' * 5000)
                    else:
                        b.append_bulk([0xcd] * 5000)
                b = None
            elif op == 'dropbuf':
                bufs.pop(e['src'], None)
            elif op in ('open', 'reopen'):
                s = bufs[e['src']] if e['src'] in bufs else src(e['src'])
                a = [(), (True, True), (False,), (True, False)][how % 4]
                if how % 4 == 3 and e['src'] in spoiled:
                    a = ()
                if op == 'open':
                    objs[e['dst']] = Pointless(s, *a)
                else:
                    objs[e['id']].__init__(s, *a)
                s = None
            elif op in ('root', 'sub', 'slice', 'next'):
                stop = False
                if op == 'root':
                    x = objs[e['id']].GetRoot()
                elif op == 'slice':
                    v = views[e['id']]
                    x = v[e['lo']:e['hi']] if how & 1 else v[e['lo']:e['hi']:1]
                elif op == 'next':
                    try:
                        x = next(iters[e['id']])
                        if type(x) is tuple:        # an item of a map
                            x = x[0]
                    except StopIteration as y:
                        y.__traceback__ = None
                        stop = True
                else:
                    v = views[e['id']]
                    if type(v) is MT:
                        ks = sorted(v, key=lambda k: json.dumps(tree(k)))
                        k = ks[e['at']] if e['at'] < len(ks) else {'no': 'key'}
                        ks = None
                        if how % 3 == 0:
                            x = v[k]
                        elif how % 3 == 1:
                            x = v.get(k, v)
                        else:
                            x = v[build(tree(k), True)] if type(k) is not dict else v[k]
                        k = None
                    elif type(v) is ST:
                        x = sorted(v, key=lambda k: json.dumps(tree(k)))[e['at']]
                    elif type(v) is VT and how & 1:
                        n = len(v)
                        if e['at'] >= n:
                            raise IndexError
                        x = v[e['at'] - n]
                    else:
                        x = v[e['at']]
                if stop:
                    del iters[e['id']]
                    res = {'k': 'stop'}
                else:
                    r = {'t': tree(x)}
                    if type(x) in (VT, MT, ST, BV):
                        views[e['dst']] = x
                    res = {'k': 'ok', 'v': r}
                x = v = None
            elif op == 'rest':
                it = iters.pop(e['id'])
                xs = []
                for x in it:
                    xs.append(tree(x[0] if type(x) is tuple else x))
                x = next(it, it)
                assert x is it
                if e['w'] & 1:
                    iters[e['id'] + 'x'] = it       # an exhausted one keeps nothing
                x = it = None
                r = [{'k': 'l', 'xs': xs}]
            elif op == 'iter':
                v = views[e['id']]
                h = e['how']
                iters[e['dst']] = reversed(v) if h == 'rev' else v.values() if h == 'values' else v.items() if h == 'items' else iter(v) if type(v) is not MT or how & 1 else v.keys()
            elif op == 'mem':
                m = memoryview(views[e['id']])
                assert m.readonly
                if m.format != 'B' or not len(m) or typecode(views[e['id']]) != 'u8':      # (the others: see View)
                    raise ValueError
                if how & 1:
                    m = memoryview(m)
                mems[e['dst']] = m
                m = None
            elif op == 'submem':
                m = mems[e['id']][e['lo']:e['hi']]
                mems[e['dst']] = m.cast('b').cast('B') if how & 1 else m
                m = None
            elif op == 'drop':
                d = [k for k in kinds if e['id'] in k][0]
                x = d.pop(e['id'])
                v = None
                how %= 4
                if how == 1:        # by the garbage collector
                    c = [x]
                    c.append(c)
                    x = c = None
                    gc.collect()
                elif how == 2:      # by another thread
                    c = [x]
                    x = None
                    t = threading.Thread(target=c.clear)
                    t.start()
                    t.join()
                elif how == 3 and type(x) is memoryview:
                    x.release()
                x = None
            elif op == 'detach':
                v = views[e['id']]
                if type(v) is BV:
                    v.__init__(sequence=list(v))
            elif op == 'use':
                use(views[e['id']], how)
            else:
                raise AssertionError(op)
            if not (op in ('root', 'sub', 'slice', 'next')):
                res = {'k': 'ok', 'v': r}
        except AssertionError:
            raise
        except Exception as x:
            res = {'k': 'exc', 'e': type(x).__name__}
            x.__traceback__ = None
        v = x = m = s = None
        if not quiet:
            out = dict(e)
            out['res'] = res
            out['post'] = post()
            emit(out)
    # everything goes, in the given order
    for n in case.get('order', []):
        for k in kinds:
            k.pop(n, None)
    for k in kinds:
        k.clear()


def clean():
    for n in os.listdir('.'):
        if n.startswith('f-'):
            os.unlink(n)


def run_case(case):
    clean()
    emit({'op': 'reset'})
    run_ops(case)
    fds, maps = counts()
    grow = 1 if fds or maps else 0
    if _alloc is not None and case.get('heap'):
        for i in range(2):
            clean()
            run_ops(case, True)
        for i in range(4):
            gc.collect()
            a = _alloc()
            clean()
            run_ops(case, True)
            clean()
            run_ops(case, True)
            gc.collect()
            g = max(0, min(_alloc() - a, 1 << 30))
            if g == 0:
                break
        grow = max(grow, g)
    emit({'op': 'leak', 'grow': grow})


loop(run_case)
