"""Hashes, comparisons and lookups of values in all their representations."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ctypes
import itertools
import operator
from drv import *
from graph import *

EXC = (ValueError, TypeError, OverflowError, KeyError, RecursionError)
LIB = None
if os.environ.get('CLIB'):
    LIB = ctypes.CDLL(os.environ['CLIB'])


def attempt(f):
    try:
        return True, f()
    except EXC as x:
        x.__traceback__ = None
        return False, type(x).__name__


def opts(o):
    kw = {}
    if 'unwiden' in o:
        kw['unwiden_strings'] = o['unwiden']
    if 'normalize' in o:
        kw['normalize_bitvector'] = o['normalize']
    return kw


class Case:
    """objs: {key: object}; reps: {key: [(name, object)]}"""

    def __init__(self, case):
        self.g = case['g']
        self.objs = {}
        roots = case['roots']
        obj, memo = build({'n': self.g['n'] + [{'k': 'list', 'ch': roots}], 'r': len(self.g['n']) + 1})
        self.memo = memo
        self.top = obj
        self.roots = roots
        self.keep = []
        self.reps = {i: [('py', memo[i])] for i in roots}
        stored = [i for i in roots if i not in case.get('nostore', ())]
        wrapped = [[memo[i]] for i in stored]
        self.files = []
        for name, o in (('rda', case.get('opts', {})), ('rdb', case.get('opts2', {}))):
            b = pointless.serialize_to_bytearray([wrapped, [], None], **opts(o))
            p = pointless.Pointless(b)
            self.files.append(b)
            v = p.GetRoot()[0]
            for j, i in enumerate(stored):
                self.reps[i].append((name, v[j][0]))
        # slices of longer vectors
        pads, where = [], []
        for i in stored:
            o = memo[i]
            if type(o) in (list, tuple):
                pads.append([None, True] + list(o) + ['x'])
            elif type(o) is PV:
                pads.append(PV(o.typecode, sequence=([1.0, 2.0] if o.typecode == 'f' else [1, 2]) + list(o) + [3.0 if o.typecode == 'f' else 3]))
            else:
                continue
            where.append(i)
        if pads:
            b = pointless.serialize_to_bytearray([pads, None])
            v = pointless.Pointless(b).GetRoot()[0]
            for j, i in enumerate(where):
                n = len(memo[i])
                self.reps[i].append(('sl', v[j][2:2 + n]))
                self.reps[i].append(('sls', v[j][1:3 + n][1:n + 1]))


def keys_of(g, i):
    a = g['n'][i - 1]
    return a['ks'] if a['k'] == 'map' else a['ch']


def sign(c):
    return (c > 0) - (c < 0)


def run_case(case):
    c = Case(case)
    g = c.g
    emit({'op': 'graph', 'g': {'n': g['n'], 'r': 0}, 'roots': c.roots + ([case['con']] + [j for j in keys_of(g, case['con'])] if 'con' in case else [])})
    if 'hash' in case['do']:
        for i in c.roots:
            rs, hs = [], []
            for name, o in c.reps[i]:
                ok, h = attempt(lambda: pointless.pyobject_hash_32(o))
                rs.append([name, [1, h >> 16, h & 0xffff] if ok else [0, 0, 0]])
                if type(o) is BV:
                    h = hash(o) & (1 << 64) - 1
                    hs.append([h >> 48, h >> 32 & 0xffff, h >> 16 & 0xffff, h & 0xffff])
            emit({'op': 'hash', 'i': i, 'rs': rs, 'hs': hs})
    if 'cmp' in case['do']:
        for i, j in case['pairs']:
            cs, es, rich = [], [], []
            for (na, a), (nb, b) in itertools.product(c.reps[i], c.reps[j]):
                ok, r = attempt(lambda: pointless.pointless_cmp(a, b))
                cs.append([na, nb, sign(r) if ok else 3])
                ok, r = attempt(lambda: pointless.pointless_is_eq(a, b))
                es.append([na, nb, (0 if r is True else 1 if r is False else 4) if ok else 3])
                if type(a) is type(b) and type(a) in (VT, BV):
                    r = []
                    for f in (operator.lt, operator.le, operator.eq, operator.ne, operator.gt, operator.ge):
                        ok, x = attempt(lambda: f(a, b))
                        r.append((1 if x is True else 0 if x is False else 4) if ok else 3)
                    rich.append([na, nb, r])
            emit({'op': 'cmp', 'i': i, 'j': j, 'cs': cs, 'es': es, 'rich': rich})
    if 'ccmp' in case['do']:
        stored = [i for i in c.roots if i not in case.get('nostore', ())]
        k = len(stored)
        A, B = (bytes(x) for x in c.files)
        out = (ctypes.c_int * (k * k * 4))()
        LIB.compare_all.restype = ctypes.c_int
        rc = LIB.compare_all(A, ctypes.c_size_t(len(A)), B, ctypes.c_size_t(len(B)), k, out)
        assert rc == 1
        want = {tuple(p) for p in case['pairs']}
        for x in range(k):
            for y in range(k):
                if (stored[x], stored[y]) in want:
                    emit({'op': 'ccmp', 'i': stored[x], 'j': stored[y], 'cs': list(out[(x * k + y) * 4:(x * k + y) * 4 + 4])})
    if 'lookup' in case['do']:
        t = c.memo
        ci = case['con']
        obj = t[ci] if ci in t else build({'n': g['n'], 'r': ci})[0]
        cons = []
        for o in (case.get('opts', {}), case.get('opts2', {})):
            cons.append(pointless.Pointless(pointless.serialize_to_bytearray([obj], **opts(o))).GetRoot()[0])
        con = cons[0]
        own = list(con)
        for i in c.roots:
            rs = []
            reps = list(c.reps[i])
            for name, o in reps:
                for con in cons:
                    rs.append([name] + probe(con, o))
            emit({'op': 'lookup', 'con': ci, 'i': i, 'rs': rs})
        # its own keys
        rs = []
        for con in cons:
            vs = list(con.values()) if type(con) is MT else None
            for j, key in enumerate(con):
                r = probe(con, key)
                if vs is None:
                    rs.append([1 if r == [1] else 0])
                else:
                    rs.append([1 if r[0] == 1 and r[1] == r[2] == r[3] and r[1] == vs[j] else 0])
        counts, vals, same = [], [], 1
        for con in cons:
            counts.append(len(con))
            # two iterations at the same time do not disturb each other, and one that has ended stays so
            a, b = iter(con), iter(con)
            ka = [next(a) for _ in range(len(own) // 2)]
            kb = list(b)
            ka += list(a)
            counts += [len(ka), len(kb), len(list(con))]
            if list(a) or list(b):
                same = 0
            lists = [kb, list(con)]
            if type(con) is MT:
                ks, vs, its = list(con.keys()), list(con.values()), list(con.items())
                counts += [len(ks), len(vs), len(its)]
                vals += [sorted(vs), sorted(v for _, v in its)]
                lists += [ks, [k for k, _ in its]]
                if [v for _, v in its] != vs:
                    same = 0
            for o in lists:
                if len(o) == len(ka) and any(pointless.pointless_is_eq(x, y) is not True for x, y in zip(ka, o)):
                    same = 0
        emit({'op': 'own', 'con': ci, 'rs': rs, 'len': len(own), 'counts': counts, 'vals': vals, 'same': same})


def probe(con, o):
    """sets: [in]; maps: [in, get, get with default, item]; 3 for an exception, -1 for absent"""
    ok, r = attempt(lambda: o in con)
    out = [int(r) if ok else 3]
    if type(con) is not MT:
        return out
    d = object()
    ok, r = attempt(lambda: con.get(o))
    out.append((-1 if r is None else r) if ok else 3)
    ok, r = attempt(lambda: con.get(o, d))
    out.append((-1 if r is d else r) if ok else 3)
    ok, r = attempt(lambda: con[o])
    out.append(r if ok else -1 if r == 'KeyError' else 3)
    return out


loop(run_case)
