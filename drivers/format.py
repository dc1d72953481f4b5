"""Opens given bytes, and reads everything in them."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import base64
from drv import *
from graph import *
import graph

ANY = (ValueError, TypeError, OSError, OverflowError, KeyError, IndexError, RecursionError, MemoryError, BufferError)


def attempt(f):
    try:
        return f()
    except ANY as x:
        x.__traceback__ = None
        return None
    except SystemError as x:
        assert 'maximum character' in str(x)      # a string in the file holds none
        x.__traceback__ = None
        return None


def unfolded(g):
    """Number of nodes on all paths up to the greatest depth at which values are compared, hashed and so on."""
    ch = [list(a.get('ch', [])) + list(a.get('ks', [])) + list(a.get('vs', [])) for a in g['n']]
    s = [1] * len(ch)
    for _ in range(300):
        s = [min(10**6, 1 + sum(s[j - 1] for j in c)) for c in ch]
    return s[g['r'] - 1]


def poke(q, v, whole, depth=3):
    """Every other kind of access: nothing may crash, all exceptions are fine."""
    t = type(v)
    if whole:
        attempt(lambda: pointless.pyobject_hash_32(v))
        attempt(lambda: pointless.pointless_cmp(v, v))
        attempt(lambda: pointless.pointless_is_eq(v, q))
        attempt(lambda: str(v))
        attempt(lambda: repr(v))
        attempt(lambda: pointless.serialize_to_bytearray(v))
    if t is VT:
        attempt(lambda: v.max())
        attempt(lambda: v.min())
        attempt(lambda: bytes(memoryview(v)))
        attempt(lambda: 1 in v)
        if whole:
            attempt(lambda: v[1:] == v[:-1])
            attempt(lambda: v < q)
            attempt(lambda: q in v)
        attempt(lambda: list(reversed(v)))
        its = attempt(lambda: list(v)) or []
    elif t in (ST, MT):
        its = attempt(lambda: list(v)) or []
        for k in its[:20]:
            attempt(lambda: k in v)
            if t is MT:
                attempt(lambda: v[k])
        for k in (0, 1, 'a', None, 1.5, (1, 2), True):
            attempt(lambda: k in v)
        if t is MT:
            its += attempt(lambda: list(v.values())) or []
    else:
        its = []
    if depth:
        for x in its[:8]:
            poke(q, x, whole, depth - 1)


def run_case(case):
    for b in case['bs']:
        b = base64.b64decode(b)
        with open('f.map', 'wb') as h:
            h.write(b)
        ps, res = [], []
        for src in (bytearray(b), 'f.map', PV('u8', sequence=b)):
            try:
                ps.append(pointless.Pointless(src))
                res.append('ok')
            except ANY as x:
                x.__traceback__ = None
                res.append('exc')
        os.unlink('f.map')
        assert res[0] == res[1] == res[2], 'opening differs by source: %r' % res
        ev = {'op': 'open', 'b': list(b), 'res': res[0], 'acc': 'none', 'h': {'n': [], 'r': 0}}
        if res[0] == 'ok':
            gs = []
            for p in ps:
                try:
                    gs.append(observe(p.GetRoot()))
                except ANY as x:
                    x.__traceback__ = None
                    gs.append(None)
                except SystemError as x:
                    assert 'maximum character' in str(x)
                    x.__traceback__ = None
                    gs.append(None)
            assert gs[0] == gs[1] == gs[2], 'reading differs by source'
            ev['acc'] = 'raise' if gs[0] is None else 'ok'
            if gs[0] is not None:
                ev['h'] = gs[0]
            # what takes as long as the 2^32 zeros that fit in 8 bytes do is not tried
            if gs[0] is None or not any('n' in a for a in gs[0]['n']):
                v = attempt(lambda: ps[0].GetRoot())
                w = attempt(lambda: ps[1].GetRoot())
                poke(w, v, gs[0] is not None and unfolded(gs[0]) < 5000)
            ref = attempt(lambda: sys.getsizeof(ps[0]))
            # reading has changed nothing
            h = attempt(lambda: observe(ps[0].GetRoot()))
            assert h == gs[0], 'reading changes what is read'
        emit(ev)


loop(run_case)
