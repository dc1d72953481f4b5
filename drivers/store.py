"""Writes object graphs and reads them back."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import gc
from drv import *
from graph import *


def run_case(case):
    g = case['g']
    opts = case.get('opts', {})
    kw = {}
    if 'unwiden' in opts:
        kw['unwiden_strings'] = opts['unwiden']
    if 'normalize' in opts:
        kw['normalize_bitvector'] = opts['normalize']
    obj, memo = build(g)
    before = sorted(os.listdir('.'))
    res, outs = [], []
    for how in ('ba', 'buf', 'file'):
        try:
            if how == 'ba':
                b = pointless.serialize_to_bytearray(obj, **kw)
                assert type(b) is bytearray
            elif how == 'buf':
                b = pointless.serialize_to_buffer(obj, **kw)
                assert type(b) is PV and b.typecode == 'u8'
                b = bytearray(memoryview(b))
            else:
                assert pointless.serialize(obj, 'f.map', **kw) is None
                b = bytearray(open('f.map', 'rb').read())
            outs.append(b)
            res.append('ok')
        except (ValueError, OSError, OverflowError, TypeError, UnicodeError, RecursionError) as x:
            res.append('exc')
            x.__traceback__ = None
    if len(set(res)) != 1:
        raise AssertionError('output kinds differ: %r' % res)
    ev = {'op': 'store', 'g': g, 'opts': opts, 'res': res[0]}
    if 'file' in case.get('tags', ()) or True:
        after = sorted(os.listdir('.'))
        if res[0] == 'exc':
            assert after == before, 'a rejected object changed the directory'
        else:
            assert after == sorted(before + ['f.map']), 'the directory has other files'
    if res[0] == 'ok':
        assert outs[0] == outs[1] == outs[2], 'output kinds differ'
        b = outs[0]
        graphs = []
        for src in ('f.map', b, PV('u8', sequence=b)):
            for val in (True, False):
                p = pointless.Pointless(src, validate=val)
                graphs.append(observe(p.GetRoot()))
        os.unlink('f.map')
        assert all(h == graphs[0] for h in graphs), 'reading differs by source'
        ev['h'] = graphs[0]
        ev['file'] = list(b) if case.get('bytes') else []
    else:
        ev['h'] = {'n': [], 'r': 0}
        ev['file'] = []
    emit(ev)


loop(run_case)
