"""Checked arithmetic and integer expressions of the C library."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ctypes
from ctypes import byref, c_char_p, c_int, c_uint64, c_void_p
from drv import *

LIB = ctypes.CDLL(os.environ['CLIB'])
LIB.h_new.restype = c_void_p
LIB.h_init.restype = c_uint64
T = {'sizet': 0, 'u32': 1, 'u64': 2}
KEPT = 0x5a5a000000001234


def digits(n):
    return [int(c) for c in str(n)]


def checked(v, over):
    return [] if over else digits(v)


def arith(c):
    """pairs of checked numbers, None is one that overflowed"""
    xs = c['xs']
    n = len(xs)
    U, I = c_uint64 * n, c_int * n
    a, b = U(*[x[0] or 0 for x in xs]), U(*[x[1] or 0 for x in xs])
    # what overflowed holds any value
    for i, x in enumerate(xs):
        if x[0] is None:
            a[i] = i % 3
        if x[1] is None:
            b[i] = i // 3 % 3
    ao, bo = I(*[x[0] is None for x in xs]), I(*[x[1] is None for x in xs])
    r, o = U(), I()
    LIB.h_arith(T[c['ty']], int(c['f'] == 'mult'), n, a, b, ao, bo, r, o)
    emit({'op': 'arith', 'f': c['f'], 'ty': c['ty'],
          'xs': [[checked(x[0], x[0] is None), checked(x[1], x[1] is None), checked(r[i], o[i])] for i, x in enumerate(xs)]})
    for v in c.get('init', ()):
        o = c_int(7)
        r = LIB.h_init(T[c['ty']], c_uint64(v), byref(o))
        emit({'op': 'init', 'ty': c['ty'], 'v': digits(v), 'r': checked(r, o.value)})


def context(c):
    fill = bytes(c['fill'])
    p = c_void_p(LIB.h_new(fill, len(fill)))
    emit({'op': 'new'})
    try:
        for s in c['hist']:
            s = bytes(s)
            err = c_char_p()
            ok = LIB.intop_eval_compile(c_char_p(s), p, byref(err)) != 0
            emit({'op': 'compile', 's': list(s), 'ok': ok, 'why': bool(err.value)})
            for _ in range(c.get('evals', 1) if ok else 0):
                err, r = c_char_p(), c_uint64(KEPT)
                ok = LIB.intop_eval_eval(p, byref(r), byref(err)) != 0
                emit({'op': 'eval', 'ok': ok, 'r': digits(r.value) if ok else [], 'kept': ok or r.value == KEPT, 'why': bool(err.value)})
    finally:
        LIB.h_free(p)


def run(case):
    arith(case) if 'xs' in case else context(case)


loop(run)
