"""Calls of the C creation interface, and what they gave."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import ctypes
from ctypes import c_void_p, c_uint32, c_int, c_char_p, c_size_t, byref
from drv import *

CT = {'i8': ctypes.c_int8, 'u8': ctypes.c_uint8, 'i16': ctypes.c_int16, 'u16': ctypes.c_uint16, 'i32': ctypes.c_int32, 'u32': ctypes.c_uint32,
      'i64': ctypes.c_int64, 'u64': ctypes.c_uint64, 'f': ctypes.c_float}
NAME = dict({k: k for k in CT}, f='float')
LIB = ctypes.CDLL(os.environ['CLIB'])
LIB.b_new.restype = LIB.b_block.restype = c_void_p
LIB.b_new.argtypes = [c_int]
LIB.b_block.argtypes = [c_size_t]
LIB.b_free.argtypes = LIB.b_unblock.argtypes = [c_void_p]
FAULT = ctypes.CDLL(None)
FAULT.fault_arm.argtypes = [ctypes.c_long]
FAULT.fault_hits.restype = FAULT.fault_live.restype = ctypes.c_long
FAIL = 2**32 - 1


def fn(name, *args, res=c_uint32):
    f = getattr(LIB, 'pointless_create_' + name)
    f.argtypes = [c_void_p] + list(args)
    f.restype = res
    return f


def num(t, x):
    return struct.unpack('<f', struct.pack('<I', x[0] << 16 | x[1]))[0] if t == 'f' else unwint(x)


class Run:
    def __init__(self):
        self.c = None
        self.arrays = []        # what the caller owns
        self.at = {}            # number in the case -> handle
        self.n = {}             # items of vectors of values

    def call(self, e, f, *args):
        fail = e.get('fail', 0)
        FAULT.fault_arm(fail)
        r = f(self.c, *args)
        e['hit'] = int(FAULT.fault_hits() > 0)
        FAULT.fault_arm(0)
        return r

    def array(self, t, xs):
        a = (CT[t] * max(1, len(xs)))(*[num(t, x) for x in xs])
        self.arrays.append((a, bytes(a)))
        return a

    def make(self, op, e):
        how, n = op['how'], op['node']
        k = n['k']
        err = c_char_p()
        if how == 'i32':
            return self.call(e, fn('i32', ctypes.c_int32), unwint(n['w']))
        if how == 'u32':
            return self.call(e, fn('u32', c_uint32), unwint(n['w']))
        if how == 'flt':
            return self.call(e, fn('float', ctypes.c_float), unf64(n['d']))
        if how in ('null', 'boolean_true', 'boolean_false', 'vector_value', 'set', 'map'):
            return self.call(e, fn(how))
        if how == 'boolean':
            return self.call(e, fn(how, ctypes.c_int32), n['v'] * op.get('as', 1))
        if k == 'str':
            ct = {'ascii': ctypes.c_uint8, 'ucs2': ctypes.c_uint16, 'ucs4': ctypes.c_uint32}[how.split('_')[1]]
            a = (ct * (len(n['c']) + 1))(*(n['c'] + [0]))
            self.arrays.append((a, bytes(a)))
            if how == 'unicode_ascii':
                r = self.call(e, fn(how, c_void_p, ctypes.POINTER(c_char_p)), a, byref(err))
                assert (r == FAIL) == (err.value is not None)
                return r
            return self.call(e, fn(how, c_void_p), a)
        if k == 'bits':
            b = bytearray((len(n['b']) + 7) // 8)
            for i, x in enumerate(n['b']):
                b[i // 8] |= x << i % 8
            if e.get('slack') and len(n['b']) % 8:      # bits that do not count
                b[-1] |= 255 << len(n['b']) % 8 & 255
            a = (ctypes.c_uint8 * max(1, len(b)))(*b)
            self.arrays.append((a, bytes(a)))
            return self.call(e, fn(how, c_void_p, c_uint32), a, len(n['b']))
        assert k == 'prim'
        if how == 'own':
            return self.call(e, fn('vector_%s_owner' % NAME[n['t']], c_void_p, c_uint32), self.array(n['t'], n['xs']), len(n['xs']))
        return self.call(e, fn('vector_%s' % NAME[n['t']]))

    def done(self, e):
        e['live'] = FAULT.fault_live() - self.live
        e['own'] = all(bytes(a) == b for a, b in self.arrays)
        e['dir'] = sorted(x for x in os.listdir('.') if x != 'stderr')
        self.arrays = []
        self.c = None

    def out(self, op, e):
        err = c_char_p()
        e['b'], e['again'] = [], []
        for x in os.listdir('.'):
            if x != 'stderr':
                os.unlink(x)
        if op['how'] == 'f':
            ok = self.call(e, fn('output_and_end_f', c_char_p, ctypes.POINTER(c_char_p), res=c_int), b'out.map', byref(err))
            if ok:
                e['b'] = list(open('out.map', 'rb').read())
                LIB.pointless_recreate_64.restype = c_int
                if LIB.pointless_recreate_64(b'out.map', b'again.map', byref(err)):
                    e['again'] = list(open('again.map', 'rb').read())
        else:
            buf, n = c_void_p(), c_size_t()
            ok = self.call(e, fn('output_and_end_b', ctypes.POINTER(c_void_p), ctypes.POINTER(c_size_t), ctypes.POINTER(c_char_p), res=c_int), byref(buf), byref(n), byref(err))
            if ok:
                e['b'] = list(ctypes.string_at(buf, n.value))
                LIB.b_unblock(buf)
        e['res'] = 'ok' if ok else 'exc'
        e['err'] = err.value is not None

    def step(self, op):
        o = op['op']
        e = dict(op)
        # arguments that were never made
        for k in ('i', 'x', 'k', 'v'):
            if k in op and op[k] not in self.at and not (o == 'push' and k == 'x' and op[k] == 0):
                return
        ids = lambda k: self.at[op[k]][0]
        hd = lambda k: self.at[op[k]][1]
        for k in ('i', 'x', 'k', 'v'):
            if k in op and op[k]:
                e[k] = ids(k)
        if o == 'mk':
            h = self.make(op, e)
            e['h'] = -1 if h == FAIL else h
            if h != FAIL:
                self.at[op['id']] = (len(self.at) + 1, h)
        elif o == 'push':
            x = hd('x') if op['x'] else FAIL - 1
            e['h'] = self.call(e, fn('vector_value_append', c_uint32, c_uint32), hd('i'), x)
            if e['h'] != FAIL:
                self.n[hd('i')] = self.n.get(hd('i'), 0) + 1
        elif o == 'pushx':
            e['h'] = self.call(e, fn('vector_%s_append' % NAME[op['t']], c_uint32, CT[op['t']]), hd('i'), num(op['t'], op['n']))
        elif o == 'put':
            if op['at'] >= self.n.get(hd('i'), 0):      # an append may have failed
                return
            fn('vector_value_set', c_uint32, c_uint32, c_uint32, res=None)(self.c, hd('i'), op['at'], hd('x'))
        elif o in ('give', 'givex'):
            if o == 'give':
                if any(x not in self.at for x in op['xs']):
                    return
                vals, f = [self.at[x][1] for x in op['xs']], 'vector_value_transfer'
                e['xs'] = [self.at[x][0] for x in op['xs']]
            else:
                vals, f = [unwint(x) for x in op['xs']], 'vector_u32_transfer'
            p = LIB.b_block(4 * max(1, len(vals)))
            ctypes.memmove(p, (c_uint32 * len(vals))(*vals), 4 * len(vals))
            e['h'] = self.call(e, fn(f, c_uint32, c_void_p, c_uint32), hd('i'), p, len(vals))
            if e['h'] == FAIL:
                LIB.b_unblock(p)
            elif o == 'give':
                self.n[hd('i')] = len(vals)
        elif o == 'add':
            e['h'] = self.call(e, fn('set_add', c_uint32, c_uint32), hd('i'), hd('k'))
        elif o == 'add2':
            e['h'] = self.call(e, fn('map_add', c_uint32, c_uint32, c_uint32), hd('i'), hd('k'), hd('v'))
        elif o == 'root':
            fn('set_root', c_uint32, res=None)(self.c, hd('i'))
        elif o == 'out':
            c = self.c
            self.out(op, e)
            self.done(e)
            LIB.b_free(c)
        else:
            assert o == 'end'
            fn('end', res=None)(self.c)
            LIB.b_free(self.c)
            self.done(e)
        if e.get('h') == FAIL:
            e['h'] = -1
        e.setdefault('hit', 0)
        emit(e)


def run_case(case):
    for x in os.listdir('.'):
        if x != 'stderr':
            os.unlink(x)
    r = Run()
    for op in case['ops']:
        if op['op'] == 'begin':
            r = Run()
            r.live = FAULT.fault_live()
            r.c = LIB.b_new(op['bits'])
            emit(op)
        elif r.c is not None:
            r.step(op)
    if r.c is not None:
        r.step({'op': 'end'})


loop(run_case)
