import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from primvector import *
import binascii
import ctypes
import io
import socket
import struct


def address(o):
    """Where the bytes are (None if that cannot be asked)."""
    if isinstance(o, ctypes.Array):
        return ctypes.addressof(o)
    if o.readonly or not o.nbytes:
        return None
    c = (ctypes.c_char * o.nbytes).from_buffer(o)
    a = ctypes.addressof(c)
    del c
    return a


class Buf(object):
    def __init__(self, o):
        self.o = o
        self.at = address(o)
        self.moved = 0

    def look(self):
        if address(self.o) != self.at:
            self.moved = 1
        return {'b': list(bytes(self.o)), 'moved': self.moved}

    def release(self, how):
        if how % 2 and isinstance(self.o, memoryview):
            self.o.release()
        self.o = None


def export(v, how, ro):
    n = memoryview(v).nbytes
    if ro:
        return memoryview(v).toreadonly()
    if how % 5 == 1 and n:
        return (ctypes.c_ubyte * n).from_buffer(v)
    if how % 5 == 2:
        return memoryview(v).cast('B')
    if how % 5 == 3:
        return memoryview(memoryview(v))
    if how % 5 == 4 and n:
        return memoryview((ctypes.c_ubyte * n).from_buffer(memoryview(v))).cast('B')
    return memoryview(v)


def temp(v, how):
    """A use of the buffer which ends here, one way or the other."""
    n = memoryview(v).nbytes
    how %= 14
    if how == 0:
        bytes(memoryview(v))
    elif how == 1:
        bytearray(v)
    elif how == 2:
        b''.join([v, b'x', v])
    elif how == 3:
        pointless.Pointless(v).GetRoot()
    elif how == 4:
        io.BytesIO().write(v)
    elif how == 5:
        binascii.crc32(v)
    elif how == 6:
        pointless.serialize_to_bytearray([v, v])
    elif how == 7:
        PV(buffer=v)
    elif how == 8:
        (ctypes.c_char * (n + 1)).from_buffer(v)
    elif how == 9:
        memoryview(v).cast('Z')
    elif how == 10:
        struct.pack_into('<Q', v, n)
    elif how == 11:
        with memoryview(v) as m:
            m == m, hash(m.toreadonly()), m[::2].tolist()
    elif how == 12:
        a, b = socket.socketpair()
        b.setblocking(False)
        try:
            a.send(v)
            b.recv_into(memoryview(bytearray(n + 1)))
        finally:
            a.close()
            b.close()
    elif how == 13:
        x = PV('u8')
        x.append_bulk(memoryview(v))
        PV('i8', sequence=memoryview(v))


class Stop(Exception):
    pass


def play(e, cell, log):
    """yields what the script says, taking buffers of the vector in between"""
    held = []
    for s in e['script']:
        if s['s'] == 'y':
            yield obj(s['x'])
        elif s['s'] == 'x':
            b = Buf(memoryview(cell[0]))
            log.append((b, list(bytes(b.o))))
            held.append(b)
            cell[1].append(b)
        elif s['s'] == 'r':
            if held:
                b = held.pop()
                cell[2].append((b, b.look()))
                b.release(1)
        else:
            raise Stop()


def gen(e, vecs, saw):
    v = vecs[e['id']]
    log, taken, gone = [], [], []
    it = play(e, (v, taken, gone), log)
    try:
        if e['init']:
            v.__init__(e['t'], sequence=it)
        else:
            return v.append_bulk(it)
    finally:
        was = {id(b): w for b, w in gone}
        for b, then in log:
            w = was.get(id(b)) or b.look()
            saw.append({'then': then, 'later': w['b'], 'moved': w['moved']})
            b.release(0)


class Sly(object):
    def __init__(self, do, value):
        self.do = do
        self.value = value

    def __index__(self):
        self.do()
        return self.value


def bstep(e, vecs, bufs, iters, saw):
    op = e['op']
    v = vecs.get(e.get('id'))
    w = e.get('w', 0)
    if op == 'export':
        bufs[e['buf']] = Buf(export(v, w, e['ro']))
    elif op == 'sub':
        b = bufs[e['buf']].o
        bufs[e['dst']] = Buf((b if isinstance(b, memoryview) else memoryview(b).cast('B'))[e['lo']:max(e['lo'], e['hi'])])
    elif op == 'release':
        bufs.pop(e['buf']).release(w)
    elif op == 'bwrite':
        b = bufs[e['buf']].o
        if isinstance(b, memoryview):
            b.cast('B')[e['at']] = e['byte']
        else:
            b[e['at']] = e['byte']
    elif op == 'temp':
        try:
            temp(v, w)
        except AssertionError:
            raise
        except Exception as x:
            x.__traceback__ = None
        gc.collect()
    elif op == 'readinto':
        return io.BytesIO(bytes(e['b'])).readinto(v)
    elif op == 'bulk_mem':
        return v.append_bulk(memoryview(vecs[e['src']]) if w % 2 == 0 else memoryview(vecs[e['src']]).toreadonly())
    elif op == 'gen':
        return gen(e, vecs, saw)
    elif op == 'sly':
        t, n = e['then'], Sly(lambda: attempt(bstep, e['do'], vecs, bufs, iters, []), 0)
        v = vecs[t['id']]
        c = v.typecode
        if t['op'] == 'get':
            n.value = t['i']
            return item(c, v[n])
        elif t['op'] == 'set':
            n.value = t['i']
            v[n] = obj(t['x'])
        elif t['op'] == 'pop_bulk':
            n.value = t['n']
            return v.pop_bulk(n)
        elif t['op'] == 'slice':
            n.value = t['lo'][0]
            vecs[t['dst']] = v[n:]
    else:
        return step(e, vecs, bufs, iters)


def run_case(case):
    vecs, bufs, iters = {}, {}, {}
    emit({'op': 'reset'})
    for e in case['ops']:
        if e['op'] == 'drop?':
            if e['id'] not in vecs:
                continue
            e = dict(e, op='drop')
        saw = []
        out = dict(e)
        out['res'] = attempt(bstep, e, vecs, bufs, iters, saw)
        if e['op'] == 'gen':
            out['saw'] = saw
        out['post'] = contents(vecs)
        out['wins'] = {k: b.look() for k, b in bufs.items()} or []
        emit(out)


loop(run_case)
