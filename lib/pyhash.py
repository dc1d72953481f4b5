"""Keys with a chosen 32-bit hash (the hash function is the one of specs/Values.tla)."""
import struct

M = 0xffffffff
MULT = 1000003
INV = pow(MULT, -1, 1 << 32)


def str_hash(cs):
    if not cs:
        return 0
    x = cs[0] << 7 & M
    for c in cs:
        x = (x * MULT & M) ^ c
    return x ^ len(cs)


def preimage_str(h, rng, n=None):
    """code points of a string with the hash h"""
    while True:
        n_ = n or rng.choice([3, 4, 5, 6])
        cs = [rng.randint(1, 0xff) if rng.random() < 0.5 else rng.randint(0x100, 0x2fff) for _ in range(n_ - 1)]
        x = cs[0] << 7 & M
        for c in cs:
            x = (x * MULT & M) ^ c
        c = (x * MULT & M) ^ h ^ n_
        if 0 < c < 0xd800 or 0xe000 <= c < 0x110000:
            assert str_hash(cs + [c]) == h
            return cs + [c]


def preimage_seq1(h):
    """the hash of x, such that the vector [x] has the hash h"""
    return ((h - 97531) * INV & M) ^ 0x345678


def float_with(h):
    """the bits of a single whose hash is h: one that is not an integer; None if there is none"""
    x = struct.unpack('<f', struct.pack('<I', h))[0]
    return x if x == x and (abs(x) in (float('inf'),) or x != int(x)) else None
