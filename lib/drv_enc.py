"""Encodings shared by the generators and the drivers."""
import struct


def wint(n):
    """<<sign, 16-bit limbs, most significant first>>; TLC's integers have 32 bits."""
    s, m = (1, -n) if n < 0 else (0, n)
    assert m < 1 << 64
    return [s, m >> 48 & 0xffff, m >> 32 & 0xffff, m >> 16 & 0xffff, m & 0xffff]


def unwint(w):
    m = w[1] << 48 | w[2] << 32 | w[3] << 16 | w[4]
    return -m if w[0] else m


def f64(x):
    """a double as <<sign, exponent, upper 23 bits, lower 29 bits>>"""
    b = struct.unpack('<Q', struct.pack('<d', x))[0]
    return [b >> 63, b >> 52 & 0x7ff, b >> 29 & 0x7fffff, b & 0x1fffffff]


def unf64(w):
    return struct.unpack('<d', struct.pack('<Q', w[0] << 63 | w[1] << 52 | w[2] << 29 | w[3]))[0]
