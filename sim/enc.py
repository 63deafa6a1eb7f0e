"""
Independent encoders: from values to stored bytes.

Every oracle in this directory goes *from values to bytes* with plain struct /
integer arithmetic, so that it shares nothing with the library's way from bytes
to values.
"""
from __future__ import annotations

import struct

# PDS3 type name -> (struct byte order, class)
PDS3_INTS = {
    "MSB_INTEGER": (">", True), "INTEGER": (">", True),
    "SUN_INTEGER": (">", True), "MAC_INTEGER": (">", True),
    "LSB_INTEGER": ("<", True), "PC_INTEGER": ("<", True),
    "VAX_INTEGER": ("<", True),
    "MSB_UNSIGNED_INTEGER": (">", False), "UNSIGNED_INTEGER": (">", False),
    "SUN_UNSIGNED_INTEGER": (">", False), "MAC_UNSIGNED_INTEGER": (">", False),
    "LSB_UNSIGNED_INTEGER": ("<", False), "PC_UNSIGNED_INTEGER": ("<", False),
    "VAX_UNSIGNED_INTEGER": ("<", False),
}
PDS3_REALS = {
    "IEEE_REAL": ">", "FLOAT": ">", "REAL": ">", "MAC_REAL": ">",
    "SUN_REAL": ">", "PC_REAL": "<",
}
INT_LETTER = {1: "b", 2: "h", 4: "i", 8: "q"}


def int_range(signed, nbytes):
    bits = nbytes * 8
    return (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)


def rand_int(rng, signed, nbytes):
    lo, hi = int_range(signed, nbytes)
    r = rng.random()
    if r < 0.1:
        return rng.choice((lo, hi, 0, 1))
    if r < 0.5:
        return max(lo, min(hi, rng.randrange(-200, 200)))
    return rng.randint(lo, hi)


def f32(x):
    return struct.unpack(">f", struct.pack(">f", x))[0]


def rand_real(rng, nbytes):
    """a value exactly representable in the given width"""
    r = rng.random()
    if r < 0.1:
        v = rng.choice((0.0, 1.0, -1.0, 0.5))
    elif r < 0.5:
        v = rng.randrange(-1 << 20, 1 << 20) / 1024
    else:
        v = rng.uniform(-1, 1) * 10 ** rng.randrange(-12, 12)
    return f32(v) if nbytes == 4 else v


def pack_int(vals, order, signed, nbytes):
    letter = INT_LETTER[nbytes]
    if not signed:
        letter = letter.upper()
    return struct.pack(f"{order}{len(vals)}{letter}", *vals)


def pack_real(vals, order, nbytes):
    return struct.pack(f"{order}{len(vals)}{'f' if nbytes == 4 else 'd'}", *vals)


def rand_vax(rng):
    """(value, 4 bytes) of a VAX F float"""
    if rng.random() < 0.08:
        return 0.0, b"\0\0\0\0"
    sign = rng.randrange(2)
    exp = rng.randrange(100, 156)
    frac = rng.randrange(1 << 23)
    w0 = (sign << 15) | (exp << 7) | (frac >> 16)
    w1 = frac & 0xFFFF
    v = (-1) ** sign * (0.5 + frac / (1 << 24)) * 2.0 ** (exp - 128)
    return v, struct.pack("<HH", w0, w1)


def rand_ibm(rng, nbytes):
    """(value, bytes) of an IBM S/360 float"""
    bits = 24 if nbytes == 4 else 56
    if rng.random() < 0.08:
        return 0.0, b"\0" * nbytes
    sign = rng.randrange(2)
    exp = rng.randrange(55, 72)
    frac = rng.randrange(1 << (bits - 4), 1 << bits)
    if nbytes == 8:
        frac &= ~0xF  # keep the fraction inside a float64's 53 bits
    v = (-1) ** sign * (frac / float(1 << bits)) * 16.0 ** (exp - 64)
    word = (sign << (bits + 7)) | (exp << bits) | frac
    return v, word.to_bytes(nbytes, "big")


LETTERS = "BCDFGHJKLMPQRSTVWXYZ"


def word(rng, n):
    """a word that no parser takes for a number, date or missing value"""
    return "".join(rng.choice(LETTERS) for _ in range(max(1, n)))
