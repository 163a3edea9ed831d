"""Values of the symbolic executor.

int            concrete integer / pointer / i1 / float bit pattern
BitVecRef      symbolic integer
BoolRef        symbolic i1
SymF           symbolic float
tuple          aggregate or vector
"""
from fractions import Fraction
import struct

import numpy as np
import z3

BV = z3.BitVecRef
BOOL = z3.BoolRef


class Escalate(Exception):
    """The linear-real float encoding cannot express this; use the exact encoding."""


class Inconclusive(Exception):
    """The engine cannot decide (unsupported construct, limit, solver gave up)."""


class SymF:
    """Symbolic float.  mode 'fp': e is a z3 FP term.  mode 'real': e is a z3 Real
    term that equals the float's exact (finite) value, within [lo, hi]."""
    __slots__ = ('bits', 'e', 'lo', 'hi', 'bv', 'ibv', 'cases', 'isint')

    def __init__(self, bits, e, lo=None, hi=None, bv=None, ibv=None, cases=None, isint=False):
        self.bits = bits
        self.e = e
        self.lo = lo
        self.hi = hi
        self.bv = bv        # integer view of the bit pattern, if one exists
        self.ibv = ibv      # real mode: signed BV equal to the (integral) value
        self.isint = isint or ibv is not None   # real mode: known to be integral
        self.cases = cases  # real mode: ordered [(cond | None, constant)] if finitely many values


def bits_to_np(v, bits):
    if bits == 32:
        return np.frombuffer(struct.pack('<I', v), dtype=np.float32)[0]
    return np.frombuffer(struct.pack('<Q', v), dtype=np.float64)[0]


def np_to_bits(x, bits):
    if bits == 32:
        return int(np.frombuffer(np.float32(x).tobytes(), dtype=np.uint32)[0])
    return int(np.frombuffer(np.float64(x).tobytes(), dtype=np.uint64)[0])


def f_to_fraction(v, bits):
    x = float(bits_to_np(v, bits))
    if x != x or x in (float('inf'), float('-inf')):
        raise Escalate("non-finite float constant in real mode")
    return Fraction(x)


def parse_float_const(txt, bits):
    """LLVM float literal -> bit pattern."""
    if 'inf' in txt or 'nan' in txt:
        exp, man = (0xff, 23) if bits == 32 else (0x7ff, 52)
        v = exp << man
        if 'qnan' in txt:
            v |= 1 << (man - 1)
        elif 'nan' in txt:
            v |= int(txt[txt.index('0x'):-1], 16)
        return v | ((1 << (bits - 1)) if txt[0] == '-' else 0)
    if txt.startswith('f0x'):
        return int(txt[3:], 16)
    if txt.startswith('0x'):
        v = int(txt[2:], 16)        # always a double pattern
        if bits == 64:
            return v
        return np_to_bits(np.float32(bits_to_np(v, 64)), 32)
    return np_to_bits(float(txt), bits)


def rv(fr):
    fr = Fraction(fr)
    return z3.RealVal(fr.numerator) / z3.RealVal(fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


def rconst(fr):
    fr = Fraction(fr)
    return z3.Q(fr.numerator, fr.denominator)


def to_bv(v, n):
    c = v.__class__
    if c is int:
        return z3.BitVecVal(v, n)
    if c is BOOL:
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def to_bool(v):
    c = v.__class__
    if c is int:
        return z3.BoolVal(bool(v & 1))
    if c is BOOL:
        return v
    return z3.Extract(0, 0, v) == 1


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def norm(e):
    """Fold a simplified term to a Python int when it is a literal."""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e
