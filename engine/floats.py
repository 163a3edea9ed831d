"""Floating-point semantics: exact (z3 FP theory) and a sound linear-real
over-approximation (each operation's result is a fresh real within half an ulp
of the exact result)."""
from fractions import Fraction

import numpy as np
import z3

from values import *

SORT = {32: z3.Float32(), 64: z3.Float64()}
RNE = z3.RNE()
# relative / absolute rounding error bounds; the true ones are smaller (2^-24, 2^-150
# and 2^-53, 2^-1075): short constants keep the arithmetic solver fast
U = {32: Fraction(1, 2 ** 24), 64: Fraction(1, 2 ** 42)}
TINY = {32: Fraction(1, 2 ** 60), 64: Fraction(1, 2 ** 60)}
FMAX = {32: Fraction(2 ** 127), 64: Fraction(2 ** 1000)}
MANT = {32: 24, 64: 53}

CMP_NP = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b,
    'le': lambda a, b: a <= b, 'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
}


class Floats:
    def __init__(self, eng, mode):
        self.eng = eng
        self.mode = mode
        self.tokens = {}
        self.bvreal = {}
        self.rounded = {}
        self.ints = {}
        self.views = set()      # bit vectors that were converted from a float

    # -- lifting
    def lift(self, v, bits):
        if v.__class__ is SymF:
            return v
        if v.__class__ is int:
            if self.mode == 'fp':
                e = z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, bits), SORT[bits]))
                return SymF(bits, e, bv=z3.BitVecVal(v, bits))
            fr = f_to_fraction(v, bits)
            return SymF(bits, rconst(fr), fr, fr)
        return self.from_bits(v, bits)

    def from_bits(self, bv, bits):
        """Symbolic integer pattern -> float."""
        if self.mode == 'fp':
            return SymF(bits, z3.fpBVToFP(bv, SORT[bits]), bv=bv)
        if z3.is_bv_value(bv):
            return self.lift(bv.as_long(), bits)
        if z3.is_const(bv) and bv.decl().name() in self.tokens:
            return self.tokens[bv.decl().name()]
        if z3.is_app_of(bv, z3.Z3_OP_ITE):
            c, a, b = bv.children()
            return self.ite(c, self.from_bits(a, bits), self.from_bits(b, bits), bits)
        s = z3.simplify(bv)
        if not z3.eq(s, bv):
            return self.from_bits(s, bits)
        if z3.is_app_of(bv, z3.Z3_OP_EXTRACT) and z3.is_app_of(bv.arg(0), z3.Z3_OP_ITE):
            hi, lo = bv.params()
            c, a, b = bv.arg(0).children()
            return self.ite(c, self.from_bits(z3.Extract(hi, lo, a), bits), self.from_bits(z3.Extract(hi, lo, b), bits), bits)
        raise Escalate("integer pattern used as float in real mode")

    def to_bits(self, f):
        if f.bv is not None:
            return f.bv
        v = self.eng.fresh_bv('fbits', f.bits)
        if self.mode == 'fp':
            self.eng.sol.add_def(v, z3.fpBVToFP(v, SORT[f.bits]) == f.e)
        else:
            self.tokens[v.decl().name()] = f
        f.bv = v
        return v

    def ite(self, c, a, b, bits):
        a = self.lift(a, bits)
        b = self.lift(b, bits)
        if self.mode == 'fp':
            bv = None
            if a.bv is not None and b.bv is not None:
                bv = z3.If(c, a.bv, b.bv)
            return SymF(bits, z3.If(c, a.e, b.e), bv=bv)
        alo, ahi = self.narrow(a, c, True)
        blo, bhi = self.narrow(b, c, False)
        return SymF(bits, z3.If(c, a.e, b.e), min(alo, blo), max(ahi, bhi), cases=self.join_cases(c, a, b),
                    isint=self.integral(a) and self.integral(b))

    @staticmethod
    def integral(f):
        return f.isint or f.lo == f.hi and f.lo.denominator == 1

    @staticmethod
    def narrow(f, c, truth):
        """Interval of f where the comparison c is true (or false)."""
        while z3.is_not(c):
            c, truth = c.arg(0), not truth
        kind = {z3.Z3_OP_LT: '<', z3.Z3_OP_LE: '<', z3.Z3_OP_GT: '>', z3.Z3_OP_GE: '>'}.get(c.decl().kind() if z3.is_app(c) else None)
        lo, hi = f.lo, f.hi
        if kind is None or lo == hi:
            return lo, hi
        x, y = c.arg(0), c.arg(1)
        if z3.eq(y, f.e):
            x, y, kind = y, x, '<' if kind == '>' else '>'
        if not z3.eq(x, f.e) or not z3.is_rational_value(y):
            return lo, hi
        k = Fraction(y.numerator_as_long(), y.denominator_as_long())
        if (kind == '<') == truth:
            hi = max(lo, min(hi, k))
        else:
            lo = min(hi, max(lo, k))
        return lo, hi

    @staticmethod
    def cases_of(f):
        if f.cases is not None:
            return f.cases
        return [(None, f.lo)] if f.lo == f.hi else None

    def join_cases(self, c, a, b):
        ca, cb = self.cases_of(a), self.cases_of(b)
        if ca is None or cb is None or len(ca) + len(cb) > 40:
            return None
        out = [(c if k is None else z3.And(c, k), v) for k, v in ca] + cb
        # drop entries that repeat the default, collapse neighbours with equal values
        while len(out) > 1 and out[-2][1] == out[-1][1]:
            del out[-2]
        return out

    def per_case(self, op, a, b, bits):
        """a op b where b takes finitely many constant values."""
        memo = {}
        res = None
        for k, v in reversed(b.cases):
            if v not in memo:
                memo[v] = self.bin(op, a, SymF(bits, rconst(v), v, v), bits)
            r = memo[v]
            res = r if res is None else self.ite(k, r, res, bits)
        return res

    # -- rounding in real mode
    def rnd(self, e, lo, hi, bits):
        u = U[bits]
        t = TINY[bits]
        key = (e.get_id(), bits)
        hit = self.rounded.get(key)
        if hit is not None:
            return hit[1]       # rounding is a function of the exact value
        r = self.eng.fresh_real('fl')
        if max(abs(lo), abs(hi)) >= FMAX[bits]:
            raise Escalate("possible overflow to infinity")
        if lo >= 0:
            self.eng.sol.add_def(r, z3.And(r >= e * rconst(1 - u) - rconst(t), r <= e * rconst(1 + u) + rconst(t), r >= 0))
            nlo, nhi = max(Fraction(0), lo * (1 - u) - t), hi * (1 + u) + t
        elif hi <= 0:
            self.eng.sol.add_def(r, z3.And(r >= e * rconst(1 + u) - rconst(t), r <= e * rconst(1 - u) + rconst(t), r <= 0))
            nlo, nhi = lo * (1 + u) - t, min(Fraction(0), hi * (1 - u) + t)
        else:
            d = u * max(abs(lo), abs(hi)) + t
            x = e * rconst(u) + rconst(t)
            y = e * rconst(-u) + rconst(t)
            self.eng.sol.add_def(r, z3.And(z3.Or(r - e <= x, r - e <= y), z3.Or(e - r <= x, e - r <= y)))
            nlo, nhi = lo - d, hi + d
        out = SymF(bits, r, nlo, nhi)
        self.rounded[key] = (e, out)
        return out

    # -- arithmetic
    def bin(self, op, a, b, bits):
        if a.__class__ is int and b.__class__ is int:
            x = bits_to_np(a, bits)
            y = bits_to_np(b, bits)
            with np.errstate(all='ignore'):
                if op == 'fadd':
                    r = x + y
                elif op == 'fsub':
                    r = x - y
                elif op == 'fmul':
                    r = x * y
                elif op == 'fdiv':
                    r = x / y
                elif op == 'frem':
                    r = np.fmod(x, y)
                else:
                    raise Inconclusive(op)
            return np_to_bits(r, bits)
        a = self.lift(a, bits)
        b = self.lift(b, bits)
        if self.mode == 'fp':
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if f is None:
                raise Inconclusive(op)
            return SymF(bits, f(RNE, a.e, b.e))
        if op in ('fadd', 'fsub') and b.lo == b.hi == 0:
            return a
        if op == 'fadd' and a.lo == a.hi == 0:
            return b
        if op == 'fadd':
            return self.rnd(a.e + b.e, a.lo + b.lo, a.hi + b.hi, bits)
        if op == 'fsub':
            return self.rnd(a.e - b.e, a.lo - b.hi, a.hi - b.lo, bits)
        if op == 'fmul':
            if a.lo == a.hi or (a.cases is not None and b.cases is None and b.lo != b.hi):
                a, b = b, a
            if b.lo != b.hi and b.cases is not None:
                return self.per_case(op, a, b, bits)
            if b.lo != b.hi:
                raise Escalate("non-linear multiplication")
            c = b.lo
            l, h = sorted((a.lo * c, a.hi * c))
            if c == 0:
                return SymF(bits, rconst(0), Fraction(0), Fraction(0))
            if abs(c) == 1:
                return SymF(bits, a.e * rconst(c), l, h)
            return self.rnd(a.e * rconst(c), l, h, bits)
        if op == 'fdiv':
            if b.lo != b.hi and b.cases is not None:
                return self.per_case(op, a, b, bits)
            if b.lo != b.hi or b.lo == 0:
                raise Escalate("non-constant division")
            c = 1 / b.lo
            l, h = sorted((a.lo * c, a.hi * c))
            if abs(c) == 1:
                return SymF(bits, a.e * rconst(c), l, h)
            return self.rnd(a.e * rconst(c), l, h, bits)
        raise Escalate(op)

    def neg(self, a, bits):
        if a.__class__ is int:
            return a ^ (1 << (bits - 1))
        a = self.lift(a, bits)
        if self.mode == 'fp':
            return SymF(bits, z3.fpNeg(a.e))
        return SymF(bits, -a.e, -a.hi, -a.lo)

    def abs(self, a, bits):
        if a.__class__ is int:
            return a & ((1 << (bits - 1)) - 1)
        a = self.lift(a, bits)
        if self.mode == 'fp':
            return SymF(bits, z3.fpAbs(a.e))
        if a.lo >= 0:
            return a
        return SymF(bits, z3.If(a.e >= 0, a.e, -a.e), Fraction(0), max(abs(a.lo), abs(a.hi)))

    def minmax(self, op, a, b, bits):
        if a.__class__ is int and b.__class__ is int:
            x = bits_to_np(a, bits)
            y = bits_to_np(b, bits)
            r = np.fmin(x, y) if op == 'min' else np.fmax(x, y)
            return np_to_bits(r, bits)
        a = self.lift(a, bits)
        b = self.lift(b, bits)
        if self.mode == 'fp':
            return SymF(bits, (z3.fpMin if op == 'min' else z3.fpMax)(a.e, b.e))
        c = a.e <= b.e if op == 'min' else a.e >= b.e
        return self.ite(c, a, b, bits)

    def cmp(self, pred, a, b, bits):
        if pred == 'true':
            return 1
        if pred == 'false':
            return 0
        if a.__class__ is int and b.__class__ is int:
            x = bits_to_np(a, bits)
            y = bits_to_np(b, bits)
            nan = bool(x != x) or bool(y != y)
            if pred == 'ord':
                return int(not nan)
            if pred == 'uno':
                return int(nan)
            if nan:
                return 1 if pred[0] == 'u' else 0
            return int(bool(CMP_NP[pred[1:]](x, y)))
        a = self.lift(a, bits)
        b = self.lift(b, bits)
        if self.mode == 'fp':
            nan = z3.Or(z3.fpIsNaN(a.e), z3.fpIsNaN(b.e))
            if pred == 'uno':
                return norm(nan)
            if pred == 'ord':
                return norm(z3.Not(nan))
            f = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}[pred[1:]]
            c = f(a.e, b.e)
            if pred == 'one':
                return norm(z3.And(c, z3.Not(nan)))
            if pred[0] == 'u' and pred != 'une':
                return norm(z3.Or(c, nan))
            return norm(c)
        if pred == 'uno':
            return 0
        if pred == 'ord':
            return 1
        x, y = a.e, b.e
        p = pred[1:]
        # interval pre-checks keep concrete control flow concrete
        if p in ('lt', 'ge'):
            if a.hi < b.lo:
                return int(p == 'lt')
            if a.lo >= b.hi:
                return int(p == 'ge')
        if p in ('gt', 'le'):
            if a.lo > b.hi:
                return int(p == 'gt')
            if a.hi <= b.lo:
                return int(p == 'le')
        if p in ('eq', 'ne') and (a.hi < b.lo or a.lo > b.hi):
            return int(p == 'ne')
        return norm({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])

    # -- conversions
    def real_of(self, bv, n, signed):
        """Real term equal to the integer value of bv (bits weighted sum)."""
        key = (bv.get_id(), signed)
        r = self.bvreal.get(key)
        if r is not None:
            return r[1:]
        r = self.composed(bv, n, signed)
        if r is not None:
            self.bvreal[key] = (bv,) + r
            return r
        tot = []
        const = Fraction(0)
        lo = hi = Fraction(0)
        for i in range(n):
            w = Fraction(2 ** i)
            if signed and i == n - 1:
                w = -w
            b = norm(z3.Extract(i, i, bv))
            if b.__class__ is int:
                const += w * b
            else:
                tot.append((b, w))
                if w < 0:
                    lo += w
                else:
                    hi += w
        lo += const
        hi += const
        # sign-extended values: identical top bits collapse
        merged = {}
        for b, w in tot:
            e = merged.get(b.get_id())
            merged[b.get_id()] = (b, w + (e[1] if e else 0))
        lo = const + sum((w for b, w in merged.values() if w < 0), Fraction(0))
        hi = const + sum((w for b, w in merged.values() if w > 0), Fraction(0))
        ki = self.eng.fresh_int('int')
        s = z3.Sum([z3.If(b == 1, z3.IntVal(int(w)), z3.IntVal(0)) for b, w in merged.values()] + [z3.IntVal(int(const))])
        self.eng.sol.add_def(ki, z3.And(ki >= int(lo), ki <= int(hi)))
        self.eng.sol.add_link(ki, ki == s, bv, n, signed)
        k = z3.ToReal(ki)
        self.bvreal[key] = (bv, k, lo, hi)
        if z3.is_app_of(bv, z3.Z3_OP_EXTRACT) and bv.params()[1] == 0 and bv.arg(0).size() <= 64 and self.arith_like(bv.arg(0)):
            # the low bits of a value that fits them
            w, wl, wh = self.real_of(bv.arg(0), bv.arg(0).size(), signed)
            mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
            self.eng.sol.add_def(ki, z3.Implies(z3.And(w >= mn, w <= mx), k == w))
        return k, lo, hi

    def arith_like(self, bv):
        return bv.get_id() in self.views

    def composed(self, bv, n, signed, depth=8):
        """Integer view built from the views of the operands, where that is exact."""
        if depth == 0 or n > 64:
            return None
        kind = bv.decl().kind()
        ch = bv.children()
        mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if kind == z3.Z3_OP_BNUM:
            c = bv.as_signed_long() if signed else bv.as_long()
            return rconst(Fraction(c)), Fraction(c), Fraction(c)
        if kind == z3.Z3_OP_ITE:
            a, b = ch[1], ch[2]
            if not (self.simple(a) or self.simple(b)):
                return None
            (ka, la, ha), (kb, lb, hb) = self.real_of(a, n, signed), self.real_of(b, n, signed)
            return z3.If(ch[0], ka, kb), min(la, lb), max(ha, hb)
        if kind == z3.Z3_OP_EXTRACT and bv.params()[1] == 0:
            a = ch[0]
            k = a.decl().kind()
            if k == z3.Z3_OP_ITE and (z3.is_bv_value(a.arg(1)) or z3.is_bv_value(a.arg(2))):
                low = lambda x: z3.simplify(z3.Extract(n - 1, 0, x))
                return self.real_of(z3.If(a.arg(0), low(a.arg(1)), low(a.arg(2))), n, signed)
            return None
        if kind == z3.Z3_OP_SIGN_EXT and signed:
            return self.real_of(ch[0], ch[0].size(), True)
        if kind == z3.Z3_OP_ZERO_EXT or kind == z3.Z3_OP_CONCAT and len(ch) == 2 and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
            a = ch[-1]
            return self.real_of(a, a.size(), False)
        if kind in (z3.Z3_OP_BMUL, z3.Z3_OP_BADD) and len(ch) == 2:
            if kind == z3.Z3_OP_BMUL and not (z3.is_bv_value(ch[0]) or z3.is_bv_value(ch[1])):
                return None
            # a fitting interpretation of the operands and of the result
            for sg in (False, True):
                if not (self.known(ch[0]) and self.known(ch[1])):
                    return None
                (ka, la, ha), (kb, lb, hb) = self.real_of(ch[0], n, sg), self.real_of(ch[1], n, sg)
                if kind == z3.Z3_OP_BADD:
                    lo, hi, k = la + lb, ha + hb, ka + kb
                else:
                    c = [x * y for x in (la, ha) for y in (lb, hb)]
                    lo, hi, k = min(c), max(c), ka * kb
                if mn <= lo and hi <= mx:
                    return k, lo, hi
            return None
        return None

    @staticmethod
    def known(bv):
        return z3.is_bv_value(bv) or bv.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT) or z3.is_app_of(bv, z3.Z3_OP_CONCAT) and z3.is_bv_value(bv.arg(0))

    def simple(self, bv):
        return z3.is_bv_value(bv)

    def from_int(self, v, n, signed, bits):
        if v.__class__ is int:
            x = sgn(v, n) if signed else v
            with np.errstate(all='ignore'):
                if n <= 64:
                    y = (np.int64(x) if signed else np.uint64(x))
                    f = np.float32(y) if bits == 32 else np.float64(y)
                else:
                    f = np.float32(x) if bits == 32 else np.float64(x)
            return np_to_bits(f, bits)
        v = to_bv(v, n)
        if self.mode == 'fp':
            f = z3.fpSignedToFP if signed else z3.fpUnsignedToFP
            return SymF(bits, f(RNE, v, SORT[bits]))
        k, lo, hi = self.real_of(v, n, signed)
        if max(abs(lo), abs(hi)) <= 2 ** MANT[bits]:
            return SymF(bits, k, lo, hi)
        return self.rnd(k, lo, hi, bits)

    def to_int(self, v, bits, n, signed, sat):
        """fptosi/fptoui, saturating or not (non-saturating is only reached after
        Rust's own range checks)."""
        mn, mx = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, (1 << n) - 1)
        if v.__class__ is int:
            x = float(bits_to_np(v, bits))
            if x != x:
                return 0
            if x == float('inf'):
                r = mx
            elif x == float('-inf'):
                r = mn
            else:
                r = max(mn, min(mx, int(x)))
            return r & ((1 << n) - 1)
        v = self.lift(v, bits)
        if self.mode == 'fp':
            e = v.e
            conv = z3.fpToSBV(z3.RTZ(), e, z3.BitVecSort(n)) if signed else z3.fpToUBV(z3.RTZ(), e, z3.BitVecSort(n))
            lob = self.lift(np_to_bits(float(mn), bits), bits).e
            hib = self.lift(np_to_bits(float(mx + 1), bits), bits).e
            if bits == 32 and n > 24 or bits == 64 and n > 53:
                # mx+1 is a power of two, exactly representable
                pass
            r = z3.If(z3.fpIsNaN(e), z3.BitVecVal(0, n),
                      z3.If(z3.fpLEQ(e, lob), z3.BitVecVal(mn & ((1 << n) - 1), n),
                            z3.If(z3.fpGEQ(e, hib), z3.BitVecVal(mx, n), conv)))
            return r
        if v.ibv is not None and signed:
            w = v.ibv.size()
            if mn <= v.lo and v.hi <= mx:
                if w == n:
                    return v.ibv
                return z3.SignExt(n - w, v.ibv) if w < n else z3.Extract(n - 1, 0, v.ibv)
        e = v.e
        if signed and self.integral(v) and mn <= v.lo and v.hi <= mx:
            # as few bits as the value needs
            w = max(int(v.hi).bit_length(), int(-v.lo - 1).bit_length() if v.lo < 0 else 0) + 1
            if w < n:
                return z3.SignExt(n - w, self.to_int(v, bits, w, True, True))
        key = ('f2i', e.get_id(), n, signed)
        hit = self.ints.get(key)
        if hit is not None:
            return hit[1]
        y = self.eng.fresh_bv('f2i', n)
        self.views.add(y.get_id())
        self.ints[key] = (e, y)
        ky, _, _ = self.real_of(y, n, signed)
        if self.integral(v):
            tr = ky == e        # already an integer
        elif v.lo >= 0:
            tr = z3.And(ky <= e, e < ky + 1)
        elif v.hi <= 0:
            tr = z3.And(ky - 1 < e, e <= ky)
        else:
            tr = z3.If(e >= 0, z3.And(ky <= e, e < ky + 1), z3.And(ky - 1 < e, e <= ky))
        d = tr
        if v.hi >= mx + 1:
            d = z3.If(e >= mx, ky == mx, d)
        if v.lo <= mn - 1:
            d = z3.If(e <= mn, ky == mn, d)
        self.eng.sol.add_def(y, d)
        return y

    def round(self, how, v, bits):
        if v.__class__ is int:
            x = bits_to_np(v, bits)
            with np.errstate(all='ignore'):
                if how == 'round':
                    r = np.copysign(np.floor(np.abs(x.astype(np.float64)) + 0.5) if bits == 32 else _round_half_away(x), x)
                else:
                    r = {'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint}[how](x)
            return np_to_bits(r, bits)
        v = self.lift(v, bits)
        if self.mode != 'fp' and self.integral(v):
            return v
        if self.mode == 'fp':
            m = {'round': z3.RNA(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': RNE}[how]
            return SymF(bits, z3.fpRoundToIntegral(m, v.e))
        top = max(abs(v.lo), abs(v.hi)) + 1
        if top >= 2 ** 60:
            raise Escalate("rounding a large float")
        e = v.e
        key = (how, e.get_id())
        hit = self.ints.get(key)
        if hit is not None:
            return hit[1]
        w = int(top).bit_length() + 1
        y = self.eng.fresh_bv('rnd', w)
        ky, _, _ = self.real_of(y, w, True)
        half = rconst(Fraction(1, 2))
        fl = lambda x: x.numerator // x.denominator
        lo, hi = Fraction(fl(v.lo)), Fraction(-fl(-v.hi))
        if how in ('round', 'rint'):
            d = z3.And(ky <= e + half, ky >= e - half)
        elif how == 'floor':
            d = z3.And(ky <= e, e < ky + 1)
        elif how == 'ceil':
            d = z3.And(ky >= e, e > ky - 1)
        else:
            d = z3.If(e >= 0, z3.And(ky <= e, e < ky + 1), z3.And(ky >= e, e > ky - 1))
        self.eng.sol.add_def(y, d)
        out = SymF(bits, ky, lo, hi, ibv=y)
        self.ints[key] = (e, out)
        return out

    def resize(self, v, a, b):
        if v.__class__ is int:
            with np.errstate(all='ignore'):
                return np_to_bits(bits_to_np(v, a), b)
        v = self.lift(v, a)
        if self.mode == 'fp':
            return SymF(b, z3.fpFPToFP(RNE, v.e, SORT[b]))
        if b > a:
            return SymF(b, v.e, v.lo, v.hi, ibv=v.ibv, isint=v.isint)
        return self.rnd(v.e, v.lo, v.hi, b)


def _round_half_away(x):
    t = np.trunc(x)
    d = np.abs(x - t)
    return t + np.copysign(1.0, x) if d >= 0.5 else t
