"""Bit-vector operations shared by the specifications.

The specification functions (npv.spec) are written once, over these operations, and run on two
carriers: z3 bit-vectors (for the proofs) and CBV, a concrete fixed-width integer (as the executable
reference used for replay and for cross-checking the proofs against the running code)."""
import z3


class CBV:
    __slots__ = ("w", "v")

    def __init__(self, v, w):
        self.w = w
        self.v = v & ((1 << w) - 1)

    def _c(self, o):
        if isinstance(o, CBV):
            assert o.w == self.w, (o.w, self.w)
            return o.v
        return o

    def size(self):
        return self.w

    def __add__(self, o): return CBV(self.v + self._c(o), self.w)
    def __sub__(self, o): return CBV(self.v - self._c(o), self.w)
    def __mul__(self, o): return CBV(self.v * self._c(o), self.w)
    def __and__(self, o): return CBV(self.v & self._c(o), self.w)
    def __or__(self, o): return CBV(self.v | self._c(o), self.w)
    def __xor__(self, o): return CBV(self.v ^ self._c(o), self.w)
    __radd__, __rmul__, __rand__, __ror__, __rxor__ = __add__, __mul__, __and__, __or__, __xor__
    def __rsub__(self, o): return CBV(self._c(o) - self.v, self.w)
    def __invert__(self): return CBV(~self.v, self.w)
    def __neg__(self): return CBV(-self.v, self.w)

    def __lshift__(self, o):
        n = self._c(o)
        return CBV(self.v << n if n < self.w else 0, self.w)

    def __eq__(self, o): return self.v == (self._c(o) & ((1 << self.w) - 1))
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash((self.v, self.w))
    def __int__(self): return self.v
    def __repr__(self): return f"{self.v:#x}:{self.w}"


def is_c(x):
    return isinstance(x, (CBV, int, bool))


def val(x, like):
    """constant x on the carrier of `like`"""
    return CBV(x, like.size()) if isinstance(like, CBV) else z3.BitVecVal(x, like.size())


def const(x, w, like):
    return CBV(x, w) if isinstance(like, CBV) else z3.BitVecVal(x, w)


def lshr(a, n):
    if isinstance(a, CBV):
        n = a._c(n)
        return CBV(a.v >> n, a.w)
    return z3.LShR(a, n if z3.is_expr(n) else z3.BitVecVal(n, a.size()))


def zext(a, w):
    if isinstance(a, CBV):
        assert w >= a.w
        return CBV(a.v, w)
    return a if a.size() == w else z3.ZeroExt(w - a.size(), a)


def sext(a, w):
    if isinstance(a, CBV):
        v = a.v - (1 << a.w) if a.v >> (a.w - 1) else a.v
        return CBV(v, w)
    return a if a.size() == w else z3.SignExt(w - a.size(), a)


def trunc(a, w):
    if isinstance(a, CBV):
        return CBV(a.v, w)
    return a if a.size() == w else z3.Extract(w - 1, 0, a)


def extract(hi, lo, a):
    if isinstance(a, CBV):
        return CBV(a.v >> lo, hi - lo + 1)
    return z3.Extract(hi, lo, a)


def concat(*xs):
    if isinstance(xs[0], CBV):
        v, w = 0, 0
        for x in xs:
            v, w = (v << x.w) | x.v, w + x.w
        return CBV(v, w)
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return z3.If(c, a, b)


def and_(*cs):
    if all(isinstance(c, bool) for c in cs):
        return all(cs)
    return z3.And(*cs)


def or_(*cs):
    if all(isinstance(c, bool) for c in cs):
        return any(cs)
    return z3.Or(*cs)


def not_(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def ult(a, b):
    return a.v < a._c(b) if isinstance(a, CBV) else z3.ULT(a, b)


def ule(a, b):
    return a.v <= a._c(b) if isinstance(a, CBV) else z3.ULE(a, b)


def udiv(a, b):
    if isinstance(a, CBV):
        return CBV(a.v // a._c(b), a.w)
    return z3.UDiv(a, b if z3.is_expr(b) else z3.BitVecVal(b, a.size()))


def urem(a, b):
    if isinstance(a, CBV):
        return CBV(a.v % a._c(b), a.w)
    return z3.URem(a, b if z3.is_expr(b) else z3.BitVecVal(b, a.size()))


def rol(a, n):
    w = a.size()
    return (a << n) | lshr(a, w - n)


def ror(a, n):
    w = a.size()
    return lshr(a, n) | (a << (w - n))
