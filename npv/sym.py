"""Symbolic values of the numpy-mode engine: Python ints (exact, widening), numpy scalars (fixed width),
booleans, floats, and the numpy 1.26 rules by which they combine."""
import operator
import numpy as np
import z3


class Unsupported(Exception):
    """construct outside the verified subset: the obligation stays undischarged"""


class PathEnd(Exception):
    """the current path raised a Python exception (recorded by the engine)"""


RM = z3.RNE()


def bits_for(lo, hi):
    """signed width that holds [lo, hi]"""
    n = 1
    if hi > 0:
        n = max(n, hi.bit_length() + 1)
    if lo < 0:
        n = max(n, (-lo - 1).bit_length() + 1)
    return n


class Sym:
    pass


class SInt(Sym):
    """exact Python int; e is a signed bit-vector wide enough for lo..hi"""
    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo, hi):
        self.e, self.lo, self.hi = e, lo, hi

    def __repr__(self): return f"SInt[{self.lo},{self.hi}]"


class SNp(Sym):
    __slots__ = ("dt", "e")

    def __init__(self, dt, e):
        self.dt, self.e = np.dtype(dt), e
        assert e.size() == self.dt.itemsize * 8, (dt, e.size())

    def __repr__(self): return f"SNp<{self.dt}>"


class SBool(Sym):
    __slots__ = ("e", "np")

    def __init__(self, e, np_=False):
        self.e, self.np = e, np_

    def __repr__(self): return f"SBool({self.e})"


class SFp(Sym):
    """float; dt float32/float64, or None for a Python float"""
    __slots__ = ("dt", "e")

    def __init__(self, dt, e):
        self.dt, self.e = (np.dtype(dt) if dt is not None else None), e


class SUnion(Sym):
    """value whose Python type depends on a condition: [(cond, value)], conds exhaustive and exclusive"""
    __slots__ = ("alts",)

    def __init__(self, alts): self.alts = alts


class SRange(Sym):
    def __init__(self, start, stop, step): self.start, self.stop, self.step = start, stop, step


class SStr(Sym):
    """string of known length; chars: 32-bit code points"""
    __slots__ = ("chars",)

    def __init__(self, chars): self.chars = list(chars)


class SRec(Sym):
    """immutable record value (an element of a record array): field name -> value"""
    __slots__ = ("fields",)

    def __init__(self, fields): self.fields = fields


class SVec(Sym):
    """immutable sub-array of a record: n elements, get(index_bv64) -> value"""
    def __init__(self, n, get): self.n, self.get = n, get


class SSlice(Sym):
    """slice with symbolic ends"""
    def __init__(self, start, stop, step): self.start, self.stop, self.step = start, stop, step


class SSuper(Sym):
    """super() inside a method of cls"""
    def __init__(self, cls, self_): self.cls, self.self_ = cls, self_


class SMap(Sym):
    """dict built from a sequence: the entry of its k-th element (later elements replace earlier ones)"""
    def __init__(self, n, k, key, value): self.n, self.k, self.key, self.value = n, k, key, value


class Undefined(Sym):
    pass


UNDEF = Undefined()


class Ref(Sym):
    __slots__ = ("id", "kind")

    def __init__(self, id_, kind): self.id, self.kind = id_, kind

    def __repr__(self): return f"Ref({self.kind}{self.id})"

    def __eq__(self, o): return isinstance(o, Ref) and o.id == self.id

    def __hash__(self): return hash(self.id)


def simp(e):
    return z3.simplify(e)


def num_of(e):
    """python value of a bit-vector numeral or None (no simplification beyond z3's)"""
    if z3.is_bv_value(e):
        return e.as_long()
    return None


def bool_of(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return None


def mk_int(e, lo, hi):
    if lo == hi:
        return lo
    n = num_of(e)
    if n is not None:
        return e.as_signed_long()
    w = bits_for(lo, hi)
    if e.size() > w:
        e = z3.Extract(w - 1, 0, e)
    return SInt(e, lo, hi)


def mk_np(dt, e):
    dt = np.dtype(dt)
    n = num_of(e)
    if n is not None:
        if dt.kind == "i":
            n = e.as_signed_long()
        return dt.type(n)
    return SNp(dt, e)


def mk_bool(e, np_=False):
    b = bool_of(e)
    if b is not None:
        return np.bool_(b) if np_ else b
    return SBool(e, np_)


def is_sym(v):
    return isinstance(v, Sym)


def is_num(v):
    return isinstance(v, (int, bool, np.integer, np.bool_, SInt, SNp, SBool))


def int_view(v):
    """(signed bv, lo, hi) exact integer view of any integer-like value"""
    if isinstance(v, SInt):
        return v.e, v.lo, v.hi
    if isinstance(v, SBool):
        return z3.If(v.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
    if isinstance(v, SNp):
        w = v.e.size()
        if v.dt.kind == "u":
            return z3.ZeroExt(1, v.e), 0, (1 << w) - 1
        return v.e, -(1 << (w - 1)), (1 << (w - 1)) - 1
    if isinstance(v, (bool, int, np.integer, np.bool_)):
        n = int(v)
        return z3.BitVecVal(n, bits_for(n, n)), n, n
    raise Unsupported(f"integer view of {type(v).__name__}")


def ubound(e, depth=12):
    """syntactic upper bound of the term read as an unsigned number"""
    n = num_of(e)
    if n is not None:
        return n
    top = (1 << e.size()) - 1
    if depth == 0:
        return top
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_BAND:
        return min(ubound(c, depth - 1) for c in ch)
    if k == z3.Z3_OP_CONCAT:
        b = 0
        for c in ch:
            b = (b << c.size()) | (ubound(c, depth - 1) if b == 0 else (1 << c.size()) - 1)
        return b
    if k == z3.Z3_OP_ZERO_EXT:
        return ubound(ch[0], depth - 1)
    if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
        return min(top, ubound(ch[0], depth - 1))
    if k == z3.Z3_OP_BLSHR and num_of(ch[1]) is not None:
        return ubound(ch[0], depth - 1) >> num_of(ch[1])
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and num_of(ch[1]):
        return min(ubound(ch[0], depth - 1), num_of(ch[1]) - 1)
    if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and num_of(ch[1]):
        return ubound(ch[0], depth - 1) // num_of(ch[1])
    if k == z3.Z3_OP_ITE:
        return max(ubound(ch[1], depth - 1), ubound(ch[2], depth - 1))
    if k == z3.Z3_OP_BADD:
        b = sum(ubound(c, depth - 1) for c in ch)
        return b if b <= top else top
    return top


def sx(e, w):
    return e if e.size() == w else (z3.SignExt(w - e.size(), e) if e.size() < w else z3.Extract(w - 1, 0, e))


def to_bv(v, w):
    """low w bits of the integer v"""
    e, _, _ = int_view(v)
    return simp(sx(e, w))


def is_float(v):
    return isinstance(v, (float, np.floating, SFp))


def to_fp(v, sort):
    if isinstance(v, SFp):
        return v.e if v.e.sort() == sort else z3.fpFPToFP(RM, v.e, sort)
    if isinstance(v, (float, np.floating)):
        f = z3.FPVal(float(v), z3.Float64())
        return simp(f if sort == z3.Float64() else z3.fpFPToFP(RM, f, sort))
    e, lo, hi = int_view(v)
    return z3.fpSignedToFP(RM, e, sort)


SORT = {np.dtype("f4"): z3.Float32(), np.dtype("f8"): z3.Float64()}


def cast_np(v, dt):
    """dt.type(v)"""
    dt = np.dtype(dt)
    if not is_sym(v):
        return dt.type(v)
    if isinstance(v, SUnion):
        return merge_alts([(c, cast_np(x, dt)) for c, x in v.alts])
    if dt.kind == "b":
        if isinstance(v, SBool):
            return mk_bool(v.e, True)
        e, lo, hi = int_view(v)
        return mk_bool(simp(e != 0), True)
    if dt.kind == "f":
        return SFp(dt, to_fp(v, SORT[dt]))
    w = dt.itemsize * 8
    if isinstance(v, SFp):
        # C conversion: truncation, only defined in range; the engine proves the range separately
        e = z3.fpToUBV(z3.RTZ(), v.e, z3.BitVecSort(w)) if dt.kind == "u" else z3.fpToSBV(z3.RTZ(), v.e, z3.BitVecSort(w))
        return mk_np(dt, e)
    if isinstance(v, SInt) and (v.hi > (1 << 64) - 1 or v.lo < -(1 << 63)):
        raise Unsupported("conversion of a Python int outside 64 bits to a numpy scalar")
    return mk_np(dt, to_bv(v, w))


def sample(v):
    """concrete numpy/python value of the same type, to ask numpy for the result type"""
    if isinstance(v, SNp):
        return v.dt.type(1)
    if isinstance(v, SBool):
        return np.bool_(True) if v.np else True
    if isinstance(v, SInt):
        if v.hi >= (1 << 63) or v.lo < -(1 << 63):
            raise Unsupported("Python int outside int64 combined with a numpy scalar")
        return 1
    if isinstance(v, SFp):
        return v.dt.type(1) if v.dt is not None else 1.0
    return v


def is_npish(v):
    return isinstance(v, (SNp, np.generic)) or (isinstance(v, SBool) and v.np) or (isinstance(v, SFp) and v.dt is not None)


OPS = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "BitAnd": operator.and_,
    "BitOr": operator.or_, "BitXor": operator.xor, "LShift": operator.lshift, "RShift": operator.rshift,
    "FloorDiv": operator.floordiv, "Mod": operator.mod, "Div": operator.truediv, "Pow": operator.pow,
}
CMPS = {"Eq": operator.eq, "NotEq": operator.ne, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt,
        "GtE": operator.ge}


def _floor_divmod(a, b, w):
    """signed floor division on w-bit signed terms (b != 0)"""
    if max(ubound(a), ubound(b)) < 1 << (w - 1):
        return udivrem(a, b)
    q = a / b          # bvsdiv truncates
    r = z3.SRem(a, b)
    adj = z3.And(r != 0, (r < 0) != (b < 0))
    return z3.If(adj, q - 1, q), z3.If(adj, r + b, r)


def udivrem(x, y):
    """unsigned quotient and remainder at the smallest width both operands provably fit in"""
    w = x.size()
    n = max(ubound(x).bit_length(), ubound(y).bit_length(), 1)
    n = next((k for k in (8, 16, 32, 64) if n <= k), n)
    if n >= w:
        return z3.UDiv(x, y), z3.URem(x, y)
    a, b = simp(z3.Extract(n - 1, 0, x)), simp(z3.Extract(n - 1, 0, y))
    return z3.If(y == 0, z3.BitVecVal(-1, w), z3.ZeroExt(w - n, z3.UDiv(a, b))), z3.ZeroExt(w - n, z3.URem(a, b))


_DIVS = {z3.Z3_OP_BUDIV: 0, z3.Z3_OP_BUREM: 1, z3.Z3_OP_BUDIV_I: 0, z3.Z3_OP_BUREM_I: 1}


def narrow_divisions(t):
    """t with every unsigned division at the smallest width its operands provably fit in (an equivalent term)"""
    if not z3.is_expr(t):
        return t
    order, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().kind() in _DIVS:
            order.append(x)
        stack += x.children()
    if not order:
        return t
    for _ in range(3):
        sub = []
        for x in order:
            r = udivrem(*x.children())[_DIVS[x.decl().kind()]]
            if r.decl().kind() not in _DIVS:
                sub.append((x, r))
        if not sub:
            return t
        t = z3.simplify(z3.substitute(t, *sub))
        if len(order) == 1:
            return t
        order = []
        seen, stack = set(), [t]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_app(x) and x.decl().kind() in _DIVS:
                order.append(x)
            stack += x.children()
    return t


def py_binop(op, a, b, raise_if):
    ea, la, ha = int_view(a)
    eb, lb, hb = int_view(b)
    if op in ("BitAnd", "BitOr", "BitXor") and isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        x = a.e if isinstance(a, SBool) else z3.BoolVal(bool(a))
        y = b.e if isinstance(b, SBool) else z3.BoolVal(bool(b))
        return mk_bool(simp({"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor}[op](x, y)))
    if op in ("Add", "Sub", "Mult"):
        c = {"Add": (la + lb, ha + hb), "Sub": (la - hb, ha - lb)}.get(op)
        if c is None:
            p = [la * lb, la * hb, ha * lb, ha * hb]
            c = (min(p), max(p))
        w = max(bits_for(*c), ea.size(), eb.size())
        x, y = sx(ea, w), sx(eb, w)
        return mk_int(simp({"Add": lambda: x + y, "Sub": lambda: x - y, "Mult": lambda: x * y}[op]()), *c)
    if op in ("BitAnd", "BitOr", "BitXor"):
        w = max(ea.size(), eb.size())
        x, y = sx(ea, w), sx(eb, w)
        e = simp({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op])
        if op == "BitAnd" and (la >= 0 or lb >= 0):
            hi = min([h for l, h in ((la, ha), (lb, hb)) if l >= 0])
            return mk_int(e, 0, hi)
        if la >= 0 and lb >= 0:
            return mk_int(e, 0, (1 << max(ha, hb).bit_length()) - 1)
        return mk_int(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    if op == "RShift":
        raise_if(simp(eb < 0), "ValueError: negative shift count")
        w = max(ea.size(), eb.size())
        x, y = sx(ea, w), sx(eb, w)
        lo, hi = min(la, la >> max(lb, 0)), max(ha, ha >> max(lb, 0) if ha >= 0 else ha >> hb)
        if la >= 0:
            lo, hi = la >> hb, ha >> max(lb, 0)
        return mk_int(simp(x >> y), lo, hi)
    if op == "LShift":
        raise_if(simp(eb < 0), "ValueError: negative shift count")
        if hb > 256:
            raise Unsupported("unbounded left shift")
        lo = min(la << max(lb, 0), la << hb)
        hi = max(ha << max(lb, 0), ha << hb)
        w = max(bits_for(lo, hi), eb.size())
        return mk_int(simp(sx(ea, w) << sx(eb, w)), lo, hi)
    if op in ("FloorDiv", "Mod"):
        raise_if(simp(eb == 0), "ZeroDivisionError")
        w = max(ea.size(), eb.size()) + 1
        x, y = sx(ea, w), sx(eb, w)
        if la >= 0 and lb >= 0:
            q, r = udivrem(x, y)
            if op == "FloorDiv":
                return mk_int(simp(q), la // max(hb, 1), ha // max(lb, 1))
            return mk_int(simp(r), 0, max(min(hb - 1, ha), 0))
        q, r = _floor_divmod(x, y, w)
        if op == "FloorDiv":
            return mk_int(simp(q), -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return mk_int(simp(r), min(lb + 1, 0), max(hb - 1, 0))
    if op == "Div":
        raise_if(simp(eb == 0), "ZeroDivisionError")
        return SFp(None, z3.fpDiv(RM, to_fp(a, z3.Float64()), to_fp(b, z3.Float64())))
    raise Unsupported(f"operator {op} on symbolic ints")


def fp_binop(op, a, b):
    f = {"Add": z3.fpAdd, "Sub": z3.fpSub, "Mult": z3.fpMul, "Div": z3.fpDiv}.get(op)
    if f is None:
        raise Unsupported(f"float operator {op}")
    if is_npish(a) or is_npish(b):
        r = OPS[op](sample(a), sample(b))
        dt = np.asarray(r).dtype
        sort = SORT[dt]
        return SFp(dt, f(RM, to_fp(a, sort), to_fp(b, sort)))
    return SFp(None, f(RM, to_fp(a, z3.Float64()), to_fp(b, z3.Float64())))


def np_binop(op, a, b, raise_if):
    try:
        r = OPS[op](sample(a), sample(b))
    except TypeError as ex:
        raise_if(z3.BoolVal(True), f"TypeError: {ex}")
        raise PathEnd()
    if isinstance(r, (int, float, bool)) and not isinstance(r, np.generic):
        raise Unsupported("numpy operator with Python-object result")
    dt = r.dtype
    if dt.kind == "f":
        return fp_binop(op, a, b)
    if dt.kind == "b":
        x = a.e if isinstance(a, SBool) else z3.BoolVal(bool(a))
        y = b.e if isinstance(b, SBool) else z3.BoolVal(bool(b))
        f = {"BitAnd": z3.And, "BitOr": z3.Or, "BitXor": z3.Xor, "Add": z3.Or, "Mult": z3.And}.get(op)
        if f is None:
            raise Unsupported(f"bool operator {op}")
        return mk_bool(simp(f(x, y)), True)
    w = dt.itemsize * 8
    x, y = to_bv(a, w), to_bv(b, w)
    signed = dt.kind == "i"
    if op == "Add": e = x + y
    elif op == "Sub": e = x - y
    elif op == "Mult": e = x * y
    elif op == "BitAnd": e = x & y
    elif op == "BitOr": e = x | y
    elif op == "BitXor": e = x ^ y
    elif op == "LShift": e = x << y
    elif op == "RShift":
        e = (x >> y) if signed else z3.LShR(x, y)
    elif op in ("FloorDiv", "Mod"):
        if signed:
            _, la, _h = int_view(a)
            _, lb, _h2 = int_view(b)
            q, r_ = udivrem(x, y) if la >= 0 and lb >= 0 else _floor_divmod(x, y, w)
        else:
            q, r_ = udivrem(x, y)
        e = q if op == "FloorDiv" else r_
        z = num_of(y)
        if z is None:
            e = z3.If(y == 0, z3.BitVecVal(0, w), e)
        elif z == 0:
            e = z3.BitVecVal(0, w)
    else:
        raise Unsupported(f"numpy operator {op}")
    return mk_np(dt, simp(e))


def str_chars(v):
    """code points of a string value, or None"""
    if isinstance(v, SStr):
        return v.chars
    if isinstance(v, str):
        return [z3.BitVecVal(ord(c), 32) for c in v]
    return None


def binop(op, a, b, raise_if):
    if not is_sym(a) and not is_sym(b):
        return OPS[op](a, b)
    if isinstance(a, SUnion):
        return merge_alts([(c, binop(op, x, b, raise_if)) for c, x in a.alts])
    if isinstance(b, SUnion):
        return merge_alts([(c, binop(op, a, x, raise_if)) for c, x in b.alts])
    if isinstance(a, SStr) or isinstance(b, SStr):
        ca, cb = str_chars(a), str_chars(b)
        if op != "Add" or ca is None or cb is None:
            raise Unsupported(f"string operator {op}")
        return SStr(ca + cb)
    if is_float(a) or is_float(b):
        return fp_binop(op, a, b)
    if not (is_num(a) and is_num(b)):
        raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")
    if is_npish(a) or is_npish(b):
        return np_binop(op, a, b, raise_if)
    return py_binop(op, a, b, raise_if)


def compare(op, a, b):
    if not is_sym(a) and not is_sym(b):
        return CMPS[op](a, b)
    if isinstance(a, SUnion):
        return merge_alts([(c, compare(op, x, b)) for c, x in a.alts])
    if isinstance(b, SUnion):
        return merge_alts([(c, compare(op, a, x)) for c, x in b.alts])
    if is_float(a) or is_float(b):
        # int/float comparisons through float64 (exact for the <=53-bit integers that occur)
        sorts = [SORT[v.dt] if isinstance(v, SFp) and v.dt is not None else z3.Float64() for v in (a, b) if is_sym(v)]
        s = z3.Float64() if z3.Float64() in sorts or len(set(map(str, sorts))) > 1 else sorts[0]
        x, y = to_fp(a, s), to_fp(b, s)
        f = {"Eq": z3.fpEQ, "NotEq": z3.fpNEQ, "Lt": z3.fpLT, "LtE": z3.fpLEQ, "Gt": z3.fpGT, "GtE": z3.fpGEQ}[op]
        return mk_bool(simp(f(x, y)), is_npish(a) or is_npish(b))
    if not (is_num(a) and is_num(b)):
        if op in ("Eq", "NotEq") and (a is None or b is None or isinstance(a, str) or isinstance(b, str)):
            return op == "NotEq"
        raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")
    ea, la, ha = int_view(a)
    eb, lb, hb = int_view(b)
    w = max(ea.size(), eb.size())
    x, y = sx(ea, w), sx(eb, w)
    np_ = is_npish(a) or is_npish(b)
    if op == "Eq": e = x == y
    elif op == "NotEq": e = x != y
    elif la >= 0 and lb >= 0:
        e = {"Lt": z3.ULT, "LtE": z3.ULE, "Gt": z3.UGT, "GtE": z3.UGE}[op](x, y)
    else:
        e = {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[op]
    return mk_bool(simp(e), np_)


def unary(op, a):
    if isinstance(a, SUnion):
        return merge_alts([(c, unary(op, x)) for c, x in a.alts])
    if not is_sym(a):
        return {"USub": operator.neg, "UAdd": operator.pos, "Invert": operator.invert, "Not": operator.not_}[op](a)
    if op == "Not":
        return mk_bool(simp(z3.Not(truth(a))))
    if isinstance(a, SNp):
        return mk_np(a.dt, simp({"USub": -a.e, "Invert": ~a.e, "UAdd": a.e}[op]))
    if isinstance(a, SBool) and a.np and op == "Invert":
        return mk_bool(simp(z3.Not(a.e)), True)
    if isinstance(a, SFp):
        return SFp(a.dt, {"USub": z3.fpNeg(a.e), "UAdd": a.e}[op])
    if op == "USub":
        return py_binop("Sub", 0, a, None)
    if op == "Invert":
        return py_binop("Sub", -1, a, None)
    return a


def truth(v):
    """z3 Bool (or python bool) of bool(v)"""
    if isinstance(v, SBool):
        return v.e
    if isinstance(v, SNp):
        return simp(v.e != 0)
    if isinstance(v, SInt):
        return True if v.lo > 0 or v.hi < 0 else simp(v.e != 0)
    if isinstance(v, SFp):
        return simp(z3.Not(z3.fpIsZero(v.e)))
    if isinstance(v, SUnion):
        return simp(z3.Or(*[z3.And(c, truth(x) if not isinstance(x, Ref) else z3.BoolVal(True)) for c, x in v.alts]))
    if isinstance(v, Sym):
        raise Unsupported(f"truth of {type(v).__name__}")
    return bool(v)


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Ref):
        return a.id == b.id
    if isinstance(a, (SNp,)):
        return a.dt == b.dt and a.e.eq(b.e)
    if isinstance(a, (SInt, SBool, SFp)):
        return a.e.eq(b.e)
    if isinstance(a, SRec):
        return a.fields.keys() == b.fields.keys() and all(same(v, b.fields[k]) for k, v in a.fields.items())
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if is_sym(a):
        return False
    if isinstance(a, np.ndarray):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def merge(c, a, b):
    """value of (a if c else b)"""
    k = bool_of(c)
    if k is not None:
        return a if k else b
    if same(a, b):
        return a
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if isinstance(a, SRec) and isinstance(b, SRec) and a.fields.keys() == b.fields.keys():
        return SRec({k: merge(c, v, b.fields[k]) for k, v in a.fields.items()})
    if isinstance(a, SUnion) or isinstance(b, SUnion):
        aa = a.alts if isinstance(a, SUnion) else [(z3.BoolVal(True), a)]
        bb = b.alts if isinstance(b, SUnion) else [(z3.BoolVal(True), b)]
        return merge_alts([(simp(z3.And(c, x)), v) for x, v in aa] + [(simp(z3.And(z3.Not(c), x)), v) for x, v in bb])

    def dtype(v):
        if isinstance(v, SNp):
            return v.dt
        if isinstance(v, np.integer):
            return v.dtype
        return None
    da, db = dtype(a), dtype(b)
    if da is not None and da == db:
        w = da.itemsize * 8
        return mk_np(da, simp(z3.If(c, to_bv(a, w), to_bv(b, w))))
    isb = lambda v: isinstance(v, (bool, np.bool_, SBool))
    npb = lambda v: isinstance(v, np.bool_) or (isinstance(v, SBool) and v.np)
    if isb(a) and isb(b) and npb(a) == npb(b):
        x = a.e if isinstance(a, SBool) else z3.BoolVal(bool(a))
        y = b.e if isinstance(b, SBool) else z3.BoolVal(bool(b))
        return mk_bool(simp(z3.If(c, x, y)), npb(a))
    pyi = lambda v: isinstance(v, SInt) or (isinstance(v, int) and not isinstance(v, bool))
    if pyi(a) and pyi(b):
        ea, la, ha = int_view(a)
        eb, lb, hb = int_view(b)
        w = max(ea.size(), eb.size())
        return mk_int(simp(z3.If(c, sx(ea, w), sx(eb, w))), min(la, lb), max(ha, hb))
    if is_float(a) and is_float(b):
        dta = a.dt if isinstance(a, SFp) else (a.dtype if isinstance(a, np.floating) else None)
        dtb = b.dt if isinstance(b, SFp) else (b.dtype if isinstance(b, np.floating) else None)
        if dta == dtb:
            s = SORT[dta] if dta is not None else z3.Float64()
            return SFp(dta, z3.If(c, to_fp(a, s), to_fp(b, s)))
    return SUnion([(c, a), (simp(z3.Not(c)), b)])


def type_key(v):
    if isinstance(v, SNp): return ("np", v.dt)
    if isinstance(v, np.generic): return ("np", v.dtype)
    if isinstance(v, SInt): return ("int",)
    if isinstance(v, bool): return ("bool",)
    if isinstance(v, int): return ("int",)
    if isinstance(v, SBool): return ("np", np.dtype(bool)) if v.np else ("bool",)
    if isinstance(v, SFp): return ("np", v.dt) if v.dt is not None else ("float",)
    if isinstance(v, SRec): return ("rec",) + tuple(sorted(v.fields))
    return ("obj", id(v) if not isinstance(v, Ref) else v.id)


def merge_alts(alts):
    """normalise a list of (cond, value) into one value; equal types are merged by ITE"""
    flat = []
    for c, v in alts:
        if isinstance(v, SUnion):
            flat += [(simp(z3.And(c, c2)), v2) for c2, v2 in v.alts]
        else:
            flat.append((c, v))
    flat = [(c, v) for c, v in flat if bool_of(c) is not False]
    groups = {}
    for c, v in flat:
        k = type_key(v)
        if k in groups:
            c0, v0 = groups[k]
            groups[k] = (simp(z3.Or(c0, c)), merge(c0, v0, v))
        else:
            groups[k] = (c, v)
    g = list(groups.values())
    if len(g) == 1:
        return g[0][1]
    return SUnion(g)
