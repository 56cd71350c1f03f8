"""LCRNG specification: parameters, the n-th iterate, and the proved rewriting of affine terms to iterates."""
import z3
from .sym import simp

# published parameters: (width, multiplier, increment, reversed?, output distribution)
GENS = {
    "PokeRNGMod": (32, 0x41C64E6D, 0x6073, False, "mod"),
    "PokeRNGDiv": (32, 0x41C64E6D, 0x6073, False, "div"),
    "PokeRNGRMod": (32, 0x41C64E6D, 0x6073, True, "mod"),
    "PokeRNGRDiv": (32, 0x41C64E6D, 0x6073, True, "div"),
    "ARNG": (32, 0x6C078965, 1, False, None),
    "ARNGR": (32, 0x6C078965, 1, True, None),
    "XDRNG": (32, 0x343FD, 0x269EC3, False, "mod"),
    "XDRNGR": (32, 0x343FD, 0x269EC3, True, "mod"),
    "BWRNG": (64, 0x5D588B656C078965, 0x269EC3, False, "shift"),
    "BWRNGR": (64, 0x5D588B656C078965, 0x269EC3, True, "shift"),
}


class Lcg:
    """F(s) = m s + a mod 2^w.  F has full period 2^w, so exponents live in Z/2^w."""

    def __init__(self, w, m, a):
        self.w, self.m, self.a, self.mod = w, m, a, 1 << w
        self.table = [(m, a)]       # F^(2^i)
        for _ in range(w):
            M, A = self.table[-1]
            self.table.append((M * M % self.mod, A * (M + 1) % self.mod))

    def power(self, k):
        """(M, A) of F^k"""
        k %= self.mod
        M, A = 1, 0
        for i in range(self.w):
            if k >> i & 1:
                m, a = self.table[i]
                M, A = M * m % self.mod, (m * A + a) % self.mod
        return M, A

    def step(self, s):
        return (self.m * s + self.a) % self.mod

    def iterate(self, s, k):
        M, A = self.power(k)
        return (M * s + A) % self.mod

    def log(self, M, A):
        """k with F^k = (M, A), or None"""
        k, cur = 0, 0
        for j in range(self.w):
            if (cur ^ A) >> j & 1:
                m, a = self.table[j]
                cur = (m * cur + a) % self.mod
                k |= 1 << j
        return k if self.power(k) == (M % self.mod, A % self.mod) else None


def lemmas(ctx, g):
    """F^(2^(i+1)) = F^(2^i) o F^(2^i) for every table entry, by the solver, and F^(2^w) = id"""
    s = z3.BitVec("s", g.w)
    for i in range(g.w):
        (M, A), (M2, A2) = g.table[i], g.table[i + 1]
        bv = lambda x: z3.BitVecVal(x, g.w)
        ctx.prove(f"lemma doubling F^(2^{i+1}) = F^(2^{i}) o F^(2^{i})",
                  z3.simplify(bv(M) * (bv(M) * s + bv(A)) + bv(A) == bv(M2) * s + bv(A2), som=True))
    ctx.concrete("lemma F^(2^w) = id", g.table[g.w] == (1, 0))


def aff(t):
    """t = M*x + A with x an atom; (M, A, x) or (0, A, None) for a constant"""
    w = t.size()
    mod = 1 << w
    if z3.is_bv_value(t):
        return 0, t.as_long(), None
    k = t.decl().kind()
    if k == z3.Z3_OP_BADD or k == z3.Z3_OP_BSUB:
        M = A = 0
        x = None
        for i, c in enumerate(t.children()):
            r = aff(c)
            if r is None:
                return None
            sg = -1 if (k == z3.Z3_OP_BSUB and i > 0) else 1
            A = (A + sg * r[1]) % mod
            if r[2] is not None:
                if x is None:
                    x = r[2]
                elif not x.eq(r[2]):
                    return (1, 0, t)
                M = (M + sg * r[0]) % mod
        return (M, A, x)
    if k == z3.Z3_OP_BMUL:
        c = 1
        rest = []
        for ch in t.children():
            if z3.is_bv_value(ch):
                c = c * ch.as_long() % mod
            else:
                rest.append(ch)
        if len(rest) == 1:
            r = aff(rest[0])
            return (c * r[0] % mod, c * r[1] % mod, r[2])
        return (1, 0, t)
    if k == z3.Z3_OP_BNEG:
        r = aff(t.children()[0])
        return (-r[0] % mod, -r[1] % mod, r[2])
    return (1, 0, t)


class NotIterate(Exception):
    pass


def exponent(g, t, s0, cache=None):
    """e (w-bit term) such that t = F^e(s0) by the doubling lemmas, or NotIterate.
    Rules: s0 = F^0(s0); F^k applied to F^e(s0) is F^(e+k)(s0); if-then-else distributes."""
    cache = {} if cache is None else cache
    key = t.get_id()
    if key in cache:
        return cache[key][1]
    if t.eq(s0):
        r = z3.BitVecVal(0, g.w)
    elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        r = z3.If(c, exponent(g, a, s0, cache), exponent(g, b, s0, cache))
    elif z3.is_app(t) and t.decl().name().startswith("It_") and t.num_args() == 2 and t.children()[0].eq(s0):
        r = z3.Extract(g.w - 1, 0, t.children()[1]) if t.children()[1].size() > g.w else t.children()[1]
    else:
        M, A, x = aff(t)
        if x is None or (M, A) == (1, 0):
            raise NotIterate(str(t)[:200])
        k = g.log(M, A)
        if k is None:
            raise NotIterate(f"affine map ({M:#x},{A:#x}) is not a power of the generator")
        r = exponent(g, x, s0, cache) + z3.BitVecVal(k, g.w)
    cache[key] = (t, r)
    return r


def occurs(t, s):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(s):
            return True
        stack += x.children()
    return False


def pair_exponent(g, m, a, cache=None):
    """e with (s -> m s + a) = F^e for symbolic coefficient terms m, a"""
    cache = {} if cache is None else cache
    key = (m.get_id(), a.get_id())
    if key in cache:
        return cache[key][1]
    if z3.is_bv_value(m) and z3.is_bv_value(a):
        k = g.log(m.as_long(), a.as_long())
        # a pair that is no power is only acceptable on an unreachable case split: an unconstrained exponent
        r = z3.BitVecVal(k, g.w) if k is not None else z3.FreshConst(z3.BitVecSort(g.w), "noexp")
    else:
        if len(cache) > 4000:
            raise NotIterate("coefficient pair: too many cases")
        isite = lambda t: z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE
        if isite(m) and isite(a) and m.children()[0].eq(a.children()[0]):
            c, m1, m2 = m.children()
            _, a1, a2 = a.children()
            r = z3.If(c, pair_exponent(g, m1, a1, cache), pair_exponent(g, m2, a2, cache))
        else:
            r = None
            if isite(a) and not isite(m) or isite(m) and not isite(a) and z3.is_bv_value(a):
                c, x, y = (a if isite(a) else m).children()
                r = z3.If(c, *[pair_exponent(g, m if isite(a) else v, v if isite(a) else a, cache) for v in (x, y)])
            if r is None:
                # (m, a) = F^k o (mx, ax): m = Mk*mx, a = Mk*ax + Ak
                Mc, A0, mx = aff(m)
                Mc2, Ac, ax = aff(a)
                if A0 == 0 and ax is not None and mx is not None and Mc != Mc2 and Mc2 != 1:
                    mx = None
                if mx is None and z3.is_bv_value(m) and ax is not None:
                    # constant m: divide by the (odd) multiplier of a
                    Mc, A0, mx = Mc2, 0, z3.BitVecVal(m.as_long() * pow(Mc2, -1, g.mod), g.w) if Mc2 & 1 else None
                if A0 == 0 and mx is not None and ax is not None and Mc2 & 1:
                    if Mc != Mc2:
                        mx = simp(z3.BitVecVal(pow(Mc2, -1, g.mod), g.w) * m)
                    k = g.log(Mc2, Ac)
                    if k:
                        r = pair_exponent(g, mx, ax, cache) + z3.BitVecVal(k, g.w)
                if r is None and z3.is_bv_value(a) and mx is not None and A0 == 0 and isite(mx):
                    c, x, y = mx.children()
                    r = z3.If(c, *[pair_exponent(g, simp(z3.BitVecVal(Mc, g.w) * v), a, cache) for v in (x, y)])
            if r is None:
                # split on the outermost condition
                t = m if isite(m) else a if isite(a) else mx if mx is not None and isite(mx) else ax if ax is not None and isite(ax) else None
                if t is None:
                    raise NotIterate("coefficient pair")
                c = t.children()[0]
                for u, o in ((a, m), (m, a)):
                    if isite(u) and not occurs(o, u.children()[0]):
                        c, x, y = u.children()
                        r = z3.If(c, *[pair_exponent(g, v if u is m else m, v if u is a else a, cache) for v in (x, y)])
                        break
            if r is None:
                sub = lambda e, v: simp(z3.substitute(e, (c, z3.BoolVal(v))))
                r = z3.If(c, pair_exponent(g, sub(m, True), sub(a, True), cache), pair_exponent(g, sub(m, False), sub(a, False), cache))
    cache[key] = ((m, a), r)
    return r
