"""helpers shared by the units: mode adapter, value comparison, position arguments"""
import numpy as np
import z3
from ..sym import *  # noqa
from ..aexec import Engine, ObjCell, ArrCell, ListCell, SeqCell, Closure
from .. import ops as O

BV = z3.BitVecVal


def dt(w):
    return np.dtype(f"u{w // 8}")


class Mode:
    """adapter between a unit and the two execution modes of the package"""

    def __init__(self, name):
        self.name = name
        self.numba = name == "numba"

    def engine(self):
        if self.numba:
            from ..nexec import NEngine
            return NEngine()
        return Engine()

    def method(self, cls, name):
        if self.numba:
            ct = getattr(cls, "class_type", None)
            if ct is not None:
                if name in ct.jit_methods:
                    return ct.jit_methods[name]
                if name in ct.jit_static_methods:
                    return ct.jit_static_methods[name]
                raise Unsupported(f"method {name} not found")
        for c in cls.__mro__:
            if name in c.__dict__:
                f = c.__dict__[name]
                return f.__func__ if isinstance(f, staticmethod) else f
        raise Unsupported(f"method {name} not found")

    def function(self, module, name):
        """the function object executed in this mode"""
        f = getattr(module, name)
        return f if self.numba else getattr(f, "py_func", f)

    def int_arg(self, e, lo, hi):
        """a plain Python integer argument"""
        if self.numba:
            if hi >= 1 << 63:
                raise Unsupported("Python integer argument beyond int64")
            return SNp("i8", simp(z3.Extract(63, 0, sx(e, max(e.size(), 64)))))
        return SInt(e, lo, hi)

    def uarg(self, kind, name, w):
        """symbolic argument of documented width w: numpy scalar ('np') or Python int in range ('int')"""
        e = z3.BitVec(name, w)
        if kind == "np":
            return SNp(dt(w), e), e
        return self.int_arg(z3.ZeroExt(1, e), 0, (1 << w) - 1), e

    def kinds(self, w):
        return ("np",) if self.numba and w == 64 else ("np", "int")

    def set_frames(self, st):
        st.frames = [{"$env": ({}, {})}]


def alts(v):
    return v.alts if isinstance(v, SUnion) else [(z3.BoolVal(True), v)]


def value_is(ctx, what, v, want, hyps=(), signed=False, timeout=None):
    """v is an integer equal to the (unsigned unless `signed`) bitvector term `want`, whatever its type"""
    ok = True
    for c, x in alts(v):
        if isinstance(x, Ref) or not is_num(x) or is_float(x):
            ok &= ctx.prove(f"{what} (got {type(x).__name__})", z3.Not(c), hyps)
            continue
        e, lo, hi = int_view(x)
        w = max(e.size(), want.size() + 1)
        k = z3.SignExt(w - want.size(), want) if signed else z3.ZeroExt(w - want.size(), want)
        ok &= ctx.prove(what, z3.Implies(c, sx(e, w) == k) if not z3.is_true(c) else sx(e, w) == k, hyps, timeout=timeout)
    return ok


def const_is(ctx, what, v, n, hyps=()):
    return value_is(ctx, what, v, BV(n, max(8, int(n).bit_length() + 1)), hyps)


def bool_is(ctx, what, v, want, hyps=()):
    """truth value of v is the Bool `want`"""
    t = truth(v)
    t = z3.BoolVal(t) if isinstance(t, bool) else t
    return ctx.prove(what, t == want, hyps)


def arr_cell(st, v):
    """the array cell behind a reference"""
    if isinstance(v, Ref) and isinstance(st.heap[v.id], ArrCell):
        return st.heap[v.id]
    raise Unsupported(f"array expected, got {type(v).__name__}")


def sym_array(n, w, name):
    """array of n symbolic words -> (ArrCell, [terms])"""
    xs = [z3.BitVec(f"{name}{i}", w) for i in range(n)]
    return ArrCell(dt(w), n, [SNp(dt(w), x) for x in xs]), xs


def z3_array(n, w, name):
    a = z3.Const(name, z3.ArraySort(z3.BitVecSort(32), z3.BitVecSort(w))) if isinstance(name, str) else name
    return ArrCell(dt(w), n, None, a), a


def dag_vars(t, acc=None):
    acc = {} if acc is None else acc
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc[x.get_id()] = x
        stack += x.children()
    return acc


class Defs:
    """definitional closure over the names introduced by name_stores"""

    def __init__(self, defs):
        self.d = {n.get_id(): (n, e) for n, e in defs}
        self.raw = defs

    def expand(self):
        return _expander(self.d)

    def closure(self, *terms, stop=(), depth=10 ** 9):
        stop = stop if isinstance(stop, (set, frozenset)) else {s.get_id() for s in stop}
        out, seen, cur = [], set(), list(terms)
        for _ in range(depth):
            nxt = []
            for t in cur:
                for i, v in dag_vars(t).items():
                    if i in self.d and i not in seen and i not in stop:
                        seen.add(i)
                        n, e = self.d[i]
                        out.append(n == e)
                        nxt.append(e)
            if not nxt:
                break
            cur = nxt
        return out


def _expander(d):
    cache = {}

    def go(t):
        """t with every defined name replaced by its definition (iteratively, definitions in order)"""
        names = [v for i, v in dag_vars(t).items() if i in d]
        if not names:
            return t
        for v in names:
            if v.get_id() not in cache:
                stack = [v]
                while stack:
                    x = stack[-1]
                    if x.get_id() in cache:
                        stack.pop()
                        continue
                    e = d[x.get_id()][1]
                    sub = [y for i, y in dag_vars(e).items() if i in d]
                    miss = [y for y in sub if y.get_id() not in cache]
                    if miss:
                        stack += miss
                        continue
                    cache[x.get_id()] = simp(z3.substitute(e, *[(y, cache[y.get_id()]) for y in sub])) if sub else e
                    stack.pop()
        return simp(z3.substitute(t, *[(v, cache[v.get_id()]) for v in names]))
    return go


def prove_word(ctx, what, got, want, defs, stop, facts=(), timeout=None, depth=6):
    """got == want under the definitions of the names occurring in them (names in `stop` stay opaque)"""
    g = simp(got == want)
    if z3.is_true(g):
        return ctx.prove(what, got == want, timeout=timeout)
    stop = stop if isinstance(stop, (set, frozenset)) else {s.get_id() for s in stop}
    hyps = defs.closure(got, stop=stop - {got.get_id()}, depth=depth)
    return ctx.prove(what, got == want, list(hyps) + list(facts), timeout=timeout)


def ids(*lists):
    return frozenset(x.get_id() for xs in lists for x in xs)
