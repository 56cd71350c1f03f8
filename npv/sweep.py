"""Equality of two large terms by proving internal equivalences bottom-up (SAT sweeping).

Sound: a pair of nodes is only identified after the solver proved them equal (with subterms already proved equal
replaced by the same fresh variable, which only generalises the statement)."""
import random
import time
import z3

R = 24


class CannotEval(Exception):
    pass


def topo(*roots):
    order, seen = [], set()
    stack = [(r, False) for r in reversed(roots)]
    while stack:
        x, done = stack.pop()
        i = x.get_id()
        if done:
            order.append(x)
            continue
        if i in seen:
            continue
        seen.add(i)
        stack.append((x, True))
        for c in x.children():
            if c.get_id() not in seen:
                stack.append((c, False))
    return order


def _signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def ev(x, vals, rnd, leaves):
    """values of node x on the R samples"""
    k = x.decl().kind()
    ch = x.children()
    w = x.size() if z3.is_bv(x) else None
    m = (1 << w) - 1 if w else None
    if z3.is_bv_value(x):
        return (x.as_long(),) * R
    if z3.is_true(x):
        return (True,) * R
    if z3.is_false(x):
        return (False,) * R
    if not ch or k == z3.Z3_OP_UNINTERPRETED or k == z3.Z3_OP_SELECT:
        leaves.append(x)
        if w is None:
            if not z3.is_bool(x):
                raise CannotEval(str(x.sort()))
            return tuple(rnd.random() < .5 for _ in range(R))
        if ch:
            # an application: a function of its arguments' values
            key = (x.decl().name(),)
            try:
                args = list(zip(*[vals[c.get_id()] for c in ch]))
            except KeyError:
                raise CannotEval("array argument")
            return tuple(random.Random(repr((key, a))).getrandbits(w) for a in args)
        return tuple(rnd.choice((0, m, 1)) if i < 3 else rnd.getrandbits(w) for i in range(R))
    a = [vals[c.get_id()] for c in ch]
    Z = z3
    W = ch[0].size() if z3.is_bv(ch[0]) else None

    def fold(f):
        r = a[0]
        for b in a[1:]:
            r = tuple(f(p, q) & m for p, q in zip(r, b))
        return r
    one = lambda f: tuple(f(p) for p in a[0])
    two = lambda f: tuple(f(p, q) for p, q in zip(a[0], a[1]))
    if k == Z.Z3_OP_BADD: return fold(lambda p, q: p + q)
    if k == Z.Z3_OP_BMUL: return fold(lambda p, q: p * q)
    if k == Z.Z3_OP_BSUB: return fold(lambda p, q: p - q)
    if k == Z.Z3_OP_BAND: return fold(lambda p, q: p & q)
    if k == Z.Z3_OP_BOR: return fold(lambda p, q: p | q)
    if k == Z.Z3_OP_BXOR: return fold(lambda p, q: p ^ q)
    if k == Z.Z3_OP_BNOT: return one(lambda p: ~p & m)
    if k == Z.Z3_OP_BNEG: return one(lambda p: -p & m)
    if k == Z.Z3_OP_BSHL: return two(lambda p, q: (p << q) & m if q < w else 0)
    if k == Z.Z3_OP_BLSHR: return two(lambda p, q: p >> q if q < w else 0)
    if k == Z.Z3_OP_BASHR: return two(lambda p, q: (_signed(p, w) >> min(q, w)) & m)
    if k == Z.Z3_OP_CONCAT:
        r = a[0]
        for b, c in zip(a[1:], ch[1:]):
            s = c.size()
            r = tuple((p << s) | q for p, q in zip(r, b))
        return r
    if k == Z.Z3_OP_EXTRACT:
        hi, lo = x.params()
        return one(lambda p: (p >> lo) & m)
    if k == Z.Z3_OP_ZERO_EXT: return a[0]
    if k == Z.Z3_OP_SIGN_EXT: return one(lambda p: _signed(p, W) & m)
    if k == Z.Z3_OP_ROTATE_LEFT:
        n = x.params()[0] % w
        return one(lambda p: ((p << n) | (p >> (w - n))) & m)
    if k == Z.Z3_OP_ROTATE_RIGHT:
        n = x.params()[0] % w
        return one(lambda p: ((p >> n) | (p << (w - n))) & m)
    if k == Z.Z3_OP_ITE: return tuple(p if c else q for c, p, q in zip(*a))
    if k in (Z.Z3_OP_EQ, Z.Z3_OP_IFF): return two(lambda p, q: p == q)
    if k == Z.Z3_OP_DISTINCT and len(a) == 2: return two(lambda p, q: p != q)
    if k == Z.Z3_OP_ULT: return two(lambda p, q: p < q)
    if k == Z.Z3_OP_ULEQ: return two(lambda p, q: p <= q)
    if k == Z.Z3_OP_UGT: return two(lambda p, q: p > q)
    if k == Z.Z3_OP_UGEQ: return two(lambda p, q: p >= q)
    if k == Z.Z3_OP_SLT: return two(lambda p, q: _signed(p, W) < _signed(q, W))
    if k == Z.Z3_OP_SLEQ: return two(lambda p, q: _signed(p, W) <= _signed(q, W))
    if k == Z.Z3_OP_SGT: return two(lambda p, q: _signed(p, W) > _signed(q, W))
    if k == Z.Z3_OP_SGEQ: return two(lambda p, q: _signed(p, W) >= _signed(q, W))
    if k == Z.Z3_OP_NOT: return one(lambda p: not p)
    if k == Z.Z3_OP_AND: return tuple(all(t) for t in zip(*a))
    if k == Z.Z3_OP_OR: return tuple(any(t) for t in zip(*a))
    if k == Z.Z3_OP_XOR: return two(lambda p, q: p != q)
    if k == Z.Z3_OP_IMPLIES: return two(lambda p, q: (not p) or q)
    if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I): return two(lambda p, q: p // q if q else m)
    if k in (Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I): return two(lambda p, q: p % q if q else p)
    raise CannotEval(x.decl().name())


def rebuild(x, new):
    ch = x.children()
    if all(a is b or a.eq(b) for a, b in zip(ch, new)):
        return x
    k = x.decl().kind()
    if k == z3.Z3_OP_ITE:
        return z3.If(*new)
    if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and len(new) > 2:
        f = {z3.Z3_OP_BADD: lambda p, q: p + q, z3.Z3_OP_BMUL: lambda p, q: p * q, z3.Z3_OP_BAND: lambda p, q: p & q,
             z3.Z3_OP_BOR: lambda p, q: p | q, z3.Z3_OP_BXOR: lambda p, q: p ^ q}[k]
        r = new[0]
        for q in new[1:]:
            r = f(r, q)
        return r
    if k == z3.Z3_OP_CONCAT:
        return z3.Concat(*new)
    if k == z3.Z3_OP_AND:
        return z3.And(*new)
    if k == z3.Z3_OP_OR:
        return z3.Or(*new)
    return x.decl()(*new)


def equal(a, b, budget=60.0, local_ms=4000):
    """True when a == b was proved for all values of their variables; None when undecided"""
    t0 = time.time()
    a, b = z3.simplify(a), z3.simplify(b)
    if a.eq(b):
        return True
    rnd = random.Random(1)
    order = topo(a, b)
    vals, leaves = {}, []
    try:
        for x in order:
            if z3.is_bv(x) or z3.is_bool(x):
                vals[x.get_id()] = ev(x, vals, rnd, leaves)
    except (CannotEval, KeyError):
        return None
    if vals[a.get_id()] != vals[b.get_id()]:
        return None
    # nodes become: representative variable of their class (cut), with one known definition over other cuts
    rep = {}       # node id -> cut variable or small term standing for it
    classes = {}   # signature -> [(cut variable, definition over cuts)]
    defs = {}      # cut variable id -> (variable, definition)
    n = 0

    def expand(t, depth):
        for _ in range(depth):
            sub = []
            for y in topo(t):
                if y.get_id() in defs:
                    sub.append(defs[y.get_id()])
            if not sub:
                break
            t = z3.substitute(t, *sub)
        return t

    def proved(p, q):
        for depth in (0, 1, 2, 4):
            if time.time() - t0 > budget:
                return False
            e = z3.simplify(expand(p, depth) == expand(q, depth))
            if z3.is_true(e):
                return True
            s = z3.SolverFor("QF_AUFBV") if False else z3.Solver()
            s.set("timeout", local_ms)
            s.add(z3.Not(e))
            if s.check() == z3.unsat:
                return True
        return False
    for x in order:
        if not (z3.is_bv(x) or z3.is_bool(x)):
            rep[x.get_id()] = x
            continue
        ch = x.children()
        if not ch or z3.is_bv_value(x):
            rep[x.get_id()] = x
            classes.setdefault((str(x.sort()), vals[x.get_id()]), []).append((x, x))
            continue
        d = z3.simplify(rebuild(x, [rep[c.get_id()] for c in ch]))
        key = (str(x.sort()), vals[x.get_id()])
        hit = None
        for v, e in classes.get(key, []):
            if v.eq(d) or e.eq(d) or proved(v, d):
                hit = v
                break
        if hit is None:
            # cheap wiring stays inline, real operations become cut points
            if z3.is_bool(x) or x.decl().kind() in (z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT, z3.Z3_OP_BNOT) \
                    or z3.is_bv_value(d) or not d.children():
                rep[x.get_id()] = d
                if x.eq(a) or x.eq(b):
                    classes.setdefault(key, []).append((d, d))
                continue
            n += 1
            v = z3.BitVec(f"cut!{n}", x.size())
            defs[v.get_id()] = (v, d)
            classes.setdefault(key, []).append((v, d))
            hit = v
        rep[x.get_id()] = hit
        if time.time() - t0 > budget:
            return None
    p, q = rep[a.get_id()], rep[b.get_id()]
    if p.eq(q) or proved(p, q):
        return True
    return None
