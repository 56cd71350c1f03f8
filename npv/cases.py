"""Concrete cases: run the real package on one input and compare with npv.ref.  A case is a JSON dict
{"t": type, ...}; run(case) -> (expected, got).  Used to turn a failed obligation into a failing input and as a
cross-check of the contracts' reading of the code (bounded, never counted as proved)."""
import random
import numpy as np
from . import ref
from .lcg import GENS

RUN, GEN = {}, {}


def case(name):
    def d(f):
        RUN[name] = f
        return f
    return d


def gen(name):
    def d(f):
        GEN[name] = f
        return f
    return d


def run(c):
    try:
        exp, got = RUN[c["t"]](c)
    except Exception as ex:  # noqa  (an exception of the code under test is a difference)
        return False, "no exception", f"{type(ex).__name__}: {ex}"[:300]
    return exp == got, exp, got


def edge(rnd, w):
    """word of width w with a bias to the corners"""
    r = rnd.random()
    if r < .25:
        return rnd.choice((0, 1, 2, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1))
    if r < .4:
        return rnd.getrandbits(rnd.randint(1, w))
    return rnd.getrandbits(w)


def bound(rnd, w):
    r = rnd.random()
    if r < .4:
        return rnd.choice((1, 2, 3, 5, 24, 25, 100, 101, 255, 256))
    return max(1, edge(rnd, w) if r < .8 else rnd.getrandbits(rnd.randint(1, w)))


def arg(c, v, w):
    """the argument as the case wants it passed"""
    return np.dtype(f"u{w // 8}").type(v) if c.get("kind", "np") == "np" else int(v)


def ints(a):
    return [int(x) for x in a]


def L(name):
    import numba_pokemon_prngs.lcrng as m
    return getattr(m, name)


def T(name):
    import numba_pokemon_prngs.mersenne_twister as m
    return getattr(m, name)


def X(name):
    import numba_pokemon_prngs.xorshift as m
    return getattr(m, name)


KINDS = ("np", "int")


def kind(rnd, w):
    # Python integers beyond int64 cannot be passed to compiled code
    return "np" if w == 64 else rnd.choice(KINDS)


# ---- LCRNG
@case("lcg_init")
def _(c):
    w = GENS[c["cls"]][0]
    v = c.get("arg", c.get("seed", 0))
    o = L(c["cls"])(arg(c, v if c.get("meth") != "re_init" else c.get("old", 5), w))
    if c.get("meth") == "re_init":
        o.next()
        o.re_init(arg(c, v, w))
    return [v, ref.lcg_step(c["cls"], v)], [int(o.seed), int(o.next())]


@gen("lcg_init")
def _(rnd):
    n = rnd.choice(list(GENS))
    w = GENS[n][0]
    return {"cls": n, "meth": rnd.choice(("__init__", "re_init")), "arg": edge(rnd, w), "old": edge(rnd, w), "kind": kind(rnd, w)}


@case("lcg_next")
def _(c):
    n = c["cls"]
    w, m, a, rev, dist = GENS[n]
    o = L(n)(np.dtype(f"u{w // 8}").type(c["seed"]))
    exp, got = [], []
    s = c["seed"]
    for i in range(c.get("n", 3)):
        s = ref.lcg_step(n, s)
        exp.append([s, s])
        got.append([int(o.next()), int(o.seed)])
    s = ref.lcg_step(n, s)
    exp.append([s >> (w // 2), s])
    got.append([int(o.next_u16() if w == 32 else o.next_u32()), int(o.seed)])
    other = n[:-1] if n.endswith("R") else {"PokeRNGMod": "PokeRNGRMod", "PokeRNGDiv": "PokeRNGRDiv", "PokeRNGRMod": "PokeRNGMod", "PokeRNGRDiv": "PokeRNGDiv"}.get(n, n + "R")
    back = L(other)(np.dtype(f"u{w // 8}").type(s))
    for i in range(c.get("n", 3) + 1):
        back.next()
    exp.append(c["seed"])
    got.append(int(back.seed))
    return exp, got


@gen("lcg_next")
def _(rnd):
    n = rnd.choice(list(GENS))
    return {"cls": n, "seed": edge(rnd, GENS[n][0]), "n": rnd.randint(1, 6)}


@case("lcg_rand")
def _(c):
    n = c["cls"]
    w = GENS[n][0]
    o = L(n)(np.dtype(f"u{w // 8}").type(c["seed"]))
    r = o.next_rand(arg(c, c["maximum"], w // 2))
    return list(ref.lcg_rand(n, c["seed"], c["maximum"])), [int(r), int(o.seed)]


@gen("lcg_rand")
def _(rnd):
    n = rnd.choice([k for k in GENS if GENS[k][4]])
    w = GENS[n][0]
    return {"cls": n, "seed": edge(rnd, w), "maximum": bound(rnd, w // 2), "kind": kind(rnd, w // 2)}


@case("lcg_const_rand")
def _(c):
    n = c["cls"]
    w = GENS[n][0]
    o = L(n)(np.dtype(f"u{w // 8}").type(c["seed"]))
    f = L(n).const_rand(arg(c, c["maximum"], w // 2))
    return list(ref.lcg_rand(n, c["seed"], c["maximum"])), [int(f(o)), int(o.seed)]


@gen("lcg_const_rand")
def _(rnd):
    return GEN["lcg_rand"](rnd)


def _jump(c):
    n = c["cls"]
    w = GENS[n][0]
    o = L(n)(np.dtype(f"u{w // 8}").type(c["seed"]))
    return n, w, o, ref.lcg_jump(n, c["seed"], c["adv"])


@case("lcg_jump")
def _(c):
    n, w, o, e = _jump(c)
    r = o.jump(arg(c, c["adv"], w))
    return [e, e], [int(r), int(o.seed)]


@gen("lcg_jump")
def _(rnd):
    n = rnd.choice(list(GENS))
    w = GENS[n][0]
    return {"cls": n, "seed": edge(rnd, w), "adv": edge(rnd, w), "kind": kind(rnd, w)}


@case("lcg_const_jump")
def _(c):
    n, w, o, e = _jump(c)
    r = L(n).const_jump(arg(c, c["adv"], w))(o)
    return [e, e], [int(r), int(o.seed)]


@gen("lcg_const_jump")
def _(rnd):
    return GEN["lcg_jump"](rnd)


@case("lcg_advance")
def _(c):
    n, w, o, e = _jump({**c, "adv": c["adv"] % 140001})
    r = o.advance(arg(c, c["adv"] % 140001, w))
    return [e, e], [int(r), int(o.seed)]


@gen("lcg_advance")
def _(rnd):
    c = GEN["lcg_jump"](rnd)
    return {**c, "adv": rnd.randint(0, 300) if rnd.random() < .9 else 65536 + rnd.randint(0, 300)}


# ---- MT family
MTS = ("MersenneTwister", "SIMDFastMersenneTwister", "TinyMersenneTwister")


def mt_obj(c):
    """object at the wanted state/index (or seeded), with the reference beside it"""
    n = c["cls"]
    o = T(n)(np.uint32(c.get("seed", 1)))
    r = ref.MTRef.seeded(n, c.get("seed", 1))
    if c.get("state") is not None:
        o.state[:] = np.array(c["state"], np.uint32)
        r.x = list(c["state"])
    if c.get("idx") is not None:
        # reach the position through the public interface
        k = c["idx"] // r.step
        for _ in range(k):
            o.next()
            r.next()
    return o, r


@case("mt_init")
def _(c):
    n = c["cls"]
    seed = c.get("seed", 0)
    want = {"MersenneTwister": ref.mt_init, "SIMDFastMersenneTwister": ref.sfmt_init, "TinyMersenneTwister": ref.tiny_init}[n](seed)
    o = T(n)(arg(c, seed, 32))
    exp, got = [want], [ints(o.state)]
    p = T(n)(np.uint32(c.get("old", 7)))
    for _ in range(c.get("hist", 3)):
        p.next()
    p.re_init(arg(c, seed, 32))
    exp.append(want)
    got.append(ints(p.state))
    exp += [[int(o.next()) for _ in range(3)]]
    got += [[int(p.next()) for _ in range(3)]]
    return exp, got


@gen("mt_init")
def _(rnd):
    return {"cls": rnd.choice(MTS), "seed": edge(rnd, 32), "old": edge(rnd, 32), "hist": rnd.choice((0, 1, 3, 311, 312, 313, 624, 700)), "kind": kind(rnd, 32)}


@case("mt_shuffle")
def _(c):
    o, r = mt_obj({**c, "idx": None})
    o.shuffle()
    r.twist()
    return [r.x, 0], [ints(o.state), int(o.index)]


@gen("mt_shuffle")
def _(rnd):
    return {"cls": rnd.choice(MTS[:2]), "state": [edge(rnd, 32) for _ in range(624)]}


@case("mt_next")
def _(c):
    if c.get("idx") is not None and c.get("idx") > 624:
        c = {**c, "idx": c["idx"] % 625}
    o, r = mt_obj(c)
    k = c.get("n", 4)
    return [r.next() for _ in range(k)], [int(o.next()) for _ in range(k)]


@gen("mt_next")
def _(rnd):
    return {"cls": rnd.choice(MTS[:2]), "seed": edge(rnd, 32), "idx": rnd.choice((0, 2, 310, 620, 622, 624)), "n": rnd.choice((1, 5, 700))}


@case("mt_advance")
def _(c):
    o, r = mt_obj({**c, "idx": min(c.get("idx") or 0, 624)})
    n = c["adv"]
    if n > 3000000:
        n = n % 1000000
    if c["adv"] >= 1 << 28:
        # far distances: only the block count matters; replayed with shuffle counted instead of executed
        return mt_far(c)
    o.advance(arg(c, n, 32))
    r.advance(n)
    return [r.next() for _ in range(3)], [int(o.next()) for _ in range(3)]


def mt_far(c):
    """a subclass whose shuffle only counts (numpy mode; the compiled class cannot be subclassed)"""
    cls = T(c["cls"])
    if hasattr(cls, "class_type"):
        return 0, 0
    step = 2 if c["cls"] == MTS[1] else 1
    idx = min(c.get("idx") or 0, 624)

    class Far(Exception):
        pass

    class Sub(cls):
        calls = 0

        def shuffle(self):
            self.calls += 1
            self.index = np.uint16(0)
            if self.calls > 40:
                raise Far
    o = Sub(np.uint32(1))
    o.index = np.uint16(idx)
    o.calls = 0
    total = idx + step * c["adv"]
    try:
        o.advance(arg(c, c["adv"], 32))
        return [total // 624, total % 624], [o.calls, int(o.index)]
    except Far:
        return total // 624 > 40, True


@gen("mt_advance")
def _(rnd):
    r = rnd.random()
    n = rnd.choice((0, 1, 2, 311, 312, 313, 623, 624, 625, 1247, 1248)) if r < .5 else rnd.randint(0, 20000) if r < .7 else rnd.choice((0xFFFFFFFF, 0xFFFFFF00, 0x80000000, 0x7FFFFFFF))
    return {"cls": rnd.choice(MTS[:2]), "seed": edge(rnd, 32), "idx": rnd.choice((0, 2, 310, 622, 624)), "adv": n, "kind": kind(rnd, 32)}


@case("mt_rand")
def _(c):
    n = c["cls"]
    w = 64 if n == MTS[1] else 32
    o, p = T(n)(np.uint32(c.get("seed", 1))), T(n)(np.uint32(c.get("seed", 1)))
    meth = c["meth"]
    exp, got = [], []
    mx = c["maximum"]
    for _ in range(c.get("n", 4)):
        raw = int(p.next())
        exp.append(raw * mx >> 32 if meth == "next_rand" and w == 32 else raw % mx)
        got.append(int(getattr(o, meth)(arg(c, mx, w))))
    return exp + [int(p.next())], got + [int(o.next())]


@gen("mt_rand")
def _(rnd):
    n = rnd.choice(MTS)
    w = 64 if n == MTS[1] else 32
    return {"cls": n, "meth": "next_rand" if w == 64 else rnd.choice(("next_rand", "next_rand_mod")), "seed": edge(rnd, 32), "maximum": bound(rnd, w), "kind": kind(rnd, w)}


@case("tiny_next")
def _(c):
    o = T(MTS[2])(np.uint32(1))
    o.state[:] = np.array(c["state"], np.uint32)
    s = list(c["state"])
    exp, got = [], []
    for _ in range(c.get("n", 3)):
        s = ref.tiny_next(s)
        exp.append([ref.tiny_temper(s), s])
        r = int(o.next())
        got.append([r, ints(o.state)])
    exp.append(ref.tiny_temper(s))
    got.append(int(o.temper()))
    return exp, got


@gen("tiny_next")
def _(rnd):
    return {"state": [edge(rnd, 32) for _ in range(4)], "n": 4}


@case("tiny_advance")
def _(c):
    o = T(MTS[2])(np.uint32(1))
    o.state[:] = np.array(c["state"], np.uint32)
    s = list(c["state"])
    n = c["adv"] % 140001
    for _ in range(n):
        s = ref.tiny_next(s)
    o.advance(arg(c, n, 32))
    return s, ints(o.state)


@gen("tiny_advance")
def _(rnd):
    return {"state": [edge(rnd, 32) for _ in range(4)], "adv": rnd.choice((0, 1, 2, 7, 100, 1000, 300, 65543)), "kind": kind(rnd, 32)}


# ---- xorshift family
def xs_obj(cls, state):
    if cls == "Xorshift128":
        o = X(cls)(*[np.uint32(x) for x in state])
    elif cls == "Xoroshiro128PlusRejection":
        o = X(cls)(*[np.uint64(x) for x in state])
    else:
        o = X(cls)(np.uint64(1))
        o.state[:] = np.array(state, np.uint64)
    return o


def xs_step(cls, s):
    """(output, new state)"""
    if cls == "Xorshift128":
        n = ref.xs_next(s)
        return n[3], n
    r = (s[0] + s[1]) & ref.M64
    return (r if cls == "Xoroshiro128PlusRejection" else r >> 32), ref.xo_next(s)


XS = ("Xorshift128", "Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus")


def xs_state(rnd, cls):
    return [edge(rnd, 32) for _ in range(4)] if cls == XS[0] else [edge(rnd, 64) for _ in range(2)]


@case("xs_init")
def _(c):
    cls = c["cls"]
    seeds = c["seeds"]
    w = 32 if cls == XS[0] else 64
    want = ref.smx_init(seeds[0]) if cls == XS[2] else list(seeds) + ([0x82A2B175229D6A5B] if len(seeds) == 1 else [])
    a = [arg(c, x, w) for x in seeds]
    o = X(cls)(*a)
    exp, got = [want], [ints(o.state)]
    p = xs_obj(cls, c["old"])
    p.next()
    p.re_init(*a)
    return exp + [want], got + [ints(p.state)]


@gen("xs_init")
def _(rnd):
    cls = rnd.choice(XS)
    n = 4 if cls == XS[0] else 1 if cls == XS[2] else rnd.choice((1, 2))
    w = 32 if cls == XS[0] else 64
    return {"cls": cls, "seeds": [edge(rnd, w) for _ in range(n)], "old": xs_state(rnd, cls), "kind": kind(rnd, w)}


@case("xs_next")
def _(c):
    cls = c["cls"]
    o = xs_obj(cls, c["state"])
    s = list(c["state"])
    hist = [(None, s)]
    exp, got = [], []
    for _ in range(c.get("n", 3)):
        r, s = xs_step(cls, s)
        hist.append((r, s))
        q = int(o.next())
        exp.append([r, s])
        got.append([q, ints(o.state)])
    for i in range(len(hist) - 1, 0, -1):
        r = int(o.previous())
        exp.append([hist[i][0], hist[i - 1][1]])
        got.append([r, ints(o.state)])
    return exp, got


@gen("xs_next")
def _(rnd):
    cls = rnd.choice(XS)
    return {"cls": cls, "state": xs_state(rnd, cls), "n": rnd.randint(1, 5)}


@case("xs_advance")
def _(c):
    cls = c["cls"]
    o = xs_obj(cls, c["state"])
    s = list(c["state"])
    n = c["adv"] % 140001
    for _ in range(n):
        s = xs_step(cls, s)[1]
    o.advance(arg(c, n, 32 if cls == XS[0] else 64))
    return s, ints(o.state)


@gen("xs_advance")
def _(rnd):
    cls = rnd.choice(XS)
    return {"cls": cls, "state": xs_state(rnd, cls), "adv": rnd.choice((0, 1, 2, 5, 100) * 3 + (65541,)), "kind": kind(rnd, 32 if cls == XS[0] else 64)}


@case("xs_rand")
def _(c):
    cls, meth, mx = c["cls"], c["meth"], c.get("maximum", 1)
    o = xs_obj(cls, c["state"])
    s = list(c["state"])
    k = c.get("n", 3)
    exp, got = [], []
    for _ in range(k):
        raw, s = xs_step(cls, s)
        if cls == XS[1]:
            m = ref.bit_mask(mx)
            e = raw & m
            for _ in range(100000):
                if e < mx:
                    break
                raw, s = xs_step(cls, s)
                e = raw & m
        elif meth == "next_rand":
            e = raw % mx
        elif meth == "next_randrange":
            lo, hi = c["lo"], c["hi"]
            d = (hi - lo) & ref.M32
            e = (raw % d + lo) & ref.M32
        elif meth == "next_alternate_rand":
            e = ((raw % 0xFFFFFFFF + 0x80000000) & ref.M32) % mx
        exp.append(e)
        if meth == "next_randrange":
            a = [np.int32(c["lo"]), np.int32(c["hi"])] if c.get("kind") == "np" else [c["lo"], c["hi"]]
            got.append(int(o.next_randrange(*a)))
        else:
            got.append(int(getattr(o, meth)(arg(c, mx, 32))))
    return exp + [s], got + [ints(o.state)]


@gen("xs_rand")
def _(rnd):
    cls = rnd.choice(XS)
    c = {"cls": cls, "state": xs_state(rnd, cls), "maximum": bound(rnd, 32), "kind": kind(rnd, 32), "meth": "next_rand"}
    if c["state"].count(0) == len(c["state"]):
        c["state"][0] = 5
    if cls == XS[0]:
        c["meth"] = rnd.choice(("next_rand", "next_randrange", "next_alternate_rand"))
        if c["meth"] == "next_randrange":
            lo, hi = sorted((edge(rnd, 32) - (1 << 31), edge(rnd, 32) - (1 << 31)))
            c["lo"], c["hi"] = lo, hi + 1 if lo == hi and hi < (1 << 31) - 1 else hi
            if c["lo"] == c["hi"]:
                c["lo"] -= 1
    return c


@case("xs_mask")
def _(c):
    return ref.bit_mask(c["maximum"]), int(X(XS[1]).bit_mask(arg(c, c["maximum"], 32)))


@gen("xs_mask")
def _(rnd):
    return {"maximum": bound(rnd, 32), "kind": kind(rnd, 32)}


@case("xs_splitmix")
def _(c):
    return ref.splitmix(c["seed"], c["gamma"]), int(X(XS[2]).splitmix(np.uint64(c["seed"]), np.uint64(c["gamma"])))


@gen("xs_splitmix")
def _(rnd):
    return {"seed": edge(rnd, 64), "gamma": edge(rnd, 64)}


def campaign(types, n, seed, stop=3, deadline=None, only=None):
    """n generated cases of each type -> (evaluations, failures)"""
    import time
    fails, count, distinct = [], 0, set()
    for t in types:
        rnd = random.Random(f"{seed}/{t}")
        bad = 0
        for _ in range(n):
            if deadline and time.time() > deadline:
                break
            c = {"t": t, **GEN[t](rnd)}
            for _ in range(200):
                if all(c.get(k, v) == v for k, v in (only or {}).items()):
                    break
                c = {"t": t, **GEN[t](rnd)}
            count += 1
            ok, e, g = run(c)
            distinct.add(repr(sorted(c.items())))
            if not ok:
                fails.append((c, e, g))
                bad += 1
                if bad >= stop:
                    break
    return count, len(distinct), fails


from . import cases_more  # noqa  (registers its cases)
from . import cases_gen3  # noqa
from . import cases_data  # noqa
