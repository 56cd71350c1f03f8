"""concrete cases of the utilities, RNGList and SHA-1"""
import hashlib
import numpy as np
from . import ref
from .lcg import GENS
from .cases import GEN, case, gen, edge, bound, arg, ints, kind


def U():
    import numba_pokemon_prngs.util as m
    return m


# ---- P15
@case("util_rotate")
def _(c):
    w = int(c["fn"][-2:])
    n = c["count"] % w
    v = c["val"]
    if "right" in c["fn"]:
        n = (w - n) % w
    exp = ((v << n) | (v >> (w - n))) & ((1 << w) - 1)
    f = getattr(U(), c["fn"])
    a = arg(c, v, w)
    return exp, int(f(a, np.uint8(c["count"]) if c.get("ck", "np") == "np" else int(c["count"])))


@gen("util_rotate")
def _(rnd):
    fn = rnd.choice(("rotate_left_u32", "rotate_right_u32", "rotate_left_u64", "rotate_right_u64"))
    w = int(fn[-2:])
    return {"fn": fn, "val": edge(rnd, w), "count": rnd.choice((0, 1, w - 1, rnd.randrange(w))), "kind": kind(rnd, w), "ck": rnd.choice(("np", "int"))}


@case("util_endian")
def _(c):
    return int.from_bytes(c["val"].to_bytes(4, "little"), "big"), int(U().change_endian_u32(arg(c, c["val"], 32)))


@gen("util_endian")
def _(rnd):
    return {"val": edge(rnd, 32), "kind": kind(rnd, 32)}


@case("util_hex")
def _(c):
    return f"{c['num']:08X}", str(U().hex_32(arg(c, c["num"], 32)))


@gen("util_hex")
def _(rnd):
    return {"num": edge(rnd, 32), "kind": kind(rnd, 32)}


@case("fnv")
def _(c):
    import numba_pokemon_prngs.fnv as m
    h = 0xCBF29CE484222645
    for ch in c.get("s", "a"):
        h = ((h * 0x100000001B3) ^ ord(ch)) if c["fn"] == "fnv1_64" else ((h ^ ord(ch)) * 0x100000001B3)
        h &= (1 << 64) - 1
    return h, int(getattr(m, c["fn"])(c.get("s", "a")))


@gen("fnv")
def _(rnd):
    n = rnd.choice((0, 1, 2, 7, 40))
    return {"fn": rnd.choice(("fnv1_64", "fnv1a_64")), "s": "".join(chr(rnd.choice((rnd.randrange(32, 127), rnd.randrange(0xA0, 0x2FFF), 0x1F600))) for _ in range(n))}


# ---- P14
_LISTS = {}


@case("rnglist")
def _(c):
    import numba_pokemon_prngs.lcrng as L
    from numba_pokemon_prngs.rng_list import build_rnglist
    w, size = c["w"], c["size"]
    name, fn = {16: ("PokeRNGMod", "next_u16"), 32: ("XDRNG", "next"), 64: ("BWRNG", "next")}[w]
    if (w, size) not in _LISTS:
        _LISTS[w, size] = build_rnglist(rng_class=getattr(L, name), next_function_name=fn, state_type=np.dtype(f"u{w // 8}").type, size=size)
    gw = GENS[name][0]
    seed = c.get("seed", 12345)
    s = [seed]

    def draw(i, memo=[]):
        while len(memo) <= i:
            s[0] = ref.lcg_step(name, s[0])
            memo.append(s[0] >> 16 if w == 16 else s[0])
        return memo[i]
    memo = []
    o = _LISTS[w, size](getattr(L, name)(np.dtype(f"u{gw // 8}").type(seed)))
    base, pos = 0, 0
    exp, got = [], []
    for op, n in c.get("ops", [["get", 1], ["state", 1], ["get", size + 1], ["states", 3], ["get", 2], ["adv", 2], ["get", 2], ["init", 0], ["get", size + 1]]):
        if op == "get":
            for _i in range(n):
                exp.append(draw(base + pos, memo))
                pos = (pos + 1) % size
                got.append(int(o.get_value()))
        elif op == "state":
            o.advance_state()
            base, pos = base + 1, 0
        elif op == "states":
            o.advance_states(np.uint32(n))
            base, pos = base + n, (0 if n else pos)
        elif op == "adv":
            o.advance(np.uint32(n))
            pos = (pos + n) % size
        elif op == "init":
            o.re_init()
            base, pos = base + size, 0
    return exp, got


@gen("rnglist")
def _(rnd):
    w, size = rnd.choice(((16, 4), (32, 8), (32, 1), (64, 16), (16, 32)))
    ops = []
    for _ in range(rnd.randint(1, 8)):
        op = rnd.choice(("get", "get", "state", "states", "adv", "init"))
        n = rnd.choice((0, 1, 2, size, size + 1, rnd.randrange(1, 3 * size + 1)))
        ops.append([op, n])
    ops.append(["get", size + 1])
    return {"w": w, "size": size, "seed": edge(rnd, 32), "ops": ops}


# ---- P12/P13
def S():
    import numba_pokemon_prngs.sha1 as m
    return m


LANG = ("ENGLISH", "FRENCH", "GERMAN", "ITALIAN", "JAPANESE", "KOREAN", "SPANISH")
GAMES = ("BLACK", "WHITE", "BLACK2", "WHITE2")


def message(c):
    from .nazo import nazo_words, bs
    ds = {"DS": 0, "DSI": 1, "DS3": 2}[c["ds"]]
    d = nazo_words(c["lang"], GAMES.index(c["game"]), int(ds > 0))
    b = lambda n: (n // 10 << 4) | n % 10
    d.append(bs((c["vcount"] << 16) | c["timer0"]))
    d.append((c["mac"] & 0xFFFF) ^ (0x1000000 if c["soft"] else 0))
    d.append(((c["mac"] >> 16) & 0xFFFFFFFF) ^ (c["vframe"] << 24) ^ c["gx"])
    y, mo, da, dw = c["date"]
    d.append((b(y - 2000) << 24) | (b(mo) << 16) | (b(da) << 8) | dw)
    h, mi, se = c["time"]
    d.append(((b(h) + (0x40 if h >= 12 and ds != 2 else 0)) << 24) | (b(mi) << 16) | (b(se) << 8))
    return d + [0, 0, c["button"]]


def make(c):
    from numba_pokemon_prngs.enums import Game, Language, DSType
    return S().SHA1(Game[c["game"]], Language[c["lang"]], DSType[c["ds"]], np.uint64(c["mac"]), bool(c["soft"]), np.uint8(c["vframe"]), np.uint8(c["gx"]))


def setters(o, c):
    o.set_button(np.uint32(c["button"]))
    o.set_timer0(np.uint32(c["timer0"]), np.uint32(c["vcount"]))
    o.set_date(np.uint16(c["date"][0]), *[np.uint8(x) for x in c["date"][1:]])
    o.set_time(*[np.uint8(x) for x in c["time"]])


def expected(d):
    h = hashlib.sha1(b"".join(x.to_bytes(4, "big") for x in d)).digest()
    return ref.lcg_step("BWRNG", int.from_bytes(h[:8], "little"))


DEF = {"game": "BLACK", "lang": "ENGLISH", "ds": "DS", "mac": 0x9BF123456, "soft": 0, "vframe": 6, "gx": 6, "button": 0xFF2F0000, "timer0": 0x666, "vcount": 0x3F,
       "date": [2067, 10, 31, 1], "time": [16, 12, 20], "later": [[[1, 2, 3], 0x7C2F0000]]}


@case("sha_seed")
def _(c):
    c = {**DEF, **c}
    o = make(c)
    setters(o, c)
    al = o.precompute()
    exp, got = [expected(message(c))], [int(o.hash_seed(al))]
    for t, b in c["later"]:
        o.set_time(*[np.uint8(x) for x in t])
        o.set_button(np.uint32(b))
        exp.append(expected(message({**c, "time": t, "button": b})))
        got.append(int(o.hash_seed(al)))
    if c.get("redate"):
        o.set_date(np.uint16(c["redate"][0]), *[np.uint8(x) for x in c["redate"][1:]])
        o.set_timer0(np.uint32(c["timer0"] ^ 5), np.uint32(c["vcount"]))
        t, b = (c["later"] or [[c["time"], c["button"]]])[-1]
        exp.append(expected(message({**c, "date": c["redate"], "timer0": c["timer0"] ^ 5, "time": t, "button": b})))
        got.append(int(o.hash_seed(o.precompute())))
    return exp, got


def rdate(rnd):
    return [rnd.choice((2000, 2099, rnd.randrange(2000, 2100))), rnd.randint(1, 12), rnd.randint(1, 31), rnd.randrange(7)]


def rtime(rnd):
    return [rnd.choice((0, 11, 12, 23, rnd.randrange(24))), rnd.randrange(60), rnd.randrange(60)]


@gen("sha_seed")
def _(rnd):
    return {"game": rnd.choice(GAMES), "lang": rnd.choice(LANG), "ds": rnd.choice(("DS", "DSI", "DS3")), "mac": edge(rnd, 48), "soft": rnd.randrange(2),
            "vframe": edge(rnd, 8), "gx": edge(rnd, 8), "button": edge(rnd, 32), "timer0": edge(rnd, 16), "vcount": edge(rnd, 8), "date": rdate(rnd), "time": rtime(rnd),
            "later": [[rtime(rnd), edge(rnd, 32)] for _ in range(rnd.randrange(3))], "redate": rdate(rnd)}


@case("sha_msg")
def _(c):
    c = {**DEF, **c}
    o = make(c)
    setters(o, c)
    d = [int(x) for x in o.data]
    return [*message(c), 0x80000000, 0, 0x1A0], d[:16]


@gen("sha_msg")
def _(rnd):
    return GEN["sha_seed"](rnd)


GEN["sha_set"] = GEN["sha_ctor"] = lambda rnd: {}


@case("sha_set")
def _(c):
    c = dict(c)
    m = {**DEF}
    for k in ("button", "timer0", "vcount"):
        if k in c:
            m[k] = c[k]
    if "year" in c:
        m["date"] = [c["year"], c["month"], c["day"], c["day_of_week"]]
    if "hour" in c:
        m["time"] = [c["hour"], c["minute"], c["second"]]
    if "ds_type" in c:
        m["ds"] = ("DS", "DSI", "DS3")[c["ds_type"] % 3]
    o = make(m)
    setters(o, m)
    return message(m), [int(x) for x in o.data[:13]]


@case("sha_ctor")
def _(c):
    m = {**DEF}
    for a, b in (("mac", "mac"), ("soft_reset", "soft"), ("v_frame", "vframe"), ("gx_state", "gx")):
        if a in c:
            m[b] = int(c[a])
    m["mac"] &= (1 << 48) - 1
    o = make(m)
    setters(o, m)
    return message(m), [int(x) for x in o.data[:13]]


@case("sha_nazo")
def _(c):
    from .nazo import nazo_words
    from numba_pokemon_prngs.enums import Game, Language, DSType
    exp, got = [], []
    for lang in (LANG if "lang" not in c else (c["lang"],)):
        for g in (GAMES if "game" not in c else (c["game"],)):
            for ds in (("DS", "DSI", "DS3") if "ds" not in c else (c["ds"],)):
                exp.append(nazo_words(lang, GAMES.index(g), int(ds != "DS")))
                got.append(ints(S().get_nazo(Game[g], Language[lang], DSType[ds])))
    return exp, got


@gen("sha_nazo")
def _(rnd):
    return {"lang": rnd.choice(LANG)}
