"""concrete cases of the gen 3 attribute functions, tables and wild generator"""
import numpy as np
from . import ref
from .cases import GEN, case, gen, edge, arg, ints, kind

step = lambda s: ref.lcg_step("PokeRNGMod", s)
LISTS = (("land", 12), ("water", 5), ("rock", 5), ("fish_old", 2), ("fish_good", 3), ("fish_super", 5))
GROUP = {"OLD_ROD": "fish_old", "GOOD_ROD": "fish_good", "SUPER_ROD": "fish_super", "ROCK_SMASH": "rock", "SURFING": "water", "GRASS": "land"}
THRESH = {"land": (20, 40, 50, 60, 70, 80, 85, 90, 94, 98, 99, 100), "fish_old": (70, 100), "fish_good": (60, 80, 100), "fish_super": (40, 80, 95, 99, 100),
          "rock": (60, 90, 95, 99, 100), "water": (60, 90, 95, 99, 100)}
TYPES = {"MAGNET_PULL": 8, "STATIC": 13, "HARVEST": 11, "FLASH_FIRE": 9, "STORM_DRAIN": 10}
SAFARI = {"RUBY": (90, 187, 89, 186, 92, 189, 91, 188), "SAPPHIRE": (90, 187, 89, 186, 92, 189, 91, 188), "EMERALD": (73, 98, 74, 20, 97, 72)}
GAMES = ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN")
INTERNAL = (0, 1, 2, 5, 3, 4)
NATURE_TO_STAT = (1, 2, 5, 3, 4)
NAMES = ("hp", "attack", "defense", "special_attack", "special_defense", "speed")


def A():
    import numba_pokemon_prngs.gen3.encounter_area_3 as m
    return m


def E():
    import numba_pokemon_prngs.enums as m
    return m


def enum(cls, name):
    return np.uint8(getattr(getattr(E(), cls), name))


# ---- P16
def gender(pid, ratio):
    if ratio in (255, 254, 0):
        return {255: 2, 254: 1, 0: 0}[ratio]
    return 1 if pid & 0xFF < ratio else 0


def shiny(pid, tsv):
    x = (pid >> 16) ^ (pid & 0xFFFF) ^ tsv
    return 2 if x == 0 else 1 if x < 8 else 0


def letter(pid):
    return sum(((pid >> 8 * i) & 3) << 2 * i for i in range(4)) % 28


@case("g3_pid")
def _(c):
    import numba_pokemon_prngs.gen3.util as m
    fn, pid = c["fn"], c.get("pid", 0)
    if fn == "get_gender":
        r = c.get("gender_ratio", 127)
        return gender(pid, r), int(m.get_gender(arg(c, pid, 32), arg(c, r, 8)))
    if fn == "get_shiny":
        t = c.get("tsv", 0)
        return shiny(pid, t), int(m.get_shiny(arg(c, pid, 32), arg(c, t, 16)))
    f = c.get("form", 0)
    return letter(pid) == f, bool(m.unown_check(arg(c, pid, 32), arg(c, f, 8)))


@gen("g3_pid")
def _(rnd):
    pid = edge(rnd, 32)
    return {"fn": rnd.choice(("get_gender", "get_shiny", "unown_check")), "pid": pid, "kind": kind(rnd, 32),
            "gender_ratio": rnd.choice((0, 254, 255, 253, 1, 31, 127, pid & 0xFF, (pid & 0xFF) + 1 & 0xFF, edge(rnd, 8))),
            "tsv": ((pid >> 16) ^ (pid & 0xFFFF) ^ rnd.choice((0, 1, 7, 8, 9, edge(rnd, 16)))) & 0xFFFF,
            "form": rnd.choice((letter(pid), rnd.randrange(28)))}


# ---- P17
def nature_stat(stat, nature, i):
    up, dn = NATURE_TO_STAT[nature // 5], NATURE_TO_STAT[nature % 5]
    if up == dn:
        return stat
    return stat * 11 // 10 if i == up else stat * 9 // 10 if i == dn else stat


@case("g3_stat")
def _(c):
    import numba_pokemon_prngs.util as m
    s, n, i = c.get("stat", 100), c.get("nature", 1), c.get("index", 1)
    return nature_stat(s, n, i), int(m.compute_stat(arg(c, s, 16), arg(c, n, 8), i))


@gen("g3_stat")
def _(rnd):
    return {"stat": rnd.choice((rnd.randrange(800), rnd.randrange(80) * 10, rnd.randrange(4096))), "nature": rnd.randrange(25), "index": rnd.randint(1, 5), "kind": kind(rnd, 16)}


def attributes(pid, ivs, level, base, ratio):
    o = [ivs[i] for i in INTERNAL]
    bits = lambda k: sum(((x >> k) & 1) << i for i, x in enumerate(o))
    mx = max(o)
    ch = next(i % 6 for i in range(pid % 6, pid % 6 + 6) if o[i % 6] == mx)
    stats = []
    for i in range(6):
        core = (2 * base[i] + ivs[i]) * level // 100
        stats.append(core + level + 10 if i == 0 else nature_stat(core + 5, pid % 25, i))
    return {"nature": pid % 25, "hidden_power": bits(0) * 15 // 63, "hidden_power_strength": 30 + bits(1) * 40 // 63, "characteristic": ch * 5 + mx % 5,
            "gender": gender(pid, ratio), "stats": stats}


def info_row(base, ratio, a1=1, a2=2, types=(0, 0)):
    from numba_pokemon_prngs.data.personal.personal_info import PersonalInfo3
    t = np.zeros(1, PersonalInfo3.dtype).view(np.recarray)
    set_info(t[0], base, ratio, a1, a2, types)
    return t[0]


def set_info(r, base, ratio, a1, a2, types):
    for n, v in zip(NAMES, base):
        r[n] = v
    r["gender_ratio"], r["ability_1"], r["ability_2"], r["type_1"], r["type_2"] = ratio, a1, a2, types[0], types[1]


def state_of(o):
    return {**{k: int(getattr(o, k)) for k in ("advance", "pid", "species", "form", "ability", "ability_index", "level", "shiny", "nature", "hidden_power", "hidden_power_strength",
                                                "characteristic", "gender")}, "ivs": ints(o.ivs), "stats": ints(o.stats)}


@case("g3_state")
def _(c):
    from numba_pokemon_prngs.gen3.state import GeneratorState
    base, ratio, ivs, level, pid = c.get("base", [50] * 6), c.get("gender_ratio", 127), c.get("ivs", [31] * 6), c.get("level", 50), c.get("pid", 0)
    ab, sh, form, sp, adv = c.get("ability", 0), c.get("shiny", 0), c.get("form", 0), c.get("species", 1), c.get("advance", 0)
    iv = np.array(ivs, np.uint8)
    o = GeneratorState(np.uint32(adv), np.uint32(pid), np.uint16(sp), np.uint8(form), iv, np.uint8(ab), np.uint8(level), np.uint8(sh), info_row(base, ratio, 7, 9))
    iv[:] = 77
    exp = {"advance": adv, "pid": pid, "species": sp, "form": form, "ability": ab, "ability_index": 7 if ab == 0 else 9, "level": level, "shiny": sh, "ivs": ivs,
           **attributes(pid, ivs, level, base, ratio)}
    return exp, state_of(o)


def rivs(rnd):
    top = rnd.choice((31, 31, rnd.randrange(32)))
    return [min(top, rnd.choice((top, top, 0, rnd.randrange(32)))) for _ in range(6)]


@gen("g3_state")
def _(rnd):
    return {"base": [edge(rnd, 8) for _ in range(6)], "gender_ratio": rnd.choice((0, 254, 255, 31, 127, edge(rnd, 8))), "ivs": rivs(rnd), "level": rnd.choice((1, 100, rnd.randint(0, 100))),
            "pid": edge(rnd, 32), "ability": rnd.randrange(2), "shiny": rnd.randrange(3), "form": rnd.randrange(28), "species": rnd.randrange(387), "advance": edge(rnd, 32)}


# ---- P18
def build_area(d):
    """encounter area record with the given slots {list: [[min, max, species]]}, rates and location"""
    from numba_pokemon_prngs.data.encounter.encounter_area_3 import EncounterArea3
    t = np.zeros(1, EncounterArea3.dtype).view(np.recarray)
    r = t[0]
    for k, n in LISTS:
        for i, (a, b, s) in enumerate(d["slots"][k]):
            r[k][i]["min_level"], r[k][i]["max_level"], r[k][i]["species"] = a, b, s
    for k, v in d["rates"].items():
        r[k] = v
    r["location"] = d.get("location", 0)
    return t[0]


def default_area(seed=0):
    import random
    return gen_area(random.Random(seed))


def gen_area(rnd, unown=False):
    def slot():
        a = rnd.randint(1, 100)
        b = rnd.choice((a, a, min(100, a + rnd.randrange(10))))
        sp = rnd.choice((rnd.randrange(1, 30), rnd.randrange(387)))
        if unown and rnd.random() < .3:
            sp = 201 | rnd.randrange(28) << 11
        return [a, b, sp]
    return {"slots": {k: [slot() for _ in range(n)] for k, n in LISTS}, "rates": {k: rnd.choice((0, 1, 180, 255, rnd.randrange(256))) for k in ("land_rate", "water_rate", "rock_rate", "fish_rate")},
            "location": rnd.choice((0, 72, 20, 89, 188, rnd.randrange(200)))}


def table_index(group, roll):
    return next(i for i, x in enumerate(THRESH[group]) if roll < x)


@case("g3_tables")
def _(c):
    names = (("GRASS_TABLE", "land"), ("OLD_ROD_TABLE", "fish_old"), ("GOOD_ROD_TABLE", "fish_good"), ("SUPER_ROD_TABLE", "fish_super"), ("ROCK_SMASH_AND_SURF_TABLE", "rock"))
    return [[table_index(g, r) for r in range(100)] for _, g in names], [ints(getattr(A(), n)) for n, _ in names]


GEN["g3_tables"] = lambda rnd: {}


def triple(x):
    return [int(x["min_level"]), int(x["max_level"]), int(x["species"])]


@case("g3_hslot")
def _(c):
    from numba_pokemon_prngs.lcrng import PokeRNGMod
    e, s, d = c.get("encounter", "GRASS"), c.get("seed", 0), c.get("area") or default_area()
    rng = PokeRNGMod(np.uint32(s))
    got = A().calculate_hslot(build_area(d), rng, enum("Encounter", e))
    g = GROUP.get(e, "land")
    s = step(s)
    return [d["slots"][g][table_index(g, (s >> 16) % 100)], s], [triple(got), int(rng.seed)]


@gen("g3_hslot")
def _(rnd):
    return {"encounter": rnd.choice(tuple(GROUP)), "seed": edge(rnd, 32), "area": gen_area(rnd)}


def ptable(types):
    """personal info table of 412 species whose type pairs are given by a seed (13s and 8s frequent)"""
    import random
    from numba_pokemon_prngs.data.personal.personal_info import PersonalInfo3
    rnd = random.Random(types)
    t = np.zeros(387, PersonalInfo3.dtype).view(np.recarray)
    t["type_1"] = [rnd.choice((8, 13, 9, 10, 11, 0)) for _ in range(387)]
    t["type_2"] = [rnd.choice((8, 13, 9, 10, 11, 0, 1, 2)) for _ in range(387)]
    t["gender_ratio"] = [rnd.choice((0, 254, 255, 31, 127, 191, 1, 253, 225)) for _ in range(387)]
    for n in NAMES:
        t[n] = [rnd.randrange(1, 256) for _ in range(387)]
    t["ability_1"] = [rnd.randrange(1, 78) for _ in range(387)]
    t["ability_2"] = [rnd.randrange(78) for _ in range(387)]
    return t


def modified(d, enc, lead, table):
    ty = TYPES.get(lead)
    if ty is None:
        return []
    return [x for x in d["slots"][GROUP.get(enc, "land")] if ty in (int(table[x[2] & 0x3FF]["type_1"]), int(table[x[2] & 0x3FF]["type_2"]))]


def call_modified(d, c, table):
    return A().get_modified_slots(build_area(d), enum("Encounter", c.get("encounter", "GRASS")), enum("Lead", c.get("lead_name", c.get("lead", "STATIC"))), enum("Game", c.get("game", "EMERALD")), table)


@case("g3_modified")
def _(c):
    d = c.get("area") or default_area(c.get("types", 1))
    t = ptable(c.get("types", 1))
    return modified(d, c.get("encounter", "GRASS"), c.get("lead", "STATIC"), t), [triple(x) for x in call_modified(d, c, t)]


@gen("g3_modified")
def _(rnd):
    return {"encounter": rnd.choice(tuple(GROUP)), "lead": rnd.choice(tuple(TYPES) + ("NONE", "PRESSURE", "CUTE_CHARM_M", "SYNCHRONIZE_HARDY")), "area": gen_area(rnd), "types": rnd.randrange(1000),
            "game": rnd.choice(GAMES)}


@case("g3_hslot_lead")
def _(c):
    from numba_pokemon_prngs.lcrng import PokeRNGMod
    d, t = c.get("area") or default_area(), ptable(c.get("types", 1))
    lead = c.get("lead", 255)
    e, s = c.get("encounter", "GRASS"), c.get("seed", 0)
    src = c.get("from", "STATIC")
    mods = call_modified(d, {"encounter": e, "lead_name": src}, t)
    m = modified(d, e, src, t)
    rng = PokeRNGMod(np.uint32(s))
    got = A().calculate_hslot_lead(build_area(d), rng, enum("Encounter", e), np.uint8(lead), mods)
    typed = lead in (int(E().Lead.MAGNET_PULL), int(E().Lead.STATIC))
    g = GROUP.get(e, "land")
    want = None
    if typed:
        s = step(s)
        if (s >> 16) % 2 == 0 and m:
            s = step(s)
            want = m[(s >> 16) % len(m)]
    if want is None:
        s = step(s)
        want = d["slots"][g][table_index(g, (s >> 16) % 100)]
    return [want, s], [triple(got), int(rng.seed)]


@gen("g3_hslot_lead")
def _(rnd):
    L = E().Lead
    return {"encounter": rnd.choice(tuple(GROUP)), "seed": edge(rnd, 32), "area": gen_area(rnd), "types": rnd.randrange(50), "from": rnd.choice(("STATIC", "MAGNET_PULL", "NONE")),
            "lead": rnd.choice((int(L.STATIC), int(L.MAGNET_PULL), int(L.NONE), int(L.PRESSURE), rnd.randrange(25)))}


@case("g3_level")
def _(c):
    from numba_pokemon_prngs.lcrng import PokeRNGMod
    mn, mx, p, s = c.get("min_level", 3), c.get("max_level", 8), bool(c.get("pressure", 0)), c.get("seed", 0)
    d = default_area()
    d["slots"]["land"][0] = [mn, mx, 1]
    rng = PokeRNGMod(np.uint32(s))
    got = A().calculate_level(build_area(d)["land"].view(np.recarray)[0] if c.get("view") else build_area(d)["land"][0], rng, p)
    s = step(s)
    r = (s >> 16) % (mx - mn + 1)
    if p:
        s = step(s)
        want = mx if (s >> 16) % 2 == 0 else mn + max(0, r - 1)
    else:
        want = mn + r
    return [want, s], [float(got), int(rng.seed)]


@gen("g3_level")
def _(rnd):
    mn = rnd.randint(0, 100)
    return {"min_level": mn, "max_level": rnd.choice((mn, 100, rnd.randint(mn, 100))), "pressure": rnd.randrange(2), "seed": edge(rnd, 32), "view": 1}


@case("g3_rate")
def _(c):
    e, d = c.get("encounter", "GRASS"), c.get("area") or default_area()
    k = {"GRASS": "land_rate", "ROCK_SMASH": "rock_rate", "SURFING": "water_rate"}.get(e, "fish_rate")
    return d["rates"][k], int(A().get_encounter_rate(build_area(d), enum("Encounter", e)))


@gen("g3_rate")
def _(rnd):
    return {"encounter": rnd.choice(tuple(GROUP)), "area": gen_area(rnd)}


@case("g3_safari")
def _(c):
    g, loc = c.get("game", "EMERALD"), c.get("location", 0)
    d = default_area()
    d["location"] = loc
    return loc in SAFARI.get(g, ()), bool(A().is_rse_safari_zone(build_area(d), enum("Game", g)))


@gen("g3_safari")
def _(rnd):
    return {"game": rnd.choice(GAMES), "location": rnd.choice((90, 187, 73, 98, 20, 72, rnd.randrange(200), edge(rnd, 16)))}


# ---- P19
def wild(d, table, method, enc, lead, game, tsv, seed, delay, initial, count, limit=1 << 20, rare=None):
    """the documented generator, draw by draw (rare: collects boundary situations met on the way)"""
    rare = set() if rare is None else rare
    L = E().Lead
    if game != "EMERALD":
        lead = "NONE"
    lv = int(getattr(L, lead))
    rse = game in ("RUBY", "SAPPHIRE", "EMERALD")
    mods = modified(d, enc, lead, table)
    rate = d["rates"][{"GRASS": "land_rate", "ROCK_SMASH": "rock_rate", "SURFING": "water_rate"}.get(enc, "fish_rate")] * 16
    main = seed
    for _ in range((initial + delay) & 0xFFFFFFFF):
        main = step(main)
    out = []
    for adv in range(initial, initial + count):
        s = [main]

        def draw():
            s[0] = step(s[0])
            return s[0] >> 16
        main = step(main)
        if rse and enc == "ROCK_SMASH":
            q = draw() % 2880
            if q in (rate - 1, rate):
                rare.add(("rate", q - rate))
            if q >= rate:
                continue
        g = GROUP.get(enc, "land")
        slot = None
        if lead in ("MAGNET_PULL", "STATIC"):
            if draw() % 2 == 0 and mods:
                slot = mods[draw() % len(mods)]
        if slot is None:
            q = draw() % 100
            slot = d["slots"][g][table_index(g, q)]
            if q in (0, 99):
                rare.add(("slot", q))
        species, form = slot[2] & 0x7FF, slot[2] >> 11
        mn, mx = slot[0], slot[1]
        r = draw() % (mx - mn + 1)
        level = mn + r
        if r == mx - mn and r:
            rare.add(("level", "max"))
        if r in (0, 1) and mx - mn > 1:
            rare.add(("level", r))
        if lead == "PRESSURE":
            level = mx if draw() % 2 == 0 else mn + max(0, r - 1)
        info = table[species]
        ratio = int(info["gender_ratio"])
        charm = False
        if lead in ("CUTE_CHARM_F", "CUTE_CHARM_M") and 0 < ratio < 254:
            charm = draw() % 3 != 0
        if d["location"] in SAFARI.get(game, ()):
            draw()
        if lv <= int(L.SYNCHRONIZE_QUIRKY):
            nature = lv if draw() % 2 == 0 else draw() % 25
        else:
            nature = draw() % 25
        for _ in range(limit):
            lo = draw()
            pid = lo | draw() << 16
            if pid % 25 != nature:
                continue
            if charm and (pid & 0xFF) in (ratio - 1, ratio, ratio + 1, 0, 255):
                rare.add(("charm", (pid & 0xFF) - ratio))
            if charm and ((pid & 0xFF) < ratio) == (lead == "CUTE_CHARM_F"):
                continue
            if species == 201 and letter(pid) != form:
                continue
            break
        if method == "METHOD_2":
            draw()
        a = draw()
        if method == "METHOD_4":
            draw()
        b = draw()
        ivs = [a & 31, a >> 5 & 31, a >> 10 & 31, b >> 5 & 31, b >> 10 & 31, b & 31]
        base = [int(info[n]) for n in NAMES]
        out.append({"advance": adv, "pid": pid, "species": species, "form": form, "ability": pid & 1, "ability_index": int(info["ability_1"] if pid & 1 == 0 else info["ability_2"]),
                    "level": level, "shiny": shiny(pid, tsv), "ivs": ivs, **attributes(pid, ivs, level, base, ratio)})
    return out


@case("g3_wild")
def _(c):
    from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3
    from numba_pokemon_prngs.data.personal import get_info_table_3
    d = c.get("area") or default_area()
    m, e, l, g = c.get("method", "METHOD_1"), c.get("encounter", "GRASS"), c.get("lead", "NONE"), c.get("game", "EMERALD")
    tid, sid = c.get("tid", 0), c.get("sid", 0)
    o = WildGenerator3(enum("Method", m), enum("Encounter", e), enum("Lead", l), enum("Game", g), np.uint16(tid), np.uint16(sid))
    table = get_info_table_3(enum("Game", g))
    seed, delay, ini, n = c.get("seed", 0), c.get("delay", 0), c.get("initial", 0), c.get("count", 6)
    got = o.generate(np.uint32(seed), np.uint32(delay), np.uint32(ini), np.uint32(n), build_area(d))
    got2 = o.generate(np.uint32(seed), np.uint32(delay), np.uint32(ini), np.uint32(n), build_area(d)) if c.get("again") else got
    exp = wild(d, table, m, e, l, g, tid ^ sid, seed, delay, ini, n)
    return [exp, exp], [[state_of(x) for x in got], [state_of(x) for x in got2]]


@gen("g3_wild")
def _(rnd):
    game = rnd.choice(GAMES + ("EMERALD",) * 5)
    a = gen_area(rnd, True)
    if rnd.random() < .4:
        a["location"] = rnd.choice(SAFARI.get(game, (0,)))
    L = [x.name for x in E().Lead]
    c = {"area": a, "method": rnd.choice(("METHOD_1", "METHOD_2", "METHOD_4")), "encounter": rnd.choice(tuple(GROUP) + ("ROCK_SMASH",)),
            "lead": rnd.choice(("NONE", "MAGNET_PULL", "STATIC", "PRESSURE", "CUTE_CHARM_F", "CUTE_CHARM_M", "SYNCHRONIZE_HARDY", rnd.choice(L))), "game": game,
            "tid": edge(rnd, 16), "sid": edge(rnd, 16), "seed": edge(rnd, 32), "delay": rnd.choice((0, 1, rnd.randrange(50))), "initial": rnd.choice((0, 1, rnd.randrange(200))),
            "count": rnd.choice((1, 5, 12)), "again": rnd.randrange(2)}
    if rnd.random() < .6:
        # look for a seed that meets boundary situations on its first encounter
        from numba_pokemon_prngs.data.personal import get_info_table_3
        table = get_info_table_3(enum("Game", game))
        want, best = rnd.choice(("charm", "rate", "slot", "level", "any")), None
        for _ in range(120):
            seed, rare = rnd.getrandbits(32), set()
            out = wild(a, table, c["method"], c["encounter"], c["lead"], game, 0, seed, 0, 0, 1, rare=rare)
            score = len(rare) + sum(5 for k, _ in rare if k == want)
            if best is None or score > best[0]:
                best = (score, seed, out)
            if score >= 5:
                break
        c.update(seed=best[1], delay=0, initial=0)
        if best[2] and rnd.random() < .5:
            # a trainer for which the first PID is at the border of shininess
            pid = best[2][0]["pid"]
            c["tid"] = (pid >> 16) ^ (pid & 0xFFFF) ^ c["sid"] ^ rnd.choice((0, 1, 7, 8, 15, 16))
    return c
