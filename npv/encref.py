"""what the encounter tables are, from the bytes of the package's data files (reference for P25; shares no code with /repo)"""
import json
import os
import struct

GEN3 = {"RUBY": ("rs", "Ruby"), "SAPPHIRE": ("rs", "Sapphire"), "EMERALD": ("e", ""), "FIRE_RED": ("frlg", "FireRed"), "LEAF_GREEN": ("frlg", "LeafGreen")}
AREAS = {"OBSIDIAN_FIELDLANDS": 1, "CRIMSON_MIRELANDS": 2, "COBALT_COASTLANDS": 3, "CORONET_HIGHLANDS": 4, "ALABASTER_ICELANDS": 5}
# letters of the Tanoby chambers per grass slot
CHAMBERS = {"MONEAN": "AAAAAAAAAAA?", "LIPTOO": "CCCDDDHHHUUO", "WEEPTH": "NNNNSSSSIIEE", "DILFORD": "PPLLJJRRRQQQ", "SCUFIB": "YYTTGGGFFFKK", "RIXY": "VVVWWWXXMMBB", "VIAPOIS": "ZZZZZZZZZZZ!"}
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ!?"
BOOST = {1: 15, 2: 15, 3: 15, 4: 20, 5: 20}


def resources():
    import numba_pokemon_prngs
    return os.path.join(os.path.dirname(os.path.abspath(numba_pokemon_prngs.__file__)), "resources")


def map_name(s):
    out = []
    for w in s[4:].split("_") if s.startswith("MAP_") else s.split("_"):
        head = w.rstrip("0123456789")
        if head in ("ROUTE", "ROOM") and head != w:
            out += [head[0] + head[1:].lower() + " " + w[len(head):]]
        elif w[-1:] in ("F", "R") and w[:-1].isdigit() or w[:1] == "B" and w[-1:] == "F" and w[1:-1].isdigit():
            out.append(w)
        elif w:
            out.append(w[0] + w[1:].lower())
    return " ".join(out)


def dummied(label):
    if "Unused" in label:
        return True
    i = label.find("AlteringCave")
    if i < 0:
        return False
    t = label[i + len("AlteringCave"):].lstrip("_")
    return t[:1] in list("23456789")


def species_ids():
    with open(os.path.join(resources(), "txt", "species_en.txt"), encoding="utf-8-sig") as f:
        names = f.read().split("\n")
    conv = {"Nidoran\u2642": "NIDORAN_M", "Nidoran\u2640": "NIDORAN_F"}
    r = {}
    for i, n in enumerate(names):
        n = n.strip("\r")
        r.setdefault("SPECIES_" + conv.get(n, n.upper()), i)
    return r


def gen3(game):
    """[(map name, area as nested tuples)] of a game, in order"""
    name, part = GEN3[game]
    with open(os.path.join(resources(), "encount", name + "_wild_encounters.json")) as f:
        group = json.load(f)["wild_encounter_groups"][0]
    rods = next(x["groups"] for x in group["fields"] if x["type"] == "fishing_mons")
    ids = species_ids()
    out = []
    for n, e in enumerate(x for x in group["encounters"] if part in x["base_label"]):
        area = {"location": n, "land_rate": 0, "water_rate": 0, "rock_rate": 0, "fish_rate": 0, "land": {}, "water": {}, "rock": {}, "fish_old": {}, "fish_good": {}, "fish_super": {}}
        if dummied(e["base_label"]):
            area["location"] = 0
            out.append(("", area))
            continue
        forms = next((v for k, v in CHAMBERS.items() if e["map"] == f"MAP_SEVEN_ISLAND_TANOBY_RUINS_{k}_CHAMBER"), None)
        for kind, key in (("land", "land_mons"), ("water", "water_mons"), ("rock", "rock_smash_mons"), ("fish", "fishing_mons")):
            if key not in e:
                continue
            area[kind + "_rate"] = e[key]["encounter_rate"]
            mons = [(m["min_level"], m["max_level"], ids[m["species"]]) for m in e[key]["mons"]]
            if kind == "fish":
                for rod, at in rods.items():
                    area["fish_" + rod.split("_")[0]] = dict(enumerate(mons[j] for j in at))
            else:
                if kind == "land" and forms:
                    mons = [(a, b, s + 2048 * LETTERS.index(forms[j])) for j, (a, b, s) in enumerate(mons)]
                area[kind] = dict(enumerate(mons))
        out.append((map_name(e["map"]), area))
    return out


def gen3_got(names, table):
    """the loader's result in the same form (empty slots left out)"""
    sizes = {"land": 12, "water": 5, "rock": 5, "fish_old": 2, "fish_good": 3, "fish_super": 5}
    out = []
    for n, a in zip(names, table):
        r = {k: int(a[k]) for k in ("location", "land_rate", "water_rate", "rock_rate", "fish_rate")}
        for k, c in sizes.items():
            v = [tuple(int(a[k][j][f]) for f in ("min_level", "max_level", "species")) for j in range(len(a[k]))]
            r[k] = {j: x for j, x in enumerate(v) if any(x)} if len(v) == c else f"{len(v)} slots"
        out.append((n, r))
    return out


class Fb:
    """a FlatBuffer table at a position"""
    def __init__(self, b, p=None):
        self.b, self.p = b, struct.unpack_from("<I", b, 0)[0] if p is None else p

    def at(self, slot):
        vt = self.p - struct.unpack_from("<i", self.b, self.p)[0]
        o = struct.unpack_from("<H", self.b, vt + 4 + 2 * slot)[0] if 4 + 2 * slot < struct.unpack_from("<H", self.b, vt)[0] else 0
        return self.p + o if o else None

    def get(self, slot, fmt="<i", default=0):
        a = self.at(slot)
        return default if a is None else struct.unpack_from(fmt, self.b, a)[0]

    def sub(self, slot):
        a = self.at(slot)
        return Fb(self.b, a + struct.unpack_from("<I", self.b, a)[0])

    def vec(self, slot):
        a = self.at(slot)
        if a is None:
            return []
        a += struct.unpack_from("<I", self.b, a)[0]
        return [Fb(self.b, a + 4 + 4 * i + struct.unpack_from("<I", self.b, a + 4 + 4 * i)[0]) for i in range(struct.unpack_from("<I", self.b, a)[0])]


def la_file(name):
    with open(os.path.join(resources(), "encount", "la", name), "rb") as f:
        return f.read()


def bake(own, kind):
    """a slot's own multiplier, the species' where it is negative, 1 where that is negative too"""
    return [x if not x < 0 else (y if not y < 0 else 1.0) for x, y in zip(own, kind)]


def la(area):
    """{table id: [slot as a dict]} of a map area, in order of the file"""
    kinds, alpha = {}, {}
    for m in Fb(la_file("poke_encount.bin")).vec(0):
        kinds[m.get(0), m.get(1)] = ([m.get(i, "<f", 0.0) for i in range(2, 6)], [1.0] + [m.get(i, "<f", 0.0) for i in range(6, 14)])
    for m in Fb(la_file("poke_misc.bin")).vec(0):
        alpha[m.get(0), m.get(1)] = m.get(6)
    out = {}
    for t in Fb(la_file(f"ha_area{AREAS[area]:02d}_encounter.bin")).vec(0):
        slots = []
        for s in t.vec(3):
            key = s.get(0), s.get(3)
            e = s.sub(45)
            o = s.sub(46)
            is_alpha = any(o.get(i, "<b") for i in (0, 1))
            lo, hi = s.get(30), s.get(31)
            lo = lo if 1 <= lo <= 100 else t.get(1)
            hi = hi if 1 <= hi <= 100 else t.get(2)
            up = BOOST[alpha[key]] if is_alpha else 0
            slots.append({"species": key[0], "gender": s.get(2) % 256, "form": key[1], "min_level": lo + up, "max_level": hi + up, "guaranteed_ivs": s.get(25), "base_probability": s.get(29),
                          "is_alpha": int(is_alpha), "time_multipliers": bake([e.get(i, "<f", 0.0) for i in range(7, 11)], kinds[key][0]),
                          "weather_multipliers": bake([1.0] + [e.get(i, "<f", 0.0) for i in range(11, 19)], kinds[key][1])})
        out[t.get(0, "<Q")] = slots
    return out


def la_got(lookup):
    import numpy as np
    out = {}
    for k in lookup.keys():
        a = lookup[np.uint64(k)]
        s = np.asarray(a.slots)
        out[int(k)] = (int(a.table_id), [{f: ([float(v) for v in x[f]] if x[f].ndim else int(x[f])) for f in s.dtype.names} for x in s])
    return out
