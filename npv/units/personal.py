"""contracts of the personal info tables and the game ids (P20)"""
import os
from .common import *  # noqa

TABLES = {  # table -> (file, layout, games)
    "RS": ("rs", 3, ("RUBY", "SAPPHIRE")), "E": ("e", 3, ("EMERALD",)), "FR": ("fr", 3, ("FIRE_RED",)), "LG": ("lg", 3, ("LEAF_GREEN",)),
    "DP": ("dp", 4, ("DIAMOND", "PEARL")), "PT": ("pt", 4, ("PLATINUM",)), "BW": ("bw", "5bw", ("BLACK", "WHITE")), "B2W2": ("b2w2", "5b2w2", ("BLACK2", "WHITE2")),
    "XY": ("xy", "6xy", ("X", "Y")), "ORAS": ("ao", "6ao", ("OMEGA_RUBY", "ALPHA_SAPPHIRE")), "SM": ("sm", 7, ("SUN", "MOON")), "USUM": ("uu", 7, ("ULTRA_SUN", "ULTRA_MOON")),
    "SWSH": ("swsh", "8swsh", ("SWORD", "SHIELD")), "BDSP": ("bdsp", "8bdsp", ("BRILLIANT_DIAMOND", "SHINING_PEARL")), "LA": ("la", "8la", ("LEGENDS_ARCEUS",)),
}
ORDER = ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN", "GALES", "COLOSSEUM", "DIAMOND", "PEARL", "PLATINUM", "HEART_GOLD", "SOUL_SILVER", "BLACK", "WHITE", "BLACK2", "WHITE2",
         "X", "Y", "OMEGA_RUBY", "ALPHA_SAPPHIRE", "SUN", "MOON", "ULTRA_SUN", "ULTRA_MOON", "SWORD", "SHIELD", "BRILLIANT_DIAMOND", "SHINING_PEARL", "LEGENDS_ARCEUS")
BASE = {n: (i, 1) for i, n in enumerate(("hp", "attack", "defense", "speed", "special_attack", "special_defense", "type_1", "type_2", "catch_rate"))}
OLD = {**BASE, "base_exp": (9, 1), "ev_yield": (10, 2), "item_1": (12, 2), "item_2": (14, 2), "gender_ratio": (16, 1), "hatch_cycles": (17, 1), "base_friendship": (18, 1),
       "exp_growth": (19, 1), "egg_group_1": (20, 1), "egg_group_2": (21, 1), "ability_1": (22, 1), "ability_2": (23, 1), "escape_rate": (24, 1)}
MID = {**BASE, "evo_stage": (9, 1), "ev_yield": (10, 2), "item_1": (12, 2), "item_2": (14, 2), "item_3": (16, 2), "gender_ratio": (18, 1), "hatch_cycles": (19, 1),
       "base_friendship": (20, 1), "exp_growth": (21, 1), "egg_group_1": (22, 1), "egg_group_2": (23, 1)}
G5 = {**MID, "ability_1": (24, 1), "ability_2": (25, 1), "ability_h": (26, 1), "escape_rate": (27, 1), "form_stats_index": (28, 2), "form_sprite": (30, 2), "form_count": (32, 1),
      "misc": (33, 1), "base_exp": (34, 2), "height": (36, 2), "weight": (38, 2)}
G8 = {**MID, "ability_1": (24, 2), "ability_2": (26, 2), "ability_h": (28, 2), "form_stats_index": (30, 2), "form_count": (32, 1), "misc": (33, 1), "base_exp": (34, 2),
      "height": (36, 2), "weight": (38, 2)}
LAYOUT = {
    3: (0x1C, OLD), 4: (0x2C, {**OLD, "form_count": (0x29, 1), "form_stats_index": (0x2A, 2)}),
    "5bw": (0x3C, G5), "5b2w2": (0x4C, G5), "6xy": (0x40, G5), "6ao": (0x50, G5),
    7: (0x54, {**G5, "special_z_item": (0x4C, 2), "special_z_base_move": (0x4E, 2), "special_z_move": (0x50, 2), "local_variant": (0x52, 1)}),
    "8swsh": (0xB0, {**G8, "species": (0x4C, 2), "hatch_species": (0x56, 2), "local_form_index": (0x58, 2), "regional_flags": (0x5A, 2), "pokedex_index": (0x5C, 2),
                     "regional_form_index": (0x5E, 2), "armor_dex_index": (0xAC, 2), "crown_dex_index": (0xAE, 2)}),
    "8bdsp": (0x44, {**G8, "species": (0x3C, 2), "hatch_species": (0x3E, 2), "hatch_form_index": (0x40, 2), "pokedex_index": (0x42, 2)}),
    "8la": (0xB0, {**G8, "hatch_species": (0x56, 2), "hatch_form_index": (0x58, 2), "regional_flags": (0x5A, 2), "species": (0x5C, 2), "form": (0x5E, 2), "dex_index_hisui": (0x60, 2),
                   **{f"dex_index_hisui_local_{i}": (0x60 + 2 * i, 2) for i in range(1, 6)}}),
}
BULBASAUR = {"hp": 45, "attack": 49, "defense": 49, "special_attack": 65, "special_defense": 65, "speed": 45, "gender_ratio": 31}


def mod():
    import numba_pokemon_prngs.data.personal as m
    return m


def u_ids(mode):
    def f(ctx):
        from numba_pokemon_prngs.enums import Game
        ctx.hint = {"t": "personal"}
        ctx.concrete("NONE is no game", int(Game.NONE) == 0)
        for i, n in enumerate(ORDER):
            v = getattr(Game, n, None)
            ctx.concrete(f"{n} has its own bit", v is not None and int(v) == 1 << i, v)
        ctx.concrete("no two games share an id", len({int(g) for g in Game}) == len(Game) == len(Game.__members__))
    return f


def u_table(mode, fn):
    """the table selected for a symbolic game id"""
    def f(ctx):
        from numba_pokemon_prngs.enums import Game
        M = Mode(mode)
        T = {k: getattr(mod(), f"PERSONAL_INFO_{k}") for k in TABLES}
        want = {g: k for k, v in TABLES.items() for g in v[2] if fn == "get_info_table" or v[1] == 3}
        ids = {g: int(Game[g]) for g in ORDER}
        some = {g: ids[g] for g in want} if fn == "get_info_table_3" else ids
        for kind, w in (("int", 32), ("u4", 32), ("i8", 64), ("u1", 8)):
            eng = M.engine()
            st = eng.new_state()
            M.set_frames(st)
            e = z3.BitVec("game", w)
            known = {g: v for g, v in some.items() if v < 1 << (w - (0 if kind != "i8" else 1))}
            eng.facts.append(z3.Or(*[e == v for v in known.values()]))
            ctx.inputs, ctx.hint = {"id": e}, {"t": "personal", "fn": fn, "kind": kind}
            a = SInt(z3.ZeroExt(1, e), 0, (1 << w) - 1) if kind == "int" else SNp(kind, e)
            r = eng.call(M.function(mod(), fn), [a], {}, st)
            for c, x in alts(r):
                k = [n for n in T if x is T[n]]
                if not ctx.concrete(f"{fn}({kind}): one of the tables", len(k) == 1, type(x)):
                    continue
                games = [known[g] for g in known if want.get(g) == k[0]]
                ctx.prove(f"{fn}({kind}): table {k[0]} for its games only", z3.Implies(c, z3.Or(*[e == v for v in games])), eng.facts + [z3.Not(x[0]) for x in eng.raises])
            none = [known[g] for g in known if g not in want]
            for c, what, n in eng.raises:
                ctx.prove(f"{fn}({kind}): an error only for games without a table", z3.Implies(c, z3.Or(*[e == v for v in none])), eng.facts[:n])
            ctx.functions.update(eng.functions)
            for g, v in known.items():      # every game is decided one way
                ctx.cover(f"{fn}({kind}): {g}", [e == v])
    return f


def u_layout(mode):
    def f(ctx):
        from importlib import resources
        ctx.hint = {"t": "personal"}
        d = resources.files("numba_pokemon_prngs.resources.bin.personal")
        for k, (name, lay, _) in TABLES.items():
            t = getattr(mod(), f"PERSONAL_INFO_{k}")
            size, fields = LAYOUT[lay]
            raw = (d / f"personal_{name}").read_bytes()
            ctx.concrete(f"{k}: one record per {size} bytes of its file", t.dtype.itemsize == size and t.shape == (len(raw) // size,) and len(raw) % size == 0)
            ctx.concrete(f"{k}: the bytes of its file", t.tobytes() == raw)
            for n, (off, w) in fields.items():
                got = t.dtype.fields.get(n)
                ctx.concrete(f"{k}.{n}: {w} bytes at {off:#x}, little endian", got is not None and got[1] == off and got[0] == np.dtype(f"<u{w}"), got)
            # every record, every field against the bytes of the file
            b = np.frombuffer(raw, np.uint8).reshape(-1, size).astype(np.int64)
            for n, (off, w) in fields.items():
                v = b[:, off] + (b[:, off + 1] << 8 if w == 2 else 0)
                ctx.concrete(f"{k}.{n}: value of every record", np.array_equal(np.asarray(t[n], dtype=np.int64) if n in t.dtype.fields else None, v))
            for n, x in (BULBASAUR if k != "LA" else {}).items():      # absent from that game
                ctx.concrete(f"{k}: Bulbasaur's {n}", int(t[1][n]) == x)
    return f


def units(prop, mode="numpy"):
    return [(f"{mode} game ids", mode, u_ids(mode)), (f"{mode} get_info_table", mode, u_table(mode, "get_info_table")),
            (f"{mode} get_info_table_3", mode, u_table(mode, "get_info_table_3")), (f"{mode} record layouts", mode, u_layout(mode))]
