"""contracts of the encounter tables (P25)

The loaders take one of five games or one of five map areas, and read files of the package: their inputs are finite, so each
postcondition is a closed term.  It is decided by evaluating both sides completely: the tables the package builds at import, and what
npv/encref.py decodes from the bytes of the same files with none of the package's code."""
from .common import *  # noqa
from .. import encref


def mod():
    from .. import boot
    boot.stub_missing_resources()
    import numba_pokemon_prngs.data.encounter as m
    return m


def u_gen3(ctx):
    from numba_pokemon_prngs.enums import Game
    m = mod()
    ctx.hint = {"t": "enc"}
    ctx.concrete("gen 3: one table per game", {g.name for g in m.ENCOUNTER_INFORMATION_GEN3} == {g.name for g in m.MAP_NAMES_GEN3} == set(encref.GEN3))
    for game in encref.GEN3:
        ctx.hint = {"t": "enc", "game": game}
        want = encref.gen3(game)
        for how, (names, table) in (("table", (m.MAP_NAMES_GEN3[Game[game]], m.ENCOUNTER_INFORMATION_GEN3[Game[game]])), ("load_encounter_3", m.load_encounter_3(Game[game]))):
            got = encref.gen3_got(names, table)
            ctx.concrete(f"{game} {how}: an area and a name per entry of its file", len(got) == len(want) == len(names) == len(table), (len(got), len(want)))
            for k, (w, g) in enumerate(zip(want, got)):
                ctx.concrete(f"{game} {how}: name of area {k} ({w[0] or 'dummied out'})", w[0] == g[0], (w[0], g[0]))
                for f in w[1]:
                    ctx.concrete(f"{game} {how}: {f} of area {k} ({w[0] or 'dummied out'})", w[1][f] == g[1][f], (w[1][f], g[1][f]))


def u_la(area):
    def f(ctx):
        from numba_pokemon_prngs.enums import LAArea, LATime, LAWeather
        m = mod()
        ctx.hint = {"t": "enc", "area": area}
        ctx.concrete("map areas have a table each", {a.name for a in m.ENCOUNTER_INFORMATION_LA} == set(encref.AREAS))
        ctx.concrete("columns of the time multipliers", [int(LATime[n]) for n in ("DAWN", "DAY", "DUSK", "NIGHT")] == list(range(4)) and len(LATime) == 4)
        ctx.concrete("columns of the weather multipliers", [int(LAWeather[n]) for n in ("NONE", "SUNNY", "CLOUDY", "RAIN", "SNOW", "DROUGHT", "FOG", "RAINSTORM", "SNOWSTORM")] == list(range(9))
                     and len(LAWeather) == 9)
        want = encref.la(area)
        got = encref.la_got(m.ENCOUNTER_INFORMATION_LA[LAArea[area]])
        ctx.concrete(f"{area}: the tables of its file", set(got) == set(want), len(got))
        for k in want:
            g = got.get(k)
            if not ctx.concrete(f"{area}: table {k:016x} holds as many slots as its file", g is not None and g[0] == k and len(g[1]) == len(want[k])):
                continue
            for i, (a, b) in enumerate(zip(want[k], g[1])):
                bad = {x: (a[x], b.get(x)) for x in a if a[x] != b.get(x)}
                ctx.concrete(f"{area}: table {k:016x} slot {i}", not bad and set(a) == set(b), bad)
        again = encref.la_got(m.load_encounter_tables_la(LAArea[area]))
        ctx.concrete(f"{area}: loading again gives the same tables", again == got)
        raw = [t.get(0, "<Q") for t in encref.Fb(encref.la_file(f"ha_area{encref.AREAS[area]:02d}_spawner.bin")).vec(0)]
        ctx.concrete(f"{area}: the spawners of its file", [int(s.spawner_id) for s in m.SPAWNER_INFORMATION_LA[LAArea[area]].spawners] == raw)
    return f


def units(prop, mode="numpy"):
    return [("gen 3 encounter tables", "numpy", u_gen3)] + [(f"Legends Arceus {a.lower()}", "numpy", u_la(a)) for a in encref.AREAS]
