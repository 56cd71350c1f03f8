"""contracts of the gen 3 attribute functions, stats and encounter tables (P16, P17, P18)"""
from .common import *  # noqa
from ..lcg import GENS
from ..aexec import LogCell, SeqCell
from .. import boot

z = lambda e, w: z3.ZeroExt(w - e.size(), e) if e.size() < w else e
ITE = z3.If


def um():
    import numba_pokemon_prngs.gen3.util as m
    return m


def pid_args(M):
    """a 32-bit PID in every representation the callers use"""
    e = z3.BitVec("pid", 32)
    for kind in ("np", "int", "i8"):
        if kind == "np":
            yield kind, SNp("u4", e), e
        elif kind == "int":
            yield kind, M.int_arg(z3.ZeroExt(1, e), 0, (1 << 32) - 1), e
        else:
            yield kind, SNp("i8", z3.ZeroExt(32, e)), e


def other_args(M, name, w):
    for kind in M.kinds(w):
        yield kind, *M.uarg(kind, name, w)


def sp_gender(pid, ratio):
    lo = pid & 0xFF
    return ITE(ratio == 255, BV(2, 32), ITE(ratio == 254, BV(1, 32), ITE(ratio == 0, BV(0, 32), ITE(z3.ULT(lo, z(ratio, 32)), BV(1, 32), BV(0, 32)))))


def sp_shiny(pid, tsv):
    x = z3.LShR(pid, 16) ^ (pid & 0xFFFF) ^ z(tsv, 32)
    return ITE(x == 0, BV(2, 32), ITE(z3.ULT(x, 8), BV(1, 32), BV(0, 32)))


def sp_letter(pid):
    """two low bits of each byte, most significant byte first, mod 28"""
    v = z3.Concat(*[z3.Extract(8 * i + 1, 8 * i, pid) for i in (3, 2, 1, 0)])
    return z3.URem(v, BV(28, 8))


def u_pid(mode):
    def f(ctx):
        M = Mode(mode)
        for fn, oname, ow, sp, pre in (("get_gender", "gender_ratio", 8, sp_gender, None), ("get_shiny", "tsv", 16, sp_shiny, None), ("unown_check", "form", 8, None, 28)):
            for k1, pv, pe in pid_args(M):
                for k2, ov, oe in other_args(M, oname, ow):
                    eng = M.engine()
                    st = eng.new_state()
                    ctx.inputs = {"pid": pe, oname: oe}
                    ctx.hint = {"t": "g3_pid", "fn": fn}
                    r = eng.call(M.function(um(), fn), [pv, ov], {}, st)
                    nm = f"{fn}({k1},{k2})"
                    if sp:
                        value_is(ctx, f"{nm}: the documented class of the PID", r, sp(pe, oe), eng.facts)
                    else:
                        bool_is(ctx, f"{nm}: the PID's letter is the form", r, z(sp_letter(pe), 8) == oe, eng.facts)
                    ctx.engine_side(eng, nm)
        ctx.trusted.add("specification of gender, shininess and Unown letter written from the documented formulas")
    return f


# ---- P17
ORDER = (0, 1, 2, 5, 3, 4)       # hp atk def spe spa spd -> index in (hp atk def spa spd spe)
NAT = (1, 2, 5, 3, 4)            # nature digit (atk def spe spa spd) -> stat index


def sp_nature(stat, nature, index):
    """floor of stat times 1.1, 1 or 0.9 (32-bit terms; nature, index terms or ints)"""
    i = index if isinstance(index, int) else None
    up = z3.UDiv(nature, BV(5, nature.size()))
    dn = z3.URem(nature, BV(5, nature.size()))
    eqs = lambda d: z3.Or(*[z3.And(d == k, (BV(NAT[k], 8) == index) if i is None else z3.BoolVal(NAT[k] == i)) for k in range(5)])
    u, d = eqs(up), eqs(dn)
    return ITE(z3.And(u, z3.Not(d)), z3.UDiv(stat * 11, BV(10, 32)), ITE(z3.And(d, z3.Not(u)), z3.UDiv(stat * 9, BV(10, 32)), stat))


def u_compute_stat(mode):
    def f(ctx):
        import numba_pokemon_prngs.util as m
        M = Mode(mode)
        fn = M.function(m, "compute_stat")
        for idx in range(1, 6):
            for kind in ("u2", "i8"):
                for nk in ("u1", "i8"):
                    eng = M.engine()
                    st = eng.new_state()
                    s, n = z3.BitVec("stat", 16), z3.BitVec("nature", 8)
                    eng.facts += [z3.ULT(s, 4096), z3.ULT(n, 25)]
                    ctx.inputs = {"stat": s, "nature": n}
                    ctx.hint = {"t": "g3_stat", "index": idx}
                    sv = SNp("u2", s) if kind == "u2" else SNp("i8", z(s, 64))
                    nv = SNp("u1", n) if nk == "u1" else SNp("i8", z(n, 64))
                    r = eng.call(fn, [sv, nv, idx], {}, st)
                    nm = f"compute_stat({kind},{nk},{idx})"
                    for nat in range(25):       # one multiplier per nature
                        for c, x in alts(r):
                            if not is_num(x):
                                ctx.concrete(f"{nm}: an integer", False, type(x))
                                continue
                            e, lo, hi = int_view(x)
                            got = simp(z3.substitute(sx(e, 40), (n, BV(nat, 8))))
                            want = simp(z3.substitute(z3.ZeroExt(8, sp_nature(z(s, 32), n, idx)), (n, BV(nat, 8))))
                            ctx.prove(f"{nm} nature {nat}: floor of the modified stat", z3.Implies(simp(z3.substitute(c, (n, BV(nat, 8)))), got == want), [z3.ULT(s, 4096)])
                    ctx.engine_side(eng, nm)
    return f


def record(fields, name):
    """record value with symbolic fields {field: width}"""
    es = {k: z3.BitVec(f"{name}_{k}", w) for k, w in fields.items()}
    return SRec({k: SNp(dt(fields[k]), e) for k, e in es.items()}), es


INFO = {"hp": 8, "attack": 8, "defense": 8, "special_attack": 8, "special_defense": 8, "speed": 8, "gender_ratio": 8}
STATS = ("hp", "attack", "defense", "special_attack", "special_defense", "speed")


def sp_state(pid, ivs, level, base):
    """every derived attribute, as 32-bit terms"""
    w = lambda e: z(e, 32)
    r = {"nature": z3.URem(pid, BV(25, 32))}
    hp = [w(x) for x in ivs]
    bits = lambda k: sum((((z3.LShR(hp[ORDER[i]], k) & 1) << i) for i in range(6)), BV(0, 32))
    r["hidden_power"] = z3.UDiv(bits(0) * 15, BV(63, 32))
    r["hidden_power_strength"] = 30 + z3.UDiv(bits(1) * 40, BV(63, 32))
    # characteristic: the highest IV, the first such stat counted from pid mod 6
    mx = hp[0]
    for x in hp[1:]:
        mx = ITE(z3.UGT(x, mx), x, mx)
    start = z3.URem(pid, BV(6, 32))
    ch = start
    for k in reversed(range(6)):
        i = z3.URem(start + k, BV(6, 32))
        v = hp[ORDER[5]]
        for j in range(5):
            v = ITE(i == j, hp[ORDER[j]], v)
        ch = ITE(v == mx, i, ch)
    r["characteristic"] = ch * 5 + z3.URem(mx, BV(5, 32))
    st = []
    for i, n in enumerate(STATS):
        core = z3.UDiv((2 * w(base[n]) + hp[i]) * w(level), BV(100, 32))
        st.append(core + w(level) + 10 if i == 0 else core + 5)
    return r, st


def compute_stat_contract(M, log):
    def c(eng, st, args, kw):
        s, n, i = args
        es = int_view(s)[0]
        ws = max(es.size(), 34)
        eng.requires.append(("compute_stat: 0 <= stat < 4096", z3.Implies(st.g, z3.And(sx(es, ws) >= 0, sx(es, ws) < 4096)), list(eng.facts)))
        en = int_view(n)[0]
        wn = max(en.size(), 34)
        eng.requires.append(("compute_stat: nature < 25", z3.Implies(st.g, z3.And(sx(en, wn) >= 0, sx(en, wn) < 25)), list(eng.facts)))
        if is_sym(i):
            raise Unsupported("symbolic stat index")
        i = int(i)
        eng.requires.append(("compute_stat: 1 <= index <= 5", z3.BoolVal(1 <= i <= 5), []))
        return SNp("u2", z3.Extract(15, 0, simp(sp_nature(to_bv(s, 32), z3.Extract(7, 0, to_bv(n, 32)), i))))
    return c


def u_state(mode, ctor):
    def f(ctx):
        import numba_pokemon_prngs.gen3.state as m
        import numba_pokemon_prngs.util as um_
        M = Mode(mode)
        cls = m.GeneratorState
        eng = M.engine()
        st = eng.new_state()
        cs = M.function(um_, "compute_stat")
        eng.contracts[cs] = compute_stat_contract(M, None)
        pid, level = z3.BitVec("pid", 32), z3.BitVec("level", 8)
        fields = dict(INFO)
        if ctor:
            fields.update(ability_1=8, ability_2=8)
        info, es = record(fields, "info")
        ivs = [z3.BitVec(f"iv{i}", 8) for i in range(6)]
        eng.facts += [z3.ULE(level, 100)] + [z3.ULT(x, 32) for x in ivs]
        ctx.inputs = {"pid": pid, "level": level, "ivs": ivs, "base": [es[n] for n in STATS], "gender_ratio": es["gender_ratio"]}
        ctx.hint = {"t": "g3_state"}
        iva = eng.alloc(st, ArrCell("u1", 6, [SNp("u1", x) for x in ivs]), "arr")
        if ctor:
            adv, sp, form, ab, sh = z3.BitVec("advance", 32), z3.BitVec("species", 16), z3.BitVec("form", 8), z3.BitVec("ability", 8), z3.BitVec("shiny", 8)
            ctx.inputs.update(advance=adv, species=sp, form=form, ability=ab, shiny=sh)
            ref = eng.alloc(st, ObjCell(cls, {}), "obj")
            eng.call(M.method(cls, "__init__"), [ref, SNp("u4", adv), SNp("u4", pid), SNp("u2", sp), SNp("u1", form), iva, SNp("u1", ab), SNp("u1", level), SNp("u1", sh), info], {}, st)
        else:
            stats = eng.alloc(st, ArrCell("u2", 6, [SNp("u2", z3.BitVec(f"old{i}", 16)) for i in range(6)]), "arr")
            ref = eng.alloc(st, ObjCell(cls, {"pid": SNp("u4", pid), "ivs": iva, "level": SNp("u1", level), "stats": stats}), "obj")
            eng.call(M.method(cls, "update_stats"), [ref, info], {}, st)
        nm = "GeneratorState" if ctor else "update_stats"
        F = eng.facts
        o = st.heap[ref.id].fields
        want, core = sp_state(pid, ivs, level, es)
        want["gender"] = sp_gender(pid, es["gender_ratio"])
        for k, v in want.items():
            if k not in o:
                ctx.concrete(f"{nm}: {k} is set", False)
                continue
            value_is(ctx, f"{nm}: {k}", o[k], v, F)
        sc = st.heap[o["stats"].id]
        ctx.concrete(f"{nm}: six stats", len(sc.data) == 6)
        nat = z3.Extract(7, 0, want["nature"])
        for i in range(6):
            w = core[i] if i == 0 else sp_nature(core[i], nat, i)
            value_is(ctx, f"{nm}: stat {STATS[i]}", sc.data[i], w, F)
        ic = st.heap[o["ivs"].id]
        for i in range(6):
            value_is(ctx, f"{nm}: IV {i} kept", ic.data[i], ivs[i], F)
        if ctor:
            ctx.concrete("GeneratorState: its own copy of the IVs", o["ivs"].id != iva.id)
            for k, v in (("advance", adv), ("pid", pid), ("species", sp), ("form", form), ("ability", ab), ("level", level), ("shiny", sh),
                         ("ability_index", ITE(ab == 0, es["ability_1"], es["ability_2"]))):
                value_is(ctx, f"GeneratorState: {k}", o[k], v, F)
        ctx.engine_side(eng, nm)
        ctx.cover(nm, F)
    return f


# ---- P18
AREA = (("land", 12), ("water", 5), ("rock", 5), ("fish_old", 2), ("fish_good", 3), ("fish_super", 5))
RATES = ("land_rate", "water_rate", "rock_rate", "fish_rate")
THRESH = {"land": (20, 40, 50, 60, 70, 80, 85, 90, 94, 98, 99, 100), "fish_old": (70, 100), "fish_good": (60, 80, 100), "fish_super": (40, 80, 95, 99, 100),
          "rock": (60, 90, 95, 99, 100), "water": (60, 90, 95, 99, 100)}
LEADS = {"MAGNET_PULL": 8, "STATIC": 13, "HARVEST": 11, "FLASH_FIRE": 9, "STORM_DRAIN": 10}


def am():
    import numba_pokemon_prngs.gen3.encounter_area_3 as m
    return m


def slot(name):
    return record({"min_level": 8, "max_level": 8, "species": 16}, name)


def area():
    fields, terms = {}, {}
    for k, n in AREA:
        s = [slot(f"{k}{i}") for i in range(n)]
        fields[k] = tuple(x[0] for x in s)
        terms[k] = [x[1] for x in s]
    for k in RATES:
        terms[k] = z3.BitVec(k, 8)
        fields[k] = SNp("u1", terms[k])
    terms["location"] = z3.BitVec("location", 16)
    fields["location"] = SNp("u2", terms["location"])
    return SRec(fields), terms


def group_of(enc):
    """area list used by an encounter type (a member of Encounter)"""
    return {"OLD_ROD": "fish_old", "GOOD_ROD": "fish_good", "SUPER_ROD": "fish_super", "ROCK_SMASH": "rock", "SURFING": "water"}.get(enc.name, "land")


STEP = z3.Function("PokeRNGMod_step", z3.BitVecSort(32), z3.BitVecSort(32))


def rng_obj(eng, st, M, seed):
    """PokeRNGMod under the contract of its step: next() stores and returns step(seed); what step is, is P01's"""
    from numba_pokemon_prngs.lcrng import PokeRNGMod

    def c(e, s, args, kw):
        self_, = args
        r = SNp("u4", STEP(to_bv(e.getattr(self_, "seed", s), 32)))
        e.setattr(self_, "seed", r, s)
        return r
    eng.contracts[M.method(PokeRNGMod, "next")] = c
    return eng.alloc(st, ObjCell(PokeRNGMod, {"seed": SNp("u4", seed)}), "obj")


def lstep(s):
    return STEP(s)


hi16 = lambda s: z3.LShR(s, 16)


def slot_index(group, r):
    """index of the slot a roll r (0..99) falls in"""
    t = THRESH[group]
    e = BV(len(t) - 1, 32)
    for i in reversed(range(len(t) - 1)):
        e = ITE(z3.ULT(r, t[i]), BV(i, 32), e)
    return e


def pick(terms, i, key):
    e = terms[-1][key]
    for j in reversed(range(len(terms) - 1)):
        e = ITE(i == j, terms[j][key], e)
    return e


def slot_is(ctx, nm, r, want, F):
    for c, x in alts(r):
        if not isinstance(x, SRec):
            ctx.prove(f"{nm}: a slot", z3.Not(c), F)
            continue
        for k in ("min_level", "max_level", "species"):
            value_is(ctx, f"{nm}: {k}", x.fields[k], want[k], F + [c])


def seed_of(st, ref):
    return st.heap[ref.id].fields["seed"]


def u_tables(mode):
    def f(ctx):
        ctx.hint = {"t": "g3_tables"}
        m = am()
        for name, group in (("GRASS_TABLE", "land"), ("OLD_ROD_TABLE", "fish_old"), ("GOOD_ROD_TABLE", "fish_good"), ("SUPER_ROD_TABLE", "fish_super"), ("ROCK_SMASH_AND_SURF_TABLE", "rock")):
            t = getattr(m, name)
            exp = [next(i for i, x in enumerate(THRESH[group]) if r < x) for r in range(100)]
            ctx.concrete(f"{name}: every roll in its slot", [int(x) for x in t] == exp, list(map(int, t)))
        # any increasing ranges: each entry against the definition
        M = Mode(mode)
        fn = M.function(m, "compute_table")
        for ranges in ((100,), (1, 100), (99, 100), (50, 51, 100)):
            eng = M.engine()
            st = eng.new_state()
            r = eng.call(fn, [ranges], {}, st)
            d = arr_cell(st, r).data
            exp = [next(i for i, x in enumerate(ranges) if k < x) for k in range(100)]
            ctx.concrete(f"compute_table{ranges}", [int(x) if not is_sym(x) else x for x in d] == exp)
            ctx.functions.update(eng.functions)
    return f


def u_hslot(mode):
    def f(ctx):
        from numba_pokemon_prngs.enums import Encounter
        M = Mode(mode)
        for enc in Encounter:
            eng = M.engine()
            st = eng.new_state()
            a, t = area()
            s = z3.BitVec("seed", 32)
            rng = rng_obj(eng, st, M, s)
            ctx.inputs = {"seed": s}
            ctx.hint = {"t": "g3_hslot", "encounter": enc.name}
            r = eng.call(M.function(am(), "calculate_hslot"), [a, rng, enc], {}, st)
            g = group_of(enc)
            i = slot_index(g, z3.URem(hi16(lstep(s)), BV(100, 32)))
            nm = f"calculate_hslot({enc.name})"
            slot_is(ctx, nm, r, {k: pick(t[g], i, k) for k in ("min_level", "max_level", "species")}, eng.facts)
            value_is(ctx, f"{nm}: one step of the generator", seed_of(st, rng), lstep(s), eng.facts)
            ctx.engine_side(eng, nm)
        # encounter as a small integer, as the generator stores it
        eng = M.engine()
        st = eng.new_state()
        a, t = area()
        s, ev = z3.BitVec("seed", 32), z3.BitVec("encounter", 8)
        rng = rng_obj(eng, st, M, s)
        ctx.inputs = {"seed": s}
        ctx.hint = {"t": "g3_hslot"}
        r = eng.call(M.function(am(), "calculate_hslot"), [a, rng, SNp("u1", ev)], {}, st)
        for enc in Encounter:
            g = group_of(enc)
            i = slot_index(g, z3.URem(hi16(lstep(s)), BV(100, 32)))
            slot_is(ctx, f"calculate_hslot(uint8 {enc.name})", r, {k: pick(t[g], i, k) for k in ("min_level", "max_level", "species")}, eng.facts + [ev == int(enc)])
        ctx.engine_side(eng, "calculate_hslot(uint8)")
    return f


def mod_seq(eng, st, n):
    """the list of modified slots: n entries, arbitrary"""
    U = {k: z3.Function(f"mod_{k}", z3.BitVecSort(64), z3.BitVecSort(w)) for k, w in (("min_level", 8), ("max_level", 8), ("species", 16))}
    get = lambda k: SRec({x: SNp(dt(f.range().size()), f(k)) for x, f in U.items()})
    return eng.alloc(st, SeqCell(SInt(z3.ZeroExt(1, n), 0, 12), get), "seq"), U


def u_hslot_lead(mode):
    def f(ctx):
        from numba_pokemon_prngs.enums import Encounter, Lead
        M = Mode(mode)
        for enc in (Encounter.GRASS, Encounter.ROCK_SMASH, Encounter.SURFING, Encounter.OLD_ROD, Encounter.GOOD_ROD, Encounter.SUPER_ROD):
            eng = M.engine()
            st = eng.new_state()
            a, t = area()
            s, lead, n = z3.BitVec("seed", 32), z3.BitVec("lead", 8), z3.BitVec("n_modified", 8)
            eng.facts.append(z3.ULE(n, 12))
            rng = rng_obj(eng, st, M, s)
            seq, U = mod_seq(eng, st, n)
            ctx.inputs = {"seed": s, "lead": lead, "n_modified": n}
            ctx.hint = {"t": "g3_hslot_lead", "encounter": enc.name}
            r = eng.call(M.function(am(), "calculate_hslot_lead"), [a, rng, enc, SNp("u1", lead), seq], {}, st)
            g = group_of(enc)
            typed = z3.Or(lead == int(Lead.MAGNET_PULL), lead == int(Lead.STATIC))
            s1, s2 = lstep(s), lstep(lstep(s))
            hit = z3.And(typed, z3.URem(hi16(s1), BV(2, 32)) == 0, n != 0)
            roll = z3.URem(hi16(ITE(typed, s2, s1)), BV(100, 32))
            mi = z(z3.URem(z3.Extract(15, 0, hi16(s2)), z(n, 16)), 64)
            i = slot_index(g, roll)
            nm = f"calculate_hslot_lead({enc.name})"
            slot_is(ctx, nm, r, {k: ITE(hit, U[k](mi), pick(t[g], i, k)) for k in ("min_level", "max_level", "species")}, eng.facts)
            value_is(ctx, f"{nm}: draws consumed", seed_of(st, rng), ITE(typed, s2, s1), eng.facts)
            ctx.engine_side(eng, nm)
            ctx.cover(nm, eng.facts + [hit])
    return f


def u_level(mode):
    def f(ctx):
        M = Mode(mode)
        for kind in ("py", "np", True, False):
            eng = M.engine()
            st = eng.new_state()
            sl, t = slot("slot")
            mn, mx = t["min_level"], t["max_level"]
            s, p = z3.BitVec("seed", 32), z3.Bool("pressure")
            eng.facts += [z3.ULE(mn, mx), z3.ULE(mx, 100)]
            rng = rng_obj(eng, st, M, s)
            pv = kind if isinstance(kind, bool) else SBool(p, kind == "np")
            if isinstance(kind, bool):
                p = z3.BoolVal(kind)
            ctx.inputs = {"seed": s, "min_level": mn, "max_level": mx, "pressure": p}
            ctx.hint = {"t": "g3_level"}
            r = eng.call(M.function(am(), "calculate_level"), [sl, rng, pv], {}, st)
            s1, s2 = lstep(s), lstep(lstep(s))
            rnd = z(z3.URem(z3.Extract(31, 16, s1), z(mx - mn, 16) + 1), 32)
            lvl = ITE(p, ITE(z3.URem(hi16(s2), BV(2, 32)) == 0, z(mx, 32), z(mn, 32) + ITE(rnd == 0, rnd, rnd - 1)), z(mn, 32) + rnd)
            nm = f"calculate_level({kind})"
            value_is(ctx, f"{nm}: the rolled level", r, lvl, eng.facts)
            value_is(ctx, f"{nm}: draws consumed", seed_of(st, rng), ITE(p, s2, s1), eng.facts)
            ctx.prove(f"lemma {nm}: the level is within the slot", z3.And(z3.UGE(lvl, z(mn, 32)), z3.ULE(lvl, z(mx, 32))), eng.facts)
            ctx.engine_side(eng, nm)
            ctx.cover(nm, eng.facts)
    return f


def u_rate(mode):
    def f(ctx):
        from numba_pokemon_prngs.enums import Encounter
        M = Mode(mode)
        for how in ("enum", "uint8"):
            for enc in Encounter:
                want = {"GRASS": "land_rate", "ROCK_SMASH": "rock_rate", "SURFING": "water_rate", "OLD_ROD": "fish_rate", "GOOD_ROD": "fish_rate", "SUPER_ROD": "fish_rate"}.get(enc.name)
                if want is None:
                    continue
                eng = M.engine()
                st = eng.new_state()
                a, t = area()
                ctx.hint = {"t": "g3_rate", "encounter": enc.name}
                ctx.inputs = {}
                r = eng.call(M.function(am(), "get_encounter_rate"), [a, enc if how == "enum" else np.uint8(enc)], {}, st)
                value_is(ctx, f"get_encounter_rate({how} {enc.name})", r, t[want], eng.facts)
                ctx.engine_side(eng, f"get_encounter_rate({enc.name})")
    return f


SAFARI = {"RUBY": (90, 187, 89, 186, 92, 189, 91, 188), "SAPPHIRE": (90, 187, 89, 186, 92, 189, 91, 188), "EMERALD": (73, 98, 74, 20, 97, 72), "FIRE_RED": (), "LEAF_GREEN": ()}


def u_safari(mode):
    def f(ctx):
        from numba_pokemon_prngs.enums import Game
        M = Mode(mode)
        for g, locs in SAFARI.items():
            for gv in (Game[g], np.uint8(Game[g])):
                eng = M.engine()
                st = eng.new_state()
                a, t = area()
                ctx.inputs = {"location": t["location"]}
                ctx.hint = {"t": "g3_safari", "game": g}
                r = eng.call(M.function(am(), "is_rse_safari_zone"), [a, gv], {}, st)
                bool_is(ctx, f"is_rse_safari_zone({type(gv).__name__} {g})", r, z3.Or(*[t["location"] == x for x in locs]) if locs else z3.BoolVal(False), eng.facts)
                ctx.engine_side(eng, f"is_rse_safari_zone({g})")
    return f


def info_seq(eng, st, n, fields):
    """a personal info table: n entries, arbitrary contents"""
    U = {k: z3.Function(f"info_{k}", z3.BitVecSort(64), z3.BitVecSort(w)) for k, w in fields.items()}
    get = lambda k: SRec({x: SNp(dt(f.range().size()), f(k)) for x, f in U.items()})
    return eng.alloc(st, SeqCell(n, get), "seq"), U


def u_modified(mode):
    def f(ctx):
        from numba_pokemon_prngs.enums import Encounter, Lead, Game
        M = Mode(mode)
        games = (Game.RUBY, Game.SAPPHIRE, Game.EMERALD, Game.FIRE_RED, Game.LEAF_GREEN)
        for enc in (Encounter.GRASS, Encounter.ROCK_SMASH, Encounter.SURFING, Encounter.OLD_ROD, Encounter.GOOD_ROD, Encounter.SUPER_ROD):
            for lead, game in [(x, Game.EMERALD) for x in (Lead.MAGNET_PULL, Lead.HARVEST, Lead.FLASH_FIRE, Lead.STORM_DRAIN, Lead.NONE, Lead.PRESSURE, Lead.CUTE_CHARM_F, Lead.CUTE_CHARM_M,
                               Lead.SYNCHRONIZE_HARDY, Lead.SYNCHRONIZE_QUIRKY)] + [(x, g) for x in (Lead.STATIC, Lead.MAGNET_PULL) for g in games]:
                eng = M.engine()
                eng.log_lists = True
                st = eng.new_state()
                a, t = area()
                tab, U = info_seq(eng, st, 386 + 26, {"type_1": 8, "type_2": 8})
                g = group_of(enc)
                eng.facts += [z3.ULT(x["species"] & 0x3FF, 412) for x in t[g]]
                ctx.inputs = {}
                ctx.hint = {"t": "g3_modified", "encounter": enc.name, "lead": lead.name, "game": game.name}
                r = eng.call(M.function(am(), "get_modified_slots"), [a, np.uint8(enc), np.uint8(lead), np.uint8(game), tab], {}, st)
                nm = f"get_modified_slots({enc.name}, {lead.name}, {game.name})"
                ty = LEADS.get(lead.name)
                cells = alts(r)
                exp = t[g] if ty is not None else []
                if not ctx.concrete(f"{nm}: a list", len(cells) == 1 and isinstance(cells[0][1], Ref) and isinstance(st.heap[cells[0][1].id], LogCell)):
                    continue
                items = st.heap[cells[0][1].id].items
                if ctx.concrete(f"{nm}: slots considered in order", len(items) == len(exp), len(items)):
                    for i, ((gd, v), x) in enumerate(zip(items, exp)):
                        k = z3.ZeroExt(48, x["species"] & 0x3FF)
                        ctx.prove(f"{nm}: slot {i} listed exactly when a type of its species matches", gd == z3.Or(U["type_1"](k) == ty, U["type_2"](k) == ty), eng.facts)
                        slot_is(ctx, f"{nm}: slot {i}", v, x, eng.facts)
                ctx.engine_side(eng, nm)
    return f


def units(prop, mode="numpy"):
    boot.stub_missing_resources()
    res = []
    add = lambda n, u: res.append((f"{mode} {n}", mode, lambda ctx: (boot.stub_missing_resources(), u(ctx))[1]))
    if prop == "pid":
        add("gen3.util", u_pid(mode))
    if prop == "stats":
        add("util.compute_stat", u_compute_stat(mode))
        add("State.update_stats", u_state(mode, False))
        add("GeneratorState.__init__", u_state(mode, True))
    if prop == "slots":
        add("slot tables", u_tables(mode))
        add("calculate_hslot", u_hslot(mode))
        add("calculate_hslot_lead", u_hslot_lead(mode))
        add("calculate_level", u_level(mode))
        add("get_encounter_rate", u_rate(mode))
        add("is_rse_safari_zone", u_safari(mode))
        add("get_modified_slots", u_modified(mode))
    return res
