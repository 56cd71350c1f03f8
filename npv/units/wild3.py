"""contract of the gen 3 wild generator (P19)

The generators are used through the contract of next(): S(b, i) is the state i steps after state b (S(b,0) = b and each
step leads from S(b,i) to S(b,i+1)); an object keeps the pair (b, i) as ghost state, its seed attribute is S(b, i).
Slots, levels, rates, safari zones and the derived attributes are used through their contracts (P16, P17, P18)."""
from .common import *  # noqa
from ..aexec import LogCell, SeqCell, fn_ast
from .. import boot
from .gen3 import sp_letter, sp_shiny, z, ITE

B32, B64, B16, B8 = (z3.BitVecSort(w) for w in (32, 64, 16, 8))
S = z3.Function("S", B32, B64, B32)
FIRST = z3.Function("index_after_accepted_pid", B32, B64, B64)
SL = {k: z3.Function(f"slot_{k}", B32, B64, z3.BitVecSort(w)) for k, w in (("min_level", 8), ("max_level", 8), ("species", 16))}
LVL = z3.Function("level", B32, B64, B8, B8, z3.BoolSort(), B8)
INFO = {k: z3.Function(f"info_{k}", B64, z3.BitVecSort(8)) for k in
        ("hp", "attack", "defense", "special_attack", "special_defense", "speed", "gender_ratio", "ability_1", "ability_2", "type_1", "type_2")}


def D(b, i):
    """i-th draw after b, 16 bits"""
    return z3.Extract(31, 16, S(b, i + 1))


def PID(b, i):
    """PID of the pair of draws i, i+1: low half first"""
    return z3.Concat(D(b, i + 1), D(b, i))


class Spec:
    """what generating from start state b must give"""

    def __init__(self, p, b):
        self.b = b
        n = BV(0, 64)
        one, two = BV(1, 64), BV(2, 64)
        smash = z3.And(p["rse"], p["rock"])
        self.skip = z3.And(smash, z3.UGE(z3.ZeroExt(16, z3.URem(D(b, n), BV(2880, 16))), z(p["rate"], 32) * 16))
        n = ITE(smash, one, n)
        self.slot_at = n
        sp16 = SL["species"](b, n)
        self.species, self.form = sp16 & 0x7FF, z3.LShR(sp16, 11)
        self.min, self.max = SL["min_level"](b, n), SL["max_level"](b, n)
        n = n + ITE(p["typed"], two, one)
        self.level = LVL(b, n, self.min, self.max, p["pressure"])
        n = n + ITE(p["pressure"], two, one)
        self.row = z3.ZeroExt(48, self.species)
        self.ratio = INFO["gender_ratio"](self.row)
        can = z3.And(z3.Or(p["charm_f"], p["charm_m"]), z3.ULT(0, self.ratio), z3.ULT(self.ratio, 254))
        self.charm = z3.And(can, z3.URem(D(b, n), BV(3, 16)) != 0)
        n = ITE(can, n + 1, n)
        n = ITE(p["safari"], n + 1, n)
        lead = z(p["lead"], 16)
        sync_hit = z3.And(p["sync"], z3.URem(D(b, n), BV(2, 16)) == 0)
        self.nature = ITE(sync_hit, lead, z3.URem(D(b, ITE(p["sync"], n + 1, n)), BV(25, 16)))
        n = ITE(z3.And(p["sync"], z3.Not(sync_hit)), n + 2, n + 1)
        self.pid_at = n
        self.p = p

    def ok(self, i):
        """the PID of draws i, i+1 is acceptable"""
        pid = PID(self.b, i)
        female = z3.ULT(pid & 0xFF, z(self.ratio, 32))
        return z3.And(z3.URem(pid, BV(25, 32)) == z(self.nature, 32),
                      z3.Implies(self.charm, ITE(self.p["charm_f"], z3.Not(female), female)),
                      z3.Implies(self.species == 201, z(sp_letter(pid), 16) == self.form))

    def unfold(self, i):
        return FIRST(self.b, i) == ITE(self.ok(i), i + 2, FIRST(self.b, i + 2))

    def outcome(self):
        b = self.b
        m = FIRST(b, self.pid_at)
        self.pid = PID(b, m - 2)
        a = ITE(self.p["method_2"], m + 1, m)
        iv1 = D(b, a)
        iv2 = D(b, ITE(self.p["method_4"], a + 2, a + 1))
        self.ivs = [iv1 & 31, z3.LShR(iv1, 5) & 31, z3.LShR(iv1, 10) & 31, z3.LShR(iv2, 5) & 31, z3.LShR(iv2, 10) & 31, iv2 & 31]
        return self


def wm():
    import numba_pokemon_prngs.gen3.wild_generator_3 as m
    return m


def ghost(st, ref):
    f = st.heap[ref.id].fields
    return to_bv(f["$b"], 32), to_bv(f["$n"], 64)


def setup_rng(eng, M):
    from numba_pokemon_prngs.lcrng import PokeRNGMod as R

    def get(e, st, ref):
        b, n = ghost(st, ref)
        if num_of(simp(n)) == 0:
            return mk_np("u4", b)
        return SNp("u4", S(b, n))

    def put(e, st, ref, v):
        c = st.heap[ref.id]
        st.heap[ref.id] = ObjCell(c.cls, {**c.fields, "$b": mk_np("u4", simp(to_bv(v, 32))), "$n": np.uint64(0)})

    def move(e, st, ref, d):
        c = st.heap[ref.id]
        st.heap[ref.id] = ObjCell(c.cls, {**c.fields, "$n": mk_np("u8", simp(ghost(st, ref)[1] + d))})
        return SNp("u4", S(*ghost(st, ref)))
    eng.virtual[R, "seed"] = (get, put)
    eng.contracts[M.method(R, "next")] = lambda e, st, a, kw: move(e, st, a[0], BV(1, 64))

    def jump(e, st, a, kw):
        d = a[1] if len(a) > 1 else kw["adv"]
        x, lo, hi = int_view(d)
        w = max(x.size(), 65)
        e.requires.append(("jump: 0 <= distance < 2^32", z3.Implies(st.g, z3.And(sx(x, w) >= 0, sx(x, w) < (1 << 32))), list(e.facts)))
        return move(e, st, a[0], z3.ZeroExt(32, to_bv(d, 32)))
    eng.contracts[M.method(R, "jump")] = jump
    return R


CLASSES = {
    "synchronize": lambda l, L: z3.ULE(l, int(L.SYNCHRONIZE_QUIRKY)),
    "cute charm F": lambda l, L: l == int(L.CUTE_CHARM_F),
    "cute charm M": lambda l, L: l == int(L.CUTE_CHARM_M),
    "magnet pull, static": lambda l, L: z3.Or(l == int(L.MAGNET_PULL), l == int(L.STATIC)),
    "pressure": lambda l, L: l == int(L.PRESSURE),
    "other": lambda l, L: z3.And(z3.UGT(l, int(L.SYNCHRONIZE_QUIRKY)), *[l != int(x) for x in (L.CUTE_CHARM_F, L.CUTE_CHARM_M, L.MAGNET_PULL, L.STATIC, L.PRESSURE)]),
}


def u_generate(mode, lclass):
    def f(ctx):
        from numba_pokemon_prngs.enums import Lead, Encounter, Method, Game
        import numba_pokemon_prngs.gen3.encounter_area_3 as ea
        import numba_pokemon_prngs.gen3.state as sm
        M = Mode(mode)
        eng = M.engine()
        eng.log_lists = True
        eng.force_loop_rule = eng.quick_valid = True
        eng.merge_cands = False
        st = eng.new_state()
        R = setup_rng(eng, M)
        cls = wm().WildGenerator3
        v8 = {k: z3.BitVec(k, 8) for k in ("method", "encounter", "game", "lead")}
        tsv, rate, safari = z3.BitVec("tsv", 16), z3.BitVec("rate", 8), z3.Bool("safari")
        seed, delay, ini, cnt = z3.BitVecs("seed delay initial count", 32)
        w = lambda e: z3.ZeroExt(2, e)
        eng.facts += [CLASSES[lclass](v8["lead"], Lead), z3.ULE(w(delay) + w(ini), 0xFFFFFFFF), z3.ULE(w(ini) + w(cnt), 0xFFFFFFFF)]
        nspecies = 2048
        tab = eng.alloc(st, SeqCell(nspecies, lambda k: SRec({n: SNp("u1", fn(k)) for n, fn in INFO.items()})), "seq")
        area = SRec({})
        mods = eng.alloc(st, SeqCell(SInt(z3.ZeroExt(1, z3.BitVec("n_modified", 8)), 0, 12), lambda k: SRec({})), "seq")
        ref = eng.alloc(st, ObjCell(cls, {**{k: SNp("u1", e) for k, e in v8.items()}, "tsv": SNp("u2", tsv), "personal_info_table": tab}), "obj")
        p = {"lead": v8["lead"], "rate": rate, "safari": safari,
             "rse": (v8["game"] & (int(Game.RUBY) | int(Game.SAPPHIRE) | int(Game.EMERALD))) != 0, "rock": v8["encounter"] == int(Encounter.ROCK_SMASH),
             "typed": z3.Or(v8["lead"] == int(Lead.MAGNET_PULL), v8["lead"] == int(Lead.STATIC)), "pressure": v8["lead"] == int(Lead.PRESSURE),
             "charm_f": v8["lead"] == int(Lead.CUTE_CHARM_F), "charm_m": v8["lead"] == int(Lead.CUTE_CHARM_M), "sync": z3.ULE(v8["lead"], int(Lead.SYNCHRONIZE_QUIRKY)),
             "method_2": v8["method"] == int(Method.METHOD_2), "method_4": v8["method"] == int(Method.METHOD_4)}
        ctx.inputs = {"seed": seed}
        ctx.hint = {"t": "g3_wild"}

        def same_arg(name, st, got, want):
            """callee argument obligations"""
            if isinstance(want, (Ref, SRec)):
                ok = got is want or (isinstance(got, Ref) and got == want)
                eng.requires.append((f"{name}", z3.BoolVal(bool(ok)), []))
            else:
                e, _, _ = int_view(got)
                n = max(e.size(), want.size() + 1)
                eng.requires.append((name, z3.Implies(st.g, sx(e, n) == z3.ZeroExt(n - want.size(), want)), list(eng.facts)))

        def args_of(fn, a, kw):
            return eng.bind(fn_ast(fn).args, a, kw, fn.__defaults__ or (), fn.__kwdefaults__, fn.__name__)

        def contract(mod, name):
            def d(h):
                fn = M.function(mod, name)

                def c(e, s, a, kw):
                    return h(s, **{k: v for k, v in args_of(fn, a, kw).items()})
                eng.contracts[fn] = c
                return h
            return d

        @contract(ea, "get_modified_slots")
        def _(s, encounter_area, encounter_type, lead, game, personal_info_table):
            for n, g, x in (("area", encounter_area, area), ("encounter", encounter_type, v8["encounter"]), ("lead", lead, v8["lead"]), ("game", game, v8["game"]), ("table", personal_info_table, tab)):
                same_arg(f"get_modified_slots: {n}", s, g, x)
            return mods

        @contract(ea, "get_encounter_rate")
        def _(s, encounter_area, encounter_type):
            same_arg("get_encounter_rate: area", s, encounter_area, area)
            same_arg("get_encounter_rate: encounter", s, encounter_type, v8["encounter"])
            return SNp("u1", rate)

        @contract(ea, "is_rse_safari_zone")
        def _(s, encounter_area, game):
            same_arg("is_rse_safari_zone: area", s, encounter_area, area)
            same_arg("is_rse_safari_zone: game", s, game, v8["game"])
            return SBool(safari)

        @contract(ea, "calculate_hslot_lead")
        def _(s, encounter_area, rng, encounter_type, lead, modified_slots):
            for n, g, x in (("area", encounter_area, area), ("encounter", encounter_type, v8["encounter"]), ("lead", lead, v8["lead"]), ("modified slots", modified_slots, mods)):
                same_arg(f"calculate_hslot_lead: {n}", s, g, x)
            b, n = ghost(s, rng)
            c = s.heap[rng.id]
            s.heap[rng.id] = ObjCell(c.cls, {**c.fields, "$n": mk_np("u8", simp(n + ITE(p["typed"], BV(2, 64), BV(1, 64))))})
            return SRec({k: SNp(dt(fn.range().size()), fn(b, n)) for k, fn in SL.items()})

        @contract(ea, "calculate_level")
        def _(s, slot, rng, pressure):
            b, n = ghost(s, rng)
            t = truth(pressure)
            t = z3.BoolVal(t) if isinstance(t, bool) else t
            c = s.heap[rng.id]
            s.heap[rng.id] = ObjCell(c.cls, {**c.fields, "$n": mk_np("u8", simp(n + ITE(t, BV(2, 64), BV(1, 64))))})
            return SNp("i8", z3.ZeroExt(56, LVL(b, n, to_bv(slot.fields["min_level"], 8), to_bv(slot.fields["max_level"], 8), t)))

        @contract(wm(), "get_shiny")
        def _(s, pid, tsv):
            return SNp("u1", z3.Extract(7, 0, sp_shiny(to_bv(pid, 32), to_bv(tsv, 16))))

        if hasattr(wm(), "unown_check"):
            @contract(wm(), "unown_check")
            def _(s, pid, form):
                e, _, hi = int_view(form)
                return SBool(sx(e, 64) == z3.ZeroExt(64 - sp_letter(to_bv(pid, 32)).size(), sp_letter(to_bv(pid, 32))))

        init = M.method(sm.GeneratorState, "__init__")

        def state_init(e, s, a, kw):
            x = args_of(init, a, kw)
            me = x.pop("self")
            ic = arr_cell(s, x["ivs"])
            x["ivs"] = tuple(ic.data)
            x.pop("$env", None)
            s.heap[me.id] = ObjCell(sm.GeneratorState, x)
            return None
        eng.contracts[init] = state_init

        def cand(e, s0, loc, v0):
            """values of a PID variable at the head of the rejection loop"""
            out = []
            if e.loop_depth > 1 and loc[0] == "L" and v0 is not UNDEF and is_num(v0) and not is_float(v0):
                d = np.dtype(type_key(v0)[1]) if isinstance(v0, (SNp, np.integer)) else np.dtype("i8")
                if d.kind in "iu" and d.itemsize >= 4:
                    for b, n in rngs(s0):
                        for off in (-2, 0):
                            out.append((lambda b, n, off, d: lambda k: SNp(d, z3.ZeroExt(d.itemsize * 8 - 32, PID(b, n + off + 2 * k)) if d.itemsize > 4 else PID(b, n + off + 2 * k)))(b, n, off, d))
            return out

        def rngs(s0):
            r = [ghost(s0, Ref(i, "obj")) for i, c in s0.heap.items() if isinstance(c, ObjCell) and "$n" in c.fields]
            return [(b, n) for b, n in r if b.decl().eq(S)]     # generators started from a state of the main one

        def ghosts(e, s0):
            facts, inv = [], []
            if e.loop_depth < 2:
                return None
            for b, n in rngs(s0):
                sp = Spec(p, b)
                for off in (-2, 0):
                    at = (lambda n, off: lambda k: n + off + 2 * k)(n, off)
                    facts.append((lambda sp, at: lambda k: [sp.unfold(at(k))])(sp, at))
                    inv.append((lambda b, at: lambda k: FIRST(b, at(BV(0, 64))) == FIRST(b, at(k)))(b, at))
            return {"facts": facts, "inv": inv}
        eng.loop_cands.append(cand)
        eng.loop_ghosts.append(ghosts)
        seen = []

        def hook(e, where, before, head, after, exits, k):
            logs = [i for i, c in (after or head).heap.items() if isinstance(c, LogCell) and i in before.heap]
            grown = [i for i in logs if len(after.heap[i].items) != len(head.heap[i].items)]
            if not grown:
                return
            seen.append((grown, where))
            ctx.concrete("one list grows in the loop", len(grown) == 1)
            i = grown[0]
            ctx.concrete("the list is empty before the loop", before.heap[i].items == [])
            for kd, s2, v in exits:
                ctx.prove("no early end of the loop", z3.Not(s2.g), e.facts)
            b = S(seed, z3.ZeroExt(32, delay) + z3.ZeroExt(32, ini) + k)
            sp = Spec(p, b).outcome()
            F = e.facts + list(after.guard)
            items = after.heap[i].items
            if not ctx.concrete("at most one state per advance", len(items) == 1, len(items)):
                return
            g, it = items[0]
            ctx.prove("a state exactly when the encounter happens", g == z3.Not(sp.skip), F)
            F = F + [g, sp.unfold(sp.pid_at)]
            F = [narrow_divisions(simp(x)) for x in F]
            if not ctx.concrete("a GeneratorState", isinstance(it, Ref) and isinstance(after.heap[it.id], ObjCell) and after.heap[it.id].cls is sm.GeneratorState):
                return
            x = after.heap[it.id].fields
            for nm, want in (("advance", z3.Extract(31, 0, z3.ZeroExt(32, ini) + k)), ("pid", sp.pid), ("species", sp.species), ("form", sp.form), ("ability", sp.pid & 1), ("level", sp.level),
                             ("shiny", sp_shiny(sp.pid, tsv))):
                value_is(ctx, f"state: {nm}", x[nm], want, F)
            for j in range(6):
                value_is(ctx, f"state: IV {j}", x["ivs"][j], sp.ivs[j], F)
            if ctx.concrete("state: species data", isinstance(x["info"], SRec)):
                for n, fn in INFO.items():
                    value_is(ctx, f"state: species data {n}", x["info"].fields[n], fn(sp.row), F)
            ctx.cover("a state is generated", F)
        eng.iter_hook = hook
        r = eng.call(M.method(cls, "generate"), [ref, SNp("u4", seed), SNp("u4", delay), SNp("u4", ini), SNp("u4", cnt), area], {}, st)
        ctx.concrete("the states are collected in one loop", len(seen) == 1, len(seen))
        ctx.concrete("the list is returned", isinstance(r, Ref) and bool(seen) and r.id in seen[0][0] and st.heap[r.id].items == [])
        ctx.engine_side(eng, "generate")
        ctx.notes += eng.loops_used
        ctx.trusted.add("termination of the PID rejection loop is not proved")
    return f


def u_charm(mode):
    def f(ctx):
        from numba_pokemon_prngs.enums import Lead
        M = Mode(mode)
        cls = wm().WildGenerator3
        pid, ratio, lead = z3.BitVec("pid", 32), z3.BitVec("gender_ratio", 8), z3.BitVec("lead", 8)
        for kind in ("u4", "i8"):
            eng = M.engine()
            st = eng.new_state()
            ctx.hint = {"t": "g3_wild"}
            ref = eng.alloc(st, ObjCell(cls, {"lead": SNp("u1", lead)}), "obj")
            r = eng.call(M.method(cls, "cute_charm_check"), [ref, SNp(kind, pid if kind == "u4" else z3.ZeroExt(32, pid)), SRec({"gender_ratio": SNp("u1", ratio)})], {}, st)
            female = z3.ULT(pid & 0xFF, z(ratio, 32))
            bool_is(ctx, f"cute_charm_check({kind}): the opposite gender of the lead", r, ITE(lead == int(Lead.CUTE_CHARM_F), z3.Not(female), female), eng.facts)
            ctx.engine_side(eng, "cute_charm_check")
    return f


def u_ctor(mode):
    def f(ctx):
        from numba_pokemon_prngs.enums import Lead, Game
        import numba_pokemon_prngs.data.personal as dp
        M = Mode(mode)
        cls = wm().WildGenerator3
        for g in ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN"):
            for kind in ("np", "int"):
                eng = M.engine()
                st = eng.new_state()
                ctx.hint = {"t": "g3_wild", "game": g}
                v = {k: z3.BitVec(k, 8) for k in ("method", "encounter", "lead")}
                tid, sid = z3.BitVec("tid", 16), z3.BitVec("sid", 16)
                a = {k: SNp("u1", e) if kind == "np" else M.int_arg(z3.ZeroExt(1, e), 0, 255) for k, e in v.items()}
                tables = []

                def table(e, s, ar, kw):
                    tables.append(ar[0])
                    return area
                area = SRec({})
                eng.contracts[M.function(dp, "get_info_table_3")] = table
                ref = eng.alloc(st, ObjCell(cls, {}), "obj")
                gm = Game[g] if kind == "int" else np.uint8(Game[g])
                eng.call(M.method(cls, "__init__"), [ref, a["method"], a["encounter"], a["lead"], gm, SNp("u2", tid), SNp("u2", sid)], {}, st)
                o = st.heap[ref.id].fields
                nm = f"WildGenerator3({kind}, {g})"
                for k in ("method", "encounter"):
                    value_is(ctx, f"{nm}: {k}", o[k], v[k], eng.facts)
                value_is(ctx, f"{nm}: a lead counts in Emerald only", o["lead"], v["lead"] if g == "EMERALD" else BV(255, 8), eng.facts)
                const_is(ctx, f"{nm}: game", o["game"], int(Game[g]), eng.facts)
                value_is(ctx, f"{nm}: trainer shiny value", o["tsv"], tid ^ sid, eng.facts)
                ctx.concrete(f"{nm}: the game's personal table", o["personal_info_table"] is area and len(tables) == 1)
                for t in tables:
                    const_is(ctx, f"{nm}: table asked for the game", t, int(Game[g]), eng.facts)
                ctx.engine_side(eng, nm)
    return f


def units(prop, mode="numpy"):
    res = []
    add = lambda n, u: res.append((f"{mode} {n}", mode, lambda ctx: (boot.stub_missing_resources(), u(ctx))[1]))
    for c in CLASSES:
        add(f"WildGenerator3.generate [{c}]", u_generate(mode, c))
    add("WildGenerator3.cute_charm_check", u_charm(mode))
    add("WildGenerator3.__init__", u_ctor(mode))
    return res
