"""contracts of the Legends Arceus encounter areas (P22)

An area is an arbitrary number n >= 1 of slots with arbitrary contents; the slot weights are
W(i) = base(i) * time multiplier(i) * weather multiplier(i) in binary64, their sum is what np.sum gives for them (an uninterpreted
constant; the contract of np.sum at the call is that it is given exactly the weights of all slots).  The walk is the recurrence
R(0) = rand * total, R(i + 1) = R(i) - W(i), NONE(i): no slot below i was taken."""
from .common import *  # noqa
from ..sym import SRec, SVec
from ..nl import abstract

I64 = z3.BitVecSort(64)
F4, F8 = z3.Float32(), z3.Float64()
RNE = z3.RNE()
BASE = z3.Function("base", I64, z3.BitVecSort(32))
TIME = z3.Function("time_multiplier", I64, I64, F4)
WEATHER = z3.Function("weather_multiplier", I64, I64, F4)
R = z3.Function("R", I64, F8)
NONE = z3.Function("none_below", I64, z3.BoolSort())
TOTAL = z3.Const("total", F8)


def mod():
    from .. import boot
    boot.stub_missing_resources()
    import numba_pokemon_prngs.data.encounter.encounter_area_la as m
    return m


def slot(k):
    u = lambda n, w: SNp(f"u{w // 8}", z3.Function(n, I64, z3.BitVecSort(w))(k))
    return SRec({"species": u("species", 16), "gender": u("gender", 8), "form": u("form", 8), "min_level": u("min_level", 8), "max_level": u("max_level", 8),
                 "guaranteed_ivs": u("guaranteed_ivs", 8), "base_probability": SNp("u4", BASE(k)), "is_alpha": u("is_alpha", 8),
                 "time_multipliers": SVec(4, lambda j: SFp("f4", TIME(k, j))), "weather_multipliers": SVec(9, lambda j: SFp("f4", WEATHER(k, j))),
                 "$index": mk_int(z3.ZeroExt(1, k), 0, (1 << 64) - 1)})


def u_calc(rand_kind, index_kind):
    def f(ctx):
        m = mod()
        M = Mode("numpy")
        eng = M.engine()
        eng.target_cands = eng.force_loop_rule = True
        st = eng.new_state()
        M.set_frames(st)
        n, t, w = z3.BitVec("n", 32), z3.BitVec("time", 8), z3.BitVec("weather", 8)
        pre = [z3.UGT(n, 0), z3.ULT(t, 4), z3.ULT(w, 9)]
        st.guard = st.guard + tuple(pre)
        N = SInt(z3.ZeroExt(1, n), 0, (1 << 32) - 1)
        n64, t64, w64 = z3.ZeroExt(32, n), z3.ZeroExt(56, t), z3.ZeroExt(56, w)
        W = z3.Function("W", I64, F8)
        if rand_kind == "f4":
            x = z3.Const("rand", F4)
            rand, r64 = SFp("f4", x), z3.fpFPToFP(RNE, x, F8)
        else:
            r64 = z3.Const("rand", F8)
            rand = SFp(None, r64)
        cast = (lambda e, b: SNp("u1", e)) if index_kind == "np" else (lambda e, b: SInt(z3.ZeroExt(1, e), 0, 255))
        slots = eng.alloc(st, SeqCell(N, slot, vec=True), "seq")
        area = eng.alloc(st, ObjCell(m.EncounterAreaLA, {"table_id": SNp("u8", z3.BitVec("table_id", 64)), "slots": slots}), "obj")

        def total(e, s, args, kw):
            c = s.heap[args[0].id] if isinstance(args[0], Ref) else None
            if not isinstance(c, SeqCell) or not c.vec or kw or len(args) != 1:
                raise Unsupported("np.sum of this argument")
            i = e.fresh_bv("i", 64)
            v = c.get(i)
            e.facts.append(W(i) == to_w(i, t64, w64))
            ok = is_float(v) and same(c.n, N)
            e.requires.append(("the sum is over the weights of all slots", z3.Implies(z3.And(s.g, z3.ULT(i, n64)), to_fp(v, F8) == W(i)) if ok else z3.BoolVal(False), len(e.facts)))
            return SFp("f8", TOTAL)
        eng.contracts[np.sum] = total
        eng.contracts[sum] = total

        def cand(e, s, loc, v0):
            return [lambda k: SFp("f8", R(k))] if isinstance(v0, SFp) else []
        eng.loop_cands.append(cand)
        eng.loop_ghosts.append(lambda e, s: {"facts": [lambda k: [
            R(BV(0, 64)) == z3.fpMul(RNE, r64, TOTAL), NONE(BV(0, 64)), W(k) == to_w(k, t64, w64), R(k + 1) == z3.fpSub(RNE, R(k), W(k)),
            NONE(k + 1) == z3.And(NONE(k), z3.Not(z3.fpLT(R(k), W(k))))]], "inv": [NONE, lambda k: z3.ULE(k, n64 - 1), lambda k: z3.ULE(k, n64)]})
        v = eng.call(M.method(m.EncounterAreaLA, "calc_slot"), [area, rand, cast(t, 3), cast(w, 8)], {}, st)
        ctx.hint = {"t": "la_slot"}
        for c, what, nf in eng.raises:
            ctx.prove(f"no {what}", z3.Implies(z3.And(*pre), z3.Not(c)), eng.facts[:nf])
        for what, c, nf in eng.requires:
            ctx.prove(what, c, eng.facts[:nf])
        for c, x in alts(v):
            if not isinstance(x, SRec) or "$index" not in x.fields:
                ctx.prove(f"the result is a slot (got {type(x).__name__})", z3.Not(c), pre + eng.facts)
                continue
            r = to_bv(x.fields["$index"], 64)
            goal = z3.And(z3.ULT(r, n64), z3.Or(z3.And(NONE(r), z3.fpLT(R(r), W(r))), z3.And(NONE(n64), r == n64 - 1)))
            ctx.prove("the result is the first slot the draw falls in, else the last", z3.Implies(c, goal), pre + eng.facts)
            for name, g in slot(r).fields.items():
                if isinstance(g, SNp):
                    value_is(ctx, f"the result's {name} is that slot's", x.fields[name], g.e, pre + eng.facts)
            ctx.cover("a slot other than the first and the last is taken", abstract(pre + eng.facts + [c, z3.UGT(r, 0), z3.ULT(r, n64 - 1)], fps=True)[0])
        ctx.functions.update(eng.functions)
        ctx.trusted.add("np.sum of an array of binary64 weights: its value is an arbitrary constant (order and rounding of the additions are numpy's)")
    return f


def u_lemma(ctx):
    """with weights and draw finite and not negative, a slot of weight zero is only ever the last resort"""
    x, y = z3.Consts("left weight", F8)
    zero = z3.FPVal(0, F8)
    ok = lambda v: z3.And(z3.Not(z3.fpIsNaN(v)), z3.Not(z3.fpIsInf(v)), z3.fpGEQ(v, zero))
    d = z3.fpSub(RNE, x, y)
    ctx.prove("what is left stays finite and not negative while no slot is taken", z3.Implies(z3.And(ok(x), ok(y), z3.Not(z3.fpLT(x, y))), z3.And(ok(d), z3.fpLEQ(d, x))))
    ctx.prove("the slot taken has a weight above zero", z3.Implies(z3.And(ok(x), ok(y), z3.fpLT(x, y)), z3.fpGT(y, zero)))


def u_init(ctx):
    m = mod()
    for kind in ("np", "int"):
        M = Mode("numpy")
        eng = M.engine()
        st = eng.new_state()
        M.set_frames(st)
        n, i = z3.BitVec("count", 32), z3.BitVec("id", 64)
        N = SNp("u8", z3.ZeroExt(32, n)) if kind == "np" else SInt(z3.ZeroExt(1, n), 0, (1 << 32) - 1)
        seen = []

        def zeros(e, s, args, kw):
            dt = kw.get("dtype", args[1] if len(args) > 1 else float)
            a = kw.get("shape", args[0] if args else None)
            a = a[0] if isinstance(a, tuple) and len(a) == 1 else a
            seen.append(a)
            e.requires.append(("the slots have the record type", z3.BoolVal(dt == m.SlotLA.dtype), 0))
            return e.alloc(s, SeqCell(a, slot, vec=True), "seq")
        eng.contracts[np.zeros] = zeros
        ctx.hint = {"t": "la_slot", "seed": 1}
        a = eng.call(m.EncounterAreaLA, [SNp("u8", i), N], {}, st)
        f = st.heap[a.id].fields
        value_is(ctx, "the table id is kept", f["table_id"], i)
        c = st.heap[f["slots"].id] if isinstance(f.get("slots"), Ref) else None
        if ctx.concrete("the slots are fresh zeros", isinstance(c, SeqCell) and len(seen) == 1, f.get("slots")):
            value_is(ctx, "as many slots as asked for", c.n, n)
        for what, g, nf in eng.requires:
            ctx.prove(what, g)
        for g, what, nf in eng.raises:
            ctx.prove(f"no {what}", z3.Not(g), eng.facts[:nf])
        ctx.functions.update(eng.functions)


def to_w(k, t, w):
    b = z3.fpSignedToFP(RNE, z3.ZeroExt(1, BASE(k)), F8)
    return z3.fpMul(RNE, z3.fpMul(RNE, b, z3.fpFPToFP(RNE, TIME(k, t), F8)), z3.fpFPToFP(RNE, WEATHER(k, w), F8))


def units(prop, mode="numpy"):
    return [(f"calc_slot ({r}, {i})", "numpy", u_calc(r, i)) for r in ("f4", "float") for i in ("int", "np")] + [("weights of zero", "numpy", u_lemma), ("constructor", "numpy", u_init)]
