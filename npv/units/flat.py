"""contracts of the FlatBuffer reader and of the Legends Arceus record types (P21)

A buffer is an arbitrary memory: what struct.unpack_from reads at an address is an uninterpreted function of the address per
format (flatbuffers.encode.Get is the only library function used through a contract; flatbuffers.table.Table runs from its source).
Precondition of a read: the addresses the format prescribes lie in the buffer (below 2^32)."""
import flatbuffers
from .common import *  # noqa
from ..aexec import LogCell, KW
from ..sym import SRec, SSlice

A64 = z3.BitVecSort(64)
FORMATS = {"<?": ("bool", 8), "<B": ("u", 8), "<H": ("u", 16), "<I": ("u", 32), "<Q": ("u", 64), "<b": ("i", 8), "<h": ("i", 16), "<i": ("i", 32), "<q": ("i", 64),
           "<f": ("f", 32), "<d": ("f", 64)}
D = z3.Float64()


class Buf:
    def __getitem__(self, i): raise NotImplementedError


class Chunk:
    def decode(self, encoding="utf-8", errors="strict"): raise NotImplementedError


def mem(fmt, a):
    k, w = FORMATS[fmt]
    return z3.Function(f"mem{fmt[1:]}", A64, D if k == "f" else z3.BitVecSort(w))(a)


def z(e, w=64):
    return e if e.size() == w else z3.ZeroExt(w - e.size(), e)


def fmt_of(flags):
    return flags.packer_type.format


# ---- the format (specification)
FIELD = z3.Function("field", A64, A64, z3.BitVecSort(16))     # opaque outside the unit that proves the library against its definition
VTOK = z3.Function("vtable_inside", A64, A64, z3.BoolSort())


def field_def(pos, p):
    """address offset of the field in slot p of the table at pos, 0 if absent"""
    vt = pos - z3.SignExt(32, mem("<i", pos))
    return z3.If(z3.ULT(p, z(mem("<H", vt))), mem("<H", vt + p), BV(0, 16))


def vtok_def(pos, p):
    """what reading slot p needs of the buffer"""
    vt = pos - z3.SignExt(32, mem("<i", pos))
    top = BV(1 << 32, 64)
    return z3.And(z3.ULT(pos, top), z3.ULT(vt, top), z3.Implies(z3.ULT(p, z(mem("<H", vt))), z3.ULT(vt + p, top)))


def follow(a):
    return a + z(mem("<I", a))


class Env:
    """addresses the specification reads, to state that they lie in the buffer"""
    def __init__(self): self.addr, self.under = [], []

    def need(self, cond, c):
        self.addr.append(simp(z3.Implies(z3.And(*self.under, cond), c)))

    def touch(self, cond, *a):
        for x in a:
            self.need(cond, z3.ULT(x, BV(1 << 32, 64)))

    def slot(self, pos, p):
        self.need(z3.BoolVal(True), VTOK(pos, p))
        f = z(FIELD(pos, p))
        self.touch(f != 0, pos + f)
        return f != 0, pos + f


class Opt:
    def __init__(self, present, value, default): self.present, self.value, self.default = present, value, default


class IntV:
    def __init__(self, e, signed): self.e, self.signed = e, signed


class FloatV:
    def __init__(self, e): self.e = e


class BoolV:
    def __init__(self, e): self.e = e


class ObjV:
    """record of class cls whose table is at pos"""
    def __init__(self, cls, pos): self.cls, self.pos = cls, pos


class SeqV:
    """sequence of n elements; cases(k) -> [(condition, element)]: how its k-th element arises"""
    def __init__(self, n, at, cases=None): self.n, self.at, self.cases = n, at, cases or (lambda k: [(z3.BoolVal(True), at(k))])


class MapV:
    """dictionary of the elements of seq by key"""
    def __init__(self, seq, key): self.seq, self.key = seq, key


class EnumV:
    """the given enumeration function applied to an integer"""
    def __init__(self, v): self.v = v


class StrV:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi


def scalar(fmt, a):
    k, w = FORMATS[fmt]
    if k == "f":
        return FloatV(mem(fmt, a))
    return IntV(mem(fmt, a), k == "i") if k != "bool" else BoolV(mem(fmt, a) != 0)


def vector(env, present, a, cls):
    """vector of records of cls whose offset is stored at a"""
    v = follow(a)
    env.touch(present, a, v, v + 4)
    n = z3.If(present, z(mem("<I", v)), BV(0, 64))
    env.touch(present, v + 4 + 4 * n)

    def at(k):
        e = v + 4 + 4 * k
        env.touch(z3.And(present, z3.ULT(k, n)), e, follow(e))
        return ObjV(cls, follow(e))
    return SeqV(n, at)


# ---- record types (specification): attribute -> how it is laid out.  Slots count 2 bytes each from 4 in the vtable.
def I(slot, fmt="<i", default=None): return ("scalar", slot, fmt, default)
def F(*slots): return ("floats", slots)
def V(slot, cls): return ("vector", slot, cls)
def O(slot, cls, default=None): return ("object", slot, cls, default)
def B(slot): return ("enum_bool", slot)


SPEC = {
    "EncounterMultiplier8aTable": {"encounter_multipliers": V(0, "EncounterMultiplier8a"), "multiplier_lookup": ("map", "encounter_multipliers", ("species", "form"))},
    "EncounterMultiplier8a": {"species": I(0), "form": I(1, default=0), "time_of_day_multipliers": F(2, 3, 4, 5), "weather_multipliers": ("floats1", tuple(range(6, 14)))},
    "PokeMisc8aTable": {"misc_list": V(0, "PokeMisc8a"), "misc_lookup": ("map", "misc_list", ("species", "form"))},
    "PokeMisc8a": {"species": I(0), "form": I(1, default=0), "alpha_level_index": I(6, default=0)},
    "PlacementSpawner8aTable": {"spawners": V(0, "PlacementSpawner8a"), "spawner_table_lookup": ("map", "spawners", "spawner_id"), "spawner_by_group": ("map", "spawners", "group_id")},
    "PlacementSpawner8a": {"spawner_id": I(0, "<Q"), "group_id": I(1, "<Q"), "coordinates": ("first", 2, "PlacementParameters8a", "coordinates"), "min_spawn_count": I(7), "max_spawn_count": I(8),
                           "is_mass_outbreak": B(10), "is_water": B(11), "is_sky": B(12), "encounter_table_id": ("first", 20, "PlacementSpawner8aF20", "encounter_table_id")},
    "PlacementSpawner8aF20": {"encounter_table_id": I(0, "<Q")},
    "PlacementParameters8a": {"coordinates": O(7, "Vec3F")},
    "Vec3F": {"x": ("float", 0), "y": ("float", 1), "z": ("float", 2)},
    "EncounterTable8aTable": {"encounter_tables": V(0, "EncounterTable8a"), "encounter_table_lookup": ("map", "encounter_tables", "table_id")},
    "EncounterTable8a": {"table_id": I(0, "<Q"), "min_level": I(1), "max_level": I(2), "encounter_slots": V(3, "EncounterSlot8a")},
    "EncounterSlot8a": {"species": I(0), "gender": I(2, default=0), "form": I(3), "guaranteed_ivs": I(25), "base_probability": I(29), "override_min_level": I(30, default=0),
                        "override_max_level": I(31, default=0), "encounter_eligibility": O(45, "EncounterEligibilityTraits8a"), "is_alpha": ("alpha", 46)},
    "EncounterEligibilityTraits8a": {"time_of_day_multipliers": F(7, 8, 9, 10), "weather_multipliers": ("floats1", tuple(range(11, 19)))},
    "EncounterOybnTraits8a": {"is_alpha": ("any", (0, 1))},
    "NewHugeOutbreakGroupTable8a": {"groups": V(0, "NewHugeOutbreakGroup8a"), "group_lookup": ("map", "groups", "hash")},
    "NewHugeOutbreakGroup8a": {"hash": I(0, "<Q"), "wave_details": V(1, "NewHugeOutbreakSecondWave8a"), "first_wave_encounter_table_id": I(2, "<Q")},
    "NewHugeOutbreakSecondWave8a": {"encounter_table_id": I(7, "<Q")},
    "NewHugeOutbreakGroupLotteryTable8a": {"lottery_groups": V(0, "NewHugeOutbreakGroupLottery8a"), "lottery_group_lookup": ("map", "lottery_groups", "hash")},
    "NewHugeOutbreakGroupLottery8a": {"hash": I(0, "<Q"), "table_common": V(1, "NewHugeOutbreakGroupLotteryDetail8a"), "table_rare_1": V(2, "NewHugeOutbreakGroupLotteryDetail8a"),
                                      "table_rare_2": V(3, "NewHugeOutbreakGroupLotteryDetail8a"), "full_table": ("concat", ("table_common", "table_rare_1", "table_rare_2")),
                                      "full_table_lookup": ("map", "full_table", "hash")},
    "NewHugeOutbreakGroupLotteryDetail8a": {"hash": I(0, "<Q")},
}


def pick(c, a, b):
    return ObjV(a.cls, z3.If(c, a.pos, b.pos))


def spec(env, cls, attr, pos, present=None):
    """specified value of an attribute of the record of class cls at pos"""
    s = SPEC[cls][attr]
    P = lambda slot: BV(4 + 2 * slot, 64)
    if s[0] == "scalar":
        p, a = env.slot(pos, P(s[1]))
        return Opt(p, scalar(s[2], a), s[3])
    if s[0] == "float":
        p, a = env.slot(pos, P(s[1]))
        return Opt(p, scalar("<f", a), None)
    if s[0] in ("floats", "floats1"):
        fs = []
        for x in s[1]:
            p, a = env.slot(pos, P(x))
            fs.append(Opt(p, scalar("<f", a), 0.0))
        return ([1.0] if s[0] == "floats1" else []) + fs
    if s[0] == "enum_bool":
        p, a = env.slot(pos, P(s[1]))
        return Opt(p, BoolV(mem("<b", a) != 0), None)
    if s[0] == "any":
        ps = [env.slot(pos, P(x)) for x in s[1]]
        return BoolV(z3.Or(*[z3.And(p, mem("<b", a) != 0) for p, a in ps]))
    if s[0] == "vector":
        p, a = env.slot(pos, P(s[1]))
        return vector(env, p, a, s[2])
    if s[0] == "object":
        p, a = env.slot(pos, P(s[1]))
        env.touch(p, follow(a))
        return Opt(p, ObjV(s[2], follow(a)), s[3])
    if s[0] == "alpha":     # of the required alpha traits
        p, a = env.slot(pos, P(s[1]))
        env.touch(p, follow(a))
        env.need(z3.BoolVal(True), p)
        return spec(env, "EncounterOybnTraits8a", "is_alpha", follow(a))
    if s[0] == "first":     # of the required, nonempty vector
        p, a = env.slot(pos, P(s[1]))
        v = vector(env, p, a, s[2])
        env.need(z3.BoolVal(True), z3.And(p, v.n != 0))
        return spec(env, s[2], s[3], v.at(BV(0, 64)).pos)
    if s[0] == "concat":
        vs = [spec(env, cls, x, pos) for x in s[1]]
        r = vs[0]
        for v in vs[1:]:
            r = (lambda x, y: SeqV(x.n + y.n, lambda k: pick(z3.ULT(k, x.n), x.at(k), y.at(k - x.n)),
                                   lambda k: [(z3.And(z3.ULT(k, x.n), c), e) for c, e in x.cases(k)] + [(z3.And(z3.Not(z3.ULT(k, x.n)), c), e) for c, e in y.cases(k - x.n)]))(r, v)
        return r
    if s[0] == "map":
        return MapV(spec(env, cls, s[1], pos), s[2])
    raise KeyError(s)


# ---- specification -> engine value (what callers of a contracted callee see)
def engine_value(env, v, depth=0):
    if isinstance(v, Opt):
        env.under.append(v.present)
        x = engine_value(env, v.value, depth)
        env.under.pop()
        return merge(simp(v.present), x, v.default)
    if isinstance(v, IntV):
        w = v.e.size()
        return mk_int(z3.SignExt(1, v.e), -(1 << w - 1), (1 << w - 1) - 1) if v.signed else mk_int(z3.ZeroExt(1, v.e), 0, (1 << w) - 1)
    if isinstance(v, FloatV):
        return SFp(None, v.e)
    if isinstance(v, BoolV):
        return mk_bool(v.e)
    if isinstance(v, list):
        return tuple(engine_value(env, x, depth) for x in v)
    if isinstance(v, float) or v is None:
        return v
    if isinstance(v, ObjV):
        f = {"$cls": v.cls, "$pos": SNp("u8", v.pos)}
        for a in SPEC[v.cls] if depth < 2 else ():
            if SPEC[v.cls][a][0] in ("scalar", "float", "floats", "floats1", "enum_bool", "object", "first"):
                f[a] = engine_value(env, spec(env, v.cls, a, v.pos), depth + 1)
        return SRec(f)
    raise Unsupported(f"value of {type(v).__name__}")


# ---- comparison of what the code computed with the specification
class Cmp:
    def __init__(self, ctx, eng, st, env, exc=()): self.ctx, self.eng, self.st, self.env, self.exc = ctx, eng, st, env, list(exc)

    def hyps(self, *more):
        return self.eng.facts + self.env.addr + list(more)

    def prove(self, what, goal, *hy):
        # requires() are part of a call's precondition, stated once per unit
        sv = z3.Solver()
        sv.set("timeout", 1500)
        sv.add(*hy, z3.Not(goal))
        return self.ctx.prove(what, goal, list(hy) if sv.check() == z3.unsat else self.hyps(*hy))

    def eq(self, what, v, s, *hy):
        if isinstance(v, SUnion):
            return all([self.eq(what, x, s, c, *hy) for c, x in v.alts])
        if isinstance(s, Opt):
            if v is None or v is s.default and s.default is not None and not is_sym(v):
                if s.default is not None and v is not None:
                    return self.numeric(what, v, s, *hy)
                return self.prove(f"{what}: None only when absent", z3.Not(s.present) if s.default is None else z3.BoolVal(False), *hy)
            if s.default is None:
                self.prove(f"{what}: a value only when present", s.present, *hy)
                self.env.under.append(s.present)
                r = self.eq(what, v, s.value, s.present, *hy)
                self.env.under.pop()
                return r
            return self.numeric(what, v, s, *hy)
        if isinstance(s, (IntV, FloatV, float)):
            return self.numeric(what, v, s, *hy)
        if isinstance(s, BoolV):
            if not isinstance(v, (bool, np.bool_, SBool)):
                return self.prove(f"{what}: a bool (got {type(v).__name__})", z3.BoolVal(False), *hy)
            t = truth(v)
            return self.prove(what, (z3.BoolVal(t) if isinstance(t, bool) else t) == s.e, *hy)
        if isinstance(s, list):
            if not isinstance(v, tuple) or len(v) != len(s):
                return self.prove(f"{what}: a tuple of {len(s)}", z3.BoolVal(False), *hy)
            return all([self.eq(f"{what}[{i}]", a, b, *hy) for i, (a, b) in enumerate(zip(v, s))])
        if isinstance(s, ObjV):
            if isinstance(v, SRec) and "$pos" in v.fields:
                ok = self.prove(f"{what}: a {s.cls} (got {v.fields.get('$cls')})", z3.BoolVal(v.fields.get("$cls") == s.cls), *hy)
                return ok and self.prove(f"{what}: its position", to_bv(v.fields["$pos"], 64) == s.pos, *hy)
            c = self.st.heap.get(v.id) if isinstance(v, Ref) else None
            if not isinstance(c, ObjCell):
                return self.prove(f"{what}: a {s.cls} (got {type(v).__name__})", z3.BoolVal(False), *hy)
            ok = self.prove(f"{what}: a {s.cls} (got {c.cls.__name__})", z3.BoolVal(c.cls.__name__ == s.cls), *hy)
            return ok and self.attributes(what + ".", v, s.cls, s.pos, *hy)
        if isinstance(s, SeqV):
            c = self.st.heap.get(v.id) if isinstance(v, Ref) else None
            if isinstance(c, LogCell) and not c.items:
                return self.prove(f"{what}: empty", s.n == 0, *hy)
            if not isinstance(c, SeqCell):
                return self.prove(f"{what}: a list (got {type(v).__name__})", z3.BoolVal(False), *hy)
            self.prove(f"{what}: length", to_bv(c.n, 64) == s.n, *hy)
            k = self.eng.fresh_bv("elem", KW)
            want = s.at(z(k))
            return self.eq(f"{what}[k]", c.get(k), want, z3.ULT(z(k), s.n), *hy)
        if isinstance(s, MapV):
            if not isinstance(v, SMap):
                return self.prove(f"{what}: a dictionary (got {type(v).__name__})", z3.BoolVal(False), *hy)
            self.prove(f"{what}: one entry per element", to_bv(v.n, 64) == s.seq.n, *hy)
            ok = True
            for i, (c, e) in enumerate(s.seq.cases(z(v.k))):
                hs = (z3.ULT(z(v.k), s.seq.n), c, *hy)
                w = f"{what}: entry" + (f" of part {i}" if i else "")
                self.env.under.append(z3.And(*hs))
                ok &= self.eq(f"{w}: value", v.value, e, *hs)
                if isinstance(s.key, tuple):
                    if not isinstance(v.key, tuple) or len(v.key) != len(s.key):
                        return self.prove(f"{w}: key of {len(s.key)}", z3.BoolVal(False), *hy)
                    ok &= all([self.eq(f"{w}: key {a}", x, spec(self.env, e.cls, a, e.pos), *hs) for a, x in zip(s.key, v.key)])
                else:
                    ok &= self.eq(f"{w}: key", v.key, spec(self.env, e.cls, s.key, e.pos), *hs)
                self.env.under.pop()
            return ok
        if isinstance(s, EnumV):
            if not isinstance(v, SRec) or "$enum" not in v.fields:
                return self.prove(f"{what}: the enumeration is applied (got {type(v).__name__})", z3.BoolVal(False), *hy)
            return self.eq(what, v.fields["$enum"], s.v, *hy)
        if isinstance(s, StrV):
            if not isinstance(v, SRec) or "$lo" not in v.fields:
                return self.prove(f"{what}: a string (got {type(v).__name__})", z3.BoolVal(False), *hy)
            return self.prove(f"{what}: its bytes", z3.And(to_bv(v.fields["$lo"], 64) == s.lo, to_bv(v.fields["$hi"], 64) == s.hi), *hy)
        raise KeyError(type(s))

    def numeric(self, what, v, s, *hy):
        fl = isinstance(s, (FloatV, float)) or isinstance(s, Opt) and (isinstance(s.value, FloatV))
        if not (is_num(v) or is_float(v)) or isinstance(v, (bool, SBool)) or is_float(v) != fl:
            return self.prove(f"{what}: a {'float' if fl else 'n integer'} (got {type(v).__name__})", z3.BoolVal(False), *hy)
        if fl:
            f = lambda x: z3.FPVal(x, D) if isinstance(x, float) else x.e
            t = z3.If(s.present, f(s.value), f(s.default)) if isinstance(s, Opt) else f(s)
            return self.prove(what, to_fp(v, D) == t, *hy)
        f = lambda x: BV(x, 80) if isinstance(x, int) else (z3.SignExt(80 - x.e.size(), x.e) if x.signed else z3.ZeroExt(80 - x.e.size(), x.e))
        t = z3.If(s.present, f(s.value), f(s.default)) if isinstance(s, Opt) else f(s)
        e, lo, hi = int_view(v)
        return self.prove(what, sx(e, 80) == t if e.size() <= 80 else z3.Extract(79, 0, e) == t, *hy)

    def attributes(self, pre, ref, cls, pos, *hy):
        ok = True
        for a in SPEC[cls]:
            try:
                v = self.eng.getattr(ref, a, self.st)
            except Unsupported as ex:
                ok = self.prove(f"{pre}{a}: {ex}", z3.BoolVal(False), *hy)
                continue
            ok &= self.eq(pre + a, v, spec(self.env, cls, a, pos), *hy)
        return ok


# ---- the machine
def classes():
    import numba_pokemon_prngs.data.fbs.encounter_la as m
    import numba_pokemon_prngs.data.fbs.flatbuffer_object as f
    return {**{n: getattr(m, n) for n in SPEC if hasattr(m, n)}, "Vec3F": f.Vec3F, "FlatBufferObject": f.FlatBufferObject}


def low(e, w, memo=None):
    """Extract(w-1, 0, e), pushed through the operations that commute with truncation"""
    memo = {} if memo is None else memo
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    d, n = e.decl().kind(), e.size()
    ch = e.children()
    if n == w:
        r = e
    elif n < w:
        raise Unsupported("low bits of a shorter term")
    elif d in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
        r = low(ch[0], w, memo)
        for c in ch[1:]:
            r = r + low(c, w, memo) if d == z3.Z3_OP_BADD else r * low(c, w, memo)
    elif d == z3.Z3_OP_BSUB:
        r = low(ch[0], w, memo) - low(ch[1], w, memo)
    elif d == z3.Z3_OP_BNEG:
        r = -low(ch[0], w, memo)
    elif d == z3.Z3_OP_ITE:
        r = z3.If(ch[0], low(ch[1], w, memo), low(ch[2], w, memo))
    elif d in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        c = ch[0]
        r = low(c, w, memo) if c.size() >= w else (z3.ZeroExt if d == z3.Z3_OP_ZERO_EXT else z3.SignExt)(w - c.size(), c)
    elif d == z3.Z3_OP_CONCAT and len(ch) == 2:
        r = low(ch[1], w, memo) if ch[1].size() >= w else z3.Concat(low(ch[0], w - ch[1].size(), {}), ch[1])
    else:
        r = z3.Extract(w - 1, 0, e)
    memo[k] = (e, r)
    return r


def adr(v):
    """64-bit address of an engine integer"""
    e, lo, hi = int_view(v)
    return simp(low(e, 64) if e.size() > 64 else sx(e, 64))


def machine(ctx, arrays=True, library=True):
    """engine, state, buffer, environment"""
    M = Mode("numpy")
    eng = M.engine()
    eng.log_lists = True
    st = eng.new_state()
    M.set_frames(st)
    C = classes()
    env = Env()
    buf = eng.alloc(st, ObjCell(Buf, {}), "buf")

    def value(fmt, a):
        return mk_bool(mem(fmt, a) != 0) if FORMATS[fmt][0] == "bool" else engine_value(env, scalar(fmt, a))

    def get(e, s, args, kw):
        packer, b, head = args
        if b != buf:
            raise Unsupported("read of something else than the buffer")
        return value(packer.format, adr(head))

    def inside(e, s, *ns):
        for n in ns:
            v, lo, hi = int_view(n)
            if -(1 << 63) <= lo and hi < 1 << 63:       # then the 64-bit address decides it
                c = z3.ULT(adr(n), BV(1 << 32, 64))
            else:
                v = sx(v, v.size() + 64)
                c = z3.And(v >= 0, v < BV(1 << 32, v.size()))
            c = simp(c)
            if not z3.is_true(c):
                e.requires.append(("address inside the buffer", z3.Implies(s.g, c), len(e.facts)))

    def enforce(e, s, args, kw):
        if args[1].min_val is not None:
            v, lo, hi = int_view(args[0])
            v = sx(v, v.size() + 66)
            e.raise_if(s, z3.Not(z3.And(v >= BV(args[1].min_val, v.size()), v <= BV(args[1].max_val, v.size()))), "TypeError")

    def tpos(s, t):
        c = s.heap[t.id].fields
        if c["Bytes"] != buf:
            raise Unsupported("table over something else than the buffer")
        return c["Pos"]

    def wide(e):       # an unsigned quantity as a 64-bit term: address arithmetic then stays in one width
        return SInt(z(e), 0, (1 << 62) - 1)

    def t_offset(e, s, args, kw):
        pos, p = adr(tpos(s, args[0])), adr(args[1])
        e.requires.append(("vtable inside the buffer", z3.Implies(s.g, VTOK(pos, p)), len(e.facts)))
        return SInt(z(FIELD(pos, p)), 0, (1 << 62) - 1)

    def t_get(e, s, args, kw):
        inside(e, s, args[2])
        tpos(s, args[0])
        return value(fmt_of(args[1]), adr(args[2]))

    def t_indirect(e, s, args, kw):
        inside(e, s, args[1])
        tpos(s, args[0])
        return e.bin("Add", args[1], wide(mem("<I", adr(args[1]))), s)

    def t_vector(e, s, args, kw):
        x = e.bin("Add", args[1], tpos(s, args[0]), s)
        inside(e, s, x)
        return e.bin("Add", e.bin("Add", x, wide(mem("<I", adr(x))), s), 4, s)

    def t_vectorlen(e, s, args, kw):
        x = e.bin("Add", args[1], tpos(s, args[0]), s)
        y = e.bin("Add", x, wide(mem("<I", adr(x))), s)
        inside(e, s, x)
        return value("<I", adr(y))

    def table(e, s, args, kw):
        ref = e.alloc(s, ObjCell(flatbuffers.table.Table, {}), "table")
        e.call(flatbuffers.table.Table.__init__, [ref] + args, kw, s)
        return ref

    def slice_(e, s, args, kw):
        b, i = args
        if not isinstance(i, (SSlice, slice)) or i.step is not None or i.start is None or i.stop is None:
            raise Unsupported("byte or open slice of the buffer")
        return e.alloc(s, ObjCell(Chunk, {"lo": adr(i.start), "hi": adr(i.stop)}), "chunk")

    def decode(e, s, args, kw):
        enc = args[1] if len(args) > 1 else kw.get("encoding", "utf-8")
        if enc.lower().replace("_", "-") not in ("utf-8", "utf8"):
            return SRec({"$enc": enc})
        c = s.heap[args[0].id].fields
        return SRec({"$lo": SNp("u8", c["lo"]), "$hi": SNp("u8", c["hi"])})

    def rec(e, s, args, kw):
        """construction of a record as an element of a vector"""
        raise Unsupported("construction")
    T = flatbuffers.table.Table
    if library:
        eng.contracts.update({T.Offset: t_offset, T.Get: t_get, T.Indirect: t_indirect, T.Vector: t_vector, T.VectorLen: t_vectorlen})
    ctx.library = {"Offset": t_offset, "Get": t_get, "Indirect": t_indirect, "Vector": t_vector, "VectorLen": t_vectorlen}
    eng.contracts.update({flatbuffers.encode.Get: get, flatbuffers.number_types.enforce_number: enforce, Buf.__getitem__: slice_, Chunk.decode: decode})
    eng.class_contracts[flatbuffers.table.Table] = table
    eng.class_contracts[bytes] = lambda e, s, a, k: a[0]
    eng.class_contracts[memoryview] = lambda e, s, a, k: a[0]
    if arrays:
        def read_array(e, s, args, kw):
            a = dict(zip(("self", "_object_type", "position"), args), **kw)
            pos = position(e, s, a["self"])
            p, at = env.slot(pos, adr(a["position"]))
            v = vector(env, p, at, a["_object_type"].__name__)
            return e.alloc(s, SeqCell(SInt(v.n, 0, (1 << 62) - 1), lambda k: engine_value(env, v.at(z(k)))), "seq")
        f = C["FlatBufferObject"].__dict__.get("read_object_array")
        if f is not None:
            eng.contracts[f] = read_array
    ctx.trusted.add("flatbuffers.encode.Get: struct.unpack_from reads the little-endian value at the address (uninterpreted memory)")
    return M, eng, st, C, buf, env


def position(eng, st, ref):
    """table position of a constructed object: the Pos of its flatbuffers table"""
    for v in st.heap[ref.id].fields.values():
        if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjCell) and st.heap[v.id].cls is flatbuffers.table.Table:
            return adr(st.heap[v.id].fields["Pos"])
    raise Unsupported("object without a table")


def offset_arg(kind, name="pos"):
    e = z3.BitVec(name, 32)
    return SInt(z(e), 0, (1 << 62) - 1), z(e)


ATOMS = {}


def atoms(e):
    """the memory reads in a term (ids of its applications of uninterpreted functions)"""
    r = ATOMS.get(e.get_id())
    if r is None:
        seen, out, todo = set(), set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            k = ATOMS.get(x.get_id())
            if k is not None:
                out |= k[1]
                continue
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.get_id())
            todo += x.children()
        r = ATOMS[e.get_id()] = (e, out)
    return r[1]


def relevant(c, addr):
    a = atoms(c)
    return [x for x in addr if atoms(x) <= a]


def finish(ctx, eng, env, what, allow=None):
    seen, todo = set(), []
    for w, c, n in [("read outside the buffer", z3.Not(c), n) for _, c, n in eng.requires] + [(w, c, n) for c, w, n in eng.raises]:
        c = simp(c)
        if c.get_id() not in seen and not z3.is_false(c):
            seen.add(c.get_id())
            todo.append((c, w, n))
    addr = list({simp(a).get_id(): simp(a) for a in env.addr}.values())
    for i, (c, w, n) in enumerate(todo):
        # the slot address the read is about bounds it on its own
        near = relevant(c, addr)
        sv = z3.Solver()
        sv.set("timeout", 1000)
        sv.add(*near, c)
        ctx.prove(f"{what}: no {w} on a well-formed buffer #{i}", z3.Not(c), near if sv.check() == z3.unsat else eng.facts[:n] + addr)
    ctx.functions.update(eng.functions)


ROOTS = ("EncounterMultiplier8aTable", "PokeMisc8aTable", "PlacementSpawner8aTable", "EncounterTable8aTable", "NewHugeOutbreakGroupTable8a", "NewHugeOutbreakGroupLotteryTable8a")


def u_class(name):
    def f(ctx):
        M, eng, st, C, buf, env = machine(ctx)
        ctx.hint = {"t": "fb_record", "cls": name}
        if not ctx.concrete(f"{name} exists", name in C):
            return
        if name in ROOTS:
            pos = z(mem("<I", BV(0, 64)))
            ref = eng.call(C[name], [buf], {}, st)
        else:
            o, pos = offset_arg("int")
            ref = eng.call(C[name], [buf], {"offset": o}, st)
        Cmp(ctx, eng, st, env).attributes(f"{name}.", ref, name, pos)
        finish(ctx, eng, env, name)
    return f


class Elem:
    """some record class"""


class Stream:
    def write(self, data): raise NotImplementedError


def some_enum(value): raise NotImplementedError


def base(ctx, library=True):
    """a reader at an arbitrary table position"""
    M, eng, st, C, buf, env = machine(ctx, False, library)

    def elem(e, s, args, kw):
        a = dict(zip(("buf", "offset"), args), **kw)
        if a["buf"] != buf:
            raise Unsupported("record over something else than the buffer")
        return SRec({"$cls": "Elem", "$pos": SNp("u8", adr(a["offset"]))})
    eng.class_contracts[Elem] = elem
    eng.contracts[some_enum] = lambda e, s, args, kw: SRec({"$enum": args[0]})
    o, pos = offset_arg("int")
    ref = eng.call(C["FlatBufferObject"], [buf, o], {}, st)
    env.touch(z3.BoolVal(True), pos)
    return M, eng, st, C, buf, env, ref, pos


TYPES = {"U8": "<B", "U16": "<H", "U32": "<I", "U64": "<Q", "I8": "<b", "I16": "<h", "I32": "<i", "I64": "<q"}


def slot_arg():
    p = z3.BitVec("slot", 16)
    return SInt(z3.ZeroExt(48, p), 0, (1 << 62) - 1), z(p)


def readers():
    """(name, arguments before the position, specification of the value at slot p)"""
    import numba_pokemon_prngs.data.fbs.flatbuffer_object as m
    out = []
    for t, fmt in TYPES.items():
        for d in (None, 7):
            out.append(("int", (getattr(m, t),), {} if d is None else {"default": d}, lambda env, pos, p, fmt=fmt, d=d: (lambda q: Opt(q[0], scalar(fmt, q[1]), d))(env.slot(pos, p)), t))
        out.append(("int_enum", (getattr(m, t), bool), {}, lambda env, pos, p, fmt=fmt: (lambda q: Opt(q[0], BoolV(mem(fmt, q[1]) != 0), None))(env.slot(pos, p)), t + " bool"))
        out.append(("int_enum", (getattr(m, t), some_enum), {"default": None}, lambda env, pos, p, fmt=fmt: (lambda q: Opt(q[0], EnumV(scalar(fmt, q[1])), None))(env.slot(pos, p)), t + " enum"))
    for t, fmt in (("F32", "<f"), ("F64", "<d")):
        for d in (None, 0.5):
            out.append(("float", (getattr(m, t),), {} if d is None else {"default": d}, lambda env, pos, p, fmt=fmt, d=d: (lambda q: Opt(q[0], scalar(fmt, q[1]), d))(env.slot(pos, p)), t))

    def obj(env, pos, p, cls="Elem"):
        q = env.slot(pos, p)
        env.touch(q[0], follow(q[1]))
        return Opt(q[0], ObjV(cls, follow(q[1])), None)

    def string(env, pos, p):
        q = env.slot(pos, p)
        v = follow(q[1])
        env.touch(q[0], q[1], v, v + 4)
        n = z(mem("<I", v))
        return Opt(q[0], StrV(v + 4, v + 4 + n), None)
    out.append(("object", (Elem,), {}, obj, "record"))
    out.append(("vec3f", (), {}, lambda env, pos, p: obj(env, pos, p, "Vec3F"), "Vec3F"))
    out.append(("string", (), {}, string, "string"))
    return out


def u_read(i):
    """read_*(position): the value of that slot, or the default"""
    def f(ctx):
        name, args, kw, sp, what = readers()[i]
        M, eng, st, C, buf, env, ref, pos = base(ctx)
        ctx.hint = {"t": "fb_read", "fn": name, "what": what}
        sl, p = slot_arg()
        pa = args[:1] + (sl,) + args[1:]
        v = eng.call(M.method(C["FlatBufferObject"], f"read_{name}"), [ref, *pa], kw, st)
        Cmp(ctx, eng, st, env).eq(f"read_{name}({what})", v, sp(env, pos, p))
        finish(ctx, eng, env, f"read_{name}")
    return f


def obj_state(st, ref, seen=()):
    """the fields of an object, nested objects included"""
    c = st.heap[ref.id]
    return {k: obj_state(st, v, seen + (ref.id,)) if isinstance(v, Ref) and isinstance(st.heap.get(v.id), ObjCell) and v.id not in seen else v for k, v in c.fields.items()}


def same_state(ctx, eng, env, what, a, b):
    if not ctx.concrete(f"{what}: attributes", a.keys() == b.keys()):
        return
    for k in a:
        if isinstance(a[k], dict):
            same_state(ctx, eng, env, what, a[k], b[k])
        elif is_num(a[k]) and is_num(b[k]):
            x, y = int_view(a[k])[0], int_view(b[k])[0]
            w = max(x.size(), y.size())
            ctx.prove(f"{what}: the reader stands at the next slot", sx(x, w) == sx(y, w), eng.facts + env.addr)
        else:
            ctx.concrete(f"{what}: nothing else changes", a[k] is b[k] or a[k] == b[k])


def u_step(i):
    """read_init_*: the value of the slot the reader stands at (reached by any skipping), then the next slot; the position a skip of one slot leads to"""
    def f(ctx):
        name, args, kw, sp, what = readers()[i]
        n = z3.BitVec("skipped", 15)
        res = []
        for case in ("read", "skip", "read again"):
            M, eng, st, C, buf, env, ref, pos = base(ctx)
            ctx.hint = {"t": "fb_read", "fn": name, "what": what}
            sk = SInt(z(n), 0, (1 << 15) - 1)
            k = sk if case == "read" else eng.bin("Add", sk, 1, st)
            pad = M.method(C["FlatBufferObject"], "read_init_padding")
            if case == "read":
                eng.call(pad, [ref, sk], {}, st)
                v = eng.call(M.method(C["FlatBufferObject"], f"read_init_{name}"), [ref, *args], kw, st)
                Cmp(ctx, eng, st, env).eq(f"read_init_{name}({what})", v, sp(env, pos, z(n) * 2 + 4))
                finish(ctx, eng, env, f"read_init_{name}")
            elif case == "skip":
                eng.call(pad, [ref, k], {}, st)
            else:
                eng.call(pad, [ref, sk], {}, st)
                eng.call(pad, [ref, 1], {}, st)
            res.append((eng, env, obj_state(st, ref)))
        # the same addresses mean the same table: states compared up to the identity of the table object
        same_state(ctx, *res[0][:2], f"read_init_{name}", res[0][2], res[1][2])
        same_state(ctx, *res[2][:2], "read_init_padding", res[2][2], res[1][2])
    return f


def u_array(stepping):
    """read_object_array: one record per element of the vector, in order"""
    def f(ctx):
        M, eng, st, C, buf, env, ref, pos = base(ctx)
        ctx.hint = {"t": "fb_array"}
        eng.force_loop_rule = True
        seen = []
        sl, p = slot_arg()
        if stepping:
            n = z3.BitVec("skipped", 15)
            eng.call(M.method(C["FlatBufferObject"], "read_init_padding"), [ref, SInt(z(n), 0, (1 << 15) - 1)], {}, st)
            p = z(n) * 2 + 4
        q = env.slot(pos, p)
        seq = vector(env, q[0], q[1], "Elem")

        def hook(e, where, before, head, after, exits, k):
            logs = [i for i, c in after.heap.items() if isinstance(c, LogCell) and i in before.heap and len(c.items) != len(head.heap[i].items)]
            if not logs:
                return
            seen.append((logs, before.g))
            if not ctx.concrete("one list grows in the loop", len(logs) == 1):
                return
            i = logs[0]
            ctx.concrete("the list is empty before the loop", before.heap[i].items == [])
            for kd, s2, v in exits:
                ctx.prove("no early end of the loop", z3.Not(s2.g), e.facts + env.addr)
            want = seq.at(z(k))
            F = e.facts + env.addr
            ctx.prove("an element only while some are left", z3.Implies(after.g, z3.ULT(z(k), seq.n)), F)
            ctx.prove("the loop ends after the last one", z3.Implies(e.loop_exit.g, z(k) == seq.n), F)
            items = after.heap[i].items
            if ctx.concrete("one record per element", len(items) == 1, len(items)):
                g, it = items[0]
                ctx.prove("every element is kept", z3.Implies(after.g, g), F)
                Cmp(ctx, e, after, env).eq("element k", it, want, after.g)
            ctx.cover("an element is read", F + [after.g])
        eng.iter_hook = hook
        if stepping:
            r = eng.call(M.method(C["FlatBufferObject"], "read_init_object_array"), [ref, Elem], {}, st)
        else:
            r = eng.call(M.method(C["FlatBufferObject"], "read_object_array"), [ref, Elem, sl], {}, st)
        if not ctx.concrete("the elements are collected in one loop", len(seen) == 1, len(seen)):
            return
        ctx.prove("the loop runs when the vector is present", z3.Implies(q[0], seen[0][1]), eng.facts + env.addr)
        for c, x in alts(r):
            cell = st.heap.get(x.id) if isinstance(x, Ref) else None
            if ctx.concrete("a list is returned", isinstance(cell, LogCell) and cell.items == [], type(x)):
                ctx.prove("the list of the loop is returned when present", z3.Implies(z3.And(q[0], c), z3.BoolVal(x.id in seen[0][0])), eng.facts)
        finish(ctx, eng, env, "read_object_array")
        ctx.notes += eng.loops_used
        if stepping:
            s1 = obj_state(st, ref)
            M, eng, st, C, buf, env, ref, pos = base(ctx)
            eng.call(M.method(C["FlatBufferObject"], "read_init_padding"), [ref, SInt(z(n + 1 if False else z(n) + 1), 0, 1 << 15)], {}, st)
            same_state(ctx, eng, env, "read_init_object_array", s1, obj_state(st, ref))
    return f


def u_misc(ctx):
    """root objects, dump_binary, Vec3F.as_tuple"""
    M, eng, st, C, buf, env = machine(ctx)
    ctx.hint = {"t": "fb_record", "cls": "Vec3F"}
    wrote = []
    eng.contracts[Stream.write] = lambda e, s, args, kw: wrote.append((s.g, args[1]))
    o, pos = offset_arg("int")
    ref = eng.call(C["Vec3F"], [buf, o], {}, st)
    r = eng.call(M.method(C["Vec3F"], "as_tuple"), [ref], {}, st)
    if ctx.concrete("as_tuple: three", isinstance(r, tuple) and len(r) == 3):
        for a, x in zip("xyz", r):
            Cmp(ctx, eng, st, env).eq(f"as_tuple: {a}", x, spec(env, "Vec3F", a, pos))
    eng.call(M.method(C["Vec3F"], "dump_binary"), [ref, eng.alloc(st, ObjCell(Stream, {}), "stream")], {}, st)
    ctx.concrete("dump_binary writes the buffer once", len(wrote) == 1 and wrote[0][1] == buf and z3.is_true(simp(wrote[0][0])))
    finish(ctx, eng, env, "Vec3F")
    # the root object's table is where the first word says
    M, eng, st, C, buf, env = machine(ctx)
    ref = eng.call(C["FlatBufferObject"], [buf], {}, st)
    sl, p = slot_arg()
    root = z(mem("<I", BV(0, 64)))
    q = env.slot(root, p)
    v = eng.call(M.method(C["FlatBufferObject"], "read_int"), [ref, flatbuffers.number_types.Int32Flags, sl], {}, st)
    Cmp(ctx, eng, st, env).eq("root object: read_int", v, Opt(q[0], scalar("<i", q[1]), None))
    finish(ctx, eng, env, "root object")


def u_library(name):
    """the library's table functions, from their source, against the contracts used above"""
    def f(ctx):
        T = flatbuffers.table.Table
        got = []
        flags = [None] if name != "Get" else [getattr(flatbuffers.number_types, n) for n in ("Uint8Flags", "Uint16Flags", "Uint32Flags", "Uint64Flags", "Int8Flags", "Int16Flags",
                                                                                               "Int32Flags", "Int64Flags", "Float32Flags", "Float64Flags")]
        for fl in flags:
            for side in ("source", "contract"):
                M, eng, st, C, buf, env = machine(ctx, False, False)
                ctx.hint = {"t": "fb_read"}
                o, pos = offset_arg("int")
                a = z3.BitVec("a", 32 if name != "Offset" else 16)
                arg = SInt(z(a), 0, (1 << 62) - 1)
                t = eng.alloc(st, ObjCell(T, {"Bytes": buf, "Pos": o}), "table")
                args = [t] + ([fl] if fl else []) + [arg]
                v = eng.call(T.__dict__[name], args, {}, st) if side == "source" else ctx.library[name](eng, st, args, {})
                got.append((eng, v))
            (e1, v1), (e2, v2) = got[-2:]
            top = BV(1 << 32, 64)
            defs = [FIELD(pos, z(a)) == field_def(pos, z(a)), VTOK(pos, z(a)) == vtok_def(pos, z(a))]
            # the library checks the number it is given; the words it then adds are in the file format's hands
            if name in ("Vector", "VectorLen"):
                p2 = pos + z(a)
                defs += [z3.ULT(p2, top), z3.ULT(follow(p2), top), z3.ULT(follow(p2) + 4, top)]
            pre = [c for _, c, _ in e2.requires]
            w = f"{name}" + (f"({fl.name})" if fl else "")
            if is_float(v1):
                ctx.prove(f"Table.{w}: value", to_fp(v1, D) == to_fp(v2, D), e1.facts + e2.facts + pre + defs)
            else:
                x, y = int_view(v1)[0], int_view(v2)[0]
                m = max(x.size(), y.size())
                ctx.prove(f"Table.{w}: value", sx(x, m) == sx(y, m), e1.facts + e2.facts + pre + defs)
            for c, what, n in e1.raises:
                ctx.prove(f"Table.{w}: no {what}", z3.Not(c), e1.facts[:n] + pre + defs)
            ctx.cover(f"Table.{w}: the precondition can hold", pre + defs)
            ctx.functions.update({k: v for k, v in e1.functions.items()})
    return f


def units(prop, mode="numpy"):
    out = [(f"records {n}", "numpy", u_class(n)) for n in SPEC]
    rs = 31
    out += [(f"library {n}", "numpy", u_library(n)) for n in ("Offset", "Get", "Indirect", "Vector", "VectorLen")]
    out += [("readers: array", "numpy", u_array(False)), ("readers: array step", "numpy", u_array(True)), ("readers: misc", "numpy", u_misc)]
    out += [(f"readers: read {lo}", "numpy", several(u_read, lo, rs)) for lo in range(0, 4)]
    out += [(f"readers: step {lo}", "numpy", several(u_step, lo, rs)) for lo in range(0, 4)]
    return out


def several(u, lo, n):
    def f(ctx):
        for i in range(lo, len(readers()), 4):
            u(i)(ctx)
    return f
