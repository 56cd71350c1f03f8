"""contracts of the SHA-1 seed hash (P12) and of the message assembly (P13)

P12: class invariant found by Houdini over "word k of the schedule buffer holds W_k of the 16 message words" and "message word i
is a constant", established by the constructor, preserved by every setter, extended by precompute, preserved by set_time,
set_button and hash_seed.  Under it hash_seed(precompute()) is the first draw of BWRNG seeded with the first 8 digest bytes of
FIPS 180-4 SHA-1 over the 13 message words, however often time and button were changed since precompute."""
from .common import *  # noqa
from ..lcg import GENS
from ..nazo import LANGS, nazo_words

IV = (0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0)
KS = (0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xCA62C1D6)
C32 = lambda n: BV(n, 32)


def mod():
    import numba_pokemon_prngs.sha1 as m
    return m


def rotl(x, n):
    return z3.RotateLeft(x, n)


def bswap(e):
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, e) for i in range(4)])


def f_round(r, b, c, d):
    if r == 0:
        return (b & c) | (~b & d)                       # Ch
    if r == 2:
        return (b & c) ^ (b & d) ^ (c & d)              # Maj
    return b ^ c ^ d                                    # Parity


class Rounds:
    """names of the round values A_t of FIPS 180-4 over schedule words W, each with its defining equation; assignments of
    the code are proved equal to the next round value and then stand for it"""

    def __init__(self, W):
        self.A = {-1 - i: v for i, v in enumerate((C32(IV[0]), C32(IV[1]), rotl(C32(IV[2]), 2), rotl(C32(IV[3]), 2), rotl(C32(IV[4]), 2)))}
        self.W = W
        self.defn = {}
        for t in range(80):
            p = self.A
            r = t // 20
            self.A[t] = z3.BitVec(f"A{t}", 32)
            self.defn[t] = rotl(p[t - 1], 5) + f_round(r, p[t - 2], rotl(p[t - 3], 30), rotl(p[t - 4], 30)) + rotl(p[t - 5], 30) + C32(KS[r]) + W[t]
        self.t = 0
        self.queries = 0

    def hook(self, eng, st, v):
        if self.t > 79 or v.dt != dt(32):
            return v
        self.queries += 1
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(v.e != self.defn[self.t])
        if s.check() == z3.unsat:
            self.t += 1
            return SNp(v.dt, self.A[self.t - 1])
        return v

    def seed(self):
        a = self.A
        h0, h1 = a[79] + C32(IV[0]), a[78] + C32(IV[1])
        w, m, add, rev, dist = GENS["BWRNG"]
        return z3.Concat(bswap(h1), bswap(h0)) * BV(m, 64) + BV(add, 64)


def _dep():
    lin = [{(i, 0)} for i in range(16)]
    for k in range(16, 80):
        s = set()
        for j in (3, 8, 14, 16):
            s ^= lin[k - j]
        lin.append({(i, (r + 1) % 32) for i, r in s})
    return [{i for i, _ in s} for s in lin]


DEP = _dep()


class Names:
    """terms of the message words and names w_k of the schedule words with their defining equations"""

    def __init__(self, C, H=frozenset()):
        self.B = [C32(C[i]) if i in C else z3.BitVec(f"{'o' if i in H else 'w'}{i}", 32) for i in range(16)]
        self.W = list(self.B) + [z3.BitVec(f"{'o' if DEP[k] & H else 'w'}{k}", 32) for k in range(16, 80)]
        self.defn = {k: self.W[k] == rotl(self.W[k - 3] ^ self.W[k - 8] ^ self.W[k - 14] ^ self.W[k - 16], 1) for k in range(16, 80)}

    def local(self, k):
        return [self.defn[j] for j in (k, k - 3, k - 8, k - 14, k - 16, k - 6, k - 28, k - 32) if j >= 16]

    def is_word(self, k, x):
        """the value x provably equals schedule word k"""
        if type_key(x) != ("np", dt(32)):
            return False
        e = to_bv(x, 32)
        if e.eq(self.W[k]):
            return True
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(*self.local(k), e != self.W[k])
        return s.check() == z3.unsat


class Run:
    def __init__(self, ctx, M, C, V, H=frozenset(), names=None, other=None):
        self.ctx, self.M = ctx, M
        self.N = names or Names(C, H)
        eng = self.eng = M.engine()
        st = self.st = eng.new_state()
        N = self.N
        data = [SNp(dt(32), N.W[k]) if k < 16 or k in V else SNp(dt(32), z3.BitVec(f"g{k}", 32)) for k in range(80)]
        data = [np.uint32(num_of(x.e)) if num_of(x.e) is not None else x for x in data]
        self.arr = eng.alloc(st, ArrCell(dt(32), 80, data), "arr")
        self.fields = {"data": self.arr, "ds_type": SNp("u1", z3.BitVec("ds_type", 8))}
        self.fields.update(other or {})
        self.ref = eng.alloc(st, ObjCell(mod().SHA1, self.fields), "obj")

        def hook(eng, st, ref, i, x):
            if ref == self.arr and i >= 16 and N.is_word(i, x):
                return SNp(dt(32), N.W[i])
            return x
        eng.store_hook = hook

    def call(self, name, args):
        return self.eng.call(self.M.method(mod().SHA1, name), [self.ref] + list(args), {}, self.st)

    def data(self):
        c = self.st.heap[self.ref.id].fields["data"]
        return self.st.heap[c.id].data

    def post(self, C, V):
        """(C, V, changed) still holding after the call"""
        N, d = self.N, self.data()
        t = [to_bv(x, 32) for x in d]
        changed = {i for i in range(16) if not t[i].eq(N.B[i])}
        C2 = {i: v for i, v in C.items() if num_of(simp(t[i])) == v}
        V2 = {k for k in V if not (DEP[k] & changed) and N.is_word(k, d[k])}
        return C2, V2, changed


def setter_args(M, name):
    u = lambda n, w: M.uarg("np", n, w)
    if name == "set_button":
        v, e = u("button", 32)
        return [v], [], {"button": e}
    if name == "set_timer0":
        a, ea = u("timer0", 32)
        b, eb = u("vcount", 8)
        return [a, b], [z3.ULT(ea, 65536)], {"timer0": ea, "vcount": eb}
    if name == "set_date":
        y, ey = u("year", 16)
        m, em = u("month", 8)
        d, ed = u("day", 8)
        w, ew = u("day_of_week", 8)
        return [y, m, d, w], [z3.UGE(ey, 2000), z3.ULT(ey, 2100), z3.ULT(em, 13), z3.UGE(em, 1), z3.ULT(ed, 32), z3.UGE(ed, 1), z3.ULT(ew, 7)], \
            {"year": ey, "month": em, "day": ed, "day_of_week": ew}
    h, eh = u("hour", 8)
    m, em = u("minute", 8)
    s, es = u("second", 8)
    return [h, m, s], [z3.ULT(eh, 24), z3.ULT(em, 60), z3.ULT(es, 60)], {"hour": eh, "minute": em, "second": es}


SETTERS = ("set_button", "set_timer0", "set_date", "set_time")


def ctor(M, soft=True):
    eng = M.engine()
    st = eng.new_state()
    iv, il, idt = z3.BitVec("version", 32), z3.BitVec("language", 8), z3.BitVec("ds_type", 8)
    mac, vf, gx = (M.uarg("np", n, w) for n, w in (("mac", 64), ("v_frame", 8), ("gx_state", 8)))
    sr = z3.Bool("soft_reset")
    ref = eng.alloc(st, ObjCell(mod().SHA1, {}), "obj")
    eng.call(M.method(mod().SHA1, "__init__"), [ref, SNp("u4", iv), SNp("u1", il), SNp("u1", idt), mac[0], SBool(sr), vf[0], gx[0]], {}, st)
    return eng, st, ref, dict(version=iv, language=il, ds_type=idt, mac=mac[1], soft_reset=sr, v_frame=vf[1], gx_state=gx[1])


def analysis(ctx, M):
    """-> C1, V1, V2, H, other fields"""
    eng, st, ref, inp = ctor(M)
    c = st.heap[ref.id]
    if not isinstance(c.fields.get("data"), Ref):
        raise Unsupported("the message buffer `data` is not an array")
    d = st.heap[c.fields["data"].id].data
    C = {i: num_of(simp(to_bv(d[i], 32))) for i in range(16)}
    C = {i: v for i, v in C.items() if v is not None}
    V = set()
    B = [to_bv(x, 32) for x in d[:16]]
    W = list(B)
    for k in range(16, 80):
        W.append(simp(rotl(W[k - 3] ^ W[k - 8] ^ W[k - 14] ^ W[k - 16], 1)) if k < 24 else None)
    for k in range(16, 24):
        s = z3.Solver()
        s.set("timeout", 4000)
        s.add(to_bv(d[k], 32) != W[k])
        if s.check() == z3.unsat:
            V.add(k)
    other = {k: v for k, v in c.fields.items() if k not in ("data", "ds_type")}
    functions = dict(eng.functions)

    def fix(C, V, methods, H=frozenset()):
        chg = set()
        while True:
            c2, v2 = dict(C), set(V)
            chg = set()
            for m in methods:
                r = Run(ctx, M, C, V, H, other=other)
                if m == "hash_seed":
                    a = r.eng.alloc(r.st, ArrCell(dt(32), 5, [SNp(dt(32), z3.BitVec(f"al{i}", 32)) for i in range(5)]), "arr")
                    r.call(m, [a])
                elif m == "precompute":
                    r.call(m, [])
                else:
                    args, hy, _ = setter_args(M, m)
                    r.eng.facts += hy
                    r.call(m, args)
                a, b, ch = r.post(C, V)
                c2 = {i: v for i, v in c2.items() if i in a}
                v2 &= b
                functions.update(r.eng.functions)
                chg |= ch
            if c2 == C and v2 == V:
                return C, V, chg
            C, V = c2, v2
    C1, V1, _ = fix(C, V, SETTERS + ("precompute", "hash_seed"))
    # words set_time/set_button/hash_seed change
    _, _, H = fix(C1, V1, ("set_time", "set_button", "hash_seed"))
    H = frozenset(H)
    r = Run(ctx, M, C1, V1, H, other=other)
    rounds = Rounds(r.N.W)
    r.eng.assign_hook = rounds.hook
    alpha = r.call("precompute", [])
    cell = r.st.heap[alpha.id]
    cand = {k for k in range(16, 80) if not (DEP[k] & H) and r.N.is_word(k, r.data()[k])}
    _, _, ch = r.post(C1, V1)
    ctx.concrete("precompute leaves the message words alone", not ch, sorted(ch))
    ctx.engine_side(r.eng, "precompute")
    C2, V2, _ = fix(C1, cand, ("set_time", "set_button", "hash_seed"))
    ctx.functions.update(functions)
    return C1, V1, C2, V2, H, cell, other, rounds.t


def u_hash(mode):
    def f(ctx):
        M = Mode(mode)
        ctx.hint = {"t": "sha_seed"}
        C1, V1, C2, V2, H, alpha, other, t0 = analysis(ctx, M)
        ctx.notes.append(f"constant message words {sorted(C1)}; schedule words kept by the constructor {sorted(V1)}, by precompute {sorted(V2)}; words changed after precompute {sorted(H)}")
        ctx.concrete("set_time, set_button and hash_seed change only message words 9 and 12", H <= {9, 12}, sorted(H))
        r = Run(ctx, M, C2, V2, other=other)
        al = r.eng.alloc(r.st, ArrCell(alpha.dt, alpha.n, list(alpha.data)), "arr")
        before = list(alpha.data)
        rounds = Rounds(r.N.W)
        rounds.t = t0
        r.eng.assign_hook = rounds.hook
        res = r.call("hash_seed", [al])
        d = r.data()
        # the schedule buffer holds the whole schedule: each word a lemma of its own
        ctx.notes.append(f"{rounds.t} round values proved equal to FIPS 180-4's one by one")
        want = rounds.seed()
        value_is(ctx, "hash_seed(precompute()): first draw of BWRNG seeded with digest bytes 0..7", res, want, [rounds.A[k] == rounds.defn[k] for k in range(rounds.t, 80)])
        after = r.st.heap[al.id].data
        ctx.concrete("hash_seed leaves alpha as it was", all(same(x, y) for x, y in zip(before, after)))
        ctx.concrete("hash_seed leaves the message words alone", not r.post(C2, V2)[2])
        ctx.engine_side(r.eng, "hash_seed")
        ctx.cover("state", [r.N.defn[k] for k in range(16, 40)])
    return f


def u_schedule(mode):
    """the 1-step and the 2-step recursion agree: lemma used by the store hook, for every word"""
    def f(ctx):
        M = Mode(mode)
        ctx.hint = {"t": "sha_seed"}
        for meth, lo in (("calc_w", 16), ("calc_w_simd", 32)):
            if not any(meth in c.__dict__ for c in mod().SHA1.__mro__) and not M.numba:
                continue
            for k in range(lo, 80):
                r = Run(ctx, M, {}, set(range(16, k)))
                r.eng.store_hook = None
                for kind in ("np", "int"):
                    v = np.uint32(k) if kind == "np" else k
                    res = r.call(meth, [v])
                    x = r.data()[k]
                    ctx.prove(f"{meth}({kind} {k}): data[{k}] is W_{k}", to_bv(x, 32) == r.N.W[k], r.N.local(k))
                    if kind == "np":
                        ctx.concrete(f"{meth}({k}): other words alone", all(same(y, (SNp(dt(32), r.N.W[j]) if j < k else SNp(dt(32), z3.BitVec(f'g{j}', 32)))) for j, y in enumerate(r.data()) if j != k))
                ctx.engine_side(r.eng, f"{meth}({k})")
    return f


def u_sections(mode):
    def f(ctx):
        M = Mode(mode)
        ctx.hint = {"t": "sha_seed"}
        for s in range(4):
            if not hasattr(mod(), f"section{s + 1}_calc"):
                continue
            fn = M.function(mod(), f"section{s + 1}_calc")
            eng = M.engine()
            st = eng.new_state()
            xs = [z3.BitVec(n, 32) for n in "abcdew"]
            r = eng.call(fn, [SNp(dt(32), x) for x in xs], {}, st)
            a, b, c, d, e, w = xs
            r = eng.unpack(r, 2, st)
            value_is(ctx, f"section{s + 1}_calc: the round value of FIPS 180-4", r[0], rotl(a, 5) + f_round(s, b, c, d) + e + C32(KS[s]) + w, [])
            value_is(ctx, f"section{s + 1}_calc: b rotated left by 30", r[1], rotl(b, 30), [])
            ctx.engine_side(eng, f"section{s + 1}_calc")
    return f


# ---- P13
def bcd(e):
    t = z3.UDiv(e, BV(10, e.size()))
    return (t << 4) | z3.URem(e, BV(10, e.size()))


def spec_words(name, x):
    z = lambda e: z3.ZeroExt(32 - e.size(), e) if e.size() < 32 else e
    if name == "set_button":
        return {12: x["button"]}
    if name == "set_timer0":
        return {5: bswap((z(x["vcount"]) << 16) | x["timer0"])}
    if name == "set_date":
        y = z(x["year"]) - 2000
        return {8: (bcd(y) << 24) | (bcd(z(x["month"])) << 16) | (bcd(z(x["day"])) << 8) | z(x["day_of_week"])}
    h = z(x["hour"])
    pm = z3.And(z3.UGE(h, 12), z3.BitVec("ds_type", 8) != 2)
    return {9: ((bcd(h) + z3.If(pm, C32(0x40), C32(0))) << 24) | (bcd(z(x["minute"])) << 16) | (bcd(z(x["second"])) << 8)}


def u_setters(mode):
    def f(ctx):
        M = Mode(mode)
        for name in SETTERS:
            for kind in ("np", "int"):
                r = Run(ctx, M, {}, set())
                args, hy, inp = setter_args(M, name)
                if kind == "int":
                    args = [M.uarg("int", n, e.size())[0] for n, e in inp.items()]
                r.eng.facts += hy
                ctx.inputs = dict(inp, ds_type=z3.BitVec("ds_type", 8))
                ctx.hint = {"t": "sha_set", "fn": name}
                r.call(name, args)
                want = spec_words(name, inp)
                d = r.data()
                for k, v in want.items():
                    value_is(ctx, f"{name}({kind}): message word {k}", d[k], v, r.eng.facts)
                for k in range(16):
                    if k not in want:
                        ctx.prove(f"{name}({kind}): message word {k} unchanged", to_bv(d[k], 32) == r.N.W[k], r.eng.facts)
                value_is(ctx, f"{name}({kind}): console kept", r.st.heap[r.ref.id].fields["ds_type"], z3.BitVec("ds_type", 8), r.eng.facts)
                ctx.engine_side(r.eng, f"{name}({kind})")
                ctx.cover(f"{name}({kind})", r.eng.facts)
    return f


def u_nazo(mode):
    def f(ctx):
        M = Mode(mode)
        from numba_pokemon_prngs.enums import Game, Language, DSType
        ctx.hint = {"t": "sha_nazo"}
        # the two constructions, for every pointer
        for name, n in (("compute_nazo_bw", 1), ("compute_nazo_bw2", 3)):
            fn = M.function(mod(), name)
            for kind in M.kinds(32):
                eng = M.engine()
                st = eng.new_state()
                a = [M.uarg(kind, f"n{i}", 32) for i in range(n)]
                r = eng.call(fn, [x[0] for x in a], {}, st)
                d = arr_cell(st, r).data
                p = [x[1] for x in a]
                want = [p[0], p[0] + 0xFC, p[0] + 0xFC, p[0] + 0x148, p[0] + 0x148] if n == 1 else [p[1], p[2], p[0], p[0] + 0x54, p[0] + 0x54]
                ctx.concrete(f"{name}({kind}): five words", len(d) == 5)
                for i, w in enumerate(want):
                    value_is(ctx, f"{name}({kind}): word {i}", d[i], bswap(w), eng.facts)
                ctx.engine_side(eng, f"{name}({kind})")
        games = (Game.BLACK, Game.WHITE, Game.BLACK2, Game.WHITE2)
        for lang in LANGS:
            for gi, g in enumerate(games):
                for ds in DSType:
                    eng = M.engine()
                    st = eng.new_state()
                    r = eng.call(M.function(mod(), "get_nazo"), [g, Language[lang], ds], {}, st)
                    ctx.functions.update(eng.functions)
                    got = [int(x) for x in (st.heap[r.id].data if isinstance(r, Ref) else r)]
                    ctx.hint = {"t": "sha_nazo", "lang": lang, "game": g.name, "ds": ds.name}
                    ctx.concrete(f"get_nazo({g.name}, {lang}, {ds.name})", got == nazo_words(lang, gi, 0 if ds == DSType.DS else 1), got)
    return f


def u_ctor(mode):
    def f(ctx):
        M = Mode(mode)
        from numba_pokemon_prngs.enums import Game, Language, DSType
        ctx.hint = {"t": "sha_ctor"}
        eng, st, ref, x = ctor(M)
        ctx.inputs = x
        c = st.heap[ref.id]
        d = st.heap[c.fields["data"].id].data
        F = list(eng.facts)
        ctx.concrete("80-word schedule buffer of 32-bit words", len(d) == 80 and st.heap[c.fields["data"].id].dt == dt(32))
        lo = lambda h, l: z3.Extract(h, l, x["mac"])
        mac32 = lambda h, l: z3.ZeroExt(32 - (h - l + 1), lo(h, l))
        value_is(ctx, "word 6: low 16 bits of the MAC, soft reset flag", d[6], mac32(15, 0) ^ z3.If(x["soft_reset"], C32(0x1000000), C32(0)), F)
        value_is(ctx, "word 7: middle 32 bits of the MAC, VFrame, GxStat", d[7], lo(47, 16) ^ (z3.ZeroExt(24, x["v_frame"]) << 24) ^ z3.ZeroExt(24, x["gx_state"]), F)
        for i, v in ((10, 0), (11, 0), (13, 0x80000000), (14, 0), (15, 0x1A0)):
            const_is(ctx, f"word {i}: SHA-1 padding", d[i], v, F)
        value_is(ctx, "console kept", c.fields["ds_type"], x["ds_type"], F)
        for lang in LANGS:
            for gi, g in enumerate((Game.BLACK, Game.WHITE, Game.BLACK2, Game.WHITE2)):
                for ds in DSType:
                    w = nazo_words(lang, gi, 0 if ds == DSType.DS else 1)
                    hy = [x["version"] == int(g), x["language"] == int(Language[lang]), x["ds_type"] == int(ds)]
                    ctx.prove(f"words 0..4 for {g.name} {lang} {ds.name}", z3.And(*[to_bv(d[i], 32) == w[i] for i in range(5)]), F + hy)
        ctx.engine_side(eng, "__init__")
    return f


def units(prop="hash", mode="numpy"):
    res = []
    add = lambda n, u: res.append((f"{mode} {n}", mode, u))
    if prop == "hash":
        add("SHA1.hash_seed and precompute", u_hash(mode))
        add("SHA1 schedule", u_schedule(mode))
        add("SHA1 rounds", u_sections(mode))
    if prop == "message":
        add("SHA1 setters", u_setters(mode))
        add("SHA1 nazos", u_nazo(mode))
        add("SHA1 constructor", u_ctor(mode))
    return res
