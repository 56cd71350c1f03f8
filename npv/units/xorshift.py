"""contracts of the xorshift family: construction, step, inverse step, advance, bounded outputs"""
from .common import *  # noqa
from .mt import fresh_obj, old_obj, state_terms

K64 = z3.BitVecSort(64)
NAMES = ("Xorshift128", "Xoroshiro128PlusRejection", "SplitMixXoroshiro128Plus")
GOLD = 0x9E3779B97F4A7C15


def getcls(name):
    import numba_pokemon_prngs.xorshift as m
    return getattr(m, name)


def width(name):
    return 32 if name == "Xorshift128" else 64


# ---- reference functions on terms (Marsaglia; Blackman & Vigna 2016 Xoroshiro128+; SplitMix64)
def xs_next(s):
    t = s[0]
    t = t ^ (t << 11)
    t = t ^ z3.LShR(t, 8)
    t = t ^ s[3] ^ z3.LShR(s[3], 19)
    return [s[1], s[2], s[3], t]


def xo_next(s):
    a, b = s
    b = b ^ a
    return [z3.RotateLeft(a, 24) ^ b ^ (b << 16), z3.RotateLeft(b, 37)]


def step(name, s):
    return xs_next(s) if name == "Xorshift128" else xo_next(s)


def out(name, s):
    """output of the step taken from s"""
    if name == "Xorshift128":
        return xs_next(s)[3]
    r = s[0] + s[1]
    return z3.Extract(63, 32, r) if name.startswith("Split") else r


def splitmix(seed, gamma):
    z = seed + gamma
    z = (z ^ z3.LShR(z, 30)) * BV(0xBF58476D1CE4E5B9, 64)
    z = (z ^ z3.LShR(z, 27)) * BV(0x94D049BB133111EB, 64)
    return z ^ z3.LShR(z, 31)


def smear(v):
    for s in (1, 2, 4, 8, 16):
        v = v | z3.LShR(v, s)
    return v


def start(M, cls, name, ctx):
    eng = M.engine()
    st = eng.new_state()
    n, w = (4, 32) if name == "Xorshift128" else (2, 64)
    cell, xs = sym_array(n, w, "s")
    a = eng.alloc(st, cell, "arr")
    ref = eng.alloc(st, ObjCell(cls, {"state": a}), "obj")
    ctx.inputs = {"state": xs}
    return eng, st, ref, a, xs


def check_state(ctx, nm, st, ref, want, eng, w):
    got, cell = state_terms(st, ref)
    if not ctx.concrete(f"{nm}: {len(want)} words of {w} bits", len(got) == len(want) and cell.dt == dt(w)):
        return
    for i, x in enumerate(want):
        ctx.prove(f"{nm}: state[{i}]", got[i] == x, eng.facts)


def u_init(mode, name):
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        w = width(name)
        variants = {"Xorshift128": [4], "Xoroshiro128PlusRejection": [2, 1], "SplitMixXoroshiro128Plus": [1]}[name]
        for nseed in variants:
            for kind in M.kinds(w):
                eng = M.engine()
                st = eng.new_state()
                args = [M.uarg(kind, f"seed{i}", w) for i in range(nseed)]
                vals, terms = [a for a, _ in args], [t for _, t in args]
                ctx.inputs = {"seeds": terms}
                ctx.hint = {"t": "xs_init", "cls": name, "kind": kind, "old": [1] * (4 if w == 32 else 2)}
                want = [splitmix(terms[0], BV(GOLD, 64)), splitmix(terms[0], BV(2 * GOLD % 2 ** 64, 64))] if name.startswith("Split") else \
                    terms + ([BV(0x82A2B175229D6A5B, 64)] if (name, nseed) == ("Xoroshiro128PlusRejection", 1) else [])
                ref = fresh_obj(M, eng, st, cls, vals)
                nm = f"__init__({nseed} seed, {kind})"
                check_state(ctx, nm, st, ref, want, eng, w)
                ctx.engine_side(eng, nm)
                eng2 = M.engine()
                st2 = eng2.new_state()
                r2 = old_obj(M, eng2, st2, cls, st.heap[ref.id].fields, st)
                eng2.call(M.method(cls, "re_init"), [r2] + vals, {}, st2)
                nm = f"re_init({nseed} seed, {kind}) after any history"
                check_state(ctx, nm, st2, r2, want, eng2, w)
                ctx.engine_side(eng2, nm)
        if name.startswith("Split"):
            for kind in M.kinds(64):
                eng = M.engine()
                st = eng.new_state()
                (a, s), (b, g) = M.uarg(kind, "seed", 64), M.uarg(kind, "gamma", 64)
                ctx.inputs = {"seed": s, "gamma": g}
                ctx.hint = {"t": "xs_splitmix"}
                r = eng.call(M.method(cls, "splitmix"), [a, b], {}, st)
                value_is(ctx, f"splitmix({kind})", r, splitmix(s, g), eng.facts)
                ctx.engine_side(eng, f"splitmix({kind})")
    return f


def u_next(mode, name):
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        w = width(name)
        ctx.hint = {"t": "xs_next", "cls": name}
        eng, st, ref, a, xs = start(M, cls, name, ctx)
        r = eng.call(M.method(cls, "next"), [ref], {}, st)
        value_is(ctx, "next: output of the step", r, out(name, xs), eng.facts)
        check_state(ctx, "next", st, ref, step(name, xs), eng, w)
        # undo: previous after next restores the state and repeats the output
        q = eng.call(M.method(cls, "previous"), [ref], {}, st)
        value_is(ctx, "previous after next: the same output", q, out(name, xs), eng.facts)
        check_state(ctx, "previous after next restores", st, ref, xs, eng, w)
        ctx.engine_side(eng, "next; previous")
        # previous from any state: the step from the state it leaves leads back here
        eng, st, ref, a, xs = start(M, cls, name, ctx)
        q = eng.call(M.method(cls, "previous"), [ref], {}, st)
        p, _ = state_terms(st, ref)
        value_is(ctx, "previous: output of the step it undoes", q, out(name, p), eng.facts)
        for i, (x, y) in enumerate(zip(step(name, p), xs)):
            ctx.prove(f"previous: the step from the restored state leads back, word {i}", x == y, eng.facts)
        eng.call(M.method(cls, "next"), [ref], {}, st)
        check_state(ctx, "next after previous restores", st, ref, xs, eng, w)
        ctx.engine_side(eng, "previous; next")
        ctx.cover("next", eng.facts)
    return f


def u_advance(mode, name):
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        w = width(name)
        n = 4 if w == 32 else 2
        ctx.hint = {"t": "xs_advance", "cls": name}
        It = [z3.Function(f"it{i}", K64, z3.BitVecSort(w)) for i in range(n)]
        for kind in M.kinds(w):
            eng, st, ref, a, xs = start(M, cls, name, ctx)
            num, e = M.uarg(kind, "adv", w)
            ctx.inputs = {"state": xs, "adv": e}
            eng.force_loop_rule = True

            def cand(eng_, st0, loc, v0, a=a):
                if loc == ("A", a.id):
                    return [lambda k: ArrCell(dt(w), n, [SNp(dt(w), It[i](k)) for i in range(n)])]
                return []

            def facts(k, xs=xs):
                nx = step(name, [It[i](k) for i in range(n)])
                return [It[i](BV(0, 64)) == xs[i] for i in range(n)] + [It[i](k + 1) == nx[i] for i in range(n)]
            eng.loop_cands.append(cand)
            eng.loop_ghosts.append(lambda eng_, st0, facts=facts: {"facts": [facts]})
            eng.call(M.method(cls, "advance"), [ref, num], {}, st)
            nn = z3.ZeroExt(64 - w, e) if w < 64 else e
            check_state(ctx, f"advance({kind}) = step^adv", st, ref, [It[i](nn) for i in range(n)], eng, w)
            ctx.engine_side(eng, f"advance({kind})")
            ctx.cover(f"advance({kind})", eng.facts + [e == 5])
            ctx.notes += eng.loops_used
    return f


def draws(M, cls, name, eng, D):
    """next under contract: the n-th call returns draw n (any sequence), counted in the ghost field $n"""
    w = 64 if name == "Xoroshiro128PlusRejection" else 32

    def nxt(eng_, st, args, kwargs):
        c = st.heap[args[0].id]
        n = c.fields["$n"]
        st.heap[args[0].id] = ObjCell(c.cls, {**c.fields, "$n": mk_np("u8", simp(to_bv(n, 64) + 1))})
        return mk_np(dt(w), D(to_bv(n, 64)))
    eng.contracts[M.method(cls, "next")] = nxt
    return w


def u_rand(mode, name, meth):
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        w = 64 if name == "Xoroshiro128PlusRejection" else 32
        D = z3.Function("draw", K64, z3.BitVecSort(w))
        raw = D(BV(0, 64))
        for kind in M.kinds(32):
            eng = M.engine()
            draws(M, cls, name, eng, D)
            st = eng.new_state()
            ref = eng.alloc(st, ObjCell(cls, {"$n": np.uint64(0)}), "obj")
            nm = f"{meth}({kind})"
            if meth == "next_randrange":
                lo, hi = z3.BitVec("lo", 32), z3.BitVec("hi", 32)
                args = [SNp("i4", x) if kind == "np" else M.int_arg(x, -(1 << 31), (1 << 31) - 1) for x in (lo, hi)]
                eng.facts.append(lo < hi)
                want = z3.URem(raw, hi - lo) + lo
                ctx.inputs = {"lo": lo, "hi": hi}
                ctx.hint = None
            elif meth == "next_float_randrange":
                lo, hi = z3.FP("lo", z3.Float32()), z3.FP("hi", z3.Float32())
                args = [SFp("f4", lo), SFp("f4", hi)]
                ctx.inputs, ctx.hint = {}, None
                if kind == "int":
                    break
                t = z3.fpDiv(RM, z3.fpUnsignedToFP(RM, raw & BV(0x7FFFFF, 32), z3.Float32()), z3.FPVal(0x7FFFFF, z3.Float32()))
                d = lambda x: z3.fpFPToFP(RM, x, z3.Float64())
                # the interpolation is pinned to this precision by the recorded values of the test suite
                fwant = z3.fpAdd(RM, d(z3.fpMul(RM, t, lo)), z3.fpMul(RM, z3.fpSub(RM, z3.FPVal(1, z3.Float64()), d(t)), d(hi)))
            else:
                a, e = M.uarg(kind, "maximum", 32)
                args = [a]
                eng.facts.append(e != 0)
                ctx.inputs = {"maximum": e}
                ctx.hint = {"t": "xs_rand", "cls": name, "meth": meth, "state": [1, 2, 3, 4][:4 if name == "Xorshift128" else 2]}
                if meth == "next_alternate_rand":
                    want = z3.URem(z3.URem(raw, BV(0xFFFFFFFF, 32)) + BV(0x80000000, 32), e)
                elif name == "Xoroshiro128PlusRejection":
                    want = None
                else:
                    want = z3.URem(raw, e)
            ctx.cover(nm, eng.facts)
            if name == "Xoroshiro128PlusRejection":
                mask, m64 = z3.ZeroExt(32, smear(e - 1)), z3.ZeroExt(32, e)
                ANS = z3.Function("first_accepted", K64, K64)
                CNT = z3.Function("draws_until_accepted", K64, K64)
                val = lambda k: D(k) & mask
                unfold = lambda k: [ANS(k) == z3.If(z3.ULT(val(k), m64), val(k), ANS(k + 1)), CNT(k) == z3.If(z3.ULT(val(k), m64), k + 1, CNT(k + 1))]
                eng.force_loop_rule = True

                def cand(eng_, st0, loc, v0, val=val):
                    if isinstance(v0, (SNp, np.integer)) and np.dtype(type_key(v0)[1]).itemsize == 8:
                        d = np.dtype(type_key(v0)[1])
                        return [lambda k: SNp(d, val(k)), lambda k: SNp(d, D(k))]
                    return []
                eng.loop_cands.append(cand)
                eng.loop_ghosts.append(lambda eng_, st0, ANS=ANS, CNT=CNT, unfold=unfold: {
                    "facts": [unfold], "inv": [lambda k: ANS(BV(0, 64)) == ANS(k), lambda k: CNT(BV(0, 64)) == CNT(k)]})
            r = eng.call(M.method(cls, meth), [ref] + args, {}, st)
            n = st.heap[ref.id].fields["$n"]
            if name == "Xoroshiro128PlusRejection":
                z = BV(0, 64)
                value_is(ctx, f"{nm}: the first masked draw below the bound", r, ANS(z), eng.facts + unfold(z))
                value_is(ctx, f"{nm}: draws up to and including the accepted one", n, CNT(z), eng.facts + unfold(z))
                e_, lo_, hi_ = int_view(alts(r)[0][1])
                ctx.prove(f"{nm}: 0 <= result < maximum", z3.And(*[z3.Implies(c, z3.ULT(sx(int_view(x)[0], 80), z3.ZeroExt(48, e))) for c, x in alts(r)]), eng.facts)
                ctx.notes += eng.loops_used
            else:
                if meth == "next_float_randrange":
                    for c, x in alts(r):
                        ok = isinstance(x, SFp) and x.e.sort() == z3.Float64()
                        ctx.prove(f"{nm}: interpolation of the 23-bit fraction of the draw", z3.Implies(c, x.e == fwant) if ok else z3.Not(c), eng.facts)
                elif meth == "next_randrange":
                    value_is(ctx, f"{nm}: documented distribution of one draw", r, want, eng.facts)
                    ctx.prove("lemma range: minimum <= result < maximum", z3.And(lo <= want, want < hi), [lo < hi], inputs={})
                else:
                    value_is(ctx, f"{nm}: documented distribution of one draw", r, want, eng.facts)
                const_is(ctx, f"{nm}: exactly one draw", n, 1, eng.facts)
            ctx.engine_side(eng, nm)
        if meth not in ("next_float_randrange", "next_randrange"):
            x, e = z3.BitVecs("x maximum", 32)
            ctx.prove("lemma range: x mod maximum < maximum", z3.ULT(z3.URem(x, e), e), [e != 0], inputs={})
    return f


def u_mask(mode, name="Xoroshiro128PlusRejection"):
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        for kind in M.kinds(32):
            eng = M.engine()
            st = eng.new_state()
            a, e = M.uarg(kind, "maximum", 32)
            ctx.inputs = {"maximum": e}
            ctx.hint = {"t": "xs_mask"}
            r = eng.call(M.method(cls, "bit_mask"), [a], {}, st)
            value_is(ctx, f"bit_mask({kind}): smeared maximum-1", r, smear(e - 1), eng.facts)
            ctx.engine_side(eng, f"bit_mask({kind})")
        v = z3.BitVec("v", 32)
        m = smear(v)
        ctx.prove("lemma: the mask is 2^n-1 and covers v", z3.And(m & (m + 1) == 0, z3.ULE(v, m)), inputs={})
        ctx.prove("lemma: no smaller mask covers v", z3.ULE(z3.LShR(m, 1), v), inputs={})
    return f


def units(prop, mode="numpy"):
    res = []
    add = lambda n, u: res.append((f"{mode} {n}", mode, u))
    X, R, S = NAMES
    for n in NAMES:
        if prop == "step":
            add(f"{n}.__init__/re_init", u_init(mode, n))
            add(f"{n}.next/previous", u_next(mode, n))
        if prop == "rand":
            add(f"{n}.advance", u_advance(mode, n))
    if prop == "rand":
        add(f"{X}.next_rand", u_rand(mode, X, "next_rand"))
        add(f"{X}.next_randrange", u_rand(mode, X, "next_randrange"))
        add(f"{X}.next_alternate_rand", u_rand(mode, X, "next_alternate_rand"))
        add(f"{X}.next_float_randrange", u_rand(mode, X, "next_float_randrange"))
        add(f"{S}.next_rand", u_rand(mode, S, "next_rand"))
        add(f"{R}.next_rand", u_rand(mode, R, "next_rand"))
        add(f"{R}.bit_mask", u_mask(mode))
    return res
