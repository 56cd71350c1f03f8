"""LCRNG contracts (numpy mode): construction, next, next_u16/u32, next_rand, jump, advance, const_jump, const_rand"""
import numpy as np
import z3
from ..sym import *  # noqa
from ..aexec import Engine, ObjCell, Closure
from ..lcg import GENS, Lcg, lemmas, exponent, pair_exponent, aff, NotIterate

SKIP = "not offered"


def dt(w):
    return np.dtype(f"u{w // 8}")


def forward(name):
    w, m, a, rev, dist = GENS[name]
    return Lcg(w, m, a)


def spec_step(name, s):
    """the documented step on terms: forward seed*m+a; reversed generators its inverse, (seed-a)*m^-1"""
    w, m, a, rev, dist = GENS[name]
    if not rev:
        return z3.BitVecVal(m, w) * s + z3.BitVecVal(a, w)
    mi = pow(m, -1, 1 << w)
    return z3.BitVecVal(mi, w) * s + z3.BitVecVal(-a * mi, w)


def getcls(name):
    import numba_pokemon_prngs.lcrng as L
    return getattr(L, name)


def fn(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            f = c.__dict__[name]
            return f.__func__ if isinstance(f, staticmethod) else f
    raise Unsupported(f"method {name} not found")


def mkobj(eng, st, name):
    w = GENS[name][0]
    s = z3.BitVec("seed", w)
    ref = eng.alloc(st, ObjCell(getcls(name), {"seed": SNp(dt(w), s)}), "obj")
    return ref, s


def field_is(ctx, what, v, want, dtype, hyps):
    """v is a numpy scalar of `dtype` equal to the term"""
    alts = v.alts if isinstance(v, SUnion) else [(z3.BoolVal(True), v)]
    for c, x in alts:
        k = type_key(x)
        if k != ("np", np.dtype(dtype)):
            ctx.prove(f"{what} has type {np.dtype(dtype)} (got {k})", z3.Not(c), hyps)
            continue
        ctx.prove(what, z3.Implies(c, to_bv(x, np.dtype(dtype).itemsize * 8) == want), hyps)


def arg(kind, name, w, lo=0):
    """symbolic argument of documented width w, as numpy scalar ('np') or Python int in range ('int')"""
    e = z3.BitVec(name, w)
    if kind == "np":
        return SNp(dt(w), e), e
    return SInt(z3.ZeroExt(1, e), 0, (1 << w) - 1), e


def next_contract(name, log=None):
    w = GENS[name][0]

    def c(eng, st, args, kwargs):
        ref = args[0]
        cell = st.heap[ref.id]
        s = cell.fields["seed"]
        if type_key(s) != ("np", dt(w)):
            raise Unsupported("seed field type at a call of next")
        t = simp(spec_step(name, to_bv(s, w)))
        st.heap[ref.id] = ObjCell(cell.cls, {**cell.fields, "seed": SNp(dt(w), t)})
        return SNp(dt(w), t)
    return c


def half_contract(name):
    w = GENS[name][0]
    nx = next_contract(name)

    def c(eng, st, args, kwargs):
        v = nx(eng, st, args, kwargs)
        h = w // 2
        return SNp(dt(h), simp(z3.Extract(w - 1, h, v.e)))
    return c


def half_name(name):
    return "next_u16" if GENS[name][0] == 32 else "next_u32"


def new_engine(name, *contracted):
    eng = Engine()
    cls = getcls(name)
    for c in contracted:
        eng.contracts[fn(cls, c)] = next_contract(name) if c == "next" else half_contract(name)
    return eng


def rand_spec(name, raw, mx):
    """documented bounded-output distribution; raw: half-width draw, mx: bound term of the same width"""
    w, m, a, rev, dist = GENS[name]
    h = w // 2
    if dist == "mod":
        return z3.URem(raw, mx)
    if dist == "div":
        return z3.Extract(h - 1, 0, z3.UDiv(z3.ZeroExt(h, raw), z3.UDiv(z3.BitVecVal(0xFFFF, w), z3.ZeroExt(h, mx)) + 1))
    return z3.Extract(w - 1, h, z3.ZeroExt(h, raw) * z3.ZeroExt(h, mx))


# ---- units
def u_init(name):
    def f(ctx):
        cls = getcls(name)
        w = GENS[name][0]
        for kind in ("np", "int"):
            for meth in ("__init__", "re_init"):
                eng = Engine()
                st = eng.new_state()
                a, e = arg(kind, "arg", w)
                ctx.inputs = {"arg": e}
                ctx.hint = {"t": "lcg_init", "cls": name, "meth": meth}
                fields = {} if meth == "__init__" else {"seed": SNp(dt(w), z3.BitVec("old", w))}
                ref = eng.alloc(st, ObjCell(cls, fields), "obj")
                eng.call(fn(cls, meth), [ref, a], {}, st)
                v = st.heap[ref.id].fields.get("seed", UNDEF)
                field_is(ctx, f"{meth}({kind}): seed = argument", v, e, dt(w), eng.facts)
                ctx.concrete(f"{meth}({kind}): no other state", set(st.heap[ref.id].fields) <= {"seed"})
                ctx.engine_side(eng, f"{meth}({kind})")
    return f


def u_next(name):
    def f(ctx):
        cls = getcls(name)
        w, m, a, rev, dist = GENS[name]
        g = forward(name)
        eng = Engine()
        st = eng.new_state()
        ref, s = mkobj(eng, st, name)
        ctx.inputs = {"seed": s}
        ctx.hint = {"t": "lcg_next", "cls": name}
        r = eng.call(fn(cls, "next"), [ref], {}, st)
        v = st.heap[ref.id].fields["seed"]
        field_is(ctx, "next: seed' = step(seed)", v, spec_step(name, s), dt(w), eng.facts)
        field_is(ctx, "next: returns seed'", r, spec_step(name, s), dt(w), eng.facts)
        ctx.engine_side(eng, "next")
        # reversed generators undo the forward step (and conversely), for every seed
        if rev:
            F = lambda x: z3.BitVecVal(m, w) * x + z3.BitVecVal(a, w)
            ctx.prove("lemma: step(reverse(s)) = s", simp_som(F(spec_step(name, s)) == s))
            ctx.prove("lemma: reverse(step(s)) = s", simp_som(spec_step(name, F(s)) == s))
        # half-width draw
        eng = new_engine(name, "next")
        st = eng.new_state()
        ref, s = mkobj(eng, st, name)
        r = eng.call(fn(cls, half_name(name)), [ref], {}, st)
        field_is(ctx, f"{half_name(name)}: upper half of one step", r, z3.Extract(w - 1, w // 2, spec_step(name, s)), dt(w // 2), eng.facts)
        field_is(ctx, f"{half_name(name)}: exactly one step", st.heap[ref.id].fields["seed"], spec_step(name, s), dt(w), eng.facts)
        ctx.engine_side(eng, half_name(name))
    return f


def simp_som(e):
    return z3.simplify(e, som=True)


def u_rand(name):
    def f(ctx):
        cls = getcls(name)
        w, m, a, rev, dist = GENS[name]
        h = w // 2
        if dist is None:
            for meth in ("next_rand",):
                eng = new_engine(name, "next", half_name(name))
                st = eng.new_state()
                ref, s = mkobj(eng, st, name)
                mx, e = arg("np", "maximum", h)
                try:
                    eng.call(fn(cls, meth), [ref, mx], {}, st)
                    ok = False
                except PathEnd:
                    ok = any("NotImplementedError" in r[1] for r in eng.raises)
                ctx.concrete("next_rand without a distribution raises NotImplementedError", ok)
            return
        for kind in ("np", "int"):
            eng = new_engine(name, "next", half_name(name))
            st = eng.new_state()
            ref, s = mkobj(eng, st, name)
            mx, e = arg(kind, "maximum", h)
            ctx.inputs = {"seed": s, "maximum": e}
            ctx.hint = {"t": "lcg_rand", "cls": name}
            pre = [e != 0]
            eng.facts += pre
            ctx.cover(f"next_rand({kind})", eng.facts)
            r = eng.call(fn(cls, "next_rand"), [ref, mx], {}, st)
            raw = z3.Extract(w - 1, h, spec_step(name, s))
            want = rand_spec(name, raw, e)
            field_is(ctx, f"next_rand({kind}): documented distribution", r, want, dt(h), eng.facts)
            field_is(ctx, f"next_rand({kind}): consumes exactly one step", st.heap[ref.id].fields["seed"], spec_step(name, s), dt(w), eng.facts)
            ctx.engine_side(eng, f"next_rand({kind})")
            # const_rand compiles the same function for a constant bound
            eng = new_engine(name, "next", half_name(name))
            eng.facts += pre
            st = eng.new_state()
            ref, s = mkobj(eng, st, name)
            st.frames = [{"$env": ({}, {})}]
            rf = eng.call(fn(cls, "const_rand"), [mx], {}, st)
            r = eng.call(rf, [ref], {}, st)
            ctx.hint = {"t": "lcg_const_rand", "cls": name}
            field_is(ctx, f"const_rand({kind}): documented distribution", r, want, dt(h), eng.facts)
            field_is(ctx, f"const_rand({kind}): consumes exactly one step", st.heap[ref.id].fields["seed"], spec_step(name, s), dt(w), eng.facts)
            ctx.engine_side(eng, f"const_rand({kind})")
        # range: result < maximum, by the spec alone
        raw, e = z3.BitVec("raw", h), z3.BitVec("maximum", h)
        ctx.inputs = {"raw": raw, "maximum": e}
        ctx.hint = None
        if dist == "shift":
            # (raw*max) >> h < max: lemma by bounding raw < 2^h
            r64, m64 = z3.ZeroExt(h, raw), z3.ZeroExt(h, e)
            i_r, i_m = z3.Ints("raw_i max_i")
            ctx.prove("lemma range: floor(raw*max/2^h) < max", (i_r * i_m) / (1 << h) < i_m,
                      [i_r >= 0, i_r < (1 << h), i_m > 0, i_m < (1 << h), i_r * i_m <= ((1 << h) - 1) * i_m], inputs={})
            ctx.prove("lemma range: product bound", i_r * i_m <= ((1 << h) - 1) * i_m, [i_r >= 0, i_r <= (1 << h) - 1, i_m > 0], inputs={})
        elif dist == "mod":
            ctx.prove("lemma range: result < maximum", z3.ULT(rand_spec(name, raw, e), e), [e != 0])
        else:
            # floor division by q = 65535//max + 1 > 65535/max keeps the quotient below max
            i_r, i_m, i_q, i_k = z3.Ints("raw_i max_i q k")
            ctx.prove("lemma range: raw // (0xFFFF//max + 1) < max",
                      z3.Implies(z3.And(i_k * (i_q + 1) <= i_r), i_k < i_m),
                      [i_r >= 0, i_r <= 0xFFFF, i_m >= 1, i_m <= 0xFFFF, i_q * i_m <= 0xFFFF, 0xFFFF < (i_q + 1) * i_m, i_q >= 0, i_k >= 0,
                       z3.Implies(i_k >= i_m, i_k * (i_q + 1) >= i_m * (i_q + 1))], inputs={})
    return f


def jump_goal(ctx, what, name, t, s, n_bv, hyps):
    """t (w-bit term over s) is the n-th iterate of the documented step from s"""
    w, m, a, rev, dist = GENS[name]
    g = forward(name)
    n = n_bv if n_bv.size() == w else (z3.Extract(w - 1, 0, n_bv) if n_bv.size() > w else z3.ZeroExt(w - n_bv.size(), n_bv))
    want = -n if rev else n
    try:
        e = simp(exponent(g, simp(t), s))
    except NotIterate as ex:
        ctx.prove(f"{what} (no iterate form: {str(ex)[:120]})", z3.BoolVal(False), hyps)
        return
    ctx.prove(what, e == want, hyps)


def u_jump(name):
    def f(ctx):
        cls = getcls(name)
        w, m, a, rev, dist = GENS[name]
        g = forward(name)
        lemmas(ctx, g)
        for kind in ("np", "int"):
            eng = Engine()
            st = eng.new_state()
            ref, s = mkobj(eng, st, name)
            n, e = arg(kind, "adv", w)
            ctx.inputs = {"seed": s, "adv": e}
            ctx.hint = {"t": "lcg_jump", "cls": name, "kind": kind}
            r = eng.call(fn(cls, "jump"), [ref, n], {}, st)
            v = st.heap[ref.id].fields["seed"]
            for what, x in (("seed'", v), ("result", r)):
                if type_key(x) != ("np", dt(w)):
                    ctx.prove(f"jump({kind}): {what} has type uint{w}", z3.BoolVal(False), eng.facts)
                    continue
                jump_goal(ctx, f"jump({kind}): {what} = step^adv(seed)", name, to_bv(x, w), s, e, eng.facts)
            ctx.engine_side(eng, f"jump({kind})")
    return f


def table_hook(g, w):
    """reads of the power table F^(2^i) as TM(i), TA(i); the table's contents are checked entry by entry"""
    S64, Sw = z3.BitVecSort(64), z3.BitVecSort(w)
    TM, TA = z3.Function("TM", S64, Sw), z3.Function("TA", S64, Sw)
    Ms, As = [m for m, _ in g.table], [a for _, a in g.table]
    seen = {}

    def leaf(vals):
        vals = [int(v) if isinstance(v, (int, np.integer)) else None for v in vals]
        if len(vals) > len(Ms) or None in vals:
            return None
        ts = {type(v) for v in vals}
        return TM if vals == Ms[:len(vals)] else TA if vals == As[:len(vals)] else None

    def hook(o):
        if id(o) in seen:
            return seen[id(o)][1]
        r = None
        if len(o) >= w:
            if all(isinstance(x, np.integer) and x.dtype == dt(w) for x in o):
                f = leaf(o)
                if f is not None:
                    r = lambda i: SNp(dt(w), f(i))
            elif all(isinstance(x, tuple) for x in o) and len({len(x) for x in o}) == 1 and \
                    all(isinstance(y, np.integer) and y.dtype == dt(w) for x in o for y in x):
                fs = [leaf([x[j] for x in o]) for j in range(len(o[0]))]
                if all(f is not None for f in fs):
                    r = lambda i: tuple(SNp(dt(w), f(i)) for f in fs)
        seen[id(o)] = (o, r)
        return r
    return hook, TM, TA


def u_const_jump(name):
    def f(ctx):
        cls = getcls(name)
        w, m, a, rev, dist = GENS[name]
        g = forward(name)
        if rev:
            mi = pow(m, -1, 1 << w)
            g = Lcg(w, mi, -a * mi % (1 << w))
        Sw = z3.BitVecSort(w)
        x64, ev = z3.BitVec("k", 64), z3.BitVec("adv", w)
        lo = lambda j: z3.LShR(ev, j)
        for j in range(w):
            # induction step of: no bits of adv at or above k, hence F^(adv mod 2^k) = F^adv
            ctx.prove(f"lemma no bits from {j} on: none from {j + 1} on and bit {j} clear",
                      z3.Implies(lo(j) == 0, z3.And(z3.Extract(j, j, ev) == 0, lo(j + 1) == 0 if j + 1 < w else z3.BoolVal(True))))
        for kind in ("np", "int"):
            eng = Engine()
            eng.force_loop_rule = True
            hook, TM, TA = table_hook(g, w)
            eng.table_hooks.append(hook)
            st = eng.new_state()
            ref, s = mkobj(eng, st, name)
            n, e = arg(kind, "adv", w)
            ctx.inputs = {"seed": s, "adv": e}
            ctx.hint = {"t": "lcg_const_jump", "cls": name, "kind": kind}
            kw = lambda k: z3.Extract(w - 1, 0, k) if w < 64 else k
            sh = lambda k: z3.If(z3.ULE(k, w), z3.LShR(e, kw(k)), z3.BitVecVal(0, w)) if w < 64 else z3.LShR(e, k)
            PM, PA = z3.Function("PM", z3.BitVecSort(64), Sw), z3.Function("PA", z3.BitVecSort(64), Sw)
            W = z3.BitVecVal(w, 64)

            def facts(k):
                # PM(k), PA(k): coefficients of F^(adv mod 2^k).  F^(x+2^k) = F^(2^k) o F^x; no bits left: the same map
                b = (sh(k) & 1) == 1
                return [PM(z3.BitVecVal(0, 64)) == 1, PA(z3.BitVecVal(0, 64)) == 0,
                        z3.Implies(z3.ULT(k, W), z3.And(PM(k + 1) == z3.If(b, TM(k) * PM(k), PM(k)),
                                                        PA(k + 1) == z3.If(b, PA(k) * TM(k) + TA(k), PA(k)))),
                        z3.Implies(z3.And(z3.ULE(k, W), sh(k) == 0), z3.And(PM(k) == PM(W), PA(k) == PA(W)))]
            inv = [lambda k: z3.ULE(k, W)]

            def cand(eng_, st0, loc, v0):
                if v0 is UNDEF or isinstance(v0, (Ref,)) or type_key(v0)[0] == "obj":
                    return []
                out = []
                if type_key(v0) == ("np", dt(w)):
                    out += [lambda k: SNp(dt(w), PM(k)), lambda k: SNp(dt(w), PA(k))]
                tk = type_key(v0)
                if tk == ("np", dt(w)) and to_bv(v0, w).eq(e) or type_key(v0) == type_key(n) and same(v0, n):
                    if tk == ("np", dt(w)):
                        if w == 32:
                            # numpy 1.26: uint32 >> int is int64, so the type changes after the first iteration
                            out.append(lambda k: merge(simp(k == 0), v0, SNp("i8", z3.ZeroExt(32, sh(k)))))
                        out.append(lambda k: SNp(dt(w), sh(k)))
                    elif tk[0] == "int":
                        out.append(lambda k: mk_int(z3.ZeroExt(1, sh(k)), 0, (1 << w) - 1))
                return out
            eng.loop_cands.append(cand)
            eng.loop_ghosts.append(lambda eng_, st0: {"facts": [facts], "inv": inv})
            st.frames = [{"$env": ({}, {})}]
            jf = eng.call(fn(cls, "const_jump"), [n], {}, st)
            r = eng.call(jf, [ref], {}, st)
            v = st.heap[ref.id].fields["seed"]
            for what, x in (("seed'", v), ("result", r)):
                if type_key(x) != ("np", dt(w)):
                    ctx.prove(f"const_jump({kind}): {what} has type uint{w}", z3.BoolVal(False), eng.facts)
                    continue
                ctx.prove(f"const_jump({kind}): {what} = step^adv(seed)", to_bv(x, w) == s * PM(W) + PA(W), eng.facts)
            ctx.engine_side(eng, f"const_jump({kind})")
            ctx.cover(f"const_jump({kind})", eng.facts + [e == 5])
            ctx.notes += eng.loops_used
    return f


def split_linear(t, s):
    """t = M*s + A with M, A free of s"""
    w = t.size()
    free = lambda x: not _occurs(x, s)
    args = t.children() if t.decl().kind() == z3.Z3_OP_BADD else [t]
    M, A = [], []
    for x in args:
        if free(x):
            A.append(x)
        elif x.eq(s):
            M.append(z3.BitVecVal(1, w))
        elif x.decl().kind() == z3.Z3_OP_BMUL:
            fs = x.children()
            with_s = [y for y in fs if not free(y)]
            if len(with_s) != 1 or not with_s[0].eq(s):
                return None
            c = z3.BitVecVal(1, w)
            for y in fs:
                if y is not with_s[0]:
                    c = c * y
            M.append(c)
        else:
            return None
    z = z3.BitVecVal(0, w)
    return simp(sum(M, z)), simp(sum(A, z))


def _occurs(t, s):
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(s):
            return True
        stack += x.children()
    return False


def it_fun(name):
    w = GENS[name][0]
    return z3.Function(f"It_{name}", z3.BitVecSort(w), z3.BitVecSort(64), z3.BitVecSort(w))


def it_facts(name, s, k):
    It = it_fun(name)
    return [It(s, z3.BitVecVal(0, 64)) == s, It(s, k + 1) == spec_step(name, It(s, k))]


def u_advance(name):
    def f(ctx):
        cls = getcls(name)
        w, m, a, rev, dist = GENS[name]
        g = forward(name)
        It = it_fun(name)
        aw = 32 if w == 32 else 64
        if w == 64:
            aw = 63      # Python's range protocol is modelled for counts below 2^63
        for kind in ("np", "int"):
            if kind == "np" and aw == 63:
                e63 = z3.BitVec("adv", 63)
                n, e = SNp(dt(64), z3.ZeroExt(1, e63)), e63
            elif aw == 63:
                e = z3.BitVec("adv", 63)
                n = SInt(z3.ZeroExt(1, e), 0, (1 << 63) - 1)
                n.hi = (1 << 63) - 1
            else:
                n, e = arg(kind, "adv", 32)
            eng = new_engine(name, "next")
            st = eng.new_state()
            ref, s = mkobj(eng, st, name)
            ctx.inputs = {"seed": s, "adv": e}
            ctx.hint = {"t": "lcg_advance", "cls": name}

            def cand(eng_, st0, loc, v0, s=s, ref=ref):
                if loc == ("F", ref.id, "seed"):
                    return [lambda k: SNp(dt(w), It(s, k))]
                return []
            eng.loop_cands.append(cand)
            eng.loop_ghosts.append(lambda eng_, st0, s=s: {"facts": [lambda k: it_facts(name, s, k)]})
            r = eng.call(fn(cls, "advance"), [ref, n], {}, st)
            v = st.heap[ref.id].fields["seed"]
            want = It(s, z3.ZeroExt(64 - e.size(), e))
            field_is(ctx, f"advance({kind}): seed' = step^adv(seed)", v, want, dt(w), eng.facts)
            field_is(ctx, f"advance({kind}): returns seed'", r, want, dt(w), eng.facts)
            ctx.engine_side(eng, f"advance({kind})")
            ctx.cover(f"advance({kind})", eng.facts + [e == 5])
            ctx.notes += eng.loops_used
    return f


def units(prop):
    out = []
    for n in GENS:
        if prop == "step":
            out += [(f"numpy {n}.init", "numpy", u_init(n)), (f"numpy {n}.next", "numpy", u_next(n))]
        if prop == "jump":
            out += [(f"numpy {n}.jump", "numpy", u_jump(n)), (f"numpy {n}.const_jump", "numpy", u_const_jump(n)), (f"numpy {n}.advance", "numpy", u_advance(n))]
        if prop == "rand":
            out += [(f"numpy {n}.rand", "numpy", u_rand(n))]
    return out
