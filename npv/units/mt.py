"""contracts of the Mersenne Twister family: initialisation, state transition, output, position, bounded rand"""
from .common import *  # noqa

N = 624
A32 = z3.ArraySort(z3.BitVecSort(32), z3.BitVecSort(32))
K64 = z3.BitVecSort(64)
FIELDS = {"MersenneTwister", "SIMDFastMersenneTwister"}


def getcls(name):
    import numba_pokemon_prngs.mersenne_twister as m
    return getattr(m, name)


# ---- reference functions on terms (Matsumoto & Nishimura; Saito & Matsumoto)
def init_word(prev, i):
    return BV(1812433253, 32) * (prev ^ z3.LShR(prev, 30)) + BV(i, 32)


def twist(cur, nxt, far):
    y = (cur & BV(0x80000000, 32)) | (nxt & BV(0x7FFFFFFF, 32))
    return far ^ z3.LShR(y, 1) ^ z3.If(z3.Extract(0, 0, y) == 1, BV(0x9908B0DF, 32), BV(0, 32))


def temper(y):
    y = y ^ z3.LShR(y, 11)
    y = y ^ ((y << 7) & BV(0x9D2C5680, 32))
    y = y ^ ((y << 15) & BV(0xEFC60000, 32))
    return y ^ z3.LShR(y, 18)


SFMT_MSK = (0xDFFFFFEF, 0xDDFECB7F, 0xBFFAFFFF, 0xBFFFFFF6)
SFMT_PARITY = (0x00000001, 0x00000000, 0x00000000, 0x13C9E684)


def w128(ws):
    return z3.Concat(*reversed(ws))


def sfmt_recursion(a, b, c, d):
    """one 128-bit SFMT19937 step on lists of four words"""
    A, C = w128(a), w128(c)
    x, y = A << 8, z3.LShR(C, 8)
    out = []
    for j in range(4):
        e = lambda v: z3.Extract(32 * j + 31, 32 * j, v)
        out.append(a[j] ^ e(x) ^ (z3.LShR(b[j], 11) & BV(SFMT_MSK[j], 32)) ^ e(y) ^ (d[j] << 18))
    return out


def sfmt_certify0(raw):
    """first word after the period certification"""
    inner = BV(0, 32)
    for i, p in enumerate(SFMT_PARITY):
        inner = inner ^ (raw[i] & BV(p, 32))
    for s in (16, 8, 4, 2, 1):
        inner = inner ^ z3.LShR(inner, s)
    return z3.If(z3.Extract(0, 0, inner) == 1, raw[0], raw[0] ^ BV(1, 32))


def tiny_next(s):
    y = s[3]
    x = (s[0] & BV(0x7FFFFFFF, 32)) ^ s[1] ^ s[2]
    x = x ^ (x << 1)
    y = y ^ z3.LShR(y, 1) ^ x
    odd = z3.Extract(0, 0, y) == 1
    z = BV(0, 32)
    return [s[1], s[2] ^ z3.If(odd, BV(0x8F7011EE, 32), z), x ^ (y << 10) ^ z3.If(odd, BV(0xFC78FF1F, 32), z), y]


def tiny_temper(s):
    t1 = s[0] + z3.LShR(s[2], 8)
    return s[3] ^ t1 ^ z3.If(z3.Extract(0, 0, t1) == 1, BV(0x3793FDFF, 32), BV(0, 32))


def tiny_init(seed):
    s = [seed, BV(0x8F7011EE, 32), BV(0xFC78FF1F, 32), BV(0x3793FDFF, 32)]
    for i in range(1, 8):
        p = s[(i - 1) & 3]
        s[i & 3] = s[i & 3] ^ (BV(1812433253, 32) * (p ^ z3.LShR(p, 30)) + BV(i, 32))
    zero = z3.And(s[0] & BV(0x7FFFFFFF, 32) == 0, s[1] == 0, s[2] == 0, s[3] == 0)
    return [z3.If(zero, BV(ord(c), 32), x) for c, x in zip("TINY", s)], zero


# ---- objects
def kind_of(v):
    k = type_key(v)
    return ("np", str(np.dtype(k[1]))) if k[0] == "np" else k


def mk_kind(kind, e, hi):
    """value of the given kind equal to the 16-bit term e (< 2^15)"""
    if kind[0] == "int":
        return SInt(z3.ZeroExt(1, e), 0, hi)
    d = np.dtype(kind[1])
    w = d.itemsize * 8
    return mk_np(d, simp(z3.ZeroExt(w - 16, e) if w > 16 else e))


def fresh_obj(M, eng, st, cls, args):
    """run the constructor"""
    ref = eng.alloc(st, ObjCell(cls, {}), "obj")
    eng.call(M.method(cls, "__init__"), [ref] + args, {}, st)
    return ref


def old_obj(M, eng, st, cls, like, like_st):
    """object of the same shape with arbitrary contents (what any history may have left behind)"""
    f = {}
    for n, v in like.items():
        if isinstance(v, Ref):
            c = like_st.heap[v.id]
            if isinstance(c, ArrCell) and c.data is not None:
                f[n] = eng.alloc(st, sym_array(len(c.data), c.dt.itemsize * 8, f"old_{n}_")[0], "arr")
            else:
                raise Unsupported("field shape")
        elif type_key(v)[0] == "np":
            d = np.dtype(type_key(v)[1])
            f[n] = SNp(d, z3.BitVec(f"old_{n}", d.itemsize * 8))
        else:
            f[n] = mk_int(z3.ZeroExt(1, z3.BitVec(f"old_{n}", 16)), 0, 65535)
    return eng.alloc(st, ObjCell(cls, f), "obj")


def tiny_stub(M, eng, cls):
    """TinyMT warm-up: shuffle replaced by its contract (a fresh state, recorded with the state it started from)"""
    eng.tiny_calls = calls = []
    if cls.__name__ != "TinyMersenneTwister":
        return

    def shuf(eng_, st, args, kwargs):
        if st.guard:
            raise Unsupported("conditional warm-up round")
        pre, c = state_terms(st, args[0])
        post = [z3.BitVec(f"round{len(calls)}_{i}", 32) for i in range(4)]
        calls.append((pre, post))
        st.heap[st.heap[args[0].id].fields["state"].id] = ArrCell(c.dt, c.n, [SNp(c.dt, x) for x in post])
        return None
    eng.contracts[M.method(cls, "shuffle")] = shuf


def state_terms(st, ref, name="state"):
    c = arr_cell(st, st.heap[ref.id].fields[name])
    if c.data is None:
        raise Unsupported("array state")
    return [to_bv(x, c.dt.itemsize * 8) for x in c.data], c


# ---- units
def u_init(mode, name):
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        w = 32
        for kind in M.kinds(w):
            eng = M.engine()
            st = eng.new_state()
            a, seed = M.uarg(kind, "seed", w)
            ctx.inputs = {"seed": seed}
            ctx.hint = {"t": "mt_init", "cls": name}
            eng.name_stores = name != "TinyMersenneTwister"
            tiny_stub(M, eng, cls)
            ref = fresh_obj(M, eng, st, cls, [a])
            got, cell = state_terms(st, ref)
            nm = f"__init__({kind})"
            check_init(ctx, name, nm, got, cell, seed, st, ref, eng)
            ctx.engine_side(eng, nm)
        # re_init on an object with any past: exactly the fresh object
            eng2 = M.engine()
            st2 = eng2.new_state()
            eng2.name_stores = eng.name_stores
            tiny_stub(M, eng2, cls)
            r2 = old_obj(M, eng2, st2, cls, st.heap[ref.id].fields, st)
            eng2.call(M.method(cls, "re_init"), [r2, a], {}, st2)
            got2, cell2 = state_terms(st2, r2)
            check_init(ctx, name, f"re_init({kind}) after any history", got2, cell2, seed, st2, r2, eng2)
            ctx.engine_side(eng2, f"re_init({kind})")
    return f


def check_init(ctx, name, nm, got, cell, seed, st, ref, eng):
    D = Defs(eng.defs)
    if name == "TinyMersenneTwister":
        ctx.concrete(f"{nm}: four 32-bit words", len(got) == 4 and cell.dt == np.dtype("u4"))
        s, zero = tiny_init(seed)
        calls = eng.tiny_calls
        want = s
        if len(calls) == 8:      # shuffle under its contract (u_tiny "next")
            for i in range(4):
                ctx.prove(f"{nm}: seeded state[{i}]", calls[0][0][i] == s[i], eng.facts)
            for k in range(1, 8):
                ctx.concrete(f"{nm}: warm-up round {k} starts from the state of round {k - 1}", all(p.eq(q) for p, q in zip(calls[k][0], calls[k - 1][1])))
            ctx.concrete(f"{nm}: eight warm-up rounds", all(p.eq(q) for p, q in zip(got, calls[7][1])))
        else:
            for _ in range(8):
                want = [simp(x) for x in tiny_next(want)]
            if calls:
                ctx.concrete(f"{nm}: eight warm-up rounds", False, f"{len(calls)} rounds")
                return
            for i in range(4):
                ctx.prove(f"{nm}: state[{i}]", got[i] == want[i], eng.facts)
        return
    ctx.concrete(f"{nm}: 624 32-bit words", len(got) == N and cell.dt == np.dtype("u4"))
    const_is(ctx, f"{nm}: index = 624 (shuffle due)", st.heap[ref.id].fields["index"], N)
    raw = list(got)
    if name == "SIMDFastMersenneTwister":
        raw[0] = seed
    stop = ids(raw)
    for i in range(1, N):
        prove_word(ctx, f"{nm}: word {i} follows from word {i - 1}", got[i], init_word(raw[i - 1], i), D, stop)
    if name == "SIMDFastMersenneTwister":
        prove_word(ctx, f"{nm}: word 0 = seed with period certification", got[0], sfmt_certify0([seed, got[1], got[2], got[3]]), D, got, depth=12)
    else:
        prove_word(ctx, f"{nm}: word 0 = seed", got[0], seed, D, [])


def u_shuffle(mode, name):
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        eng = M.engine()
        eng.name_stores = True
        st = eng.new_state()
        cell, xs = sym_array(N, 32, "x")
        a = eng.alloc(st, cell, "arr")
        idx = z3.BitVec("idx", 16)
        ref = eng.alloc(st, ObjCell(cls, {"state": a, "index": SNp("u2", idx)}), "obj")
        ctx.hint = {"t": "mt_shuffle", "cls": name}
        ctx.inputs = {"state": xs}
        eng.call(M.method(cls, "shuffle"), [ref], {}, st)
        got, c2 = state_terms(st, ref)
        ctx.concrete("shuffle: 624 words", len(got) == N and c2.dt == np.dtype("u4"))
        const_is(ctx, "shuffle: index = 0", st.heap[ref.id].fields["index"], 0)
        D = Defs(eng.defs)
        stop = ids(got, xs)
        if name == "MersenneTwister":
            for i in range(N):
                nxt = xs[i + 1] if i + 1 < N else got[0]
                far = xs[i + 397] if i + 397 < N else got[i + 397 - N]
                prove_word(ctx, f"shuffle: word {i} = twist(words {i}, {(i + 1) % N}, {(i + 397) % N})", got[i],
                           twist(xs[i], nxt, far), D, stop)
        else:
            blk = lambda a, i: a[4 * i:4 * i + 4]
            for i in range(N // 4):
                b = blk(xs, i + 122) if i + 122 < 156 else blk(got, i + 122 - 156)
                c = blk(xs, i + 154) if i < 2 else blk(got, i - 2)
                d = blk(xs, i + 155) if i < 1 else blk(got, i - 1)
                want = sfmt_recursion(blk(xs, i), b, c, d)
                for j in range(4):
                    prove_word(ctx, f"shuffle: word {4 * i + j} = SFMT recursion", got[4 * i + j], want[j], D, stop)
        ctx.engine_side(eng, "shuffle")
    return f


Sh = z3.Function("shuffled", A32, A32)


def shuffle_contract(zero):
    def c(eng, st, args, kwargs):
        cell = st.heap[args[0].id]
        a = cell.fields["state"]
        ac = arr_cell(st, a)
        if ac.arr is None:
            raise Unsupported("state representation")
        st.heap[a.id] = ArrCell(ac.dt, ac.n, None, Sh(ac.arr))
        st.heap[args[0].id] = ObjCell(cell.cls, {**cell.fields, "index": zero})
        return None
    return c


def shuffle_zero(M, cls):
    """the value (and type) shuffle leaves in `index`"""
    eng = M.engine()
    st = eng.new_state()
    cell, xs = sym_array(N, 32, "x")
    a = eng.alloc(st, cell, "arr")
    ref = eng.alloc(st, ObjCell(cls, {"state": a, "index": SNp("u2", z3.BitVec("idx", 16))}), "obj")
    eng.name_stores = True
    eng.call(M.method(cls, "shuffle"), [ref], {}, st)
    v = st.heap[ref.id].fields["index"]
    if is_sym(v):
        raise Unsupported("index after shuffle")
    return v


def init_index(M, cls):
    eng = M.engine()
    st = eng.new_state()
    ref = fresh_obj(M, eng, st, cls, [SNp("u4", z3.BitVec("seed", 32))])
    return st.heap[ref.id].fields["index"]


def step_of(name):
    return 1 if name == "MersenneTwister" else 2


def u_position(mode, name, what):
    """next/advance move the position 624*block+index by exactly one output / n outputs, output = words at the position"""
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        zero = shuffle_zero(M, cls)
        step = step_of(name)
        todo, seen = [kind_of(init_index(M, cls)), kind_of(zero)], []
        B = z3.Function("block", K64, A32)
        while todo:
            kind = todo.pop()
            if kind in seen:
                continue
            seen.append(kind)
            if len(seen) > 8:
                raise Unsupported("index takes too many types")

            def start(akind="np"):
                eng = M.engine()
                eng.contracts[M.method(cls, "shuffle")] = shuffle_contract(zero)
                st = eng.new_state()
                idx = z3.BitVec("idx", 16)
                pre = [z3.ULE(idx, N)] + ([z3.Extract(0, 0, idx) == 0] if step == 2 else [])
                eng.facts += pre
                cell, arr = z3_array(N, 32, B(BV(0, 64)))
                a = eng.alloc(st, cell, "arr")
                ref = eng.alloc(st, ObjCell(cls, {"state": a, "index": mk_kind(kind, idx, N)}), "obj")
                eng.facts.append(B(BV(1, 64)) == Sh(B(BV(0, 64))))
                return eng, st, ref, a, idx

            def post(eng, st, ref, a, idx, n, nm, euclid=None):
                """state is block b' at index' with 624 b' + index' = index + n"""
                v = st.heap[ref.id].fields["index"]
                arr = arr_cell(st, st.heap[ref.id].fields["state"]).arr
                for c, x in alts(v):
                    k = kind_of(x)
                    if k not in seen:
                        todo.append(k)
                    e, lo, hi = int_view(x)
                    i2 = sx(e, 80) if e.size() < 80 else e
                    g = eng.facts + [c]
                    ctx.prove(f"{nm}: 0 <= index' <= 624", z3.And(i2 >= 0, i2 <= N), g)
                    if step == 2:
                        ctx.prove(f"{nm}: index' even", z3.Extract(0, 0, i2) == 0, g)
                    total = z3.ZeroExt(64, idx) + n
                    if euclid is not None:
                        ctx.prove(f"{nm}: position' = position + outputs", z3.Or(i2 == euclid[1], i2 == euclid[1] + N), g)
                    else:
                        ctx.prove(f"{nm}: position' = position + outputs", z3.And(i2 <= total, z3.URem(total - i2, BV(N, 80)) == 0), g)
                    yield g, arr, total, i2
            if what == "next":
                eng, st, ref, a, idx = start()
                ctx.hint = {"t": "mt_next", "cls": name}
                ctx.inputs = {"idx": idx}
                r = eng.call(M.method(cls, "next"), [ref], {}, st)
                at = lambda k: z3.If(z3.ULT(idx + k, N), z3.Select(B(BV(0, 64)), z3.ZeroExt(16, idx + k)),
                                     z3.Select(B(BV(1, 64)), z3.ZeroExt(16, idx + k - N)))
                want = temper(at(0)) if step == 1 else z3.Concat(at(1), at(0))
                nm = f"next[index: {kind[-1]}]"
                value_is(ctx, f"{nm}: output = {'tempered word' if step == 1 else 'two words'} at the position", r, want, eng.facts)
                for g, arr, total, i2 in post(eng, st, ref, a, idx, BV(step, 80), nm):
                    ctx.prove(f"{nm}: block' is the block of position'", z3.If(z3.ULE(total, N), z3.Or(z3.And(i2 == total, arr == B(BV(0, 64))), z3.And(i2 == total - N, arr == B(BV(1, 64)))),
                                                                               z3.And(i2 == total - N, arr == B(BV(1, 64)))), g)
                ctx.engine_side(eng, nm)
                ctx.cover(f"{nm} inside a block", eng.facts + [idx == 10])
                ctx.cover(f"{nm} at the end of a block", eng.facts + [idx == N])
            else:
                for ak in M.kinds(32):
                    eng, st, ref, a, idx = start()
                    adv, e = M.uarg(ak, "adv", 32)
                    ctx.hint = {"t": "mt_advance", "cls": name}
                    ctx.inputs = {"idx": idx, "adv": e}
                    adv0 = z3.ZeroExt(32, e) * step + z3.ZeroExt(48, idx)

                    Rm = z3.Function("remaining", K64, K64)      # remaining(k) = adv0 - 624 k
                    Q, R = z3.BitVec("Q", 64), z3.BitVec("R", 64)
                    eng.facts += [Q == z3.UDiv(adv0, BV(N, 64)), R == z3.URem(adv0, BV(N, 64)), z3.ULT(R, N), z3.ULE(Q, BV(1 << 25, 64)),
                                  Rm(BV(0, 64)) == adv0]

                    def cand(eng_, st0, loc, v0, a=a):
                        if loc == ("A", a.id):
                            return [lambda k: ArrCell(np.dtype("u4"), N, None, B(k))]
                        if isinstance(v0, (SNp, np.integer)) and np.dtype(type_key(v0)[1]).itemsize == 8:
                            return [lambda k: SNp(np.dtype(type_key(v0)[1]), Rm(k))]
                        if is_num(v0) and type_key(v0)[0] == "int":
                            return [lambda k: SInt(z3.ZeroExt(1, Rm(k)), 0, (1 << 64) - 1)]
                        return []
                    eng.loop_cands.append(cand)

                    def facts(k, Q=Q, R=R, Rm=Rm):   # consequences of remaining(k) = adv0 - 624 k, by the lemmas below
                        return [B(k + 1) == Sh(B(k)), Rm(k + 1) == Rm(k) - N, z3.Implies(z3.ULT(k, Q), z3.And(z3.UGE(Rm(k), N), z3.ULE(Rm(k), adv0))),
                                z3.Implies(k == Q, Rm(k) == R)]
                    eng.loop_ghosts.append(lambda eng_, st0, facts=facts, Q=Q: {"facts": [facts], "inv": [lambda k: z3.ULE(k, Q)]})
                    eng.call(M.method(cls, "advance"), [ref, adv], {}, st)
                    nm = f"advance[{ak}, index: {kind[-1]}]"
                    outs = z3.ZeroExt(48, e) * step
                    R80 = z3.ZeroExt(16, R)
                    for g, arr, total, i2 in post(eng, st, ref, a, idx, outs, nm, euclid=(Q, R80)):
                        ctx.prove(f"{nm}: block' is the block of position'",
                                  z3.Or(z3.And(i2 == R80, arr == B(Q)), z3.And(i2 == R80 + N, arr == B(Q - 1), Q != 0)), g)
                    ctx.engine_side(eng, nm)
                    ctx.cover(nm, eng.facts)
                    ctx.notes += eng.loops_used
        if what == "advance":
            A, q, r, k = z3.Ints("adv0 q r k")
            eu = [A == N * q + r, r >= 0, r < N, q >= 0]
            ctx.prove("lemma: before the last block at least one block remains", z3.And(A - N * k >= N, A - N * k <= A), eu + [k >= 0, k < q], inputs={})
            ctx.prove("lemma: after the last block the remainder is left", A - N * k == r, eu + [k == q], inputs={})
            ctx.prove("lemma: number of blocks", q <= 1 << 25, eu + [A <= 2 * ((1 << 32) - 1) + N], inputs={})
        ctx.notes.append({"index kinds": [list(k) for k in seen]})
    return f


# ---- TinyMT
def u_tiny(mode, what):
    name = "TinyMersenneTwister"

    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)

        def start(contract=True):
            eng = M.engine()
            st = eng.new_state()
            cell, xs = sym_array(4, 32, "s")
            a = eng.alloc(st, cell, "arr")
            ref = eng.alloc(st, ObjCell(cls, {"state": a}), "obj")
            ctx.inputs = {"state": xs}
            return eng, st, ref, a, xs
        if what == "next":
            ctx.hint = {"t": "tiny_next"}
            eng, st, ref, a, xs = start()
            r = eng.call(M.method(cls, "next"), [ref], {}, st)
            want = tiny_next(xs)
            for i, t in enumerate(state_terms(st, ref)[0]):
                ctx.prove(f"next: state[{i}]", t == want[i], eng.facts)
            value_is(ctx, "next: tempered output of the new state", r, tiny_temper(want), eng.facts)
            ctx.engine_side(eng, "next")
            eng, st, ref, a, xs = start()
            r = eng.call(M.method(cls, "temper"), [ref], {}, st)
            value_is(ctx, "temper: output of the current state", r, tiny_temper(xs), eng.facts)
            for i, t in enumerate(state_terms(st, ref)[0]):
                ctx.prove(f"temper: state[{i}] unchanged", t == xs[i], eng.facts)
            ctx.engine_side(eng, "temper")
        else:
            ctx.hint = {"t": "tiny_advance"}
            It = [z3.Function(f"tiny{i}", K64, z3.BitVecSort(32)) for i in range(4)]
            for kind in M.kinds(32):
                eng, st, ref, a, xs = start()
                n, e = M.uarg(kind, "adv", 32)
                ctx.inputs = {"state": xs, "adv": e}

                def cand(eng_, st0, loc, v0, a=a):
                    if loc == ("A", a.id):
                        return [lambda k: ArrCell(np.dtype("u4"), 4, [SNp("u4", It[i](k)) for i in range(4)])]
                    return []

                def facts(k, xs=xs):
                    nx = tiny_next([It[i](k) for i in range(4)])
                    return [It[i](BV(0, 64)) == xs[i] for i in range(4)] + [It[i](k + 1) == nx[i] for i in range(4)]
                eng.loop_cands.append(cand)
                eng.loop_ghosts.append(lambda eng_, st0, facts=facts: {"facts": [facts]})
                eng.call(M.method(cls, "advance"), [ref, n], {}, st)
                for i, t in enumerate(state_terms(st, ref)[0]):
                    ctx.prove(f"advance({kind}): state[{i}] = step^adv", t == It[i](z3.ZeroExt(32, e)), eng.facts)
                ctx.engine_side(eng, f"advance({kind})")
                ctx.cover(f"advance({kind})", eng.facts + [e == 5])
                ctx.notes += eng.loops_used
    return f


# ---- bounded rand
def u_rand(mode, name):
    def f(ctx):
        M = Mode(mode)
        cls = getcls(name)
        w = 64 if name == "SIMDFastMersenneTwister" else 32
        dist = {"MersenneTwister": [("next_rand", "shift"), ("next_rand_mod", "mod")],
                "TinyMersenneTwister": [("next_rand", "shift"), ("next_rand_mod", "mod")],
                "SIMDFastMersenneTwister": [("next_rand", "mod")]}[name]
        for meth, d in dist:
            for kind in M.kinds(w):
                eng = M.engine()
                raw = z3.BitVec("raw", w)
                calls = []

                def nxt(eng_, st_, args, kwargs):
                    calls.append(st_.g)
                    if len(calls) > 1:
                        raise Unsupported("more than one draw")
                    return SNp(dt(w), raw)
                eng.contracts[M.method(cls, "next")] = nxt
                st = eng.new_state()
                ref = eng.alloc(st, ObjCell(cls, {}), "obj")
                m, e = M.uarg(kind, "maximum", w)
                ctx.inputs = {"raw": raw, "maximum": e}
                ctx.hint = {"t": "mt_rand", "cls": name, "meth": meth}
                eng.facts.append(e != 0)
                ctx.cover(f"{meth}({kind})", eng.facts)
                r = eng.call(M.method(cls, meth), [ref, m], {}, st)
                want = z3.URem(raw, e) if d == "mod" else z3.Extract(63, 32, z3.ZeroExt(32, raw) * z3.ZeroExt(32, e))
                nm = f"{meth}({kind})"
                value_is(ctx, f"{nm}: documented distribution of one draw", r, want, eng.facts)
                ctx.concrete(f"{nm}: exactly one draw", len(calls) == 1 and z3.is_true(z3.simplify(calls[0])))
                ctx.engine_side(eng, nm)
        range_lemmas(ctx, {d for _, d in dist}, w)
    return f


def range_lemmas(ctx, dists, w):
    ctx.hint = None
    raw, e = z3.BitVec("raw", w), z3.BitVec("maximum", w)
    if "mod" in dists:
        ctx.prove("lemma range: raw mod maximum < maximum", z3.ULT(z3.URem(raw, e), e), [e != 0], inputs={})
    if "shift" in dists:
        i_r, i_m = z3.Ints("raw_i max_i")
        ctx.prove("lemma range: product bound", i_r * i_m <= ((1 << w) - 1) * i_m, [i_r >= 0, i_r <= (1 << w) - 1, i_m > 0], inputs={})
        ctx.prove(f"lemma range: floor(raw*max/2^{w}) < max", (i_r * i_m) / (1 << w) < i_m,
                  [i_r >= 0, i_r < (1 << w), i_m > 0, i_m < (1 << w), i_r * i_m <= ((1 << w) - 1) * i_m], inputs={})


def units(prop, mode="numpy"):
    out = []
    add = lambda n, u: out.append((f"{mode} {n}", mode, u))
    M, S, T = "MersenneTwister", "SIMDFastMersenneTwister", "TinyMersenneTwister"
    if prop == "mt":
        add(f"{M}.__init__/re_init", u_init(mode, M))
        add(f"{M}.shuffle", u_shuffle(mode, M))
        add(f"{M}.next", u_position(mode, M, "next"))
    if prop == "sfmt":
        add(f"{S}.__init__/re_init", u_init(mode, S))
        add(f"{S}.shuffle", u_shuffle(mode, S))
        add(f"{S}.next", u_position(mode, S, "next"))
    if prop == "tinymt":
        add(f"{T}.__init__/re_init", u_init(mode, T))
        add(f"{T}.next", u_tiny(mode, "next"))
    if prop == "advance":
        add(f"{M}.advance", u_position(mode, M, "advance"))
        add(f"{S}.advance", u_position(mode, S, "advance"))
        add(f"{T}.advance", u_tiny(mode, "advance"))
    if prop == "rand":
        for n in (M, S, T):
            add(f"{n}.rand", u_rand(mode, n))
    return out
