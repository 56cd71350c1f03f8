"""contracts of the bit utilities, the hex formatter and the FNV hashes"""
from .common import *  # noqa

K64 = z3.BitVecSort(64)


def mod():
    import numba_pokemon_prngs.util as m
    return m


def raw(f):
    return getattr(f, "py_func", f)


def u_rotate(mode, name, left, w):
    def f(ctx):
        M = Mode(mode)
        fn = M.function(mod(), name)
        for kind in M.kinds(w):
            for ck in ("np", "int"):
                eng = M.engine()
                st = eng.new_state()
                v, e = M.uarg(kind, "val", w)
                c, ce = M.uarg(ck, "count", 8)
                eng.facts.append(z3.ULT(ce, w))
                ctx.inputs = {"val": e, "count": ce}
                ctx.hint = {"t": "util_rotate", "fn": name}
                r = eng.call(fn, [v, c], {}, st)
                n = z3.ZeroExt(w - 8, ce)
                want = (e << n) | z3.LShR(e, BV(w, w) - n) if left else z3.LShR(e, n) | (e << (BV(w, w) - n))
                nm = f"{name}({kind},{ck})"
                value_is(ctx, f"{nm}: every bit moves count places around", r, want, eng.facts)
                ctx.engine_side(eng, nm)
                ctx.cover(nm, eng.facts + [ce == w - 1])
        # the specification is a rotation: bit i of the value is bit (i +/- count) mod w of the result
        e, ce, i = z3.BitVec("val", w), z3.BitVec("count", w), z3.BitVec("i", w)
        want = (e << ce) | z3.LShR(e, BV(w, w) - ce) if left else z3.LShR(e, ce) | (e << (BV(w, w) - ce))
        j = (i + ce) & (w - 1) if left else (i - ce) & (w - 1)
        bit = lambda x, k: z3.LShR(x, k) & 1
        ctx.prove("lemma: bit i lands on bit (i+count) mod width" if left else "lemma: bit i lands on bit (i-count) mod width",
                  bit(e, i) == bit(want, j), [z3.ULT(i, w), z3.ULT(ce, w)], inputs={})
    return f


def u_inverse(mode, w):
    def f(ctx):
        M = Mode(mode)
        L, R = M.function(mod(), f"rotate_left_u{w}"), M.function(mod(), f"rotate_right_u{w}")
        for a, b, nm in ((L, R, "right after left"), (R, L, "left after right")):
            eng = M.engine()
            st = eng.new_state()
            v, e = M.uarg("np", "val", w)
            c, ce = M.uarg("np", "count", 8)
            eng.facts.append(z3.ULT(ce, w))
            ctx.inputs = {"val": e, "count": ce}
            ctx.hint = {"t": "util_rotate", "fn": f"rotate_left_u{w}"}
            r = eng.call(b, [eng.call(a, [v, c], {}, st), c], {}, st)
            value_is(ctx, f"rotate {nm} restores", r, e, eng.facts)
            ctx.engine_side(eng, nm)
    return f


def u_endian(mode):
    def f(ctx):
        M = Mode(mode)
        fn = M.function(mod(), "change_endian_u32")
        for kind in M.kinds(32):
            eng = M.engine()
            st = eng.new_state()
            v, e = M.uarg(kind, "val", 32)
            ctx.inputs = {"val": e}
            ctx.hint = {"t": "util_endian"}
            r = eng.call(fn, [v], {}, st)
            want = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, e) for i in range(4)])
            value_is(ctx, f"change_endian_u32({kind}): bytes reversed", r, want, eng.facts)
            ctx.engine_side(eng, f"change_endian_u32({kind})")
    return f


def u_hex(mode):
    def f(ctx):
        M = Mode(mode)
        fn = M.function(mod(), "hex_32")
        for kind in M.kinds(32):
            eng = M.engine()
            st = eng.new_state()
            v, e = M.uarg(kind, "num", 32)
            ctx.inputs = {"num": e}
            ctx.hint = {"t": "util_hex"}
            r = eng.call(fn, [v], {}, st)
            ch = str_chars(r)
            nm = f"hex_32({kind})"
            if not ctx.concrete(f"{nm}: a string of 8 characters", ch is not None and len(ch) == 8, type(r).__name__):
                continue
            for i, c in enumerate(ch):
                nib = z3.ZeroExt(28, z3.Extract(31 - 4 * i, 28 - 4 * i, e))
                ctx.prove(f"{nm}: character {i} is the upper-case digit of nibble {7 - i}", c == z3.If(z3.ULT(nib, 10), nib + 48, nib + 55), eng.facts)
            ctx.engine_side(eng, nm)
    return f


def u_fnv(mode, name):
    def f(ctx):
        import numba_pokemon_prngs.fnv as m
        M = Mode(mode)
        fn = M.function(m, name)
        H = z3.Function("hash_of_prefix", K64, K64)
        C = z3.Function("char", K64, z3.BitVecSort(32))
        eng = M.engine()
        st = eng.new_state()
        n = z3.BitVec("len", 32)
        seq = SeqCell(SInt(z3.ZeroExt(1, n), 0, (1 << 32) - 1), lambda k: SInt(z3.ZeroExt(1, C(k)), 0, 0x10FFFF))
        ref = eng.alloc(st, seq, "seq")
        ctx.inputs = {}
        ctx.hint = {"t": "fnv", "fn": name}
        P = BV(0x100000001B3, 64)
        c64 = lambda k: z3.ZeroExt(32, C(k))
        step = (lambda k, h: (h * P) ^ c64(k)) if name == "fnv1_64" else (lambda k, h: (h ^ c64(k)) * P)
        eng.force_loop_rule = True
        eng.loop_ghosts.append(lambda e_, s_: {"facts": [lambda k: [H(BV(0, 64)) == BV(OFFSET, 64), H(k + 1) == step(k, H(k))]]})
        eng.loop_cands.append(lambda e_, s_, loc, v0: [lambda k: SNp("u8", H(k))] if isinstance(v0, (SNp, np.uint64)) else [])
        r = eng.call(fn, [ref], {}, st)
        value_is(ctx, f"{name}: the {name[:-3].upper()} recurrence over the characters, from the games' offset basis", r, H(z3.ZeroExt(32, n)), eng.facts)
        ctx.engine_side(eng, name)
        ctx.cover(name, eng.facts + [n == 3])
        ctx.notes += eng.loops_used
    return f


OFFSET = 0xCBF29CE484222645       # basis of the games (the FNV standard has ...2325)


def units(prop="util", mode="numpy"):
    res = []
    add = lambda n, u: res.append((f"{mode} {n}", mode, u))
    for w in (32, 64):
        add(f"util.rotate_left_u{w}", u_rotate(mode, f"rotate_left_u{w}", True, w))
        add(f"util.rotate_right_u{w}", u_rotate(mode, f"rotate_right_u{w}", False, w))
        add(f"util.rotate inverse u{w}", u_inverse(mode, w))
    add("util.change_endian_u32", u_endian(mode))
    add("util.hex_32", u_hex(mode))
    add("fnv.fnv1_64", u_fnv(mode, "fnv1_64"))
    add("fnv.fnv1a_64", u_fnv(mode, "fnv1a_64"))
    return res
