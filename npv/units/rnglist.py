"""contracts of RNGList: a window of `size` consecutive draws of the wrapped generator, read cyclically.

Representation invariant INV(b, pos): size*draws so far = b + size; list[i] = draw(b + ((i - head) mod size)) for i < size;
head, pointer in [0, size); pos = (pointer - head) mod size.  Every method is verified from an arbitrary state satisfying INV."""
from .common import *  # noqa

K64 = z3.BitVecSort(64)
CONFIG = {16: ("PokeRNGMod", "next_u16"), 32: ("XDRNG", "next"), 64: ("BWRNG", "next")}


def build(w, size):
    import numba_pokemon_prngs.lcrng as L
    from numba_pokemon_prngs.rng_list import build_rnglist
    c, f = CONFIG[w]
    rng = getattr(L, c)
    return build_rnglist(rng_class=rng, next_function_name=f, state_type=np.dtype(f"u{w // 8}").type, size=size), rng, f


class Model:
    """one verification state: engine, symbolic list object satisfying INV"""

    def __init__(self, M, w, size):
        self.M, self.w, self.size = M, w, size
        self.cls, self.rng, self.next = build(w, size)
        self.D = z3.Function("draw", K64, z3.BitVecSort(w))

    def engine(self):
        eng = self.M.engine()
        D, w = self.D, self.w

        def nxt(eng_, st, args, kw):
            c = st.heap[args[0].id]
            n = c.fields["$n"]
            st.heap[args[0].id] = ObjCell(c.cls, {**c.fields, "$n": mk_np("u8", simp(to_bv(n, 64) + 1))})
            return mk_np(dt(w), D(to_bv(n, 64)))
        eng.contracts[self.M.method(self.rng, self.next)] = nxt
        eng.force_loop_rule = True
        eng.loop_for_min = 1
        eng.big_arrays = 1
        return eng

    def window(self, b, head):
        i = z3.BitVec("i!", 32)
        off = (i - head) & (self.size - 1)
        return z3.Lambda([i], self.D(b + z3.ZeroExt(32, off)))

    def state(self, eng, hk, pk):
        """arbitrary state satisfying INV, head/pointer of the given types"""
        st = eng.new_state()
        b = z3.BitVec("base", 64)
        h, p = z3.BitVec("head", 32), z3.BitVec("pointer", 32)
        eng.facts += [z3.ULT(h, self.size), z3.ULT(p, self.size)] if self.size < 2 ** 32 else []

        def val(k, e):
            if k == ("int",):
                return mk_int(z3.ZeroExt(1, e), 0, self.size - 1)
            d = k[1]
            x = z3.Extract(d.itemsize * 8 - 1, 0, e) if d.itemsize < 4 else z3.ZeroExt(d.itemsize * 8 - 32, e) if d.itemsize > 4 else e
            return SNp(d, x)
        rng = eng.alloc(st, ObjCell(self.rng, {"$n": mk_np("u8", simp(b + self.size))}), "obj")
        arr = eng.alloc(st, ArrCell(dt(self.w), self.size, None, self.window(b, h)), "arr")
        ref = eng.alloc(st, ObjCell(self.cls, {"rng": rng, "list": arr, "head": val(hk, h), "pointer": val(pk, p)}), "obj")
        self.b, self.h, self.p = b, h, p
        self.pos = (p - h) & (self.size - 1)
        return st, ref

    def cands(self, eng, n0):
        """closed forms for loops over the list: the window rolled k steps / filled up to k"""
        size = self.size

        def cand(eng_, st0, loc, v0):
            if isinstance(v0, ArrCell) and v0.arr is not None and v0.n == size:
                i = z3.BitVec("i!", 32)
                old = v0.arr
                k32 = lambda k: z3.Extract(31, 0, k)
                fill = lambda k: ArrCell(v0.dt, v0.n, None, z3.Lambda([i], z3.If(z3.ULT(z3.ZeroExt(32, i), k), self.D(n0 + z3.ZeroExt(32, i)), z3.Select(old, i))))
                out = [fill]
                if getattr(self, "h", None) is not None:
                    out.append(lambda k: ArrCell(v0.dt, v0.n, None, self.window(self.b + k, (self.h + k32(k)) & (size - 1))))
                return out
            if loc[0] == "F" and loc[2] in ("head", "pointer") and v0 is not UNDEF and is_num(v0):
                e0, lo, hi = int_view(v0)
                t = type_key(v0)

                def mk(base):
                    def f(k):
                        e = (base + z3.Extract(31, 0, k)) & (size - 1)
                        return mk_int(simp(z3.ZeroExt(1, e)), 0, size - 1) if t == ("int",) else cast_np(mk_int(z3.ZeroExt(1, e), 0, size - 1), t[1])
                    return f
                own = mk(to_bv(v0, 32))
                out = [own]
                if getattr(self, "h", None) is not None and loc[2] == "pointer":
                    of = st0.heap[loc[1]].fields
                    hb = to_bv(of["head"], 32)

                    def after(k, hb=hb, v0=v0):
                        g = mk(hb)(k)
                        return merge(simp(k == 0), v0, g)
                    out.append(after)
                    th = type_key(of["head"])

                    def after2(k, hb=hb, v0=v0, th=th):
                        e = (hb + z3.Extract(31, 0, k)) & (size - 1)
                        g = mk_int(simp(z3.ZeroExt(1, e)), 0, size - 1) if th == ("int",) else cast_np(mk_int(z3.ZeroExt(1, e), 0, size - 1), th[1])
                        return merge(simp(k == 0), v0, g)
                    out.append(after2)
                return out
            return []
        eng.loop_cands.append(cand)

    def fields(self, st, ref):
        return st.heap[ref.id].fields

    def check(self, ctx, nm, eng, st, ref, b, pos):
        """INV(b, pos) holds of the object"""
        f = self.fields(st, ref)
        F = eng.facts
        size = self.size
        rng = f.get("rng")
        n = st.heap[rng.id].fields["$n"] if isinstance(rng, Ref) else None
        if not ctx.concrete(f"{nm}: the wrapped generator is kept", n is not None):
            return []
        value_is(ctx, f"{nm}: the generator has drawn exactly the window", n, simp(b + size), F)
        c = st.heap[f["list"].id]
        ctx.concrete(f"{nm}: list of {size} values of {self.w} bits", isinstance(c, ArrCell) and not is_sym(c.n) and int(c.n) == size and c.dt == dt(self.w))
        kinds = []
        for ch, head in alts(f["head"]):
            for cp, ptr in alts(f["pointer"]):
                g = z3.And(ch, cp)
                kinds.append((type_key(head), type_key(ptr)))
                eh, ep = int_view(head)[0], int_view(ptr)[0]
                W = max(eh.size(), ep.size(), 34)
                ctx.prove(f"{nm}: head and pointer inside the list", z3.Implies(g, z3.And(*[z3.And(sx(x, W) >= 0, sx(x, W) < size) for x in (eh, ep)])), F)
                h, p = to_bv(head, 32), to_bv(ptr, 32)
                i = z3.BitVec("i", 32)
                ctx.prove(f"{nm}: element i is draw base + (i - head) mod size", z3.Implies(z3.And(g, z3.ULT(i, size)),
                          simp(z3.Select(c.arr, i)) == self.D(b + z3.ZeroExt(32, (i - h) & (size - 1)))), F)
                ctx.prove(f"{nm}: read position", z3.Implies(g, (p - h) & (size - 1) == pos), F)
        return kinds


def u_list(mode, w, size):
    def f(ctx):
        M = Mode(mode)
        ctx.hint = {"t": "rnglist", "w": w, "size": size}
        md = Model(M, w, size)
        # construction
        eng = md.engine()
        st = eng.new_state()
        n0 = z3.BitVec("drawn", 64)
        md.cands(eng, n0)
        rng = eng.alloc(st, ObjCell(md.rng, {"$n": SNp("u8", n0)}), "obj")
        ref = eng.alloc(st, ObjCell(md.cls, {}), "obj")
        eng.call(M.method(md.cls, "__init__"), [ref, rng], {}, st)
        kinds = set(md.check(ctx, "__init__", eng, st, ref, n0, BV(0, 32)))
        ctx.engine_side(eng, "__init__")
        ctx.notes += eng.loops_used
        done = set()
        while kinds - done:
            hk, pk = sorted(kinds - done, key=str)[0]
            done.add((hk, pk))
            tag = "" if len(done) == 1 else f" [head {hk[-1]}, pointer {pk[-1]}]"

            def start():
                eng = md.engine()
                st, ref = md.state(eng, hk, pk)
                ctx.inputs = {}
                md.cands(eng, md.b + size)
                return eng, st, ref
            # get_value
            eng, st, ref = start()
            r = eng.call(M.method(md.cls, "get_value"), [ref], {}, st)
            value_is(ctx, f"get_value{tag}: the draw at the read position", r, md.D(md.b + z3.ZeroExt(32, md.pos)), eng.facts)
            kinds |= set(md.check(ctx, f"get_value{tag}", eng, st, ref, md.b, (md.pos + 1) & (size - 1)))
            ctx.engine_side(eng, f"get_value{tag}")
            # advance
            for kind in M.kinds(32):
                eng, st, ref = start()
                a, e = M.uarg(kind, "adv", 32)
                eng.call(M.method(md.cls, "advance"), [ref, a], {}, st)
                kinds |= set(md.check(ctx, f"advance({kind}){tag}", eng, st, ref, md.b, (md.pos + e) & (size - 1)))
                ctx.engine_side(eng, f"advance({kind}){tag}")
                eng, st, ref = start()
                a, e = M.uarg(kind, "adv", 32)
                eng.call(M.method(md.cls, "advance_states"), [ref, a], {}, st)
                kinds |= set(md.check(ctx, f"advance_states({kind}){tag}", eng, st, ref, md.b + z3.ZeroExt(32, e), z3.If(e == 0, md.pos, BV(0, 32))))
                ctx.engine_side(eng, f"advance_states({kind}){tag}")
            eng, st, ref = start()
            eng.call(M.method(md.cls, "advance_state"), [ref], {}, st)
            kinds |= set(md.check(ctx, f"advance_state{tag}", eng, st, ref, md.b + 1, BV(0, 32)))
            ctx.engine_side(eng, f"advance_state{tag}")
            eng, st, ref = start()
            eng.call(M.method(md.cls, "re_init"), [ref], {}, st)
            kinds |= set(md.check(ctx, f"re_init{tag}", eng, st, ref, md.b + size, BV(0, 32)))
            ctx.engine_side(eng, f"re_init{tag}")
            ctx.cover(f"state{tag}", eng.facts)
    return f


def units(prop="list", mode="numpy"):
    res = []
    for w in (16, 32, 64):
        for s in ([1 << k for k in range(17)] if w == 32 else [1, 4, 256, 4096]):
            res.append((f"{mode} RNGList u{w} size {s}", mode, u_list(mode, w, s)))
    return res
