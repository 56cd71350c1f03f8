"""Sound abstraction for validity queries: products, quotients and remainders of two non-constant terms become
uninterpreted functions, as do floating-point operations (products with ordered arguments, so commutativity is kept)."""
import z3

_UF = {}


def uf(name, w):
    k = (name, w)
    if k not in _UF:
        s = z3.BitVecSort(w)
        _UF[k] = z3.Function(f"{name}{w}", s, s, s)
    return _UF[k]


DIVS = {z3.Z3_OP_BUDIV: "udiv", z3.Z3_OP_BUREM: "urem", z3.Z3_OP_BSDIV: "sdiv", z3.Z3_OP_BSREM: "srem",
        z3.Z3_OP_BUDIV_I: "udiv", z3.Z3_OP_BUREM_I: "urem", z3.Z3_OP_BSDIV_I: "sdiv", z3.Z3_OP_BSREM_I: "srem"}


COMM = {z3.Z3_OP_FPA_MUL, z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_EQ}
GT = {z3.Z3_OP_FPA_GT: "lt", z3.Z3_OP_FPA_GE: "leq", z3.Z3_OP_FPA_LT: "lt", z3.Z3_OP_FPA_LE: "leq"}


def unfloat(t, k, ch, new):
    """the term with binary floats replaced by their encodings and the operations on them by uninterpreted functions"""
    sort = lambda s: z3.BitVecSort(s.ebits() + s.sbits()) if isinstance(s, z3.FPSortRef) else s
    if z3.is_fp_value(t):
        return z3.simplify(z3.fpToIEEEBV(t)) if not t.isNaN() else z3.BitVecVal(((1 << t.ebits() + 1) - 1) << t.sbits() - 2, t.ebits() + t.sbits())
    if k == z3.Z3_OP_EQ:
        return new[0] == new[1]
    if k == z3.Z3_OP_ITE:
        return z3.If(*new)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*new)
    if k == z3.Z3_OP_FPA_SUB:
        k, new = z3.Z3_OP_FPA_ADD, [new[0], new[1], z3.Function(f"neg{new[2].size()}", new[2].sort(), new[2].sort())(new[2])]
    if k == z3.Z3_OP_FPA_NEG:
        return z3.Function(f"neg{new[0].size()}", new[0].sort(), new[0].sort())(new[0])
    args = [c for c, o in zip(new, ch) if not isinstance(o.sort(), z3.FPRMSortRef)]
    if k in (z3.Z3_OP_FPA_TO_FP, z3.Z3_OP_FPA_TO_FP_UNSIGNED) and len(args) == 1 and len(ch) == 2 and z3.is_bv(ch[1]) and not z3.is_bv_value(args[0]):
        # an integer's conversion: the same function for a signed and an unsigned source once leading zeros are gone
        a, nonneg = args[0], k == z3.Z3_OP_FPA_TO_FP_UNSIGNED
        while z3.is_app_of(a, z3.Z3_OP_CONCAT) and z3.is_bv_value(a.arg(0)) and a.arg(0).as_long() == 0:
            rest = a.children()[1:]
            a, nonneg = rest[0] if len(rest) == 1 else z3.Concat(*rest), True
        if nonneg:
            return z3.Function(f"nat_to_fp!{'_'.join(str(x) for x in t.decl().params())}!{ch[0].sexpr()}!{a.size()}", a.sort(), sort(t.sort()))(a)
    name = ("fp.add" if k == z3.Z3_OP_FPA_ADD else t.decl().name()) + "!" + "_".join(str(x) for x in t.decl().params()) + "!" + "_".join(o.sexpr() for o in ch if isinstance(o.sort(), z3.FPRMSortRef))
    if k in COMM:
        args.sort(key=lambda c: c.get_id())
    elif k in GT:
        name, args = "fp." + GT[k], args[::-1] if k in (z3.Z3_OP_FPA_GT, z3.Z3_OP_FPA_GE) else args
    f = z3.Function(name + "!" + "_".join(a.sort().sexpr() for a in args) + t.sort().sexpr(), *[a.sort() for a in args], sort(t.sort()))
    return f(*args)


def abstract(exprs, consts=False, divs=False, fps=False):
    """(rewritten, changed); consts: products with a constant that is no power of two become uninterpreted too;
    divs: so do unsigned quotients and remainders by a constant (their ranges are kept as side facts)"""
    cache = {}
    changed = [False]
    side = {}

    def go(root):
        stack = [root]
        while stack:
            t = stack[-1]
            i = t.get_id()
            if i in cache:
                stack.pop()
                continue
            ch = t.children()
            todo = [c for c in ch if c.get_id() not in cache]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            new = [cache[c.get_id()][1] for c in ch]
            k = t.decl().kind() if z3.is_app(t) else None
            r = None
            if fps and k is not None and (z3.is_fp(t) or any(z3.is_fp(c) for c in ch)):
                r = unfloat(t, k, ch, new)
                if (k in COMM or k == z3.Z3_OP_FPA_SUB) and not z3.is_bv_value(r):
                    side[r.get_id()] = r == r.decl()(r.arg(1), r.arg(0))
                changed[0] = True
            elif k == z3.Z3_OP_BMUL:
                const = [c for c in new if z3.is_bv_value(c)]
                var = [c for c in new if not z3.is_bv_value(c)]
                if len(var) >= 2:
                    var.sort(key=lambda c: c.get_id())
                    acc = var[0]
                    for v in var[1:]:
                        acc = uf("mul", t.size())(acc, v)
                    for c in const:
                        acc = c * acc
                    r = acc
                    changed[0] = True
                elif consts and len(var) == 1 and len(const) == 1:
                    w = t.size()
                    c = const[0].as_long()
                    neg = c >> (w - 1)
                    c = (1 << w) - c if neg else c
                    if c & (c - 1):
                        r = uf("mul", w)(z3.BitVecVal(c, w), var[0])
                        r = -r if neg else r
                        changed[0] = True
            elif k in DIVS and not z3.is_bv_value(new[1]):
                r = uf(DIVS[k], t.size())(*new)
                changed[0] = True
                if divs and DIVS[k] in ("udiv", "urem"):
                    side[r.get_id()] = z3.Implies(new[1] != 0, z3.And(z3.ULE(r, new[0]), z3.ULT(r, new[1]) if DIVS[k] == "urem" else z3.BoolVal(True)))
            elif divs and k in DIVS and DIVS[k] in ("udiv", "urem") and new[1].as_long():
                c = new[1].as_long()
                if c & (c - 1):
                    r = uf(DIVS[k], t.size())(*new)
                    changed[0] = True
                    side[r.get_id()] = z3.ULT(r, c) if DIVS[k] == "urem" else z3.ULE(r, ((1 << t.size()) - 1) // c)
            if r is None:
                if z3.is_quantifier(t) or not ch or all(a is b or a.eq(b) for a, b in zip(ch, new)):
                    r = t
                else:
                    r = t.decl()(*new) if not (k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BAND,
                                                     z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT, z3.Z3_OP_DISTINCT)) else rebuild(k, t, new)
            cache[i] = (t, r)
        return cache[root.get_id()][1]
    out = [go(e) for e in exprs]
    return out + list(side.values()), changed[0]


def rebuild(k, t, new):
    if k == z3.Z3_OP_AND:
        return z3.And(*new)
    if k == z3.Z3_OP_OR:
        return z3.Or(*new)
    if k == z3.Z3_OP_CONCAT:
        return z3.Concat(*new)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*new)
    r = new[0]
    for x in new[1:]:
        r = {z3.Z3_OP_BADD: lambda: r + x, z3.Z3_OP_BMUL: lambda: r * x, z3.Z3_OP_BAND: lambda: r & x,
             z3.Z3_OP_BOR: lambda: r | x, z3.Z3_OP_BXOR: lambda: r ^ x}[k]()
    return r


def unsat_abstract(assertions, timeout=5000, levels=(False,)):
    """True when the abstracted assertions are unsatisfiable (hence the originals are)"""
    for consts in levels:
        consts, divs, fps = (*consts, False)[:3] if isinstance(consts, tuple) else (consts, False, False)
        try:
            xs = list(assertions)
            if consts:
                if _size(xs, 3000) >= 3000:
                    return False
                xs = [z3.simplify(x, som=True, mul2concat=False) for x in xs]
            if fps:
                if not any(map(has_fp, xs)):
                    continue
                xs = [z3.simplify(x) for x in xs]
            new, ch = abstract(xs, consts, divs, fps)
        except z3.Z3Exception:
            return False
        if not ch:
            continue
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*new)
        c = s.check()
        if c == z3.unsat:
            return True
    return False


def has_fp(t):
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_fp(x):
            return True
        stack += x.children()
    return False


def _size(ts, limit):
    seen, stack = set(), list(ts)
    while stack and len(seen) < limit:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        stack += x.children()
    return len(seen)
