"""Verification-condition generator for the numpy mode.

Executes the AST of the real function objects (found at run time in the imported package, source re-read
from /repo on every run) over symbolic values.  Branches are merged by if-then-else, loops with a constant
bound are unrolled completely, other loops go through `loop_rule` (inductive closed forms), calls to
functions under contract are replaced by their contracts and all other package functions are inlined."""
import os
import ast
import copy
import inspect
import textwrap
import types
import builtins
import itertools
import numpy as np
import z3
from .sym import *  # noqa
from .sym import _floor_divmod  # noqa
from .nl import unsat_abstract, abstract

UNROLL = 72
DEBUG = os.environ.get("NPV_DEBUG")
KW = 64  # width of loop ghost counters


def consts_of(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        stack += x.children()
    return out


def exactly_one(bs):
    return z3.And(z3.Or(*bs), *[z3.Or(z3.Not(a), z3.Not(b)) for a, b in itertools.combinations(bs, 2)])


BV0 = z3.BitVecVal(0, KW)


class Cell:
    pass


class ArrCell(Cell):
    """1-d numpy array of integer dtype; data: list of values of that dtype, or a z3 Array BV32 -> BVw with n (int or SInt)"""
    def __init__(self, dt, n, data, arr=None):
        self.dt, self.n, self.data, self.arr = np.dtype(dt), n, data, arr


class ObjCell(Cell):
    def __init__(self, cls, fields): self.cls, self.fields = cls, fields


class ListCell(Cell):
    def __init__(self, items): self.items = items


class SeqCell(Cell):
    """read-only sequence of symbolic length: n (SInt), get(index_bv64) -> value
    vec: a numpy array (element-wise operators, columns); rec: its fields are attributes too (np.recarray)"""
    def __init__(self, n, get, vec=False, rec=False): self.n, self.get, self.vec, self.rec = n, get, vec, rec


class LogCell(Cell):
    """list that only grows; entries recorded by appends: [(guard, value)] since `base`"""
    def __init__(self, items): self.items = items


class Closure:
    """function defined by interpreted code"""
    def __init__(self, node, env, globs, name): self.node, self.env, self.globs, self.name = node, env, globs, name


class Bound:
    def __init__(self, fn, self_): self.fn, self.self_ = fn, self_


class St:
    __slots__ = ("frames", "heap", "guard")

    def __init__(self, frames, heap, guard): self.frames, self.heap, self.guard = frames, heap, guard

    def fork(self, *g):
        return St([dict(f) for f in self.frames], dict(self.heap), self.guard + tuple(g))

    def set(self, o): self.frames, self.heap, self.guard = o.frames, o.heap, o.guard

    @property
    def g(self):
        return z3.And(*self.guard) if self.guard else z3.BoolVal(True)


_AST_CACHE = {}


def fn_ast(fn):
    code = fn.__code__
    if code in _AST_CACHE:
        return _AST_CACHE[code]
    try:
        src = textwrap.dedent(inspect.getsource(fn))
        tree = ast.parse(src)
    except (OSError, SyntaxError, TypeError, IndentationError) as ex:
        raise Unsupported(f"no source for {fn}: {ex}")
    node = None
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and (isinstance(n, ast.Lambda) or n.name == code.co_name):
            node = n
            break
    if node is None:
        raise Unsupported(f"no AST for {fn}")
    _AST_CACHE[code] = node
    return node


class Engine:
    def __init__(self, package="numba_pokemon_prngs"):
        self.package = package
        self.facts = []
        self.raises = []
        self.requires = []      # (name, Bool) preconditions of contracted callees at call sites
        self.class_contracts = {}   # class object -> contract(engine, st, args, kwargs) -> value, for construction
        self.loop_exit = None       # state in which the loop passed to iter_hook is left by its condition
        self.contracts = {}     # function object -> contract(engine, st, args, kwargs) -> value
        self.loop_cands = []
        self.loop_ghosts = []
        self.name_stores = False
        self.defs = []
        self.ids = itertools.count(1)
        self.fresh_n = itertools.count()
        self.loops_used = []
        self.functions = {}     # qualname -> file:line of functions executed from their source
        self.contracted_calls = {}
        self.no_native = set()
        self.solver_calls = 0
        self.force_loop_rule = False
        self.quick_valid = False   # invariant candidates are judged with the divisions abstracted only (drops more of them, never keeps a wrong one)
        self.merge_cands = True    # candidate v_k = (k == 0 ? v_0 : v_1)
        self.loop_ks = []         # ghost iteration numbers of the loops being executed
        self.target_cands = False  # the loop targets keep their last values after the loop
        self.loop_depth = 0
        self._narrow = {}
        self.loop_for_min = None   # ranges with at least this many steps go through the loop rule
        self.big_arrays = 8192     # arrays at least this long are kept as one SMT array
        self.store_hook = None     # f(engine, st, ref, index, value) -> equal value (proved equal by the hook)
        self.log_lists = False    # list() is a growing log of guarded entries
        self.virtual = {}         # (class, attribute) -> (get(engine, st, ref), set(engine, st, ref, value)): attributes kept as ghost state
        self.iter_hook = None     # f(engine, where, before, head, after, exits, k): the generic iteration of a loop, invariants established
        self.assign_hook = None   # f(engine, st, value) -> equal value (proved equal by the hook)
        self.table_hooks = []   # f(sequence) -> getter(index64) or None: named reads of constant tables

    # ---- basics
    def fresh(self, name, sort):
        return z3.Const(f"{name}!{next(self.fresh_n)}", sort)

    def fresh_bv(self, name, w):
        return self.fresh(name, z3.BitVecSort(w))

    def new_state(self):
        return St([], {}, ())

    def alloc(self, st, cell, kind):
        r = Ref(next(self.ids), kind)
        st.heap[r.id] = cell
        return r

    def fact(self, st, f):
        f = simp(f)
        if not z3.is_true(f):
            self.facts.append(z3.Implies(st.g, f) if st.guard else f)

    def raise_if(self, st, cond, what):
        cond = simp(cond) if not isinstance(cond, bool) else z3.BoolVal(cond)
        if not z3.is_false(cond):
            self.raises.append((simp(z3.And(st.g, cond)), what, len(self.facts)))

    def check(self, *assertions, timeout=3000):
        self.solver_calls += 1
        s = z3.Solver()
        s.set("timeout", timeout)
        s.add(*self.facts)
        s.add(*assertions)
        return s.check()

    def feasible(self, st, *extra):
        return self.check(*st.guard, *extra) != z3.unsat

    def narrowed(self, f):
        r = self._narrow.get(f.get_id())
        if r is None:
            r = self._narrow[f.get_id()] = (f, narrow_divisions(simp(f)))
        return r[1]

    def valid(self, st, f, *hyps, timeout=20000):
        if self.quick_valid:
            xs = [self.narrowed(x) for x in (*self.facts, *st.guard, *hyps, z3.Not(f))]
            new, _ = abstract(xs, False, True)
            s = z3.Solver()
            s.set("timeout", 3000)
            s.add(*new)
            return s.check() == z3.unsat
        if unsat_abstract([*self.facts, *st.guard, *hyps, z3.Not(f)], levels=(False, (False, False, True))):
            return True
        return self.check(*st.guard, *hyps, z3.Not(f), timeout=timeout) == z3.unsat

    # ---- merging
    def merge_cell(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, ArrCell) and isinstance(b, ArrCell) and a.dt == b.dt:
            if a.arr is not None and b.arr is not None:
                return ArrCell(a.dt, a.n, None, a.arr if a.arr.eq(b.arr) else z3.If(c, a.arr, b.arr))
            if a.data is not None and b.data is not None and len(a.data) == len(b.data):
                return ArrCell(a.dt, a.n, [merge(c, x, y) for x, y in zip(a.data, b.data)])
        if isinstance(a, ObjCell) and isinstance(b, ObjCell) and a.cls is b.cls:
            f = {}
            for k in {**a.fields, **b.fields}:
                f[k] = merge(c, a.fields.get(k, UNDEF), b.fields.get(k, UNDEF))
            return ObjCell(a.cls, f)
        if isinstance(a, ListCell) and isinstance(b, ListCell) and len(a.items) == len(b.items):
            return ListCell([merge(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, LogCell) and isinstance(b, LogCell):
            n = 0
            while n < min(len(a.items), len(b.items)) and a.items[n] is b.items[n]:
                n += 1
            return LogCell(a.items[:n] + [(z3.And(c, g), v) for g, v in a.items[n:]]
                           + [(z3.And(z3.Not(c), g), v) for g, v in b.items[n:]])
        raise Unsupported("merge of incompatible heap cells")

    def merge_outcome(self, o1, o2):
        (k, s1, v1), (_, s2, v2) = o1, o2
        n = 0
        while n < min(len(s1.guard), len(s2.guard)) and (s1.guard[n] is s2.guard[n] or s1.guard[n].eq(s2.guard[n])):
            n += 1
        r1 = s1.guard[n:]
        r2 = s2.guard[n:]
        c = simp(z3.And(*r1)) if r1 else z3.BoolVal(True)
        d = simp(z3.And(*r2)) if r2 else z3.BoolVal(True)
        g = simp(z3.Or(c, d))
        guard = s1.guard[:n] + (() if z3.is_true(g) else (g,))
        if z3.is_false(c):
            return (k, s2, v2)
        if z3.is_false(d):
            return (k, s1, v1)
        frames = []
        for f1, f2 in zip(s1.frames, s2.frames):
            if f1 is f2:
                frames.append(f1)
                continue
            f = {}
            for name in {**f1, **f2}:
                a, b = f1.get(name, UNDEF), f2.get(name, UNDEF)
                f[name] = a if a is b else merge(c, a, b)
            frames.append(f)
        heap = {}
        for i in {**s1.heap, **s2.heap}:
            a, b = s1.heap.get(i), s2.heap.get(i)
            heap[i] = a if b is None else b if a is None else self.merge_cell(c, a, b)
        v = None if v1 is None and v2 is None else merge(c, v1, v2)
        return (k, St(frames, heap, guard), v)

    def merge_kinds(self, outs):
        by = {}
        for o in outs:
            if any(z3.is_false(x) for x in o[1].guard):
                continue
            by.setdefault(o[0], []).append(o)
        res = []
        for k, os_ in by.items():
            cur = os_[-1]
            for o in reversed(os_[:-1]):
                cur = self.merge_outcome(o, cur)
            res.append(cur)
        return res

    # ---- functions
    def call(self, fn, args, kwargs, st):
        kwargs = kwargs or {}
        if isinstance(fn, SUnion):
            raise Unsupported("call of conditional callee")
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self_] + list(args), kwargs, st)
        if isinstance(fn, types.MethodType) and not isinstance(fn.__self__, type(np)):
            return self.call(fn.__func__, [fn.__self__] + list(args), kwargs, st)
        if isinstance(fn, (staticmethod, classmethod)):
            fn = fn.__func__
        if fn in self.contracts if isinstance(fn, types.FunctionType) else False:
            c = self.contracts[fn]
            q = fn.__module__ + "." + fn.__qualname__
            self.contracted_calls[q] = self.contracted_calls.get(q, 0) + 1
            return c(self, st, list(args), kwargs)
        if self.contracts and not isinstance(fn, types.FunctionType) and callable(fn) and _hashable(fn) and fn in self.contracts:
            return self.contracts[fn](self, st, list(args), kwargs)
        intr = INTRINSICS.get(fn) if isinstance(fn, (type, types.BuiltinFunctionType, types.FunctionType, np.ufunc)) or callable(fn) and _hashable(fn) else None
        if intr is not None:
            r = intr(self, st, *args, **kwargs)
            if r is not NotImplemented:
                return r
        symbolic = any(_has_sym(a) for a in args) or any(_has_sym(a) for a in kwargs.values())
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kwargs, st)
        if isinstance(fn, types.FunctionType):
            if (fn.__module__ or "").split(".")[0] == self.package or symbolic or fn in self.no_native:
                return self.call_function(fn, args, kwargs, st)
        if isinstance(fn, type):
            if fn in self.class_contracts:
                return self.class_contracts[fn](self, st, list(args), kwargs)
            if issubclass(fn, np.generic):
                if len(args) == 1:
                    return cast_np(args[0], np.dtype(fn))
            elif (fn.__module__ or "").split(".")[0] == self.package and not issubclass(fn, BaseException) \
                    and "__init__" in {k for c in fn.__mro__[:-1] for k in c.__dict__} \
                    and not hasattr(fn, "__members__"):
                ref = self.alloc(st, ObjCell(fn, {}), "obj")
                init = self.class_attr(fn, "__init__")
                self.call(init, [ref] + list(args), kwargs, st)
                return ref
        if symbolic:
            raise Unsupported(f"call of {getattr(fn, '__name__', fn)!r} with symbolic arguments")
        return fn(*args, **kwargs)

    def class_attr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        raise KeyError(name)

    def bind(self, a, args, kwargs, defaults, kwdefaults, name):
        """bind call arguments to an ast.arguments node"""
        names = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        args = list(args)
        if len(args) > len(names):
            if not a.vararg:
                raise Unsupported(f"too many arguments for {name}")
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        kw = dict(kwargs)
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                loc[n] = kw.pop(n)
        if kw:
            if not a.kwarg:
                raise Unsupported(f"unexpected keyword for {name}")
            loc[a.kwarg.arg] = kw
        elif a.kwarg:
            loc[a.kwarg.arg] = {}
        d = dict(zip(names[len(names) - len(defaults):], defaults)) if defaults else {}
        d.update(kwdefaults or {})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in loc:
                if n not in d:
                    raise Unsupported(f"missing argument {n} for {name}")
                loc[n] = d[n]
        return loc

    def call_function(self, fn, args, kwargs, st):
        node = fn_ast(fn)
        q = fn.__module__ + "." + fn.__qualname__
        self.functions[q] = f"{inspect.getsourcefile(fn)}:{fn.__code__.co_firstlineno}"
        loc = self.bind(node.args, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__, q)
        clos = {}
        if fn.__closure__:
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    clos[n] = c.cell_contents
                except ValueError:
                    pass
        loc["$env"] = (clos, fn.__globals__, args[0] if args else None)
        return self.run_body(node, loc, st)

    def call_closure(self, fn, args, kwargs, st):
        loc = self.bind(fn.node.args, args, kwargs, fn.defaults, fn.kwdefaults, fn.name)
        loc["$env"] = (fn.env, fn.globs)
        return self.run_body(fn.node, loc, st)

    def run_body(self, node, loc, st):
        if len(st.frames) > 40:
            raise Unsupported("recursion too deep")
        st.frames = [dict(f) for f in st.frames] + [loc]
        if isinstance(node, ast.Lambda):
            v = self.eval(node.body, st)
            st.frames = st.frames[:-1]
            return v
        outs = self.block(node.body, st.fork())
        outs = [("ret", s, None if k == "next" else v) for k, s, v in outs if k in ("next", "ret")]
        outs = self.merge_kinds(outs)
        if not outs:
            raise PathEnd()
        _, s, v = outs[0]
        s.frames = s.frames[:-1]
        st.set(s)
        return v

    # ---- statements
    def block(self, stmts, st):
        """returns outcomes [(kind, st, value)], at most one per kind"""
        acc = []
        for i, s in enumerate(stmts):
            try:
                outs = self.stmt(s, st)
            except PathEnd:
                return self.merge_kinds(acc)
            if outs is None:
                continue
            nxt = None
            for o in outs:
                if o[0] == "next":
                    nxt = o[1]
                else:
                    acc.append(o)
            if nxt is None:
                return self.merge_kinds(acc)
            st = nxt
        acc.append(("next", st, None))
        return self.merge_kinds(acc)

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        return m(s, st)

    def s_Pass(self, s, st): return None
    def s_Expr(self, s, st):
        self.eval(s.value, st)

    def s_Global(self, s, st): raise Unsupported("global statement")

    def s_Nonlocal(self, s, st): raise Unsupported("nonlocal statement")

    def s_Assert(self, s, st):
        c = self.truth(self.eval(s.test, st))
        if c is True:
            return None
        self.raise_if(st, z3.Not(c) if not isinstance(c, bool) else True, "AssertionError")
        if c is False:
            raise PathEnd()

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else None
        return [("ret", st, v)]

    def s_Break(self, s, st): return [("brk", st, None)]
    def s_Continue(self, s, st): return [("cont", st, None)]

    def s_Raise(self, s, st):
        name = ast.unparse(s.exc) if s.exc is not None else "raise"
        self.raise_if(st, True, name)
        return []

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st)

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            a = self.eval(ast.Name(t.id, ast.Load()), st)
            if isinstance(a, Ref):
                raise Unsupported("in-place operator on a heap object")
            self.assign(t, self.bin(op, a, self.eval(s.value, st), st), st)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st)
            a = self.getattr(o, t.attr, st)
            v = self.bin(op, a, self.eval(s.value, st), st)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            i = self.eval_index(t.slice, st)
            a = self.getitem(o, i, st)
            v = self.bin(op, a, self.eval(s.value, st), st)
            self.setitem(o, i, v, st)
        else:
            raise Unsupported("augmented assignment target")

    def s_With(self, s, st):
        items = []
        for it in s.items:
            m = self.eval(it.context_expr, st)
            if is_sym(m):
                raise Unsupported("with over a symbolic value")
            v = self.call(type(m).__enter__, [m], {}, st)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
            items.append(m)
        n = len(self.raises)
        outs = self.block(s.body, st)
        if len(self.raises) != n:
            raise Unsupported("exception inside a with statement")
        if len(outs) != 1:
            raise Unsupported("several ways out of a with statement")
        for m in reversed(items):
            self.call(type(m).__exit__, [m, None, None, None], {}, outs[0][1])
        return outs

    def s_Try(self, s, st):
        n = len(self.raises)
        outs = self.block(s.body, st)
        if len(self.raises) != n:
            raise Unsupported("exception inside a try statement")
        res = []
        for k, s2, v in outs:
            if k == "next" and s.orelse:
                res += self.block(s.orelse, s2)
            else:
                res.append((k, s2, v))
        if not s.finalbody:
            return res
        fin = []
        for k, s2, v in res:
            for k3, s3, v3 in self.block(s.finalbody, s2):
                fin.append((k, s3, v) if k3 == "next" else (k3, s3, v3))
        return fin

    def s_FunctionDef(self, s, st):
        env = {}
        for f in (st.frames[-1],):
            c = f["$env"][0]
            env.update(c)
        # free variables are read through the defining frame at definition time (closures here never rebind)
        env.update({k: v for k, v in st.frames[-1].items() if k != "$env"})
        fn = Closure(s, env, st.frames[-1]["$env"][1], s.name)
        fn.defaults = tuple(self.eval(d, st) for d in s.args.defaults)
        fn.kwdefaults = {a.arg: self.eval(d, st) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        v = fn
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, st), [v], {}, st)
        env[s.name] = v
        st.frames[-1][s.name] = v

    def s_If(self, s, st):
        c = self.truth(self.eval(s.test, st))
        if c is True:
            return self.block(s.body, st)
        if c is False:
            return self.block(s.orelse, st)
        o1 = self.block(s.body, st.fork(c))
        o2 = self.block(s.orelse, st.fork(simp(z3.Not(c))))
        return self.merge_kinds(o1 + o2)

    def s_While(self, s, st):
        if s.orelse:
            raise Unsupported("while-else")
        start = st.fork()
        snap = (len(self.facts), len(self.raises), len(self.requires), len(self.defs))
        exits, acc, n = [], [], 0
        cur = st
        while True:
            c = self.truth(self.eval(s.test, cur))
            if c is not True:
                if c is False:
                    exits.append(("next", cur, None))
                    break
                exits.append(("next", cur.fork(simp(z3.Not(c))), None))
                cur = cur.fork(c)
                if not self.feasible(cur):
                    break
            n += 1
            if n > (0 if self.force_loop_rule and c is not True else UNROLL):
                del self.facts[snap[0]:], self.raises[snap[1]:], self.requires[snap[2]:], self.defs[snap[3]:]
                return self.loop_rule(s, start, test=s.test)
            outs = self.block(s.body, cur)
            nxt = []
            for k, s2, v in outs:
                if k in ("next", "cont"):
                    nxt.append(("next", s2, None))
                elif k == "brk":
                    exits.append(("next", s2, None))
                else:
                    acc.append((k, s2, v))
            nxt = self.merge_kinds(nxt)
            if not nxt:
                break
            cur = nxt[0][1]
        return self.merge_kinds(acc + exits)

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        if isinstance(it, range) and self.loop_for_min is not None and len(it) >= self.loop_for_min:
            it = SRange(it.start, it.stop, it.step)
        if isinstance(it, SRange) or (isinstance(it, Ref) and isinstance(st.heap[it.id], SeqCell)):
            r = self.loop_rule(s, st, it=it)
            if s.orelse:
                raise Unsupported("for-else on a symbolic range")
            return r
        if isinstance(it, SUnion):
            raise Unsupported("iteration over a conditional iterable")
        seq = self.iter_concrete(it, st)
        exits, acc = [], []
        cur = st
        for item in seq:
            try:
                self.assign(s.target, item(cur) if callable(item) and getattr(item, "_lazy", 0) else item, cur)
            except PathEnd:
                cur = None
                break
            outs = self.block(s.body, cur)
            nxt = []
            for k, s2, v in outs:
                if k in ("next", "cont"):
                    nxt.append(("next", s2, None))
                elif k == "brk":
                    exits.append(("next", s2, None))
                else:
                    acc.append((k, s2, v))
            nxt = self.merge_kinds(nxt)
            if not nxt:
                cur = None
                break
            cur = nxt[0][1]
        if cur is not None:
            if s.orelse:
                for o in self.block(s.orelse, cur):
                    (exits if o[0] == "next" else acc).append(o)
            else:
                exits.append(("next", cur, None))
        return self.merge_kinds(acc + exits)

    def iter_concrete(self, it, st):
        if isinstance(it, Ref):
            cell = st.heap[it.id]
            if isinstance(cell, ListCell):
                return list(cell.items)
            if isinstance(cell, ArrCell) and cell.data is not None:
                out = []
                for i in range(len(cell.data)):
                    f = (lambda i: lambda cur: self.getitem(it, i, cur))(i)
                    f._lazy = 1
                    out.append(f)
                return out
            raise Unsupported("iteration over heap object")
        if is_sym(it):
            raise Unsupported(f"iteration over {type(it).__name__}")
        it = list(it)
        if len(it) > 200000:
            raise Unsupported("too many iterations")
        return it

    # ---- the loop rule
    def loc_get(self, st, loc):
        if loc[0] == "L":
            return st.frames[loc[1]].get(loc[2], UNDEF)
        if loc[0] == "F":
            return st.heap[loc[1]].fields.get(loc[2], UNDEF)
        return st.heap[loc[1]]

    def loc_set(self, st, loc, v):
        if loc[0] == "L":
            st.frames[loc[1]][loc[2]] = v
        elif loc[0] == "F":
            c = st.heap[loc[1]]
            st.heap[loc[1]] = ObjCell(c.cls, {**c.fields, loc[2]: v})
        else:
            st.heap[loc[1]] = v

    def diff_locs(self, a, b):
        out = []
        for fi, (f1, f2) in enumerate(zip(a.frames, b.frames)):
            for n in {**f1, **f2}:
                if n == "$env":
                    continue
                x, y = f1.get(n, UNDEF), f2.get(n, UNDEF)
                if not (x is y or same(x, y)):
                    out.append(("L", fi, n))
        for i in a.heap:
            x, y = a.heap[i], b.heap[i]
            if x is y:
                continue
            if isinstance(x, ObjCell):
                for n in {**x.fields, **y.fields}:
                    u, v = x.fields.get(n, UNDEF), y.fields.get(n, UNDEF)
                    if not same(u, v):
                        out.append(("F", i, n))
            elif isinstance(x, ArrCell):
                if x.arr is not None:
                    if not x.arr.eq(y.arr):
                        out.append(("A", i))
                elif any(not same(u, v) for u, v in zip(x.data, y.data)):
                    out.append(("A", i))
            elif isinstance(x, ListCell):
                if len(x.items) != len(y.items) or any(not same(u, v) for u, v in zip(x.items, y.items)):
                    out.append(("A", i))
            elif isinstance(x, LogCell):
                if len(x.items) != len(y.items):
                    out.append(("A", i))
            else:
                out.append(("A", i))
        return out

    def havoc_like(self, v, probe=False):
        """fresh value of the type of v (probe: only to discover which locations a loop body changes)"""
        if probe and (isinstance(v, SInt) or (isinstance(v, int) and not isinstance(v, bool))):
            return SInt(self.fresh_bv("hv", 66), 0, (1 << 65) - 1)
        if isinstance(v, ArrCell):
            if v.arr is not None:
                return ArrCell(v.dt, v.n, None, self.fresh("hv", v.arr.sort()))
            return ArrCell(v.dt, v.n, [self.havoc_like(x) for x in v.data])
        if isinstance(v, LogCell):
            return LogCell([])
        if isinstance(v, (SNp, np.integer)):
            dt = v.dt if isinstance(v, SNp) else v.dtype
            return SNp(dt, self.fresh_bv("hv", dt.itemsize * 8))
        if isinstance(v, (SBool, bool, np.bool_)):
            return SBool(self.fresh("hv", z3.BoolSort()), isinstance(v, np.bool_) or (isinstance(v, SBool) and v.np))
        if isinstance(v, (SFp, float, np.floating)):
            dt = v.dt if isinstance(v, SFp) else v.dtype if isinstance(v, np.floating) else None
            return SFp(dt, self.fresh("hv", SORT[dt] if dt is not None else z3.Float64()))
        return UNDEF

    def val_eq(self, a, b):
        """z3 Bool: values/cells equal including type, or None when the types differ"""
        if isinstance(a, SUnion):
            parts = [(c, self.val_eq(x, b)) for c, x in a.alts]
            return z3.And(*[z3.Implies(c, e if e is not None else z3.BoolVal(False)) for c, e in parts])
        if isinstance(b, SUnion):
            return self.val_eq(b, a)
        if isinstance(a, ArrCell) and isinstance(b, ArrCell):
            if a.dt != b.dt:
                return None
            if a.arr is not None and b.arr is not None:
                if z3.is_quantifier(a.arr) or z3.is_quantifier(b.arr):      # equal on the elements of the array
                    i = self.fresh_bv("i", 32)
                    return z3.Implies(z3.ULT(i, to_bv(a.n, 32)), simp(z3.Select(a.arr, i)) == simp(z3.Select(b.arr, i)))
                return a.arr == b.arr
            if a.data is not None and b.data is not None and len(a.data) == len(b.data):
                es = [self.val_eq(x, y) for x, y in zip(a.data, b.data)]
                return None if any(e is None for e in es) else z3.And(*es)
            return None
        if isinstance(a, Cell) or isinstance(b, Cell):
            return z3.BoolVal(True) if a is b else None
        if same(a, b):
            return z3.BoolVal(True)
        if type_key(a) != type_key(b) or type_key(a)[0] == "obj":
            return None
        if is_float(a):
            s = SORT[a.dt] if isinstance(a, SFp) and a.dt is not None else z3.Float64()
            return to_fp(a, s) == to_fp(b, s)
        ea, _, _ = int_view(a)
        eb, _, _ = int_view(b)
        w = max(ea.size(), eb.size())
        return sx(ea, w) == sx(eb, w)

    def affine_cand(self, v0, v1):
        """candidate v_k = v0 + c*k when v1 - v0 is a constant"""
        if not (is_num(v0) and is_num(v1)) or type_key(v0) != type_key(v1) or type_key(v0)[0] == "bool":
            return []
        if isinstance(v0, (SNp, np.integer)):
            dt = np.dtype(type_key(v0)[1])
            if dt.kind == "b":
                return []
            w = dt.itemsize * 8
            d = simp(to_bv(v1, w) - to_bv(v0, w))
            if num_of(d) is None:
                return []
            return [lambda k: mk_np(dt, simp(to_bv(v0, w) + d * (z3.Extract(w - 1, 0, k) if w <= KW else z3.ZeroExt(w - KW, k))))]
        d = py_binop("Sub", v1, v0, None)
        if isinstance(d, SInt):
            n = num_of(simp(d.e))
            if n is None:
                return []
            d = simp(d.e).as_signed_long()
        step = d
        e0, l0, h0 = int_view(v0)

        def f(k):
            ke = SInt(z3.ZeroExt(1, k), 0, (1 << KW) - 1)
            return py_binop("Add", v0, py_binop("Mult", step, ke, None), None)
        return [f]

    def loop_rule(self, s, st, test=None, it=None):
        self.loop_depth += 1
        try:
            return self.loop_rule_(s, st, test, it)
        finally:
            self.loop_depth -= 1

    def loop_rule_(self, s, st, test, it):
        where = f"loop at line {getattr(s, 'lineno', '?')}"
        if it is not None and isinstance(it, SRange):
            if it.step != 1 and not (isinstance(it.step, int) and it.step > 0):
                raise Unsupported("symbolic range with a symbolic or negative step")
            step = it.step
            diff = py_binop("Sub", it.stop, it.start, None) if not (isinstance(it.stop, int) and isinstance(it.start, int)) else it.stop - it.start
            if step != 1:
                diff = binop("FloorDiv", binop("Add", diff, step - 1, lambda *a: None), step, lambda *a: None)
            e, lo, hi = int_view(diff)
            if hi >= 1 << KW:
                wd = max(e.size(), KW + 2)
                if not self.valid(st, simp(sx(e, wd) < z3.BitVecVal(1 << KW, wd))):
                    raise Unsupported("range too long")
                hi = (1 << KW) - 1
            nbv = simp(z3.If(sx(e, KW + 1) < 0, z3.BitVecVal(0, KW), z3.Extract(KW - 1, 0, sx(e, KW + 1))))
            maxn = max(hi, 0)
        elif it is not None:
            nbv = to_bv(st.heap[it.id].n, KW)
            maxn = int_view(st.heap[it.id].n)[2]
        else:
            nbv = maxn = None

        def item(k, cur):
            if isinstance(it, SRange):
                kk = mk_int(z3.ZeroExt(1, k), 0, max(maxn - 1, 0))
                return binop("Add", it.start, binop("Mult", kk, it.step, None), None)
            return cur.heap[it.id].get(k)

        def item_at(loc):
            """a target's value after k >= 1 iterations, when the body does not assign it (only for loops that run at least once:
            inside the body it is assigned before it is read)"""
            def f(k):
                tmp = st.fork()
                self.assign(s.target, item(simp(k - 1), tmp), tmp)
                return self.loc_get(tmp, loc)
            f._target = True
            return f

        def run_iter(head, k):
            """one iteration from `head` with ghost k: (continuing state or None, exits of the body, cond state for exit)"""
            self.loop_ks.append(k)
            try:
                return run_iter_(head, k)
            finally:
                self.loop_ks.pop()

        def run_iter_(head, k):
            cur = head
            exit_st = None
            if test is not None:
                cur = head.fork()
                c = self.truth(self.eval(test, cur))
                if c is False:
                    return None, [], cur
                if c is not True:
                    exit_st = cur.fork(simp(z3.Not(c)))
                    cur = cur.fork(c)
            else:
                exit_st = head.fork(k == nbv)
                cur = head.fork(z3.ULT(k, nbv))
                self.assign(s.target, item(k, cur), cur)
            outs = self.block(s.body, cur)
            nxt = self.merge_kinds([("next", s2, None) for kd, s2, _ in outs if kd in ("next", "cont")])
            exits = [(("next" if kd == "brk" else kd), s2, v) for kd, s2, v in outs if kd in ("brk", "ret")]
            return (nxt[0][1] if nxt else None), exits, exit_st

        def snap():
            return (len(self.facts), len(self.raises), len(self.requires), len(self.defs))

        def undo(p):
            del self.facts[p[0]:], self.raises[p[1]:], self.requires[p[2]:], self.defs[p[3]:]

        # 1. modified locations
        mod = []
        k = self.fresh_bv("k", KW)
        first = {}
        while True:
            p = snap()
            head = st.fork()
            for loc in mod:
                v0 = self.loc_get(st, loc)
                self.loc_set(head, loc, self.havoc_like(v0 if v0 is not UNDEF else first.get(loc, UNDEF), True))
            nxt, _, _ = run_iter(head.fork(), k)
            if nxt is None:
                undo(p)
                break
            new = [l for l in self.diff_locs(head, nxt) if l not in mod]
            for l in new:
                first.setdefault(l, self.loc_get(nxt, l))
            undo(p)
            if not new:
                break
            mod += new
        # values after the first iteration from the real start state (to guess candidates)
        p = snap()
        n1, _, _ = run_iter(st.fork(), z3.BitVecVal(0, KW))
        undo(p)
        # 2. candidates
        target_names = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if it is not None else set()
        cands = {}
        for loc in mod:
            v0 = self.loc_get(st, loc)
            cs = []
            if loc[0] == "L" and loc[1] == len(st.frames) - 1 and loc[2] in target_names:
                cands[loc] = [item_at(loc)] if self.target_cands and self.valid(st, nbv != 0) else []
                continue
            for f in self.loop_cands:
                cs += f(self, st, loc, v0)
            if v0 is not UNDEF:
                if n1 is not None and not isinstance(v0, Cell):
                    cs += self.affine_cand(v0, self.loc_get(n1, loc))
                cs.append((lambda v0: lambda k: v0)(v0))
            if self.merge_cands and v0 is not UNDEF and n1 is not None and not isinstance(v0, Cell):
                v1 = self.loc_get(n1, loc)
                if v1 is not UNDEF and not isinstance(v1, Cell):
                    cs.append((lambda v0, v1: lambda k: merge(simp(k == 0), v0, v1))(v0, v1))
            cands[loc] = cs
        ghosts = [g for g in (f(self, st) for f in self.loop_ghosts) if g is not None]
        gfacts = []   # callables k -> facts (sound instances)
        ghost_inv = []
        for g in ghosts:
            gfacts += g.get("facts", [])
            ghost_inv += g.get("inv", [])
        K0 = z3.BitVecVal(0, KW)
        # base check
        base_facts = [f for g in gfacts for f in g(K0)]
        for loc in list(cands):
            v0 = self.loc_get(st, loc)
            keep = []
            for c in cands[loc]:
                e = z3.BoolVal(True) if getattr(c, "_target", False) else self.val_eq(c(K0), v0) if v0 is not UNDEF else z3.BoolVal(True)
                if e is not None and (z3.is_true(simp(e)) or self.valid(st, e, *base_facts)):
                    keep.append(c)
            cands[loc] = keep
        ghost_inv = [g for g in ghost_inv if self.valid(st, g(K0), *base_facts)]
        # 3. Houdini
        havocs = {}

        def make_head(k):
            head = st.fork()
            for loc in mod:
                if cands[loc]:
                    self.loc_set(head, loc, cands[loc][0](k))
                else:
                    v0 = self.loc_get(st, loc)
                    self.loc_set(head, loc, self.havoc_like(v0 if v0 is not UNDEF else UNDEF)
                                 if v0 is not UNDEF else UNDEF)
            head.guard = head.guard + ((z3.ULE(k, nbv),) if nbv is not None else ())
            return head
        for _round in range(200):
            k = self.fresh_bv("k", KW)
            p = snap()
            head = make_head(k)
            hyps = [f for g in gfacts for f in g(k)] + [g(k) for g in ghost_inv]
            self.facts.extend(z3.Implies(head.g, h) for h in hyps)
            if test is not None and not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await)) for x in ast.walk(test)):
                # iteration k is only reached when the test held at the head of iteration k - 1, where the closed forms held too
                q = snap()
                try:
                    prev = make_head(simp(k - 1)).fork(k != 0)
                    c = self.truth(self.eval(test, prev))
                    held = None if isinstance(c, bool) else z3.Implies(prev.g, c)
                except (Unsupported, PathEnd):
                    held = None
                more = self.facts[q[0]:]
                undo(q)
                if held is not None:
                    self.facts += more + [held]
            nxt, exits, exit_st = run_iter(head, k)
            bad = []
            if nxt is not None:
                hy = [k != z3.BitVecVal((1 << KW) - 1, KW)]
                for loc in mod:
                    if not cands[loc]:
                        continue
                    want = cands[loc][0](k + 1)
                    got = self.loc_get(nxt, loc)
                    e = self.val_eq(got, want)
                    if e is None or not (z3.is_true(simp(e)) or self.valid(nxt, e, *hy)):
                        bad.append(loc)
                bad_g = [g for g in ghost_inv if not self.valid(nxt, g(k + 1), *hy)]
            else:
                bad_g = []
            if not bad and not bad_g:
                break
            undo(p)
            if DEBUG:
                print("  houdini", where, "round", _round, "bad", [(l, len(cands[l])) for l in bad], "ghost", len(bad_g), flush=True)
            first_bad = [l for l in bad if l[0] == "F" and l[2].startswith("$")] or bad     # ghost state first, the others may only fail because of it
            for loc in first_bad:
                cands[loc] = cands[loc][1:]
            if not bad:     # closed forms first: a ghost may only fail because of a wrong one
                ghost_inv = [g for g in ghost_inv if all(g is not b for b in bad_g)]
        else:
            raise Unsupported("loop invariant inference did not converge")
        if DEBUG:
            print("  loop", where, {str(l): len(cands[l]) for l in mod}, "ghosts", len(ghost_inv), flush=True)
        if self.iter_hook:
            self.loop_exit = exit_st
            self.iter_hook(self, where, st, head, nxt, exits, k)
        # 4. exits (state of the last run_iter: generic iteration k satisfying the invariants)
        outs = []
        kx = {}
        res = []
        if exit_st is not None:
            b = self.fresh("exit", z3.BoolSort())
            outs.append(("next", exit_st, None, b))
        for kd, s2, v in exits:
            b = self.fresh("exit", z3.BoolSort())
            outs.append((kd, s2, v, b))
        pre = len(st.guard)
        for kd, s2, v, b in outs:
            # on the branch b the ghost k is the real iteration number, so the path facts hold
            rest = s2.guard[pre:]
            self.facts.append(z3.Implies(z3.And(*st.guard, b), z3.And(*rest)) if rest else z3.BoolVal(True))
            res.append((kd, St(s2.frames, s2.heap, st.guard + ((b,) if len(outs) > 1 else ())), v))
            if len(outs) == 1:
                self.facts.append(z3.Implies(z3.And(*st.guard), b) if st.guard else b)
        if len(outs) > 1:
            self.facts.append(z3.Implies(z3.And(*st.guard) if st.guard else z3.BoolVal(True),
                                         exactly_one([o[3] for o in outs])))
        kept = {str(l): len(cands[l]) for l in mod}
        self.loops_used.append({"where": where, "closed_forms": sum(1 for l in mod if cands[l]), "havoced": sum(1 for l in mod if not cands[l]), "ghosts": len(ghost_inv)})
        return self.merge_kinds(res)

    # ---- assignment
    def named(self, v):
        """introduce a name for a compound term, keeping its definition aside"""
        if isinstance(v, SNp) and v.e.num_args() > 0:
            nm = self.fresh_bv("w", v.e.size())
            self.defs.append((nm, v.e))
            return SNp(v.dt, nm)
        return v

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if self.assign_hook and isinstance(v, SNp) and v.e.num_args() > 0:
                v = self.assign_hook(self, st, v)
            st.frames[-1][t.id] = self.named(v) if self.name_stores else v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, st), t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st)
            self.setitem(o, self.eval_index(t.slice, st), v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts), st)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, st)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, st):
        if isinstance(v, Ref):
            c = st.heap[v.id]
            if isinstance(c, ArrCell) and c.data is not None:
                v = tuple(c.data)
            elif isinstance(c, ListCell):
                v = tuple(c.items)
        if isinstance(v, SUnion):
            alts = [(c, self.unpack(x, n, st)) for c, x in v.alts]
            return [merge_alts([(c, x[i]) for c, x in alts]) for i in range(n)]
        if is_sym(v):
            raise Unsupported("unpacking")
        v = list(v)
        if len(v) != n:
            raise Unsupported("unpacking length")
        return v

    def setattr(self, o, name, v, st):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], ObjCell):
            c = st.heap[o.id]
            if (c.cls, name) in self.virtual:
                return self.virtual[c.cls, name][1](self, st, o, v)
            st.heap[o.id] = ObjCell(c.cls, {**c.fields, name: v})
            return
        if isinstance(o, type) or isinstance(o, types.FunctionType):
            raise Unsupported("attribute assignment on a class")
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def setitem(self, o, i, v, st):
        if isinstance(i, SSlice):
            raise Unsupported("symbolic slice")
        if isinstance(o, SUnion):
            raise Unsupported("store through a conditional reference")
        if not isinstance(o, Ref):
            raise Unsupported(f"store into {type(o).__name__}")
        c = st.heap[o.id]
        if isinstance(c, ArrCell):
            if isinstance(i, slice):
                if c.data is None:
                    raise Unsupported("slice store on a symbolic array")
                idx = range(len(c.data))[i]
                if isinstance(v, Ref) and isinstance(st.heap[v.id], ArrCell):
                    src = st.heap[v.id].data
                    if src is None:
                        raise Unsupported("slice store from a symbolic array")
                elif isinstance(v, SUnion):
                    alts = []
                    for cc, x in v.alts:
                        src = st.heap[x.id].data if isinstance(x, Ref) else list(x)
                        alts.append((cc, tuple(src)))
                    if len({len(a) for _, a in alts}) != 1:
                        raise Unsupported("slice store length")
                    src = [merge_alts([(cc, a[j]) for cc, a in alts]) for j in range(len(alts[0][1]))]
                elif isinstance(v, (np.ndarray, tuple, list)):
                    src = list(v)
                else:
                    src = [v] * len(idx)
                if len(src) != len(idx):
                    self.raise_if(st, True, "ValueError: could not broadcast")
                    raise PathEnd()
                data = list(c.data)
                for j, x in zip(idx, src):
                    data[j] = cast_np(x, c.dt)
                st.heap[o.id] = ArrCell(c.dt, c.n, data)
                return
            x = cast_np(v, c.dt)
            if isinstance(i, SUnion):
                i = self.index_int(i)
            if c.data is not None:
                n = len(c.data)
                if not is_sym(i):
                    i = int(i)
                    if not -n <= i < n:
                        self.raise_if(st, True, "IndexError")
                        raise PathEnd()
                    if self.name_stores:
                        x = self.named(x)
                    if self.store_hook:
                        x = self.store_hook(self, st, o, i % n, x)
                    data = list(c.data)
                    data[i] = x
                else:
                    self.bounds(i, n, st)
                    data = [merge(self.idx_eq(i, j, n), x, y) for j, y in enumerate(c.data)]
                st.heap[o.id] = ArrCell(c.dt, c.n, data)
                return
            self.bounds(i, c.n, st)
            st.heap[o.id] = ArrCell(c.dt, c.n, None, z3.Store(c.arr, self.idx32(i, c.n), to_bv(x, c.dt.itemsize * 8)))
            return
        if isinstance(c, ListCell) and not is_sym(i):
            items = list(c.items)
            items[i] = v
            st.heap[o.id] = ListCell(items)
            return
        raise Unsupported("item assignment")

    def bounds(self, i, n, st):
        e, lo, hi = int_view(i)
        en, ln, hn = int_view(n)
        if hi < ln and lo >= -ln:
            return
        if lo >= -ln:
            b = ubound(e)
            if b < ln and (b < (1 << (e.size() - 1))):
                return
        w = max(e.size(), en.size()) + 1
        x, y = sx(e, w), sx(en, w)
        bad = simp(z3.Or(x >= y, x < -y))
        if not z3.is_false(bad):
            self.raise_if(st, bad, "IndexError")
            self.facts.append(z3.Implies(st.g, z3.Not(bad)))

    def idx32(self, i, n):
        e, lo, hi = int_view(i)
        x = sx(e, 32) if e.size() <= 32 else z3.Extract(31, 0, e)
        if lo < 0:
            x = z3.If(x < 0, x + to_bv(n, 32), x)
        return simp(x)

    def idx_eq(self, i, j, n):
        e, lo, hi = int_view(i)
        w = max(e.size(), bits_for(-n, n))
        x = sx(e, w)
        c = x == z3.BitVecVal(j, w)
        if lo < 0:
            c = z3.Or(c, x == z3.BitVecVal(j - n, w))
        return simp(c)

    def index_int(self, i):
        """an SUnion of integers as one SInt"""
        es = [(c, int_view(x)) for c, x in i.alts]
        w = max(e.size() for _, (e, _, _) in es)
        r = sx(es[-1][1][0], w)
        for c, (e, _, _) in reversed(es[:-1]):
            r = z3.If(c, sx(e, w), r)
        return mk_int(simp(r), min(l for _, (_, l, _) in es), max(h for _, (_, _, h) in es))

    # ---- expressions
    def truth(self, v):
        if isinstance(v, Ref):
            return self.truth_ref(v)
        t = truth(v)
        b = bool_of(t)
        return t if b is None else b

    def truth_ref(self, v):
        raise Unsupported("truth of heap object")

    def bin(self, op, a, b, st):
        va, vb = (isinstance(x, Ref) and isinstance(st.heap[x.id], SeqCell) and st.heap[x.id].vec for x in (a, b))
        if va or vb:
            if (isinstance(a, Ref) and not va) or (isinstance(b, Ref) and not vb):
                raise Unsupported("operator on different kinds of arrays")
            x, y = st.heap[a.id] if va else None, st.heap[b.id] if vb else None
            if va and vb and not same(x.n, y.n):
                raise Unsupported("operator on arrays of possibly different lengths")
            return self.alloc(st, SeqCell((x or y).n, lambda k: binop(op, x.get(k) if va else a, y.get(k) if vb else b, lambda c, w: self.raise_if(st, c, w)), True), "seq")
        if op == "Add" and isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.heap[a.id], SeqCell) and isinstance(st.heap[b.id], SeqCell):
            x, y = st.heap[a.id], st.heap[b.id]
            n = binop("Add", x.n, y.n, None)
            at = lambda k: merge(simp(z3.ULT(k, to_bv(x.n, KW))), x.get(k), y.get(simp(k - to_bv(x.n, KW))))
            return self.alloc(st, SeqCell(n, at), "seq")
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.array_op(lambda x, y: binop(op, x, y, lambda c, w: self.raise_if(st, c, w)), a, b, st)
        return binop(op, a, b, lambda c, w: self.raise_if(st, c, w))

    def array_op(self, f, a, b, st):
        def elems(v):
            if isinstance(v, Ref):
                c = st.heap[v.id]
                if isinstance(c, ArrCell) and c.data is not None:
                    return list(c.data)
                raise Unsupported("operator on heap object")
            if isinstance(v, np.ndarray) and v.ndim == 1:
                return list(v)
            return None
        x, y = elems(a), elems(b)
        n = len(x) if x is not None else len(y)
        x = x if x is not None else [a] * n
        y = y if y is not None else [b] * n
        if len(x) != len(y):
            raise Unsupported("broadcasting")
        r = [f(p, q) for p, q in zip(x, y)]
        dt = np.asarray(sample(r[0])).dtype
        return self.alloc(st, ArrCell(dt, n, r), "arr")

    def eval(self, n, st):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, st)

    def e_Constant(self, n, st): return n.value

    def e_Name(self, n, st):
        f = st.frames[-1]
        if n.id in f:
            v = f[n.id]
            if v is UNDEF:
                raise Unsupported(f"read of possibly undefined variable {n.id}")
            return v
        clos, globs = f["$env"][:2]
        if n.id in clos:
            return clos[n.id]
        if n.id in globs:
            return globs[n.id]
        if hasattr(builtins, n.id):
            return getattr(builtins, n.id)
        raise Unsupported(f"name {n.id}")

    def e_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += list(self.unpack_any(self.eval(e.value, st), st))
            else:
                out.append(self.eval(e, st))
        return tuple(out)

    def unpack_any(self, v, st):
        return self.iter_concrete(v, st)

    def e_List(self, n, st):
        if self.log_lists and not n.elts:
            return self.alloc(st, LogCell([]), "list")
        return self.alloc(st, ListCell(list(self.e_Tuple(n, st))), "list")

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.bin(type(n.op).__name__, a, b, st)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if type(n.op).__name__ == "Not":
            t = self.truth(v) if not isinstance(v, Ref) else self.ref_truth(v, st)
            return (not t) if isinstance(t, bool) else mk_bool(simp(z3.Not(t)))
        return unary(type(n.op).__name__, v)

    def ref_truth(self, v, st):
        c = st.heap[v.id]
        if isinstance(c, ListCell):
            return len(c.items) > 0
        raise Unsupported("truth of heap object")

    def e_BoolOp(self, n, st):
        is_and = isinstance(n.op, ast.And)

        def go(i):
            v = self.eval(n.values[i], st)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v) if not isinstance(v, Ref) else self.ref_truth(v, st)
            if isinstance(t, bool):
                return go(i + 1) if t == is_and else v
            c = t if is_and else simp(z3.Not(t))
            s1, s2 = st.fork(c), st.fork(simp(z3.Not(c)))
            saved = St(st.frames, st.heap, st.guard)
            st.set(s1)
            try:
                v1 = go(i + 1)
            except PathEnd:
                st.set(s2)
                return v
            _, m, r = self.merge_outcome(("next", St(st.frames, st.heap, st.guard), (v1,)), ("next", s2, (v,)))
            st.set(m)
            return r[0]
        return go(0)

    def e_IfExp(self, n, st):
        t = self.truth(self.eval(n.test, st))
        if isinstance(t, bool):
            return self.eval(n.body if t else n.orelse, st)
        s1, s2 = st.fork(t), st.fork(simp(z3.Not(t)))
        outs = []
        for s, e in ((s1, n.body), (s2, n.orelse)):
            try:
                v = self.eval(e, s)
                outs.append(("next", s, (v,)))
            except PathEnd:
                pass
        if not outs:
            raise PathEnd()
        m = outs[0] if len(outs) == 1 else self.merge_outcome(*outs)
        st.set(m[1])
        return m[2][0]

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        res = None
        for op, right in zip(n.ops, n.comparators):
            r = self.eval(right, st)
            o = type(op).__name__
            if o in ("Is", "IsNot"):
                if is_sym(left) or is_sym(r):
                    if left is None or r is None:
                        if isinstance(left, SUnion) or isinstance(r, SUnion):
                            u = left if isinstance(left, SUnion) else r
                            e = simp(z3.Or(*[c for c, x in u.alts if x is None] or [z3.BoolVal(False)]))
                            v = mk_bool(e if o == "Is" else simp(z3.Not(e)))
                        else:
                            v = o == "IsNot"
                    elif isinstance(left, Ref) and isinstance(r, Ref):
                        v = (left.id == r.id) == (o == "Is")
                    else:
                        raise Unsupported("identity of symbolic values")
                else:
                    v = (left is r) == (o == "Is")
            elif o in ("In", "NotIn"):
                items = list(r) if not is_sym(r) else self.iter_concrete(r, st)
                acc = False
                for x in items:
                    e = compare("Eq", left, x)
                    t = truth(e)
                    acc = simp(z3.Or(acc, t)) if not (isinstance(acc, bool) and isinstance(t, bool)) else (acc or t)
                v = acc if isinstance(acc, bool) else mk_bool(acc)
                if o == "NotIn":
                    v = (not v) if isinstance(v, bool) else mk_bool(simp(z3.Not(v.e)))
            elif isinstance(left, Ref) or isinstance(r, Ref):
                v = self.array_op(lambda x, y: compare(o, x, y), left, r, st)
            else:
                v = compare(o, left, r)
            if res is None:
                res = v
            else:
                x, y = truth(res), truth(v)
                if isinstance(x, bool) and isinstance(y, bool):
                    res = res and v
                else:
                    res = mk_bool(simp(z3.And(x, y)), is_npish(v))
            left = r
        return res

    def e_Attribute(self, n, st):
        return self.getattr(self.eval(n.value, st), n.attr, st)

    def getattr(self, o, name, st):
        if isinstance(o, SSuper):
            mro = st.heap[o.self_.id].cls.__mro__
            for c in mro[mro.index(o.cls) + 1:]:
                if name in c.__dict__:
                    return Bound(c.__dict__[name], o.self_)
            raise Unsupported(f"attribute {name} of super()")
        if isinstance(o, SUnion):
            none = [c for c, x in o.alts if x is None and not hasattr(None, name)]
            if none and len(none) < len(o.alts):
                self.raise_if(st, z3.Or(*none), f"AttributeError: None has no {name}")
                self.facts.append(z3.Implies(st.g, z3.Not(z3.Or(*none))))
                return merge_alts([(c, self.getattr(x, name, st)) for c, x in o.alts if x is not None])
            return merge_alts([(c, self.getattr(x, name, st)) for c, x in o.alts])
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ObjCell):
                if (c.cls, name) in self.virtual:
                    return self.virtual[c.cls, name][0](self, st, o)
                if name in c.fields:
                    v = c.fields[name]
                    if v is UNDEF:
                        raise Unsupported(f"possibly unset attribute {name}")
                    if callable(v) and getattr(v, "_npv_lazy", False):
                        return v(self, st)
                    return v
                if c.cls is None:
                    raise Unsupported(f"attribute {name}")
                try:
                    a = self.class_attr(c.cls, name)
                except KeyError:
                    if name == "__class__":
                        return c.cls
                    raise Unsupported(f"attribute {name} of {c.cls.__name__}")
                if isinstance(a, staticmethod):
                    return a.__func__
                if isinstance(a, classmethod):
                    return Bound(a.__func__, c.cls)
                if isinstance(a, property):
                    return self.call(a.fget, [o], {}, st)
                if isinstance(a, types.FunctionType):
                    return Bound(a, o)
                return a
            if isinstance(c, SeqCell) and c.rec and isinstance(c.get(BV0), SRec) and name in c.get(BV0).fields:
                return self.column(c, name, st)
            if isinstance(c, (ArrCell, ListCell, LogCell, SeqCell)):
                return ("$method", o, name) if name not in ("size", "dtype", "shape") else \
                    {"size": lambda: c.n, "dtype": lambda: c.dt, "shape": lambda: (c.n,)}[name]()
            raise Unsupported("attribute of heap object")
        if isinstance(o, SRec):
            if name in o.fields:
                return o.fields[name]
            raise Unsupported(f"record field {name}")
        if isinstance(o, Sym):
            if name == "dtype" and isinstance(o, SNp):
                return o.dt
            raise Unsupported(f"attribute {name} of symbolic {type(o).__name__}")
        if isinstance(o, Closure):
            raise Unsupported("attribute of closure")
        return getattr(o, name)

    def column(self, c, name, st):
        """a field of every element of an array of records"""
        if not isinstance(c.get(BV0), SRec) or name not in c.get(BV0).fields:
            raise Unsupported(f"field {name} of an array")
        return self.alloc(st, SeqCell(c.n, lambda k: c.get(k).fields[name], True), "seq")

    def eval_index(self, n, st):
        if isinstance(n, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.elts):
            return tuple(self.eval_index(x, st) for x in n.elts)
        if isinstance(n, ast.Slice):
            f = lambda x: self.eval(x, st) if x is not None else None
            parts = [f(n.lower), f(n.upper), f(n.step)]
            if any(is_sym(p) for p in parts):
                return SSlice(*parts)
            return slice(*parts)
        return self.eval(n, st)

    def e_Subscript(self, n, st):
        return self.getitem(self.eval(n.value, st), self.eval_index(n.slice, st), st)

    def getitem(self, o, i, st):
        if isinstance(o, Ref) and isinstance(st.heap[o.id], ObjCell) and st.heap[o.id].cls is not None and hasattr(st.heap[o.id].cls, "__getitem__"):
            return self.call(self.class_attr(st.heap[o.id].cls, "__getitem__"), [o, i], {}, st)
        if isinstance(i, SSlice):
            raise Unsupported("symbolic slice")
        if isinstance(o, SUnion):
            return merge_alts([(c, self.getitem(x, i, st)) for c, x in o.alts])
        if isinstance(i, SUnion):
            i = self.index_int(i)
        if isinstance(o, Ref):
            c = st.heap[o.id]
            if isinstance(c, ArrCell):
                if isinstance(i, slice):
                    if c.data is None:
                        raise Unsupported("slice of a symbolic array")
                    raise Unsupported("array slice (view)")
                if c.data is not None:
                    n = len(c.data)
                    if not is_sym(i):
                        i = int(i)
                        if not -n <= i < n:
                            self.raise_if(st, True, "IndexError")
                            raise PathEnd()
                        return c.data[i]
                    return self.select_list(c.data, i, st)
                self.bounds(i, c.n, st)
                return mk_np(c.dt, simp(z3.Select(c.arr, self.idx32(i, c.n))))
            if isinstance(c, ListCell):
                if not is_sym(i):
                    return c.items[i]
                return self.select_list(c.items, i, st)
            if isinstance(c, SeqCell):
                if c.vec and isinstance(i, str):
                    return self.column(c, i, st)
                if c.vec and isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None):
                    return self.alloc(st, SeqCell(c.n, lambda k: self.getitem(c.get(k), i[1], st), True), "seq")
                self.bounds(i, c.n, st)
                _, lo, _ = int_view(i)
                e = simp(to_bv(i, KW))
                e = simp(z3.If(e < 0, e + to_bv(c.n, KW), e)) if lo < 0 else e
                for k in reversed(self.loop_ks):        # the iteration number in its plain form
                    if not e.eq(k) and e.num_args() and k.get_id() in {v.get_id() for v in consts_of(e)} and self.valid(st, e == k, timeout=2000):
                        e = k
                        break
                return c.get(e)
            raise Unsupported("subscript of heap object")
        if isinstance(o, SVec):
            if not is_num(i):
                raise Unsupported("index of a sub-array")
            self.bounds(i, o.n, st)
            e = simp(to_bv(i, KW))
            return o.get(simp(z3.If(e < 0, e + o.n, e)) if int_view(i)[1] < 0 else e)
        if is_sym(o):
            raise Unsupported(f"subscript of {type(o).__name__}")
        if isinstance(o, np.ndarray) and isinstance(i, tuple) and any(is_sym(x) for x in i) and all(is_num(x) for x in i) and 0 < len(i) <= o.ndim:
            for x in i:                 # element of a constant table: one index at a time
                o = self.getitem(o, x, st)
            return o
        if not is_sym(i):
            return o[i]
        if isinstance(o, tuple) and any(is_sym(x) for x in o) or isinstance(o, (tuple, list, str)) or (isinstance(o, np.ndarray)):
            n = len(o)
            if isinstance(o, np.ndarray) and o.ndim == 2 and o.dtype.kind in "uif":
                row = [self.getitem(tuple(o[:, j]), i, st) for j in range(o.shape[1])]
                return tuple(row)
            for h in self.table_hooks:
                g = h(o)
                if g is not None:
                    self.bounds(i, n, st)
                    return g(to_bv(i, KW))
            if n > 4096:
                raise Unsupported("symbolic index into a large table")
            return self.select_list([o[j] for j in range(n)], i, st)
        raise Unsupported(f"subscript of {type(o).__name__} with a symbolic index")

    def select_list(self, items, i, st):
        n = len(items)
        if n and all(isinstance(x, str) for x in items) and len({len(x) for x in items}) == 1:
            cols = [self.select_list([np.uint32(ord(x[c])) for x in items], i, st) for c in range(len(items[0]))]
            return SStr([to_bv(c, 32) for c in cols])
        if n == 0:
            self.raise_if(st, True, "IndexError")
            raise PathEnd()
        self.bounds(i, n, st)
        e, lo, hi = int_view(i)
        js = [j for j in range(n) if (lo <= j <= hi) or (lo <= j - n <= hi)] or [0]
        # integer tables of one dtype: a balanced read through nested ITE, grouped by equal values
        if all(isinstance(items[j], np.integer) for j in js) and len({items[j].dtype for j in js}) == 1:
            dt = items[0].dtype
            groups = {}
            for j in js:
                groups.setdefault(int(items[j]), []).append(j)
            vals = sorted(groups, key=lambda v: len(groups[v]))
            w = dt.itemsize * 8
            r = z3.BitVecVal(vals[-1], w)
            for v in vals[:-1]:
                r = z3.If(z3.Or(*[self.idx_eq(i, j, n) for j in groups[v]]), z3.BitVecVal(v, w), r)
            return mk_np(dt, simp(r))
        r = items[js[-1]]
        for j in reversed(js[:-1]):
            r = merge(self.idx_eq(i, j, n), items[j], r)
        return r

    def e_Call(self, n, st):
        if isinstance(n.func, ast.Name) and n.func.id in ("any", "all") and len(n.args) == 1 and isinstance(n.args[0], ast.GeneratorExp) and not n.keywords:
            g = n.args[0].generators
            if len(g) == 1 and not g[0].ifs and self.eval(n.func, st) in (any, all):
                return self.anyall(n.args[0], st, n.func.id == "any")
        f = self.eval(n.func, st)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += [x(st) if callable(x) and getattr(x, "_lazy", 0) else x for x in self.iter_concrete(self.eval(a.value, st), st)]
            else:
                args.append(self.eval(a, st))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, st))
            else:
                kw[k.arg] = self.eval(k.value, st)
        if isinstance(f, tuple) and f and f[0] == "$method":
            return self.heap_method(f[1], f[2], args, kw, st)
        return self.call(f, args, kw, st)

    def heap_method(self, ref, name, args, kw, st):
        c = st.heap[ref.id]
        if isinstance(c, SeqCell) and c.vec and name == "view" and args == [np.recarray]:
            return self.alloc(st, SeqCell(c.n, c.get, True, True), "seq")
        if isinstance(c, SeqCell) and c.vec and name == "sum" and np.sum in self.contracts:
            return self.contracts[np.sum](self, st, [ref] + args, kw)
        if isinstance(c, ListCell) and name == "append":
            st.heap[ref.id] = ListCell(c.items + [args[0]])
            return None
        if isinstance(c, LogCell) and name == "append":
            st.heap[ref.id] = LogCell(c.items + [(z3.BoolVal(True), args[0])])
            return None
        if isinstance(c, ArrCell) and name == "copy":
            return self.alloc(st, ArrCell(c.dt, c.n, list(c.data) if c.data is not None else None, c.arr), "arr")
        if isinstance(c, ArrCell) and name == "fill" and c.data is not None:
            st.heap[ref.id] = ArrCell(c.dt, c.n, [cast_np(args[0], c.dt)] * len(c.data))
            return None
        raise Unsupported(f"method {name} of heap object")

    def e_Lambda(self, n, st):
        env = dict(st.frames[-1]["$env"][0])
        env.update({k: v for k, v in st.frames[-1].items() if k != "$env"})
        c = Closure(n, env, st.frames[-1]["$env"][1], "<lambda>")
        c.defaults, c.kwdefaults = (), {}
        return c

    def symbolic_iter(self, n, st):
        """the iterable of a one-generator comprehension when its length is symbolic (evaluated once), else None"""
        if len(n.generators) != 1:
            return None
        it = self.eval(n.generators[0].iter, st)
        n.generators[0].iter = ast.copy_location(ast.Constant(it), n.generators[0].iter)
        return it if isinstance(it, SRange) or (isinstance(it, Ref) and isinstance(st.heap[it.id], SeqCell)) else None

    def e_DictComp(self, n, st):
        n = copy.deepcopy(n)
        it = self.symbolic_iter(n, st)
        if it is None or n.generators[0].ifs or not isinstance(it, Ref):
            raise Unsupported("dict comprehension")
        c = st.heap[it.id]
        k = self.fresh_bv("k", KW)
        self.facts.append(z3.Implies(st.g, z3.ULT(k, to_bv(c.n, KW)))) if st.guard else self.facts.append(z3.Implies(to_bv(c.n, KW) != 0, z3.ULT(k, to_bv(c.n, KW))))
        s2 = st.fork()
        s2.frames = s2.frames[:-1] + [dict(s2.frames[-1])]
        self.assign(n.generators[0].target, c.get(k), s2)
        key, value = self.eval(n.key, s2), self.eval(n.value, s2)
        if any(a is not b for a, b in zip(st.heap.values(), s2.heap.values())):
            raise Unsupported("dict comprehension with effects")
        return SMap(c.n, k, key, value)

    def anyall(self, n, st, is_any):
        """any(... for ...) / all(... for ...): elements are evaluated until one decides"""
        g = n.generators[0]
        outs, cur = [], st.fork()
        cur.frames = cur.frames[:-1] + [dict(cur.frames[-1])]
        keep = dict(st.frames[-1])
        for x in self.iter_concrete(self.eval(g.iter, st), st):
            self.assign(g.target, x(cur) if callable(x) and getattr(x, "_lazy", 0) else x, cur)
            t = self.truth(self.eval(n.elt, cur))
            if t is is_any:
                outs.append(("next", cur, is_any))
                cur = None
                break
            if t is (not is_any):
                continue
            outs.append(("next", cur.fork(t if is_any else simp(z3.Not(t))), is_any))
            cur = cur.fork(simp(z3.Not(t)) if is_any else t)
        if cur is not None:
            outs.append(("next", cur, not is_any))
        m = outs[0] if len(outs) == 1 else self.merge_kinds(outs)[0]
        s2 = m[1]
        fr = {k: v for k, v in s2.frames[-1].items() if k in keep}
        for nm in ast.walk(g.target):
            if isinstance(nm, ast.Name) and nm.id in keep:
                fr[nm.id] = keep[nm.id]
        s2.frames = s2.frames[:-1] + [fr]
        st.set(s2)
        return m[2]

    def e_ListComp(self, n, st):
        if self.log_lists and len(n.generators) == 1:
            n = copy.deepcopy(n)
            it = self.symbolic_iter(n, st)
            if it is not None:      # the loop it stands for
                g = n.generators[0]
                nm = f"$comp{next(self.fresh_n)}"
                st.frames[-1][nm] = self.alloc(st, LogCell([]), "list")
                body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [n.elt], []))]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                loop = ast.fix_missing_locations(ast.copy_location(ast.For(g.target, g.iter, body, []), n))
                outs = self.s_For(loop, st.fork())
                outs = self.merge_kinds(outs)
                st.set(outs[0][1])
                return st.frames[-1].pop(nm)
        return self.alloc(st, ListCell(self.comp(n, st)), "list")

    def e_GeneratorExp(self, n, st):
        return tuple(self.comp(n, st))

    def comp(self, n, st):
        out = []

        def go(gi):
            if gi == len(n.generators):
                out.append(self.eval(n.elt, st))
                return
            g = n.generators[gi]
            for x in self.iter_concrete(self.eval(g.iter, st), st):
                if callable(x) and getattr(x, "_lazy", 0):
                    x = x(st)
                self.assign(g.target, x, st)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.eval(c, st))
                    if not isinstance(t, bool):
                        raise Unsupported("symbolic comprehension filter")
                    ok = ok and t
                if ok:
                    go(gi + 1)
        # comprehension variables live in their own scope
        saved = dict(st.frames[-1])
        go(0)
        names = {m.id for g in n.generators for m in ast.walk(g.target) if isinstance(m, ast.Name)}
        for nm in names:
            if nm in saved:
                st.frames[-1][nm] = saved[nm]
            else:
                st.frames[-1].pop(nm, None)
        return out

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        st.frames[-1][n.target.id] = v
        return v

    def e_JoinedStr(self, n, st):
        out = ""
        for v in n.values:
            if isinstance(v, ast.Constant):
                out += v.value
                continue
            x = self.eval(v.value, st)
            f = self.e_JoinedStr(v.format_spec, st) if v.format_spec is not None else ""
            if is_sym(x) or _has_sym(x):
                return "<str>"
            x = {115: str, 114: repr, 97: ascii}.get(v.conversion, lambda y: y)(x)
            out += format(x, f)
        return out

    def e_Dict(self, n, st):
        if any(k is None for k in n.keys):
            raise Unsupported("dict unpacking")
        return {self.eval(k, st): self.eval(v, st) for k, v in zip(n.keys, n.values)}


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def _has_sym(v):
    if isinstance(v, (Sym, Closure, Bound)):
        return True
    if isinstance(v, (tuple, list)):
        return any(_has_sym(x) for x in v)
    return False


# ---- intrinsics (models of builtins and numpy functions; part of the trusted base)
def _i_range(eng, st, *a):
    a = [eng.index_int(x) if isinstance(x, SUnion) else x for x in a]
    if not any(is_sym(x) for x in a):
        return range(*[int(x) for x in a])
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    conv = lambda x: mk_int(*int_view(x)) if is_sym(x) else int(x)
    if is_sym(step):
        raise Unsupported("symbolic range step")
    return SRange(conv(start), conv(stop), int(step))


def _i_len(eng, st, x):
    if isinstance(x, Ref):
        c = st.heap[x.id]
        if isinstance(c, (ArrCell, SeqCell)):
            return c.n
        if isinstance(c, ListCell):
            return len(c.items)
        raise Unsupported("len of heap object")
    if isinstance(x, SUnion):
        return merge_alts([(c, _i_len(eng, st, v)) for c, v in x.alts])
    if isinstance(x, Sym):
        raise Unsupported("len")
    return len(x)


def _i_enumerate(eng, st, x, start=0):
    if isinstance(x, Ref) and isinstance(st.heap[x.id], SeqCell):
        c = st.heap[x.id]
        return eng.alloc(st, SeqCell(c.n, lambda k: (binop("Add", mk_int(z3.ZeroExt(1, k), 0, (1 << KW) - 1), start, None), c.get(k))), "seq")
    return [(start + i, (v(st) if callable(v) and getattr(v, "_lazy", 0) else v)) for i, v in enumerate(eng.iter_concrete(x, st))]


def _i_zip(eng, st, *xs):
    ls = [[(v(st) if callable(v) and getattr(v, "_lazy", 0) else v) for v in eng.iter_concrete(x, st)] for x in xs]
    return list(zip(*ls))


def _i_int(eng, st, x=0, *a):
    if isinstance(x, SUnion):
        return merge_alts([(c, _i_int(eng, st, v)) for c, v in x.alts])
    if isinstance(x, (SInt,)):
        return x
    if isinstance(x, (SNp, SBool)):
        return mk_int(*int_view(x))
    if isinstance(x, SFp):
        raise Unsupported("int of float")
    if is_sym(x):
        raise Unsupported("int()")
    return int(x, *a)


def _i_bool(eng, st, x=False):
    t = truth(x)
    return mk_bool(t) if not isinstance(t, bool) else t


def _i_minmax(op):
    def f(eng, st, *xs):
        if len(xs) == 1:
            xs = eng.iter_concrete(xs[0], st)
        r = xs[0]
        for x in xs[1:]:
            c = compare(op, x, r)
            t = truth(c)
            r = (x if t else r) if isinstance(t, bool) else merge(t, x, r)
        return r
    return f


def _i_abs(eng, st, x):
    if not is_sym(x):
        return abs(x)
    t = truth(compare("Lt", x, 0))
    return merge(t, unary("USub", x), x) if not isinstance(t, bool) else (unary("USub", x) if t else x)


def _i_empty(eng, st, shape, dtype=float, **k):
    dt = np.dtype(dtype)
    n = shape[0] if isinstance(shape, tuple) else shape
    if dt.kind not in "uib":
        if is_sym(n):
            raise Unsupported("np.empty of this dtype")
        return NotImplemented
    if is_sym(n):
        arr = eng.fresh("empty", z3.ArraySort(z3.BitVecSort(32), z3.BitVecSort(dt.itemsize * 8)))
        return eng.alloc(st, ArrCell(dt, n, None, arr), "arr")
    n = int(n)
    if n >= eng.big_arrays and dt.kind != "b":
        arr = eng.fresh("empty", z3.ArraySort(z3.BitVecSort(32), z3.BitVecSort(dt.itemsize * 8)))
        return eng.alloc(st, ArrCell(dt, n, None, arr), "arr")
    if dt.kind == "b":
        return eng.alloc(st, ArrCell(dt, n, [SBool(eng.fresh("empty", z3.BoolSort()), True) for _ in range(n)]), "arr")
    return eng.alloc(st, ArrCell(dt, n, [SNp(dt, eng.fresh_bv("empty", dt.itemsize * 8)) for _ in range(n)]), "arr")


def _i_zeros(eng, st, shape, dtype=float, **k):
    dt = np.dtype(dtype)
    n = shape[0] if isinstance(shape, tuple) else shape
    if is_sym(n) or dt.kind not in "uib":
        return NotImplemented
    return eng.alloc(st, ArrCell(dt, int(n), [dt.type(0)] * int(n)), "arr")


def _i_array(eng, st, x, dtype=None, **k):
    items = eng.iter_concrete(x, st)
    items = [(v(st) if callable(v) and getattr(v, "_lazy", 0) else v) for v in items]
    if not any(_has_sym(v) for v in items) and not isinstance(x, Ref):
        return NotImplemented
    if dtype is None:
        dts = {np.asarray(sample(v)).dtype for v in items}
        if len(dts) != 1:
            raise Unsupported("np.array of mixed types")
        dtype = dts.pop()
    dt = np.dtype(dtype)
    return eng.alloc(st, ArrCell(dt, len(items), [cast_np(v, dt) for v in items]), "arr")


def _i_sum(eng, st, x, start=0):
    r = start
    for v in eng.iter_concrete(x, st):
        if callable(v) and getattr(v, "_lazy", 0):
            v = v(st)
        r = eng.bin("Add", r, v, st)
    return r


def _i_ord(eng, st, c):
    if isinstance(c, (SInt, SNp)):
        return c        # symbolic characters are represented by their code points
    return ord(c)


def _i_list(eng, st, x=()):
    if eng.log_lists and isinstance(x, tuple) and not x:
        return eng.alloc(st, LogCell([]), "list")
    if isinstance(x, Ref) or not _has_sym(x):
        items = [(v(st) if callable(v) and getattr(v, "_lazy", 0) else v) for v in eng.iter_concrete(x, st)]
    else:
        items = list(x)
    return eng.alloc(st, ListCell(items), "list")


def _i_tuple(eng, st, x=()):
    return tuple((v(st) if callable(v) and getattr(v, "_lazy", 0) else v) for v in eng.iter_concrete(x, st))


def _i_float(eng, st, x=0.0):
    if not is_sym(x):
        return NotImplemented
    if isinstance(x, SUnion):
        return merge_alts([(c, eng.call(float, [v], {}, st)) for c, v in x.alts])
    if not (is_num(x) or is_float(x)):
        return NotImplemented
    return SFp(None, to_fp(x, z3.Float64()))


def _i_divmod(eng, st, a, b):
    return (eng.bin("FloorDiv", a, b, st), eng.bin("Mod", a, b, st))


def _i_reversed(eng, st, x):
    return list(reversed(eng.iter_concrete(x, st)))


def _i_anyall(is_all):
    def f(eng, st, x):
        acc = is_all
        for v in eng.iter_concrete(x, st):
            if callable(v) and getattr(v, "_lazy", 0):
                v = v(st)
            t = truth(v)
            if isinstance(t, bool) and isinstance(acc, bool):
                acc = (acc and t) if is_all else (acc or t)
            else:
                acc = simp((z3.And if is_all else z3.Or)(acc, t))
        return acc if isinstance(acc, bool) else mk_bool(acc)
    return f


def _i_super(eng, st, *a):
    env = st.frames[-1]["$env"]
    if a:
        return SSuper(a[0], a[1])
    if "__class__" not in env[0] or not isinstance(env[2], Ref):
        raise Unsupported("super()")
    return SSuper(env[0]["__class__"], env[2])


def _i_isinstance(eng, st, x, t):
    if isinstance(x, Ref) and isinstance(st.heap[x.id], ObjCell) and st.heap[x.id].cls is not None:
        return issubclass(st.heap[x.id].cls, t)
    if isinstance(x, Sym):
        return isinstance(sample(x), t)
    return isinstance(x, t)


def _i_where(eng, st, c, *ab):
    if len(ab) != 2:
        return NotImplemented
    t = truth(c)
    if isinstance(t, bool):
        return ab[0] if t else ab[1]
    return merge(t, ab[0], ab[1])


def _np_fn(op):
    def f(eng, st, a, b, **k):
        return eng.bin(op, a, b, st)
    return f


INTRINSICS = {
    range: _i_range, len: _i_len, enumerate: _i_enumerate, zip: _i_zip, int: _i_int, float: _i_float, bool: _i_bool,
    min: _i_minmax("Lt"), max: _i_minmax("Gt"), abs: _i_abs, np.empty: _i_empty, np.zeros: _i_zeros,
    np.array: _i_array, sum: _i_sum, np.sum: _i_sum, ord: _i_ord, list: _i_list, tuple: _i_tuple,
    divmod: _i_divmod, reversed: _i_reversed, any: _i_anyall(False), all: _i_anyall(True), isinstance: _i_isinstance,
    super: _i_super, np.where: _i_where, np.left_shift: _np_fn("LShift"), np.right_shift: _np_fn("RShift"),
    np.bitwise_xor: _np_fn("BitXor"), np.bitwise_and: _np_fn("BitAnd"), np.bitwise_or: _np_fn("BitOr"),
    np.add: _np_fn("Add"), np.multiply: _np_fn("Mult"), np.subtract: _np_fn("Sub"),
}
