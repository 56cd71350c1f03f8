"""contracts of the on-disk cache of the encounter data (P24)

The file system is ghost state: every path holds nothing, an empty file, part of an encoding, or a whole encoding.  The class
invariant - a cache file holds nothing, is empty, or holds the whole encoding of its function's result - is proved to hold after
every step of every file operation (the points where the process can end), starting from every state it allows; and under it
the decorated function returns what the function itself would."""
import os
import io
import builtins
import pathlib
import pickle
import shutil
import tempfile
from .common import *  # noqa


class Tok:
    """an arbitrary value"""
    def __init__(self, *what): self.what = what

    def __repr__(self): return f"{self.what}"

    def __eq__(self, o): return isinstance(o, Tok) and o.what == self.what

    def __hash__(self): return hash(self.what)


class Pickled:
    """the whole encoding of a value"""
    def __init__(self, v): self.v = v

    def __repr__(self): return f"pickle of {self.v}"

    def __eq__(self, o): return isinstance(o, Pickled) and o.v == self.v

    def __hash__(self): return hash(self.v)

    def __len__(self): return 1


class Torn:
    """part of an encoding"""
    def __repr__(self): return "part of a pickle"


class FS:
    """ghost file system; check(where) is called at every point where the process can end"""

    def __init__(self, files, check):
        self.files, self.check, self.temp, self.fds = dict(files), check, 0, {}

    def set(self, p, v, where):
        self.files[p] = v
        self.check(where, self)

    def open(self, p, mode="r", *a, **k):
        if isinstance(p, int):
            return File(self, self.fds[p], mode)
        p = os.fspath(p)
        if "w" in mode:
            self.set(p, b"", "opened for writing")
        elif "x" in mode:
            if p in self.files:
                raise Unsupported("exclusive creation of an existing file")
            self.set(p, b"", "opened for writing")
        elif "a" in mode:
            self.files.setdefault(p, b"")
            self.check("opened for appending", self)
        elif p not in self.files:
            raise Unsupported(f"open of a missing file {p}")
        return File(self, p, mode)

    def replace(self, a, b):
        a, b = os.fspath(a), os.fspath(b)
        if a not in self.files:
            raise Unsupported("move of a missing file")
        v = self.files.pop(a)
        self.set(b, v, "moved")
        return pathlib.Path(b)

    def copy(self, a, b):
        self.set(os.fspath(b), Torn(), "copied in part")
        self.set(os.fspath(b), self.files[os.fspath(a)], "copied")

    def unlink(self, p, *a, **k):
        self.files.pop(os.fspath(p), None)
        self.check("removed", self)

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.temp += 1
        p = f"{dir or '/tmp'}/{prefix or 'tmp'}{self.temp}{suffix or ''}"
        self.files[p] = b""
        self.fds[1000 + self.temp] = p
        return 1000 + self.temp, p

    def named(self, mode="w+b", *a, **k):
        fd, p = self.mkstemp(k.get("suffix"), k.get("prefix"), k.get("dir"))
        f = File(self, p, mode)
        f.delete = k.get("delete", True)
        return f


class File:
    """ghost file: what is written stays (in part) in a buffer until it is flushed"""

    def __init__(self, fs, path, mode):
        self.fs, self.name, self.mode, self.pending, self.closed, self.delete = fs, path, mode, None, False, False

    def __enter__(self): return self

    def __exit__(self, *a): self.close()

    def read(self, *a):
        if a and a[0] not in (None, -1):
            raise Unsupported("partial read")
        return self.fs.files[self.name]

    def write(self, data):
        if not isinstance(data, Pickled) or "r" in self.mode and "+" not in self.mode:
            raise Unsupported(f"write of {type(data).__name__}")
        if self.pending is not None or self.fs.files[self.name] != b"":
            raise Unsupported("second write to a file")
        self.fs.set(self.name, Torn(), "written in part")
        self.pending = data
        return 1

    def flush(self):
        if self.pending is not None:
            self.fs.set(self.name, self.pending, "flushed")
            self.pending = None

    def fileno(self): return -1

    def close(self):
        self.flush()
        if self.delete and not self.closed:
            self.fs.unlink(self.name)
        self.closed = True


def loads(ctx, what):
    def f(data):
        ok = isinstance(data, Pickled)
        ctx.concrete(f"{what}: only whole encodings are decoded", ok, data)
        return data.v if ok else Tok("undecodable")
    return f


def contracts(eng, fs, ctx, what):
    def via(f):
        return lambda e, s, args, kw: f(*args, **kw)

    def load(f):
        return loads(ctx, what)(f.read())

    def dump(obj, f, *a, **k):
        f.write(Pickled(obj))
    C = {builtins.open: fs.open, io.open: fs.open, os.path.exists: lambda p: os.fspath(p) in fs.files, os.path.isfile: lambda p: os.fspath(p) in fs.files,
         os.path.getsize: lambda p: len(fs.files[os.fspath(p)]), os.replace: fs.replace, os.rename: fs.replace, shutil.move: fs.replace, shutil.copyfile: fs.copy, shutil.copy: fs.copy,
         os.unlink: fs.unlink, os.remove: fs.unlink, os.fdopen: fs.open, os.fsync: lambda fd: None, os.close: lambda fd: None, tempfile.mkstemp: fs.mkstemp,
         tempfile.NamedTemporaryFile: fs.named, pickle.loads: loads(ctx, what), pickle.load: load, pickle.dumps: lambda o, *a, **k: Pickled(o), pickle.dump: dump,
         os.makedirs: lambda *a, **k: None, os.mkdir: lambda *a, **k: None}
    P = pathlib.Path
    C.update({P.mkdir: lambda *a, **k: None, P.exists: lambda p: str(p) in fs.files, P.is_file: lambda p: str(p) in fs.files, P.open: fs.open, P.read_bytes: lambda p: fs.open(p, "rb").read(),
              P.replace: fs.replace, P.rename: fs.replace, P.unlink: fs.unlink})

    def write_bytes(p, data):
        with fs.open(p, "wb") as f:
            f.write(data)
    C[P.write_bytes] = write_bytes
    eng.contracts.update({k: via(v) for k, v in C.items()})


def enc(x):
    return Tok("encode", x)


def dec(x):
    return x.what[1] if isinstance(x, Tok) and x.what[0] == "encode" else Tok("decode", x)


def run(ctx, what, make, args, coded, start, value, calls, file=None):
    """one call from a state the invariant allows; returns the paths touched"""
    M = Mode("numpy")
    eng = M.engine()
    st = eng.new_state()
    M.set_frames(st)
    stored = enc(value) if coded else value
    touched = set()

    def check(where, fs):
        for p, v in fs.files.items():
            if file is not None and p != file:
                continue
            if file is None:
                touched.add(p)
                continue
            ok = v == b"" or v == Pickled(stored)
            ctx.concrete(f"{what}: {where}: the cache file holds nothing or a whole encoding", ok, v)
    fs = FS({} if file is None or start is None else {file: start}, check)
    contracts(eng, fs, ctx, what)
    f = make(eng, st)
    r = eng.call(f, args, {}, st)
    for c, w, n in eng.raises:
        ctx.prove(f"{what}: no {w}", z3.Not(c), eng.facts[:n])
    ctx.functions.update(eng.functions)
    return r, fs, touched


def mod():
    from .. import boot
    boot.stub_missing_resources()
    import numba_pokemon_prngs.data.encounter as m
    return m


def u_cache(coded):
    def f(ctx):
        m = mod()
        ctx.hint = {"t": "cache", "coded": coded}
        args = [Tok("argument")]
        value = Tok("result", args[0])
        calls = []

        def function(*a, **k):
            calls.append((a, k))
            return Tok("result", *a)

        def make(eng, st):
            deco = eng.call(m.pickle_cached, ["some_{}.pkl"], {"encode": enc, "decode": dec} if coded else {}, st)
            return eng.call(deco, [function], {}, st)
        # where the cache file is: what an uncached call leaves behind
        r, fs, _ = run(ctx, "first call", make, args, coded, None, value, calls)
        stored = enc(value) if coded else value
        left = [p for p, v in fs.files.items() if v == Pickled(stored)]
        if not ctx.concrete("the first call leaves one file with the whole encoding of the result", len(left) == 1 and len(fs.files) == 1, fs.files):
            return
        file = left[0]
        ctx.concrete("the argument selects the file", str(args[0]) in file, file)
        for name, start, again in (("no file", None, True), ("an empty file", b"", True), ("a whole file", Pickled(stored), False)):
            calls.clear()
            r, fs, _ = run(ctx, name, make, args, coded, start, value, calls, file)
            ctx.concrete(f"{name}: the result is the function's", r == value, r)
            ctx.concrete(f"{name}: the function runs {'once with the arguments' if again else 'no more'}", calls == ([(tuple(args), {})] if again else []), calls)
            ctx.concrete(f"{name}: the file then holds the whole encoding", fs.files.get(file) == Pickled(stored), fs.files.get(file))
        ctx.trusted.add("file operations behave as their contracts say (a move replaces the file as a whole, a write may be cut anywhere until it is flushed); the loss of unsynced data in a power failure is not modelled")
    return f


def inner(fn, name):
    """the function behind its caching decorator"""
    seen, todo = set(), [fn]
    while todo:
        g = todo.pop()
        if id(g) in seen or not hasattr(g, "__code__"):
            continue
        seen.add(id(g))
        if g.__name__ == name and g.__code__.co_argcount == 1 and g is not fn:
            return g
        for c in g.__closure__ or ():
            try:
                todo.append(c.cell_contents)
            except ValueError:
                pass
        if hasattr(g, "__wrapped__"):
            todo.append(g.__wrapped__)
    raise Unsupported(f"{name} is not found behind its decorator")


def u_users(ctx):
    """the decorated loaders: each argument has its own file, and what is loaded comes from that file"""
    m = mod()
    ctx.hint = {"t": "cache_round"}
    from numba_pokemon_prngs.enums import Game, LAArea
    files = {}
    for name, keys in (("load_encounter_3", ("RUBY", "SAPPHIRE", "EMERALD", "FIRE_RED", "LEAF_GREEN")),
                       ("load_encounter_tables_la", ("OBSIDIAN_FIELDLANDS", "CRIMSON_MIRELANDS", "CORONET_HIGHLANDS", "COBALT_COASTLANDS", "ALABASTER_ICELANDS"))):
        E = Game if name == "load_encounter_3" else LAArea
        fn = getattr(m, name)
        f0 = inner(fn, name)
        for k in keys:
            M = Mode("numpy")
            eng = M.engine()
            st = eng.new_state()
            M.set_frames(st)
            fs = FS({}, lambda where, fs: None)
            contracts(eng, fs, ctx, f"{name}({k})")
            eng.contracts[f0] = lambda e, s, args, kw: Tok("result", *args)
            for c in ("encode", "decode"):
                g = getattr(m, "encounter_tables_la_" + c, None)
                if g is not None:
                    eng.contracts[g] = lambda e, s, args, kw, c=c: Tok(c, *args)
            eng.call(fn, [E[k]], {}, st)
            left = [p for p, v in fs.files.items() if isinstance(v, Pickled)]
            ctx.concrete(f"{name}({k}): one file is written", len(left) == 1, left)
            for p in left:
                ctx.concrete(f"{name}({k}): no other argument uses its file", p not in files, p)
                files[p] = (name, k)
            ctx.functions.update(eng.functions)


def units(prop, mode="numpy"):
    return [("cache with encoding", "numpy", u_cache(True)), ("cache as it is", "numpy", u_cache(False)), ("cache users", "numpy", u_users)]
