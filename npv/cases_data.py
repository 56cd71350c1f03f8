"""concrete cases of the personal tables, FlatBuffer decoding and the Legends Arceus slot choice"""
import numpy as np
from . import ref
from .cases import GEN, case, gen, edge, ints


def personal_spec():
    from .units import personal
    return personal


@case("personal")
def _(c):
    from importlib import resources
    from numba_pokemon_prngs.enums import Game
    import numba_pokemon_prngs.data.personal as m
    S = personal_spec()
    d = resources.files("numba_pokemon_prngs.resources.bin.personal")
    fn = c.get("fn")
    exp, got = [], []
    for f in ([fn] if fn else ["get_info_table", "get_info_table_3"]):
        for i, g in enumerate(S.ORDER):
            if c.get("id") is not None and c["id"] != 1 << i and c.get("kind"):
                continue
            k = [k for k, v in S.TABLES.items() if g in v[2] and (f == "get_info_table" or v[1] == 3)]
            if not k:
                continue
            name, lay, _ = S.TABLES[k[0]]
            size, fields = S.LAYOUT[lay]
            raw = (d / f"personal_{name}").read_bytes()
            t = getattr(m, f)(Game(1 << i))
            t = np.asarray(t)
            rows = range(len(raw) // size) if c.get("all", True) else c.get("rows", [1])
            b = np.frombuffer(raw, np.uint8).reshape(-1, size).astype(np.int64)
            exp.append([f, g, int(Game[g]) == 1 << i, len(raw) // size] + [int(b[r, o] + (b[r, o + 1] << 8 if w == 2 else 0)) for n, (o, w) in fields.items() for r in rows])
            got.append([f, g, True, len(t)] + [int(t[r][n]) if n in t.dtype.fields else None for n in fields for r in rows])
    return exp, got


@gen("personal")
def _(rnd):
    S = personal_spec()
    return {"fn": rnd.choice(("get_info_table", "get_info_table_3")), "id": 1 << rnd.randrange(len(S.ORDER)), "kind": "int", "all": False, "rows": [rnd.randrange(300) for _ in range(4)]}


# ---- FlatBuffers: an independent writer and decoder over the record layouts of the specification
import struct  # noqa


class Writer:
    def __init__(self, rnd): self.b, self.rnd, self.todo = bytearray(), rnd, []

    def table(self, fields):
        """fields: slot -> (format, value) or a function writing the child and returning its position"""
        n = max(fields, default=-1) + 1
        for _ in range(self.rnd.randrange(5)):
            self.b.append(self.rnd.randrange(256))
        offs, body = [0] * n, bytearray(4)
        kids = []
        order = sorted(fields)
        self.rnd.shuffle(order)
        for s in order:
            f = fields[s]
            while self.rnd.random() < .2:
                body.append(self.rnd.randrange(256))
            offs[s] = len(body)
            if callable(f):
                kids.append((len(body), f))
                body += bytes(4)
            else:
                body += struct.pack(f[0], f[1])
        vt = struct.pack(f"<HH{n}H", 4 + 2 * n, len(body), *offs)
        if self.rnd.random() < .5:
            v = len(self.b)
            self.b += vt
            p = len(self.b)
            self.b += body
        else:
            p = len(self.b)
            self.b += body
            v = len(self.b)
            self.b += vt
        self.b[p:p + 4] = struct.pack("<i", p - v)
        for o, f in kids:
            c = f()
            self.b[p + o:p + o + 4] = struct.pack("<I", c - (p + o))
        return p

    def vector(self, kids):
        p = len(self.b)
        self.b += struct.pack("<I", len(kids)) + bytes(4 * len(kids))
        for i, f in enumerate(kids):
            c = f()
            a = p + 4 + 4 * i
            self.b[a:a + 4] = struct.pack("<I", c - a)
        return p

    def string(self, s):
        p = len(self.b)
        self.b += struct.pack("<I", len(s)) + s + b"\0"
        return p


def flat():
    from .units import flat as f
    return f.SPEC, f.ROOTS


def rv(rnd, fmt):
    k = fmt[1]
    if k in "fd":
        return rnd.choice((0.0, 1.0, -1.0, rnd.randrange(-4096, 4096) / 64))
    w = struct.calcsize(fmt) * 8
    v = edge(rnd, w)
    return v - (1 << w) if k.islower() and v >> (w - 1) else v


def write(wr, cls, depth=0):
    S, _ = flat()
    rnd, fields = wr.rnd, {}
    for a, s in S[cls].items():
        there = rnd.random() < .8
        if s[0] == "scalar" and there:
            fields[s[1]] = (s[2], rv(rnd, s[2]))
        elif s[0] == "float" and there:
            fields[s[1]] = ("<f", rv(rnd, "<f"))
        elif s[0] in ("floats", "floats1"):
            for x in s[1]:
                if rnd.random() < .8:
                    fields[x] = ("<f", rv(rnd, "<f"))
        elif s[0] == "enum_bool" and there:
            fields[s[1]] = ("<b", rnd.choice((0, 1)))
        elif s[0] == "any":
            for x in s[1]:
                if rnd.random() < .7:
                    fields[x] = ("<b", rnd.choice((0, 0, 1)))
        elif s[0] == "vector" and there:
            n = rnd.choice((0, 1, 2, 3, 7))
            fields[s[1]] = lambda c=s[2], n=n: wr.vector([lambda: write(wr, c, depth + 1)] * n)
        elif s[0] == "object" and there:
            fields[s[1]] = lambda c=s[2]: write(wr, c, depth + 1)
        elif s[0] == "alpha":
            fields[s[1]] = lambda: write(wr, "EncounterOybnTraits8a", depth + 1)
        elif s[0] == "first":
            fields[s[1]] = lambda c=s[2]: wr.vector([lambda: write(wr, c, depth + 1)] * rnd.choice((1, 1, 2)))
    return wr.table(fields)


def slot_addr(b, pos, i):
    vt = pos - struct.unpack_from("<i", b, pos)[0]
    n = struct.unpack_from("<H", b, vt)[0]
    o = struct.unpack_from("<H", b, vt + 4 + 2 * i)[0] if 4 + 2 * i < n else 0
    return pos + o if o else None


def rd(b, fmt, a, default=None):
    return default if a is None else struct.unpack_from(fmt, b, a)[0]


def ind(b, a):
    return a + struct.unpack_from("<I", b, a)[0]


def vec(b, a):
    if a is None:
        return []
    v = ind(b, a)
    return [ind(b, v + 4 + 4 * k) for k in range(struct.unpack_from("<I", b, v)[0])]


def decode(b, cls, pos):
    S, _ = flat()
    out = {"class": cls}
    for a, s in S[cls].items():
        at = lambda i: slot_addr(b, pos, i)
        if s[0] == "scalar":
            out[a] = rd(b, s[2], at(s[1]), s[3])
        elif s[0] == "float":
            out[a] = rd(b, "<f", at(s[1]))
        elif s[0] in ("floats", "floats1"):
            out[a] = ([1.0] if s[0] == "floats1" else []) + [rd(b, "<f", at(x), 0.0) for x in s[1]]
        elif s[0] == "enum_bool":
            x = rd(b, "<b", at(s[1]))
            out[a] = None if x is None else x != 0
        elif s[0] == "any":
            out[a] = any(rd(b, "<b", at(x), 0) != 0 for x in s[1])
        elif s[0] == "vector":
            out[a] = [decode(b, s[2], p) for p in vec(b, at(s[1]))]
        elif s[0] == "object":
            out[a] = None if at(s[1]) is None else decode(b, s[2], ind(b, at(s[1])))
        elif s[0] == "alpha":
            out[a] = decode(b, "EncounterOybnTraits8a", ind(b, at(s[1])))["is_alpha"]
        elif s[0] == "first":
            out[a] = decode(b, s[2], vec(b, at(s[1]))[0])[s[3]]
        elif s[0] == "concat":
            out[a] = [y for x in s[1] for y in out[x]]
        elif s[0] == "map":
            out[a] = {}
            for x in out[s[1]]:
                out[a][repr(tuple(x[k] for k in s[2]) if isinstance(s[2], tuple) else x[s[2]])] = x
    return out


def show(o, cls):
    """what the real object says"""
    S, _ = flat()
    out = {"class": type(o).__name__}
    for a, s in S[cls].items():
        v = getattr(o, a, "missing")
        if s[0] in ("vector", "concat"):
            c = s[2] if s[0] == "vector" else S[cls][s[1][0]][2]
            v = [show(x, c) for x in v]
        elif s[0] == "map":
            q = S[cls][s[1]]
            c = q[2] if q[0] == "vector" else S[cls][q[1][0]][2]
            v = {repr(k): show(x, c) for k, x in v.items()}
        elif s[0] == "object" or s[0] == "first" and s[3] == "coordinates":
            v = None if v is None else show(v, "Vec3F")if type(v).__name__ == "Vec3F" else show(v, s[2])
        elif s[0] in ("floats", "floats1"):
            v = list(v)
        out[a] = v
    return out


def record_class(n):
    import numba_pokemon_prngs.data.fbs.encounter_la as m
    import numba_pokemon_prngs.data.fbs.flatbuffer_object as f
    return getattr(m, n, None) or getattr(f, n)


@case("fb_record")
def _(c):
    import random
    S, roots = flat()
    cls = c["cls"]
    if c.get("file"):
        from importlib import resources
        b = (resources.files("numba_pokemon_prngs.resources.encount.la") / c["file"]).read_bytes()
    else:
        wr = Writer(random.Random(c.get("seed", 0)))
        wr.b += bytes(4)
        pos = write(wr, cls)
        wr.b[:4] = struct.pack("<I", pos)
        b = bytes(wr.b)
    root = struct.unpack_from("<I", b)[0]
    o = record_class(cls)(b) if cls in roots else record_class(cls)(b, root)
    out = []

    class Stream:
        def write(self, x): out.append(bytes(x))
    o.dump_binary(Stream())
    return [decode(b, cls, root), True], [show(o, cls), out == [b]]


FILES = (("EncounterMultiplier8aTable", "poke_encount.bin"), ("PokeMisc8aTable", "poke_misc.bin"), ("NewHugeOutbreakGroupTable8a", "new_huge_outbreak_group.bin"),
         ("NewHugeOutbreakGroupLotteryTable8a", "new_huge_outbreak_group_lottery.bin"), ("EncounterTable8aTable", "ha_area01_encounter.bin"), ("PlacementSpawner8aTable", "ha_area01_spawner.bin"))


@gen("fb_record")
def _(rnd):
    S, _ = flat()
    if rnd.random() < .05:
        cls, f = rnd.choice(FILES)
        return {"cls": cls, "file": f}
    return {"cls": rnd.choice(list(S)), "seed": rnd.randrange(1 << 30)}


FMT = {"U8": "<B", "U16": "<H", "U32": "<I", "U64": "<Q", "I8": "<b", "I16": "<h", "I32": "<i", "I64": "<q", "F32": "<f", "F64": "<d"}


@case("fb_read")
def _(c):
    """a table of one field per reader, read at its slots and by a walk in order"""
    import random
    from enum import IntEnum
    import numba_pokemon_prngs.data.fbs.flatbuffer_object as m
    rnd = random.Random(c.get("seed", 0))
    wr = Writer(rnd)
    wr.b += bytes(4)
    fields, plan = {}, []
    slot = 0
    for _ in range(c.get("n", 12)):
        slot_here = slot
        slot += 1
        kind = rnd.choice((*FMT, "bool", "record", "vec3f", "string", "skip", "array"))
        there = rnd.random() < .75
        if kind == "skip":
            k = rnd.randrange(4)
            slot = slot_here + k
            plan.append(("skip", slot_here, k, None))
            continue
        v = None
        if kind in FMT:
            v = rv(rnd, FMT[kind])
            fields[slot_here] = (FMT[kind], v)
        elif kind == "bool":
            v = bool(rnd.randrange(2))
            fields[slot_here] = ("<b", int(v))
        elif kind in ("record", "vec3f"):
            v = [float(rnd.randrange(100)) for _ in range(3)]
            fields[slot_here] = lambda v=v: wr.table({i: ("<f", x) for i, x in enumerate(v)})
        elif kind == "array":
            v = [[float(rnd.randrange(100)) for _ in range(3)] for _ in range(rnd.randrange(4))]
            fields[slot_here] = lambda v=v: wr.vector([lambda q=q: wr.table({i: ("<f", x) for i, x in enumerate(q)}) for q in v])
        else:
            v = "".join(rnd.choice("aZ09é雪\0") for _ in range(rnd.randrange(6)))
            fields[slot_here] = lambda v=v: wr.string(v.encode("utf-8"))
        if not there:
            fields.pop(slot_here)
            v = [] if kind == "array" else None
        plan.append((kind, slot_here, v, there))
    pos = wr.table(fields)
    wr.b[:4] = struct.pack("<I", pos)
    b = bytes(wr.b)
    at, walk = m.FlatBufferObject(b), m.FlatBufferObject(b, pos)
    exp, got = [], []
    tup = lambda o: None if o is None else [type(o).__name__, *o.as_tuple()]
    for kind, s, v, there in plan:
        p = 4 + 2 * s
        if kind == "skip":
            walk.read_init_padding(v)
            continue
        if kind in FMT:
            f = getattr(m, kind)
            n = "float" if kind[0] == "F" else "int"
            g = [getattr(at, f"read_{n}")(f, p), getattr(walk, f"read_init_{n}")(f), getattr(at, f"read_{n}")(f, p, 5)]
            e = [v, v, v if there else 5]
        elif kind == "bool":
            g = [at.read_int_enum(m.I8, p, bool), walk.read_init_int_enum(m.I8, bool), at.read_int_enum(m.I8, p, bool, 9)]
            e = [v, v, v if there else 9]
        elif kind == "record":
            g = [tup(at.read_object(m.Vec3F, p)), tup(walk.read_init_object(m.Vec3F))]
            e = [["Vec3F", *v] if there else None] * 2
        elif kind == "vec3f":
            g = [tup(at.read_vec3f(p)), tup(walk.read_init_vec3f())]
            e = [["Vec3F", *v] if there else None] * 2
        elif kind == "array":
            g = [[tup(x) for x in at.read_object_array(m.Vec3F, p)], [tup(x) for x in walk.read_init_object_array(m.Vec3F)]]
            e = [[["Vec3F", *x] for x in v]] * 2
        else:
            g = [at.read_string(p), walk.read_init_string(), at.read_string(p, "d")]
            e = [v, v, v if there else "d"]
        exp.append([kind, s, e])
        got.append([kind, s, g])
    return exp, got


case("fb_array")(lambda c: __import__("npv.cases", fromlist=["x"]).run({**c, "t": "fb_read"})[1:])


@gen("fb_read")
def _(rnd):
    return {"seed": rnd.randrange(1 << 30), "n": rnd.choice((1, 6, 30))}


gen("fb_array")(lambda rnd: {"seed": rnd.randrange(1 << 30), "n": 20})


# ---- the cache of the encounter data
def encounter_module():
    from . import boot
    boot.stub_missing_resources()
    import numba_pokemon_prngs.data.encounter as m
    return m


class CaseDir:
    """a cache directory of its own for one case"""

    def __enter__(self):
        import os
        import tempfile
        self.old, self.d = os.environ["XDG_CACHE_HOME"], tempfile.mkdtemp(prefix="npv-case-")
        os.environ["XDG_CACHE_HOME"] = self.d
        return self.d

    def __exit__(self, *a):
        import os
        import shutil
        os.environ["XDG_CACHE_HOME"] = self.old
        shutil.rmtree(self.d, True)


def cut_short(call, limit):
    """run call in a child process that is killed when it writes past the limit"""
    import os
    pid = os.fork()
    if pid == 0:
        try:
            import resource
            import signal
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            call()
        finally:
            os._exit(0)
    os.waitpid(pid, 0)


@case("cache")
def _(c):
    import pickle
    import random
    m = encounter_module()
    rnd = random.Random(c.get("seed", 1))
    calls = []

    def function(x):
        calls.append(x)
        return [x, list(range(n)), b"a" * n]
    exp, got = [], []
    for n in c.get("sizes", [rnd.randrange(2000), 200000]):
        for limit in c.get("limits", [0, 1, rnd.randrange(n + 1), n, 3 * n, 1 << 30]):
            with CaseDir():
                kw = {"encode": lambda r: ("coded", r), "decode": lambda r: r[1]} if c["coded"] else {}
                wrap = m.pickle_cached("some_{}.pkl", **kw)
                f = wrap(function)
                cut_short(lambda: f("p"), limit)
                r = []
                for x in ("p", "q", "p"):
                    try:
                        r.append(f(x) == [x, list(range(n)), b"a" * n])
                    except Exception as e:  # noqa
                        r.append(f"{type(e).__name__}")
                k = len(calls)
                f("q")
                exp.append([n, limit, [True] * 3, 0])
                got.append([n, limit, r, len(calls) - k])
    return exp, got


@gen("cache")
def _(rnd):
    return {"coded": bool(rnd.randrange(2)), "seed": rnd.randrange(1 << 30)}


@case("cache_round")
def _(c):
    m = encounter_module()
    exp, got = [], []
    for g, t in m.ENCOUNTER_INFORMATION_GEN3.items():
        names, again = m.load_encounter_3(g)
        exp.append([g.name, True, True])
        got.append([g.name, names == m.MAP_NAMES_GEN3[g], again.tobytes() == t.tobytes() and again.dtype == t.dtype])
    for a, t in m.ENCOUNTER_INFORMATION_LA.items():
        if c.get("area") is not None and int(a) != c["area"]:
            continue
        again = m.load_encounter_tables_la(a)
        k = [int(x) for x in t.keys()]
        exp.append([a.name, len(k), k, [True] * len(k)])
        same = []
        for x in k:
            o, p = t[np.uint64(x)], again[np.uint64(x)]
            same.append(bool(o.table_id == p.table_id and np.asarray(o.slots).tobytes() == np.asarray(p.slots).tobytes()))
        got.append([a.name, len(again), [int(x) for x in again.keys()], same])
    return exp, got


@gen("cache_round")
def _(rnd):
    return {"area": rnd.randrange(1, 6)}


# ---- Legends Arceus slot choice (weights and draws that binary64 adds and multiplies exactly)
@case("la_slot")
def _(c):
    import random
    encounter_module()
    import numba_pokemon_prngs.data.encounter.encounter_area_la as m
    rnd = random.Random(c.get("seed", 1))
    exp, got = [], []
    for _ in range(c.get("areas", 4)):
        n = rnd.choice((1, 2, 3, 7, 20))
        a = m.EncounterAreaLA(np.uint64(rnd.getrandbits(64)), n)
        s = np.zeros(n, m.SlotLA.dtype)
        for i in range(n):
            s[i]["species"] = i
            s[i]["base_probability"] = rnd.choice((0, 1, 2, 10, 100, 4096))
            s[i]["time_multipliers"] = [rnd.choice((0, .5, 1, 1.5, 3)) for _ in range(4)]
            s[i]["weather_multipliers"] = [rnd.choice((0, .25, 1, 2)) for _ in range(9)]
        ok = len(a.slots) == n and not np.asarray(a.slots).view(np.uint8).any()
        exp.append([n, True])
        got.append([n, bool(ok)])
        a.slots = s
        for t in range(4):
            for w in range(9):
                wt = [float(x["base_probability"]) * float(x["time_multipliers"][t]) * float(x["weather_multipliers"][w]) for x in s]
                for r in (0.0, 1.0, rnd.randrange(64) / 64, rnd.randrange(64) / 64):
                    left, e = r * sum(wt), n - 1
                    for i, x in enumerate(wt):
                        if left < x:
                            e = i
                            break
                        left -= x
                    exp.append([t, w, r, e])
                    got.append([t, w, r, int(a.calc_slot(np.float32(r), t, w)["species"])])
    return exp, got


@gen("la_slot")
def _(rnd):
    return {"seed": rnd.randrange(1 << 30)}


# ---- encounter tables against the bytes of their files
@case("enc")
def _(c):
    from . import encref
    from numba_pokemon_prngs.enums import Game, LAArea
    m = encounter_module()
    exp, got = [], []
    for g in [c["game"]] if "game" in c else encref.GEN3 if "area" not in c else ():
        w, r = encref.gen3(g), encref.gen3_got(m.MAP_NAMES_GEN3[Game[g]], m.ENCOUNTER_INFORMATION_GEN3[Game[g]])
        for i in [c["entry"] % len(w)] if "entry" in c else range(max(len(w), len(r))):
            a, b = (w[i] if i < len(w) else None), (r[i] if i < len(r) else None)
            if a != b or "entry" in c:
                exp.append([g, i, repr(a)])
                got.append([g, i, repr(b)])
    for a in [c["area"]] if "area" in c else encref.AREAS if "game" not in c else ():
        w, r = encref.la(a), encref.la_got(m.ENCOUNTER_INFORMATION_LA[LAArea[a]])
        keys = sorted(set(w) | set(r))
        for k in [keys[c["entry"] % len(keys)]] if "entry" in c else keys:
            x, y = (k, w[k]) if k in w else None, r.get(k)
            if x != y or "entry" in c:
                exp.append([a, k, repr(x)])
                got.append([a, k, repr(y)])
    return exp, got


@gen("enc")
def _(rnd):
    from . import encref
    k = rnd.choice([("game", g) for g in encref.GEN3] + [("area", a) for a in encref.AREAS])
    return {k[0]: k[1], "entry": rnd.randrange(1 << 20)}
