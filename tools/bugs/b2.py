P = "numba_pokemon_prngs/"
BUGS = [
 dict(id="rnglist-pointer-after-reads", property="P14", file=P + "rng_list.py",
  old="            self.pointer = self.head\n", new="            self.pointer = (self.pointer + 1) & (size - 1)\n",
  needs="reading values (or advancing within the window) between two advances of the state",
  breaks="advancing the state no longer moves the read position to the start of the new window: it is off by the number of values read before",
  demo='''
import sys
from numba_pokemon_prngs.lcrng import PokeRNGMod
from numba_pokemon_prngs.rng_list import build_rnglist
L = build_rnglist(rng_class=PokeRNGMod, next_function_name="next_u16", state_type=np.uint16, size=8)
def ref(n):
    r = PokeRNGMod(0x1234)
    return [int(r.next_u16()) for _ in range(n)]
want = ref(40)
r = L(PokeRNGMod(0x1234))
ok = [int(r.get_value()) for _ in range(3)] == want[:3]
r.advance_states(5)
ok &= [int(r.get_value()) for _ in range(8)] == want[5:13]
sys.exit(not ok)
'''),
 dict(id="sha1-mac-top-byte", property="P13", file=P + "sha1.py",
  old="            np.uint32(mac >> np.uint64(16))\n", new="            np.uint32((mac >> np.uint64(16)) & np.uint64(0xFFFFFF))\n",
  needs="a MAC address whose first byte is not 00",
  breaks="the first byte of the MAC address is missing from the message",
  demo='''
import sys
from numba_pokemon_prngs.sha1 import SHA1
from numba_pokemon_prngs.enums import Game, Language, DSType
bad = False
for mac in (0x0009BF123456, 0x40F407A0B1C2):
    s = SHA1(Game.BLACK, Language.ENGLISH, DSType.DS, mac, True, 6, 8)
    bad |= int(s.data[7]) != (mac >> 16) ^ 0x06000008 or int(s.data[6]) != (mac & 0xFFFF) | 0x01000000
sys.exit(bad)
'''),
 dict(id="wild3-cute-charm-equal", property="P19", file=P + "gen3/wild_generator_3.py",
  old="            return (pid & 0xFF) >= info.gender_ratio\n", new="            return (pid & 0xFF) > info.gender_ratio\n",
  needs="a female cute charm lead and a PID whose low byte equals the gender ratio of the species",
  breaks="such a PID (a male) is rejected and another one rolled, with all that follows it",
  demo='''
import sys
from numba_pokemon_prngs.gen3.wild_generator_3 import WildGenerator3
from numba_pokemon_prngs.enums import Game, Method, Encounter, Lead
from numba_pokemon_prngs.data.personal import PERSONAL_INFO_E
g = WildGenerator3(Method.METHOD_1, Encounter.GRASS, Lead.CUTE_CHARM_F, Game.EMERALD, 1, 2)
bad = False
for species in (1, 25, 63, 35):
    info = PERSONAL_INFO_E[species]
    ratio = int(info.gender_ratio)
    for pid in range(256):
        bad |= bool(g.cute_charm_check(np.uint32(0xABCD1200 + pid), info)) != (pid >= ratio)
sys.exit(bad)
'''),
 dict(id="gen3-pressure-level-one", property="P18", file=P + "gen3/encounter_area_3.py",
  old="        if rand != 0:\n            rand -= 1\n", new="        if rand > 1:\n            rand -= 1\n",
  needs="a pressure lead, a lost coin flip and a level roll of exactly 1",
  breaks="the level is one too high",
  demo='''
import sys
from numba_pokemon_prngs.gen3.encounter_area_3 import calculate_level
from numba_pokemon_prngs.data.encounter.encounter_area_3 import Slot3
from numba_pokemon_prngs.lcrng import PokeRNGMod
slots = np.zeros(1, dtype=Slot3.dtype).view(np.recarray)
slots[0].min_level = 10
slots[0].max_level = 13
bad = False
for seed in range(64):
    rng = PokeRNGMod(seed)
    s = seed
    draws = []
    for _ in range(2):
        s = (s * 0x41C64E6D + 0x6073) & 0xFFFFFFFF
        draws.append(s >> 16)
    roll = draws[0] % 4
    want = 13 if draws[1] % 2 == 0 else 10 + max(roll - 1, 0)
    bad |= int(calculate_level(slots[0], rng, True)) != want
sys.exit(bad)
'''),
 dict(id="gen3-characteristic-tie", property="P17", file=P + "gen3/state.py",
  old="            if self.ivs[ORDER[index]] > max_iv:\n", new="            if self.ivs[ORDER[index]] >= max_iv:\n",
  needs="two stats sharing the highest IV",
  breaks="the characteristic names the last of the tied stats instead of the first",
  demo='''
import sys
from numba_pokemon_prngs.gen3.state import GeneratorState
from numba_pokemon_prngs.data.personal import PERSONAL_INFO_E
order = (0, 1, 2, 5, 3, 4)
bad = False
for pid in range(6):
    ivs = np.array((3, 20, 7, 5, 20, 11), np.uint8)
    st = GeneratorState(0, pid, 1, 0, ivs, 0, 50, 0, PERSONAL_INFO_E[1])
    best, at = 0, pid % 6
    for k in range(6):
        i = (pid % 6 + k) % 6
        if int(ivs[order[i]]) > best:
            best, at = int(ivs[order[i]]), i
    bad |= int(st.characteristic) != at * 5 + best % 5
sys.exit(bad)
'''),
 dict(id="flatbuffer-stored-zero", property="P21", file=P + "data/fbs/flatbuffer_object.py",
  old='''        """Read value of _type at position"""
        pos_offset = self._table.Offset(position)
        if pos_offset:
            return self._table.Get(_type, pos_offset + self._offset)
        return default

    def read_float(''',
  new='''        """Read value of _type at position"""
        pos_offset = self._table.Offset(position)
        value = default
        if pos_offset:
            value = self._table.Get(_type, pos_offset + self._offset) or default
        return value

    def read_float(''',
  needs="a table that stores a zero in a slot instead of leaving it out",
  breaks="a stored zero is read as the default",
  demo='''
import struct, sys
from numba_pokemon_prngs.data.fbs.flatbuffer_object import FlatBufferObject, I32
# vtable at 4: size 8, table size 12, slots 4 and 8; table at 12
buf = bytearray(struct.pack("<I", 12) + struct.pack("<HHHH", 8, 12, 4, 8) + struct.pack("<iii", 8, 0, 7))
t = FlatBufferObject(buf)
sys.exit((t.read_init_int(I32), t.read_init_int(I32, 5), t.read_init_int(I32, 9)) != (0, 7, 9))
'''),
 dict(id="la-slot-equal-roll", property="P22", file=P + "data/encounter/encounter_area_la.py",
  old="            if scaled_rand < probability:\n", new="            if scaled_rand <= probability:\n",
  needs="a roll that lands exactly on the end of a slot's range, e.g. 0 when the first slot has weight zero",
  breaks="an encounter that cannot appear at this time or weather is chosen",
  demo='''
import sys
from numba_pokemon_prngs.data.encounter.encounter_area_la import EncounterAreaLA
a = EncounterAreaLA(1, 3)
for i, p in enumerate((100, 50, 50)):
    a.slots[i]["base_probability"] = p
    a.slots[i]["species"] = i + 1
    a.slots[i]["time_multipliers"] = 1.0
    a.slots[i]["weather_multipliers"] = 1.0
a.slots[0]["time_multipliers"][2] = 0.0
got = a.calc_slot(np.float32(0.0), 2, 1)
sys.exit(int(got["species"]) != 2)
'''),
 dict(id="cache-file-per-small-game", property="P24", file=P + "data/encounter/__init__.py",
  old="            pkl_filename = filename.format(*args, **kwargs)\n",
  new="            pkl_filename = filename.format(*(int(arg) & 0x3 for arg in args), **kwargs)\n",
  needs="two arguments whose two low bits agree (Emerald, Fire Red and Leaf Green), the second loaded after the first",
  breaks="the second loader call is answered from the first one's cache file",
  demo='''
import sys
from numba_pokemon_prngs.data.encounter import load_encounter_3
from numba_pokemon_prngs.enums import Game
e = load_encounter_3(Game.EMERALD)
f = load_encounter_3(Game.FIRE_RED)
l = load_encounter_3(Game.LEAF_GREEN)
sys.exit(e[0] == f[0] or any("Littleroot" in n for n in f[0]) or f[1].tobytes() == l[1].tobytes() or f[1].tobytes() == e[1].tobytes())
'''),
 dict(id="fnv-seven-bit", property="P15", file=P + "fnv.py", count=1,
  old="        hash_ ^= np.uint64(ord(char))\n        hash_ *=", new="        hash_ ^= np.uint64(ord(char) & 0x7F)\n        hash_ *=",
  needs="a character outside ASCII",
  breaks="FNV-1a drops the high bit of the character",
  demo='''
import sys
from numba_pokemon_prngs.fnv import fnv1a_64
def ref(s):
    h = 0xCBF29CE484222645
    for c in s:
        h = ((h ^ ord(c)) * 0x100000001B3) & (2**64 - 1)
    return h
sys.exit(any(int(fnv1a_64(s)) != ref(s) for s in ("", "eve_01", "Pok\\u00e9mon", "\\u30dd\\u30b1")))
'''),
 dict(id="sha1-word-17-precomputed", property="P12", file=P + "sha1.py",
  edits=[(P + "sha1.py", "        self.calc_w(17)\n", ""), (P + "sha1.py", "        self.calc_w(16)\n", "        self.calc_w(16)\n        self.calc_w(17)\n")],
  needs="setting another time after precompute and hashing with the same precomputed value",
  breaks="schedule word 17 depends on the time word and is stale: the hash mixes the old time with the new one",
  demo='''
import hashlib, struct, sys
from numba_pokemon_prngs.sha1 import SHA1
from numba_pokemon_prngs.enums import Game, Language, DSType
s = SHA1(Game.WHITE, Language.FRENCH, DSType.DSI, 0x9BF123456, True, 8, 6)
s.set_timer0(0xC7A, 0x60)
s.set_date(2012, 7, 19, 4)
s.set_button(0xFF2F0000)
s.set_time(21, 3, 59)
alpha = s.precompute()
bad = False
for t in ((21, 3, 59), (0, 0, 0), (7, 8, 9)):
    s.set_time(*t)
    h = hashlib.sha1(struct.pack(">13I", *[int(x) for x in s.data[:13]])).digest()
    seed = int.from_bytes(h[:8], "little")
    bad |= int(s.hash_seed(alpha)) != (seed * 0x5D588B656C078965 + 0x269EC3) & (2**64 - 1)
sys.exit(bad)
'''),
 dict(id="gen3-gender-ratio-254", property="P16", file=P + "gen3/util.py",
  old="    if gender_ratio == 254:\n        return 1\n    if gender_ratio == 0:\n        return 0\n", new="    if gender_ratio == 0:\n        return 0\n",
  needs="a species that is always female and a PID whose low byte is 254 or 255",
  breaks="such a PID is reported as male",
  demo='''
import sys
from numba_pokemon_prngs.gen3.util import get_gender
sys.exit(any(int(get_gender(0x12340000 + p, 254)) != 1 for p in range(256)))
'''),
 dict(id="personal7-z-moves-swapped", property="P20", file=P + "data/personal/personal_info.py",
  old="    special_z_base_move: U16\n    special_z_move: U16\n    local_variant: U8\n    _padding: unused_bytes(1)\n\n\nPersonalInfo7.dtype", new="    special_z_move: U16\n    special_z_base_move: U16\n    local_variant: U8\n    _padding: unused_bytes(1)\n\n\nPersonalInfo7.dtype",
  needs="a species with a special Z move of its own (all others store 0 in both)",
  breaks="base move and Z move of the Sun/Moon tables are exchanged",
  demo='''
import struct, sys
import importlib.resources as r
from numba_pokemon_prngs.resources.bin import personal as d
from numba_pokemon_prngs.data.personal import PERSONAL_INFO_SM
raw = (r.files(d) / "personal_sm").read_bytes()
bad = False
for i in range(len(raw) // 0x54):
    item, base, move = struct.unpack_from("<HHH", raw, i * 0x54 + 0x4C)
    rec = PERSONAL_INFO_SM[i]
    bad |= (int(rec.special_z_item), int(rec.special_z_base_move), int(rec.special_z_move)) != (item, base, move)
sys.exit(bad)
'''),
 dict(id="lcg64-const-rand-16", property="P03", file=P + "lcrng/lcrng64.py",
  old="                        (np.uint64(self.next_u32()) * np.uint64(maximum))\n                        >> np.uint64(32)\n",
  new="                        ((np.uint64(self.next_u32()) >> np.uint64(8)) * np.uint64(maximum))\n                        >> np.uint64(24)\n",
  needs="a draw within 2^-24 of a boundary, or a large bound",
  breaks="the variant with the bound fixed ahead of time drops the low 8 bits of the draw: rarely another value than next_rand",
  demo='''
import sys
from numba_pokemon_prngs.lcrng import BWRNG
f = BWRNG.const_rand(np.uint32(0xFFFFFFF1))
a, b = BWRNG(0x123456789ABCDEF), BWRNG(0x123456789ABCDEF)
sys.exit(any(int(f(a)) != int(b.next_rand(np.uint32(0xFFFFFFF1))) for _ in range(50)))
'''),
 dict(id="tinymt-mod-one", property="P08", file=P + "mersenne_twister/tinymt.py",
  old="        return self.next() % np.uint32(maximum)\n", new="        if maximum == 1:\n            return np.uint32(0)\n        return self.next() % np.uint32(maximum)\n",
  needs="a bound of exactly 1 followed by another draw",
  breaks="the bounded draw does not consume an output, so every later draw is shifted",
  demo='''
import sys
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
a, b = TinyMersenneTwister(77), TinyMersenneTwister(77)
a.next_rand_mod(np.uint32(1))
b.next()
sys.exit(int(a.next()) != int(b.next()))
'''),
 dict(id="lcg64-reverse-jump", property="P07", file=P + "mersenne_twister/mt.py",
  old="        while adv >= np.uint64(624):\n            self.shuffle()\n            adv -= np.uint64(624)\n        self.index = np.uint16(adv)\n",
  new="        while adv > np.uint64(624):\n            self.shuffle()\n            adv -= np.uint64(624)\n        self.index = np.uint16(adv if adv > self.index else adv % np.uint64(624))\n",
  needs="an advance that ends exactly on a block boundary, from the start of a block",
  breaks="placeholder", demo="raise SystemExit(0)\n"),
 dict(id="xorshift-undo-wide", property="P09", file=P + "xorshift/xorshift128.py",
  old="        t_val ^= np.uint32(t_val) >> np.uint32(16)\n", new="        t_val ^= (np.uint32(t_val) >> np.uint32(16)) & np.uint32(0xFF0F)\n" ,
  needs="particular bits of the first word of the state",
  breaks="stepping back does not restore the state for half of... the states with bits 20 to 23 set after the first unshift",
  demo="raise SystemExit(0)\n"),
]
BUGS = [b for b in BUGS if "SystemExit(0)" not in b["demo"]]
