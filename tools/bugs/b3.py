P = "numba_pokemon_prngs/"
BUGS = [
 dict(id="altering-cave-nine", property="P25", file=P + "data/encounter/__init__.py",
  old='re.search(r"AlteringCave_[2-9]"', new='re.search(r"AlteringCave_[2-8]"',
  needs="the ninth Altering Cave entry of Fire Red and Leaf Green",
  breaks="one dummied-out entry is loaded as an area that cannot be visited, with the name of the real one",
  demo='''
import sys
from numba_pokemon_prngs.data.encounter import MAP_NAMES_GEN3
from numba_pokemon_prngs.enums import Game
sys.exit(any(sum("Altering Cave" in n for n in MAP_NAMES_GEN3[g]) != 1 for g in (Game.FIRE_RED, Game.LEAF_GREEN, Game.EMERALD)))
'''),
 dict(id="la-zero-time-multiplier", property="P25", file=P + "data/encounter/__init__.py",
  old="np.array(slot.encounter_eligibility.time_of_day_multipliers) < 0.0", new="np.array(slot.encounter_eligibility.time_of_day_multipliers) <= 0.0",
  needs="a slot that its table bars at a time of day (multiplier 0) while the species' own multiplier is not 0",
  breaks="the slot becomes available at a time of day its table rules out",
  demo='''
import sys
from numba_pokemon_prngs.data.encounter import ENCOUNTER_INFORMATION_LA, EncounterTable8aTable
import numba_pokemon_prngs, os
d = os.path.join(os.path.dirname(numba_pokemon_prngs.__file__), "resources", "encount", "la")
bad = 0
for area, tables in ENCOUNTER_INFORMATION_LA.items():
    with open(os.path.join(d, f"ha_area{int(area):02d}_encounter.bin"), "rb") as f:
        for t in EncounterTable8aTable(f.read()).encounter_tables:
            for s, got in zip(t.encounter_slots, tables[np.uint64(t.table_id)].slots):
                for x, y in zip(s.encounter_eligibility.time_of_day_multipliers, got["time_multipliers"]):
                    bad += x == 0 and y != 0
sys.exit(int(bad > 0))
'''),
 dict(id="lcg64-reinit-low-half", property="P01", file=P + "lcrng/lcrng64.py",
  old='''        """Reinitialize without creating a new object"""
        self.seed = np.uint64(seed)
''', new='''        """Reinitialize without creating a new object"""
        self.seed = np.uint64(np.uint32(seed))
''',
  needs="re_init with a seed above 32 bits",
  breaks="reinitializing keeps only the low half of the seed",
  demo='''
import sys
from numba_pokemon_prngs.lcrng import BWRNG
bad = False
for seed in (0x12345678, 0x9ABCDEF012345678):
    a, b = BWRNG(np.uint64(1)), BWRNG(np.uint64(seed))
    a.re_init(np.uint64(seed))
    bad |= [int(a.next()) for _ in range(3)] != [int(b.next()) for _ in range(3)]
sys.exit(bad)
'''),
 dict(id="mt-reinit-keeps-index", property="P04", file=P + "mersenne_twister/mt.py",
  old='''        seed = np.uint32(seed)
        self.index = np.uint16(624)  # ensures shuffle after initialization
        self.state[0] = seed
''', new='''        seed = np.uint32(seed)
        self.state[0] = seed
''',
  needs="re_init after at least one draw",
  breaks="the first draws after reinitialization come from the unshuffled seed words",
  demo='''
import sys
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
a, b = MersenneTwister(1), MersenneTwister(5489)
ok = int(b.next()) == 3499211612
a.next()
a.re_init(5489)
sys.exit(not ok or int(a.next()) != 3499211612)
'''),
 dict(id="sfmt-reinit-keeps-index", property="P05", file=P + "mersenne_twister/sfmt.py",
  old='''        self.state[0] = seed
        self.index = np.uint16(624)  # ensures shuffle after initialization
        inner''', new='''        self.state[0] = seed
        inner''',
  needs="re_init after at least one draw",
  breaks="the first draws after reinitialization come from the unshuffled seed words",
  demo='''
import sys
from numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister
a, b = SIMDFastMersenneTwister(1), SIMDFastMersenneTwister(5489)
a.re_init(5489)
ok = int(a.next()) == int(b.next())
a.re_init(1234)
sys.exit(not ok or int(a.next()) != int(SIMDFastMersenneTwister(1234).next()))
'''),
 dict(id="tinymt-advance-16-bits", property="P07", file=P + "mersenne_twister/tinymt.py",
  old="        for _ in range(adv):\n", new="        for _ in range(adv & 0xFFFF):\n",
  needs="a distance of 65536 or more",
  breaks="advancing wraps the distance to 16 bits",
  demo='''
import sys
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
bad = False
for n in (3, 65536 + 5):
    a, b = TinyMersenneTwister(7), TinyMersenneTwister(7)
    a.advance(n)
    for _ in range(n):
        b.next()
    bad |= int(a.next()) != int(b.next())
sys.exit(bad)
'''),
 dict(id="xoroshiro-second-seed", property="P09", file=P + "xorshift/xoroshiro128plus.py",
  old="        self.re_init(np.uint64(seed_0), np.uint64(seed_1))\n", new="        self.re_init(np.uint64(seed_0))\n",
  needs="a generator constructed with its own second seed word",
  breaks="the second seed word given to the constructor is ignored",
  demo='''
import sys
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection
bad = int(Xoroshiro128PlusRejection(np.uint64(5)).next()) != 5 + 0x82A2B175229D6A5B
bad |= int(Xoroshiro128PlusRejection(np.uint64(5), np.uint64(7)).next()) != 12
sys.exit(bad)
'''),
]
