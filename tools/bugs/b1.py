P = "numba_pokemon_prngs/"
BUGS = [
 dict(id="lcg-jump-high-entry", property="P02", file=P + "lcrng/lcrng32.py",
  old="    for i in range(31):\n        jump_table.append(", new="    for i in range(30):\n        jump_table.append(", edits=[
   (P + "lcrng/lcrng32.py", "                while_placeholder", "")],
  needs="", breaks="", demo=""),
]
BUGS = [
 dict(id="lcg32-jump-table-top", property="P02", file=P + "lcrng/lcrng32.py",
  old="                np.uint32(np.uint32(jump_table[i][1]) * np.uint32(jump_table[i][1])),\n",
  new="                np.uint32(np.uint32(jump_table[i][1]) * np.uint32(jump_table[i][1]))\n                if i < 28\n                else np.uint32(1),\n",
  needs="a jump distance of at least 2^29",
  breaks="the multiplier recorded for 2^29 and larger powers of two is 1, so jump(n) and const_jump(n) with one of the top bits set (also: jumping back by -n) do not equal n steps",
  demo='''
from numba_pokemon_prngs.lcrng import PokeRNGMod
import sys
seed = 0x12345678
r = PokeRNGMod(seed)
r.jump(np.uint32(0xFFFFFFFF))
r.next()
sys.exit(int(r.seed) != seed)
'''),
 dict(id="mt-untempered-carry", property="P04", file=P + "mersenne_twister/mt.py",
  old="            state[i] = (y_val >> one) ^ MAG02[y_val & one] ^ state[i - 227]\n",
  new="            state[i] = (y_val >> one) ^ MAG02[y_val & one] ^ state[i - 227 if i != 450 else 222]\n",
  needs="output 451 of a block (index 450) or anything after the following block update",
  breaks="one word of the block update uses the wrong word of the block, so the sequence departs from MT19937 after 450 outputs",
  demo='''
from numba_pokemon_prngs.mersenne_twister import MersenneTwister
import random, sys
g = random.Random()
mt = MersenneTwister(0xCAFE)
st = [0] * 624
s = 0xCAFE
for i in range(624):
    if i:
        s = (0x6C078965 * (s ^ (s >> 30)) + i) & 0xFFFFFFFF
    st[i] = s
g.setstate((3, tuple(st) + (624,), None))
sys.exit(any(int(mt.next()) != g.getrandbits(32) for _ in range(1300)))
'''),
 dict(id="tinymt-zero-state", property="P06", file=P + "mersenne_twister/tinymt.py",
  old="        self.state[1] = self.state[2] ^ ((y_val & np.uint32(1)) * np.uint32(0x8F7011EE))\n",
  new="        self.state[1] = self.state[2] ^ ((y_val & np.uint32(x_val != 0)) * np.uint32(0x8F7011EE))\n",
  needs="a state whose x word is 0 after the first xorshift while y is odd (the fold of three words is 0 or 0x80000000... rare by chance)",
  breaks="the transition drops the first feedback constant when the folded word is zero",
  demo='''
from numba_pokemon_prngs.mersenne_twister import TinyMersenneTwister
import sys
t = TinyMersenneTwister(1)
for i, v in enumerate((5, 3, 6, 3)):
    t.state[i] = v
t.next()
# x = 5^3^6 = 0; y = 3 ^ 1 = 2 -> even; choose y so that it is odd
for i, v in enumerate((5, 3, 6, 2)):
    t.state[i] = v
t.next()
y = 2 ^ 1
want = (3, 6 ^ (0x8F7011EE if y & 1 else 0), ((y << 10) ^ (0xFC78FF1F if y & 1 else 0)) & 0xFFFFFFFF, y)
sys.exit(tuple(int(v) for v in t.state) != want)
'''),
 dict(id="xoroshiro-mask-off", property="P10", file=P + "xorshift/xoroshiro128plus.py",
  old="        val |= val >> np.uint32(16)\n        return val\n",
  new="        val |= val >> np.uint32(12)\n        return val\n",
  needs="a maximum above 2^28 or so whose low bits below the smear are not reached",
  breaks="the mask no longer covers every value below the maximum, so some values can never be drawn and the draw consumes the wrong number of outputs",
  demo='''
from numba_pokemon_prngs.xorshift import Xoroshiro128PlusRejection
import sys
bad = 0
for n in (2, 3, 4, 5, 100, 255, 256, 257, 65536, 65537, 0x10000001, 0x20000001, 0x40000001, 0x80000001, 0xFFFFFFFF):
    bad |= int(Xoroshiro128PlusRejection.bit_mask(np.uint32(n))) != (1 << (n - 1).bit_length()) - 1
sys.exit(bad)
'''),
 dict(id="sfmt-certify", property="P05", file=P + "mersenne_twister/sfmt.py",
  old="        inner ^= inner >> 4\n        inner ^= inner >> 2\n",
  new="        inner ^= inner >> 2\n",
  needs="a seed whose parity check depends on bits 4-7 of the folded word (half the seeds; not the ones the tests use)",
  breaks="period certification computes the wrong parity, so the low bit of the first word is flipped for some seeds",
  demo='''
from numba_pokemon_prngs.mersenne_twister import SIMDFastMersenneTwister
import sys
bad = 0
for seed in range(400):
    g = SIMDFastMersenneTwister(seed)
    s = seed
    st = [s]
    for i in range(1, 624):
        s = (0x6C078965 * (s ^ (s >> 30)) + i) & 0xFFFFFFFF
        st.append(s)
    par = bin((st[0] & 1) ^ (st[3] & 0x13C9E684)).count("1") & 1
    if not par:
        st[0] ^= 1
    bad |= [int(x) for x in g.state] != st
sys.exit(bad)
'''),
]
