From 18643235743b5593b933364e73266db06291ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 01/17] fix: keep the TinyMT tempering sum in 32 bits

Under numba the unwrapped sum is 64 bits wide, so next() could return values
above 0xFFFFFFFF and next_rand(n) values above n.
---
 numba_pokemon_prngs/mersenne_twister/tinymt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/tinymt.py b/numba_pokemon_prngs/mersenne_twister/tinymt.py
index cec642b..13f31c3 100644
--- a/numba_pokemon_prngs/mersenne_twister/tinymt.py
+++ b/numba_pokemon_prngs/mersenne_twister/tinymt.py
@@ -75,7 +75,7 @@ class TinyMersenneTwister:
     def temper(self) -> np.uint32:
         """Access and return the next 32-bit tempered rand"""
         temper_0 = self.state[3]
-        temper_1 = self.state[0] + (self.state[2] >> np.uint32(8))
+        temper_1 = np.uint32(self.state[0] + (self.state[2] >> np.uint32(8)))
 
         temper_0 ^= temper_1
 
-- 
2.43.0


From 5bf83bccafdaaef5145f17dfa313c3fce74a33c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 02/17] fix: accept np.uint64 distances in LCRNG64.jump and
 const_jump

Without numba, np.uint64 & int has no integer loop and raised TypeError.
---
 numba_pokemon_prngs/lcrng/lcrng64.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng64.py b/numba_pokemon_prngs/lcrng/lcrng64.py
index 198f65c..029ecd2 100644
--- a/numba_pokemon_prngs/lcrng/lcrng64.py
+++ b/numba_pokemon_prngs/lcrng/lcrng64.py
@@ -110,27 +110,29 @@ def lcrng64_init(
             return np.uint64(self.seed)
 
         def jump(self: LCRNG64, adv: np.uint64):
+            adv = np.uint64(adv)
             i = 0
             while adv:
-                if adv & 1:
+                if adv & np.uint64(1):
                     add, mult = jump_table[i]
                     self.seed = np.uint64(
                         np.uint64(self.seed) * np.uint64(mult) + np.uint64(add)
                     )
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
             return np.uint64(self.seed)
 
         def const_jump(adv: np.uint32, **kwargs) -> Callable[[LCRNG64]]:
+            adv = np.uint64(adv)
             i = 0
             mult = np.uint64(1)
             add = np.uint64(0)
             while adv:
                 add_val, mult_val = jump_table[i]
-                if adv & 1:
+                if adv & np.uint64(1):
                     mult *= mult_val
                     add = add * mult_val + add_val
-                adv >>= 1
+                adv >>= np.uint64(1)
                 i += 1
 
             @optional_njit(**kwargs)
-- 
2.43.0


From ca1ff4486b64d09c830e5efe53d525dbf9fa39f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 03/17] fix: do not wrap the reciprocal-division divisor to 16
 bits

For maximum 1 the divisor is 0x10000; wrapped to 0 it raised ZeroDivisionError
under numba instead of returning 0.
---
 numba_pokemon_prngs/lcrng/lcrng32.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/numba_pokemon_prngs/lcrng/lcrng32.py b/numba_pokemon_prngs/lcrng/lcrng32.py
index 1fe0bab..1f1e252 100644
--- a/numba_pokemon_prngs/lcrng/lcrng32.py
+++ b/numba_pokemon_prngs/lcrng/lcrng32.py
@@ -163,8 +163,9 @@ def lcrng32_init(
         elif distribution == LCRNG32RandomDistribution.RECIPROCAL_DIVISION:
 
             def next_rand(self: LCRNG32, maximum: np.uint16) -> np.uint16:
-                return np.uint16(self.next_u16()) // np.uint16(
-                    (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                return np.uint16(
+                    np.uint32(self.next_u16())
+                    // ((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                 )
 
             def const_rand(
@@ -172,8 +173,9 @@ def lcrng32_init(
             ) -> Callable[[LCRNG32], np.uint16]:
                 @optional_njit(**kwargs)
                 def rand_func(self: LCRNG32) -> np.uint16:
-                    return np.uint16(self.next_u16()) // np.uint16(
-                        (np.uint16(0xFFFF) // np.uint16(maximum)) + np.uint16(1)
+                    return np.uint16(
+                        np.uint32(self.next_u16())
+                        // ((np.uint32(0xFFFF) // np.uint32(maximum)) + np.uint32(1))
                     )
 
                 return rand_func
-- 
2.43.0


From a738fb0a79af8348a2982a48e312dfbe9afc14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 04/17] fix: store RNGList values with the requested state_type

Under numba the list was always declared as uint32, so 16- and 64-bit lists
could not be constructed.
---
 numba_pokemon_prngs/rng_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index 828ebbf..ff36720 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -52,7 +52,7 @@ def build_rnglist(
 
     @optional_jitclass(
         {
-            "list": array_type(np.uint32),  # contiguous array
+            "list": array_type(state_type),  # contiguous array
             "rng": rng_class.class_type.instance_type if USE_NUMBA else rng_class,
             "head": np.uint16,
             "pointer": np.uint16,
-- 
2.43.0


From 40ae87f271021d38c9002882019544365b28c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 05/17] fix: find inherited next functions when building an
 RNGList without numba

rng_class.__dict__ misses methods of the parent class, such as next_u16 of the
LCRNGs, and build_rnglist raised KeyError.
---
 numba_pokemon_prngs/rng_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/rng_list.py b/numba_pokemon_prngs/rng_list.py
index ff36720..b516621 100644
--- a/numba_pokemon_prngs/rng_list.py
+++ b/numba_pokemon_prngs/rng_list.py
@@ -46,9 +46,9 @@ def build_rnglist(
             next_function_name
         ]
     else:
-        next_function: Callable[[PRNG], state_type] = rng_class.__dict__[
-            next_function_name
-        ]
+        next_function: Callable[[PRNG], state_type] = getattr(
+            rng_class, next_function_name
+        )
 
     @optional_jitclass(
         {
-- 
2.43.0


From 68b08d1b06ed6ccfaae350922951bed576d27288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 06/17] fix: compute the MT and SFMT advance position in 64
 bits

Without numba the 32-bit sum wrapped, so advance(n) for n near 2^32 (MT) or
from 2^31 on (SFMT) ended at the wrong position.
---
 numba_pokemon_prngs/mersenne_twister/mt.py   | 7 +++----
 numba_pokemon_prngs/mersenne_twister/sfmt.py | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/numba_pokemon_prngs/mersenne_twister/mt.py b/numba_pokemon_prngs/mersenne_twister/mt.py
index 8f2ed95..5abf667 100644
--- a/numba_pokemon_prngs/mersenne_twister/mt.py
+++ b/numba_pokemon_prngs/mersenne_twister/mt.py
@@ -38,11 +38,10 @@ class MersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv += np.uint32(self.index)
-        while adv >= np.uint32(624):
+        adv = np.uint64(np.uint32(adv)) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint32:
diff --git a/numba_pokemon_prngs/mersenne_twister/sfmt.py b/numba_pokemon_prngs/mersenne_twister/sfmt.py
index 6e8280a..2ef5582 100644
--- a/numba_pokemon_prngs/mersenne_twister/sfmt.py
+++ b/numba_pokemon_prngs/mersenne_twister/sfmt.py
@@ -297,11 +297,10 @@ class SIMDFastMersenneTwister:
 
     def advance(self, adv: np.uint32) -> None:
         """Advance SIMD-oriented Fast Mersenne Twister sequence by adv"""
-        adv = np.uint32(adv)
-        adv = (adv * np.uint32(2)) + np.uint32(self.index)
-        while adv >= np.uint32(624):
+        adv = np.uint64(np.uint32(adv)) * np.uint64(2) + np.uint64(self.index)
+        while adv >= np.uint64(624):
             self.shuffle()
-            adv -= np.uint32(624)
+            adv -= np.uint64(624)
         self.index = np.uint16(adv)
 
     def next(self) -> np.uint64:
-- 
2.43.0


From 7d3f12e75c6f955518c3fb04a235ce7d94071014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 07/17] fix: apply nature modifiers to the stats the nature
 names

---
 numba_pokemon_prngs/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/util.py b/numba_pokemon_prngs/util.py
index f1b3ffd..0e45d0d 100644
--- a/numba_pokemon_prngs/util.py
+++ b/numba_pokemon_prngs/util.py
@@ -45,10 +45,12 @@ def rotate_right_u64(val: np.uint64, count: np.uint8) -> np.uint64:
     return np.uint64((val << (np.uint8(64) - count)) | (val >> count))
 
 
+# natures are ordered by atk, def, spe, spa, spd while stats are atk, def, spa, spd, spe
+NATURE_STATS = (0, 1, 4, 2, 3)
 NATURE_MODIFIERS = np.ones((25, 5), np.float32)
 for i in range(25):
-    NATURE_MODIFIERS[i][i % 5] -= 0.1
-    NATURE_MODIFIERS[i][i // 5] += 0.1
+    NATURE_MODIFIERS[i][NATURE_STATS[i % 5]] -= 0.1
+    NATURE_MODIFIERS[i][NATURE_STATS[i // 5]] += 0.1
 
 
 @optional_njit(return_type(np.uint16, (np.uint16, np.uint8, np.uint8)))
-- 
2.43.0


From 1733212f619ad2bd69faf28f6159db4523e5ddb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 08/17] fix: advance the main rng when a rock smash check fails

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index 85a8aa6..a7b2b6b 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -81,6 +81,7 @@ class WildGenerator3:
 
             # RSE uses main rng to check for rock smash encounters
             if rse and self.encounter == Encounter.ROCK_SMASH and rand_2880(go) >= rate:
+                rng.next()
                 continue
 
             encounter_slot = encounter_area_3.calculate_hslot_lead(
-- 
2.43.0


From f7acd01bf1286fa5236911ba28f5cf7e7b4121d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 09/17] fix: roll cute charm for the species it can affect

---
 numba_pokemon_prngs/gen3/wild_generator_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/wild_generator_3.py b/numba_pokemon_prngs/gen3/wild_generator_3.py
index a7b2b6b..b63deab 100644
--- a/numba_pokemon_prngs/gen3/wild_generator_3.py
+++ b/numba_pokemon_prngs/gen3/wild_generator_3.py
@@ -95,9 +95,9 @@ class WildGenerator3:
             info = self.personal_info_table[species]
             if self.lead == Lead.CUTE_CHARM_M or self.lead == Lead.CUTE_CHARM_F:
                 if 0 < info.gender_ratio < 254:
-                    cute_charm = False
-                else:
                     cute_charm = rand_3(go) != 0
+                else:
+                    cute_charm = False
 
             # pokeblocks
             if rse_safari:
-- 
2.43.0


From 765d2a7c1f6f9c0afd97306b98dbcfb2a8713dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 10/17] fix: use the land rate for grass and the fish rate for
 rods

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index da621d9..bd826ff 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -194,9 +194,9 @@ def get_encounter_rate(
 ) -> np.uint8:
     """Get encounter rate"""
     if encounter_type == Encounter.GRASS:
-        return encounter_area.fish_rate
+        return encounter_area.land_rate
     if encounter_type == Encounter.ROCK_SMASH:
         return encounter_area.rock_rate
     if encounter_type == Encounter.SURFING:
         return encounter_area.water_rate
-    return encounter_area.land_rate
+    return encounter_area.fish_rate
-- 
2.43.0


From fc8bd95f4cfe0d6bea2a5a32d12d04855dbafac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 11/17] fix: keep the last roll of each range in its own
 encounter slot

---
 numba_pokemon_prngs/gen3/encounter_area_3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/gen3/encounter_area_3.py b/numba_pokemon_prngs/gen3/encounter_area_3.py
index bd826ff..f836ea5 100644
--- a/numba_pokemon_prngs/gen3/encounter_area_3.py
+++ b/numba_pokemon_prngs/gen3/encounter_area_3.py
@@ -17,8 +17,9 @@ def compute_table(ranges: tuple[int], greater: bool = False) -> np.array:
 
     r_val = 99 if greater else 0
     for i, range_val in enumerate(ranges):
-        for r_val in range(r_val, range_val, -1 if greater else 1):
-            table[r_val] = i
+        for table_index in range(r_val, range_val, -1 if greater else 1):
+            table[table_index] = i
+        r_val = range_val
 
     return table
 
-- 
2.43.0


From f27c93d6b7d055a421d1798efd73a6a48aa5692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 12/17] fix: compute the hidden power strength with integer
 division

---
 numba_pokemon_prngs/gen3/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/gen3/state.py b/numba_pokemon_prngs/gen3/state.py
index e00c228..f4ff347 100644
--- a/numba_pokemon_prngs/gen3/state.py
+++ b/numba_pokemon_prngs/gen3/state.py
@@ -66,7 +66,7 @@ class State:
                 max_iv = self.ivs[ORDER[index]]
 
         self.hidden_power = hidden_power_val * 15 // 63
-        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 / 63)
+        self.hidden_power_strength = 30 + (hidden_power_strength_value * 40 // 63)
         self.characteristic = (char_index * 5) + (max_iv % 5)
 
 
-- 
2.43.0


From a3ee0a3054578c5c8026b7e3b61e326fab566093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 13/17] fix: give Diamond its own game id and Platinum its own
 personal info

---
 numba_pokemon_prngs/data/personal/__init__.py | 2 ++
 numba_pokemon_prngs/enums/game.py             | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/personal/__init__.py b/numba_pokemon_prngs/data/personal/__init__.py
index ea9fb4a..b0bce37 100644
--- a/numba_pokemon_prngs/data/personal/__init__.py
+++ b/numba_pokemon_prngs/data/personal/__init__.py
@@ -89,6 +89,8 @@ def get_info_table(game: Game):
         return PERSONAL_INFO_LG
     if game & (Game.DIAMOND | Game.PEARL):
         return PERSONAL_INFO_DP
+    if game & (Game.PLATINUM):
+        return PERSONAL_INFO_PT
     if game & (Game.BLACK | Game.WHITE):
         return PERSONAL_INFO_BW
     if game & (Game.BLACK2 | Game.WHITE2):
diff --git a/numba_pokemon_prngs/enums/game.py b/numba_pokemon_prngs/enums/game.py
index a6a7025..d2eb9c7 100644
--- a/numba_pokemon_prngs/enums/game.py
+++ b/numba_pokemon_prngs/enums/game.py
@@ -14,7 +14,7 @@ class Game(IntEnum):
     LEAF_GREEN = 1 << 4
     GALES = 1 << 5
     COLOSSEUM = 1 << 6
-    DIAMOND = 1 << 9
+    DIAMOND = 1 << 7
     PEARL = 1 << 8
     PLATINUM = 1 << 9
     HEART_GOLD = 1 << 10
-- 
2.43.0


From 6196a1f9d39c79d6015355cdb91a4258c5873d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:34 +0000
Subject: [PATCH 14/17] fix: let @optional_njit without arguments return the
 function without numba

---
 numba_pokemon_prngs/compilation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/compilation.py b/numba_pokemon_prngs/compilation.py
index 80ffd70..a7384dc 100644
--- a/numba_pokemon_prngs/compilation.py
+++ b/numba_pokemon_prngs/compilation.py
@@ -118,7 +118,7 @@ else:
 
     def return_type(output_type, input_types):
         """Function that takes inputs and returns the return type based on the output type"""
-        return lambda *args: output_type
+        return (output_type, input_types)
 
     # pylint enable=unused-argument
 
@@ -167,7 +167,9 @@ def optional_njit(signature_or_function=None, locals=None, **options):
             **options,
         )
 
-    # TODO: support @optional_njit w/o arguments provided
+    # @optional_njit without arguments: decorate the function itself
+    if callable(signature_or_function):
+        return signature_or_function
 
     def wrap(func):
         return func
-- 
2.43.0


From 19d34c88ee2186efe2068ae70cad8d2e62ab72fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 15/17] fix: return the default of an absent FlatBuffer string

---
 numba_pokemon_prngs/data/fbs/flatbuffer_object.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
index 2137ceb..78cb635 100644
--- a/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
+++ b/numba_pokemon_prngs/data/fbs/flatbuffer_object.py
@@ -136,13 +136,13 @@ class FlatBufferObject:
 
     def read_string(self, position: int, default=None):
         """Read a string at position"""
-        array = default
         pos_offset = self._table.Offset(position)
         if pos_offset:
             array_offset = self._table.Vector(pos_offset)
             array_len = self._table.VectorLen(pos_offset)
             array = self._table.Bytes[array_offset : array_offset + array_len]
-        return array.decode("utf-8")
+            return array.decode("utf-8")
+        return default
 
     def read_init_string(self, default=None):
         """Read a string at the position of self._counter and increment the counter"""
-- 
2.43.0


From c43718152c46890cb76b6d4c53d6203c9a35a685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 16/17] fix: never leave a truncated encounter cache file
 behind

---
 numba_pokemon_prngs/data/encounter/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numba_pokemon_prngs/data/encounter/__init__.py b/numba_pokemon_prngs/data/encounter/__init__.py
index e3771bb..fddd485 100644
--- a/numba_pokemon_prngs/data/encounter/__init__.py
+++ b/numba_pokemon_prngs/data/encounter/__init__.py
@@ -41,11 +41,15 @@ def pickle_cached(filename: str, encode = None, decode = None):
                             return decode(data)
                         return data
             result = function(*args, **kwargs)
-            with open(pkl_filename, "wb+") as pickled_file:
+            # write to a temporary file first so that an interrupted write
+            # never leaves a truncated cache file behind
+            temp_filename = f"{pkl_filename}.{os.getpid()}.tmp"
+            with open(temp_filename, "wb+") as pickled_file:
                 if encode is not None:
                     pickled_file.write(pickle.dumps(encode(result)))
                 else:
                     pickle.dump(result, pickled_file)
+            os.replace(temp_filename, pkl_filename)
             return result
         return wrapped
     return wrapper
-- 
2.43.0


From 09cc49c5c54ae9dbfba1726088725f43b55bb62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:33 +0000
Subject: [PATCH 17/17] fix: let EncounterAreaLA.calc_slot read its slots
 without numba

---
 numba_pokemon_prngs/data/encounter/encounter_area_la.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numba_pokemon_prngs/data/encounter/encounter_area_la.py b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
index 8301b7b..bfc353b 100644
--- a/numba_pokemon_prngs/data/encounter/encounter_area_la.py
+++ b/numba_pokemon_prngs/data/encounter/encounter_area_la.py
@@ -43,9 +43,9 @@ class EncounterAreaLA:
     def calc_slot(self, rand: np.float32, time: LATime, weather: LAWeather) -> SlotLA:
         """Calculate encounter slot based on rand and time/weather"""
         probabilities = (
-            self.slots.base_probability
-            * self.slots.time_multipliers[:, time]
-            * self.slots.weather_multipliers[:, weather]
+            self.slots["base_probability"]
+            * self.slots["time_multipliers"][:, time]
+            * self.slots["weather_multipliers"][:, weather]
         )
         scaled_rand = rand * np.sum(probabilities)
         for i, probability in enumerate(probabilities):
-- 
2.43.0

