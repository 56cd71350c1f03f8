PKG = "numba_pokemon_prngs/"
SHA = [PKG + "sha1.py", PKG + "util.py", PKG + "lcrng/lcrng64.py"]
G3 = [PKG + "gen3/util.py", PKG + "gen3/state.py", PKG + "gen3/wild_generator_3.py", PKG + "gen3/encounter_area_3.py"]
PERS = [PKG + "data/personal/__init__.py", PKG + "data/personal/personal_info.py", PKG + "data/util.py"]

MORE = [
 dict(id="P12", title="Gen 5 seed hash is SHA-1 and seeds BWRNG",
  s="For every message block, hashing through precompute and hash_seed gives the first draw of a BWRNG seeded with the first eight bytes of the FIPS 180-4 SHA-1 digest of the block. Changing time and buttons and hashing again with the same precomputed value gives what a new hash of the changed block would.",
  over=["inputs", "histories"], q="every message (all 13 words), any number of changes of time and buttons after precompute, any number of repeated hashes",
  why="The repository's SHA-1 test is not collected, and samples could not settle 2^300 messages or stale schedule words left by an earlier hash.",
  files=SHA, mech=[("rounds, schedule recursions, precompute split", "section*_calc, calc_w, calc_w_simd, precompute, hash_seed")],
  x="The class invariant (which schedule words are up to date after construction and after precompute) is inferred by Houdini and proved."),
 dict(id="P13", title="Gen 5 seed message assembly",
  s="The message words come out as the games lay them out: version constants per game, language and console, Timer0 and VCount, MAC with soft reset flag, VFrame and GxStat, BCD date, BCD time with the PM flag except on a 3DS, buttons, padding. Each setter changes its own word only.",
  over=["inputs"], q="every game, language and console; every MAC, timer, date from 2000 to 2099, time of day and button word",
  why="A misplaced PM flag, an unmasked MAC or one wrong constant among 84 shows only for the input that uses it.",
  files=SHA[:2], mech=[("constructor, nazo tables and selection, setters", "sha1.py")],
  x="The version constants are compared with the published addresses for all 84 combinations."),
 dict(id="P14", title="RNGList is a sliding window of its generator",
  s="An RNGList always holds the next consecutive draws of the generator it wraps: reading returns them in order and wraps to the start of the window, advancing the state by n drops n draws and pulls n new ones, and rebuilding starts a new window where the generator stands. The generator has drawn exactly the window.",
  over=["inputs", "histories"], q="any interleaving of reads, advances of any size, state advances of any number and rebuilds, from any reachable state; sizes 1 to 65536 by powers of two for 32-bit draws, four sizes for 16- and 64-bit draws",
  why="No test exercises RNGList; the ring pointers go wrong only after particular interleavings at the wrap.",
  files=[PKG + "rng_list.py"], mech=[("ring buffer with head and pointer", "build_rnglist")],
  x="List sizes are the powers of two up to 65536 (the constructor's documented restriction); the wrapped generator is abstracted by an arbitrary draw sequence."),
 dict(id="P15", title="Bit utilities and FNV hashes",
  s="Rotation moves every bit the given number of places around (left undoes right), the endian swap reverses the bytes, the hex formatter gives the eight upper-case digits, and the FNV hashes follow their recurrence over any string. No value outside the word width leaks out.",
  over=["inputs"], q="every value and every count below the width; strings of any length and characters",
  why="There are no tests of these helpers; a slip at count 0 or at the top bit shows only there.",
  files=[PKG + "util.py", PKG + "fnv.py"], mech=[("rotate, endian swap, hex_32", "util.py"), ("fnv1_64, fnv1a_64", "fnv.py")],
  x="Rotations assume 0 <= count < width; loops over strings are proved by induction over the length."),
 dict(id="P16", title="Gender, shininess and Unown letter of a PID",
  s="A PID's gender follows the species' gender ratio (fixed for 0, 254 and 255, else female exactly when the low byte is below the ratio), its shininess is star, square or none according to the xor of its halves and the trainer value, and an Unown's letter is taken from the two low bits of each byte modulo 28.",
  over=["inputs"], q="every 32-bit PID with every gender ratio, trainer shiny value and letter",
  why="No test covers gen 3; the boundary cases (ratio 254/255, xor exactly 8, letter modulo 28) are single points among 2^40.",
  files=G3[:1], mech=[("get_gender, get_shiny, unown_check", "gen3/util.py")],
  x="PIDs as numpy scalars, Python integers and 64-bit integers, as the callers pass them."),
 dict(id="P17", title="Gen 3 derived attributes of a generated Pokemon",
  s="A generated state carries the nature, six stats (level formula, then the nature's 1.1 and 0.9 rounded down exactly), hidden power type and strength, characteristic, gender and ability that its PID, IVs, level and species data determine, and keeps its own copy of the IVs.",
  over=["inputs"], q="every PID, every six IVs, every level up to 100, every base stat and gender ratio, all 25 natures, ability slot 0 or 1",
  why="A float32 multiplication standing for 1.1 and 0.9 must truncate to the exact integer for every stat; ties of the characteristic and the column a nature touches depend on the input.",
  files=G3[1:2] + [PKG + "util.py"], mech=[("update_stats, GeneratorState constructor", "gen3/state.py"), ("compute_stat, NATURE_MODIFIERS", "util.py")],
  x="IVs below 32 and levels up to 100, stats below 4096. The float multiplication is decided bit-exactly (IEEE binary32/64)."),
 dict(id="P18", title="Gen 3 encounter slots, levels and rates",
  s="A roll of 0 to 99 falls in the slot of its documented range for each encounter type; magnet pull and static redirect half of the encounters to the slots whose species has the type; levels stay within the slot and pressure shifts them; rates and safari zones follow the encounter type and location. Each function draws exactly the documented number of values.",
  over=["inputs"], q="every seed, every area contents, every encounter type, lead, list of redirected slots and personal table contents",
  why="Nothing tests this; wrong range ends and swapped rates showed only for particular rolls (both were found and repaired here).",
  files=G3[3:4], mech=[("slot tables, calculate_hslot, calculate_hslot_lead, calculate_level, rates, safari, get_modified_slots", "gen3/encounter_area_3.py")],
  x="PokeRNGMod is used through the contract of its step (P01). Slots have min <= max <= 100 and species inside the personal table."),
 dict(id="P19", title="Gen 3 wild generator",
  s="Generating from a seed yields, for every advance of the window in order, exactly the encounter the game would produce from the state that many steps (plus the delay) after the seed: rock smash gate, slot and level, cute charm, pokeblock call, synchronize and nature, the first PID that fits nature, cute charm gender and Unown letter, and IVs at the positions of methods 1, 2 and 4, with species data, shininess and ability of that PID.",
  over=["inputs"], q="every seed, delay, window, method, encounter type, game, lead and area contents; any number of advances and of rejected PIDs",
  why="No test covers it; each lead adds draws at its own place, and an off-by-one draw after a rejected PID shows only on such seeds.",
  files=G3[2:3] + G3[3:4], mech=[("generate, cute_charm_check, constructor", "gen3/wild_generator_3.py")],
  x="Partial correctness: the PID rejection loop is not proved to end. Generator, slot, level and attribute functions are used through their contracts (P01, P02, P16, P18). Delay plus initial advance and the end of the window stay below 2^32."),
 dict(id="P20", title="Personal tables and game ids",
  s="Every game id is one distinct bit. A game, or either game of a pair, selects the personal table of that game, as a plain integer or a numpy scalar; the gen 3 selection agrees. Every field of every record is the little-endian value at its documented offset in the game's file, with nothing dropped or shifted.",
  over=["inputs"], q="every game id (as an integer and as 8-, 32- and 64-bit scalars), every record and field of all fifteen tables",
  why="A wrong mask sends one game to another game's table and a field moved by one byte shifts all fields after it; no test loads a table.",
  files=PERS + [PKG + "enums/game.py", PKG + "compilation.py"], mech=[("get_info_table, get_info_table_3, load_personal", "data/personal/__init__.py"), ("record layouts", "data/personal/personal_info.py")],
  x="The selection is proved for a symbolic id; the tables are constants of the package and are compared completely. Games without a table may raise."),
 dict(id="P21", title="FlatBuffer records decode to what the file says",
  s="Reading a slot of a table gives the value stored there, or the default when the slot is absent (scalars, enumerations, strings, nested records, vectors of records in order); reading in sequence visits the slots one after the other, skipping as many as told. Every Legends Arceus record carries in each attribute the field of its documented slot, and each lookup maps the key of every element to that element.",
  over=["inputs", "histories"], q="every well-formed buffer, table position, slot, presence of each field, vector length and element; any history of sequential reads and skips",
  why="No test reads a FlatBuffer; a slot off by one decodes to plausible numbers, and absent fields (most of the slots) only occur in some records.",
  files=[PKG + "data/fbs/flatbuffer_object.py", PKG + "data/fbs/encounter_la.py"], mech=[("read_* and read_init_*", "FlatBufferObject"), ("record types and lookups", "data/fbs/encounter_la.py")],
  x="The buffer is an uninterpreted memory; struct.unpack_from is the only trusted operation, the flatbuffers library's table functions are proved from their installed source. Nested records the code requires (alpha traits, placement parameters) are assumed present."),
 dict(id="P22", title="Legends Arceus slot choice",
  s="calc_slot returns the first slot, in table order, whose weight exceeds what is left of rand times the total weight after the earlier slots are subtracted, and the last slot when none does; a slot's weight is its base probability times its time and weather multipliers. A slot of weight zero is only ever returned when no later slot can be. A new area has empty slots.",
  over=["inputs"], q="every roll, every time and weather, any number of slots, every probability and multiplier value",
  why="No test covers it; a multiplier taken from the wrong column or a comparison that includes equality shows only for particular slots and rolls (and without numba the function did not run at all, repaired here).",
  files=[PKG + "data/encounter/encounter_area_la.py"], mech=[("calc_slot, constructor", "data/encounter/encounter_area_la.py")],
  x="An area has at least one slot. The value of numpy's sum over the weights is an arbitrary constant (its order of addition is numpy's own); float32 to float64 products are compared as the operations the code performs."),
 dict(id="P24", title="The encounter cache survives interrupted writes",
  s="Whatever earlier processes did, and wherever one of them was killed while writing, a cached loader returns exactly what the loader itself computes for its argument; a cache file that exists is empty or whole, each argument of each loader has its own file, and a whole file is used instead of loading again.",
  over=["inputs", "crash_points", "histories"], q="every argument and result value, with and without encoding, every point between and inside the file operations where the process can be killed, every history of such processes (by the invariant on the cache file)",
  why="A cache left truncated by a killed process breaks every later import of the package; no test interrupts a write.",
  files=[PKG + "data/encounter/__init__.py"], mech=[("pickle_cached", "data/encounter/__init__.py"), ("the decorated loaders", "load_encounter_3, load_encounter_tables_la")],
  x="The file system is ghost state with contracts on the library's file operations; kills of the process only (not power loss), one process at a time; pickle restores what it stored."),
 dict(id="P25", title="Encounter tables hold what their data files say",
  s="Every gen 3 area of every game carries, under its readable map name, the rates, level ranges and species its entry in the game's data file lists, in slot order and by rod, with the Unown letters of the Tanoby chambers and dummied-out entries left empty. Every Legends Arceus table carries its slots with overridden or area levels, the alpha boost, and each time and weather multiplier taken from the slot, else from the species, else 1.",
  over=["inputs"], q="every area and slot of the five gen 3 games, every table and slot of the five Legends Arceus areas, as the package ships them",
  why="No test loads a table; one shifted rod slot, a wrong map or a multiplier baked from the wrong column makes plausible encounters that never exist.",
  files=[PKG + "data/encounter/__init__.py", PKG + "data/encounter/encounter_area_3.py", PKG + "data/encounter/encounter_area_la.py", PKG + "data/fbs/encounter_la.py", PKG + "enums/la_area.py"],
  mech=[("load_encounter_3, clean_map_string, Unown letters", "data/encounter/__init__.py"), ("load_encounter_tables_la", "data/encounter/__init__.py")],
  x="The loaders' inputs are ten fixed arguments and the package's files, so each postcondition is a closed term and is decided by complete ground evaluation against an independent decoder of the same files (no solver involved)."),
]
