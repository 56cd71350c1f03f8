#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table: python tools/meta.py"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from npv.props import PROPS  # noqa

PKG = "numba_pokemon_prngs/"
LCG = [PKG + "lcrng/lcrng32.py", PKG + "lcrng/lcrng64.py"]
MT = [PKG + "mersenne_twister/mt.py", PKG + "mersenne_twister/sfmt.py", PKG + "mersenne_twister/tinymt.py"]
XS = [PKG + "xorshift/xorshift128.py", PKG + "xorshift/xoroshiro128plus.py"]
G3 = [PKG + "gen3/util.py", PKG + "gen3/state.py", PKG + "gen3/wild_generator_3.py", PKG + "gen3/encounter_area_3.py"]

T = "contract-based deductive verification: VCs generated from the real Python source each run, discharged by z3/cvc5"
NOTE = ("Every obligation generated from the functions' current source is discharged for all inputs and all iterations in the package's "
        "Python/numpy execution mode. Trusted: the VC generator's reading of Python and numpy 1.26, and the solvers.{x} "
        "A bounded concrete cross-check of both modes (numpy and numba) against an independent executable reference runs beside it and is never counted as proved.")

P = [
 dict(id="P01", title="LCRNG step and its inverse",
  s="Every linear congruential generator of the package (32- and 64-bit) moves its seed by exactly seed*mult+add modulo its width and returns the documented part of the new seed. The reversed generator of each undoes it exactly: stepping one way and then the other restores the seed, from every seed.",
  over=["inputs", "histories"], q="every seed of the full 32/64-bit range, every generator, both directions, any number of steps",
  why="Tests step each generator a few times from one or two seeds; a wrong constant bit, a width slip at 2^31/2^32 or a non-inverse reverse pair shows only on other seeds.",
  files=LCG, mech=[("next / seed update / next_u16 / next_u32", "lcrng32.py, lcrng64.py"), ("reverse classes", "lcrng_init decorators")]),
 dict(id="P02", title="LCRNG jump equals that many steps",
  s="Jumping or advancing a linear congruential generator by n leaves the same seed as n single steps, for every n, also when the distance is fixed ahead of time. Distances act modulo the period, so jumping by n and back by n restores the seed.",
  over=["inputs", "histories"], q="every seed and every distance of the full range, for jump, constant-distance jump and advance of every generator",
  why="Tests use a handful of distances; jump tables have one entry per bit of the distance, most of which no test distance sets.",
  files=LCG, mech=[("jump table construction and use", "jump, const_jump, advance")]),
 dict(id="P03", title="LCRNG bounded random numbers",
  s="A bounded draw from a linear congruential generator returns the value its documented distribution assigns to exactly one step (modulo, multiply-high or reciprocal division), always below the requested maximum where that distribution promises it. The variant with the bound fixed ahead of time gives the same result.",
  over=["inputs"], q="every seed, every maximum of the documented range, every distribution",
  why="Tests sample a few maxima; overflow in the product and division corner cases (maximum 1, huge maxima) lie outside the sample.",
  files=LCG, mech=[("distributions", "next_rand / const_rand of both files")]),
 dict(id="P04", title="MT19937 conforms to its reference",
  s="Seeding, the block update and tempering of the Mersenne Twister produce the sequence of the reference MT19937 for every seed and from every state reached, across block boundaries. Seeding an already used generator again gives the same sequence as a new one.",
  over=["inputs", "histories"], q="every 32-bit seed, every internal state and index, any number of outputs",
  why="Tests compare a few outputs for a few seeds; the block update touches 624 words with wraparound cases tests reach for those seeds only.",
  files=MT[:1], mech=[("init loop, shuffle, tempering, index", "mt.py")]),
 dict(id="P05", title="SFMT conforms to its reference",
  s="Seeding, period certification, the 128-bit block recursion and the 64-bit output of the SIMD-oriented Mersenne Twister produce the reference SFMT-19937 sequence for every seed and from every state, across block boundaries. Seeding again gives the same sequence as a new generator.",
  over=["inputs", "histories"], q="every 32-bit seed, every internal state and index, any number of outputs",
  why="Tests compare a few outputs; the certification branch and lane carries depend on the seed and are not reached by the samples.",
  files=MT[1:2], mech=[("init, certification, shuffle", "sfmt.py")]),
 dict(id="P06", title="TinyMT conforms to its reference",
  s="Seeding, state transition and tempering of the tiny Mersenne Twister produce the reference TinyMT32 sequence for every seed and every state, with every output within 32 bits. Seeding again gives the same sequence as a new generator.",
  over=["inputs", "histories"], q="every 32-bit seed, every 127-bit state, any number of outputs",
  why="Tests compare a few outputs for fixed seeds; a carry out of 32 bits in the tempering sum depends on the state.",
  files=MT[2:], mech=[("init, next_state, temper", "tinymt.py")]),
 dict(id="P07", title="Mersenne-family advance equals that many draws",
  s="Advancing a Mersenne-family generator by n leaves it producing the same outputs as n discarded draws, for every n and every position inside a block. The position never leaves the block and no distance is truncated.",
  over=["inputs", "histories"], q="every distance of the full 32-bit range, every state and index, all three generators",
  why="Tests advance by a few distances from fresh generators; block-boundary positions and distances near 2^32 are not sampled.",
  files=MT, mech=[("advance", "mt.py, sfmt.py, tinymt.py")]),
 dict(id="P08", title="Mersenne-family bounded random numbers",
  s="A bounded draw from a Mersenne-family generator consumes exactly one output and returns the value its documented distribution assigns to it, in range. Other state is left as that one output leaves it.",
  over=["inputs", "histories"], q="every output word, every maximum of the documented range, every distribution",
  why="Tests sample a few maxima and outputs.",
  files=MT, mech=[("next_rand and variants", "mt.py, sfmt.py, tinymt.py")]),
 dict(id="P09", title="Xorshift-family step and exact undo",
  s="Construction, seed mixing and stepping of the xorshift-family generators follow their published recurrences for every seed and state. Stepping back exactly undoes a step and yields the same output, in either order, from every state.",
  over=["inputs", "histories"], q="every seed, every 128-bit state, any interleaving of next and previous",
  why="Tests run a short sequence forth and back from one state; the inverse is a linear map over 128 bits that only an argument over all states settles.",
  files=XS, mech=[("next / previous / re_init / splitmix", "xorshift128.py, xoroshiro128plus.py")]),
 dict(id="P10", title="Xorshift-family advance and bounded draws",
  s="Advancing a xorshift-family generator by n equals n steps for every n. A bounded draw returns the documented distribution of its draw (for the rejecting variant: the first masked draw below the bound, consuming exactly the draws up to it), always in range.",
  over=["inputs", "histories"], q="every state, every distance, every maximum, every number of rejections",
  why="Tests sample five draws for a few maxima; rejection runs of any length and mask edges at powers of two are not settled by samples.",
  files=XS, mech=[("advance, next_rand, bit_mask, next_randrange", "xorshift128.py, xoroshiro128plus.py")]),
]
try:
    from meta_more import MORE  # noqa
    P += MORE
except ImportError:
    pass


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["s"], "quantifier": {"over": p["over"], "text": p["q"]},
                                "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    py = "/opt/venv/bin/python check.py"
    m = {"version": 1, "setup_cmd": f"{py} --selftest", "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in PROPS and not p.get("na"):
            m["checks"].append({"property": p["id"], "quick_cmd": f"{py} {p['id']} --tier quick", "thorough_cmd": f"{py} {p['id']} --tier thorough",
                                "technique": T, "level": "proof", "level_note": NOTE.replace("{x}", (" " + p["x"]) if p.get("x") else "")})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": p.get("na", "the check for this property is not built yet")})
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
