"""which units and concrete cases decide which property"""
# a property that uses a function through its contract also runs the unit proving that contract
DRAWS = [("lcrng", "step", "PokeRNGMod."), ("lcrng", "rand", "PokeRNGMod.")]
PROPS = {
    "P01": {"units": [("lcrng", "step")], "cases": ["lcg_init", "lcg_next"]},
    "P02": {"units": [("lcrng", "jump"), ("lcrng", "step")], "cases": ["lcg_jump", "lcg_const_jump", "lcg_advance"]},
    "P03": {"units": [("lcrng", "rand"), ("lcrng", "step")], "cases": ["lcg_rand", "lcg_const_rand"]},
    "P04": {"units": [("mt", "mt")], "cases": ["mt_init", "mt_shuffle", "mt_next"], "only": {"cls": "MersenneTwister"}},
    "P05": {"units": [("mt", "sfmt")], "cases": ["mt_init", "mt_shuffle", "mt_next"], "only": {"cls": "SIMDFastMersenneTwister"}},
    "P06": {"units": [("mt", "tinymt")], "cases": ["mt_init", "tiny_next"], "only": {"cls": "TinyMersenneTwister"}},
    "P07": {"units": [("mt", "advance")], "cases": ["mt_advance", "tiny_advance"]},
    "P08": {"units": [("mt", "rand")], "cases": ["mt_rand"]},
}
PROPS.update({
    "P09": {"units": [("xorshift", "step")], "cases": ["xs_init", "xs_next", "xs_splitmix"]},
    "P10": {"units": [("xorshift", "rand")], "cases": ["xs_advance", "xs_rand", "xs_mask"]},
})
PROPS.update({
    "P12": {"units": [("sha", "hash")], "cases": ["sha_seed"]},
    "P13": {"units": [("sha", "message")], "cases": ["sha_msg", "sha_nazo"]},
    "P14": {"units": [("rnglist", "list")], "cases": ["rnglist"]},
    "P15": {"units": [("util", "util")], "cases": ["util_rotate", "util_endian", "util_hex", "fnv"]},
})
PROPS.update({
    "P16": {"units": [("gen3", "pid")], "cases": ["g3_pid"]},
    "P17": {"units": [("gen3", "stats"), ("gen3", "pid")], "cases": ["g3_stat", "g3_state"]},
    "P18": {"units": [("gen3", "slots"), *DRAWS], "cases": ["g3_tables", "g3_hslot", "g3_hslot_lead", "g3_level", "g3_rate", "g3_safari", "g3_modified"]},
})
PROPS.update({
    "P19": {"units": [("wild3", "wild"), ("gen3", "pid"), ("gen3", "stats"), ("gen3", "slots"), *DRAWS, ("lcrng", "jump", "PokeRNGMod."), ("personal", "x", "get_info_table")], "cases": ["g3_wild"]},
})
PROPS.update({
    "P20": {"units": [("personal", "x")], "cases": ["personal"]},
})
PROPS.update({
    "P21": {"units": [("flat", "x")], "cases": ["fb_record", "fb_read"], "n": 60},
})
PROPS.update({
    "P24": {"units": [("cache", "x")], "cases": ["cache", "cache_round"], "n": 3},
})
PROPS.update({
    "P22": {"units": [("la", "x")], "cases": ["la_slot"], "n": 20},
})
PROPS.update({
    "P25": {"units": [("enc", "x")], "cases": ["enc"], "n": 60},
})
