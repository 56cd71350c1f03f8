BASE = [
    "the verification-condition generator npv/ (its reading of Python's AST semantics and of numpy 1.26 scalar and array rules)",
    "z3 4.x python bindings and cvc5 (soundness of unsat answers)",
    "CPython 3.12 and numpy 1.26.4 execute the code with the modelled semantics (cross-checked on concrete inputs in every run)",
    "numba 0.59.1 and LLVM compile the same source faithfully (the numba mode is only cross-checked on concrete inputs unless the unit name says numba)",
]
