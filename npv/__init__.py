"""npv: contract-based deductive verification of numba_pokemon_prngs (see /verif/DESIGN.md)"""
