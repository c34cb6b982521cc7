"""pyvc - a small contract-based deductive verifier for (a subset of) Python.

Reads the *current* source of /repo/DHParser with `ast`, executes every path of
a function symbolically, cuts loops with invariants and discharges the resulting
verification conditions with z3.  See /verif/DESIGN.md for the supported subset,
the encoding and the trusted base.
"""
