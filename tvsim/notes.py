"""Texts for the evidence files."""

LEVELS = {f"C{n:02d}": "exploration" for n in (*range(1, 17), 24, 25)}

ASSUMPTIONS = [
    "IPOPT is replaced: only what the code does with a solver answer is decided, not whether IPOPT "
    "finds a minimum",
    "external temperatures are non-negative and callbacks return two numbers",
    "a solver answer that is cut off within its last number is accepted by Pyomo itself and is not "
    "injected",
    "objectives are compared at sampled trial points, up to an additive constant and rounding",
    "threads switch only at solver calls and load evaluations",
]
