"""symx: solver-based (z3) symbolic execution of the real neps source."""
