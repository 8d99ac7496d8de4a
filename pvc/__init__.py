"""pvc: a small deductive verifier for the Python code in /repo.

The real source is instrumented mechanically on import (instr.py), executed on
symbolic values (vals.py, seqs.py), every branch explored (core.py), unbounded
loops handled by a loop rule over a generic iteration (loops.py) and every
obligation stated by a contract discharged with z3.
"""
