"""symx: a small symbolic-execution engine for the Python code in /repo.

The implementation's source is read from /repo on every run, instrumented at
AST level, and executed by CPython on symbolic values (z3 terms); every branch
on a symbolic condition is explored on all feasible sides (depth first,
re-execution), and assertions are decided by the SMT solver under the path
condition.
"""
