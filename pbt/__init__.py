"""Property-based-testing framework for the pymalcolm checks.

A check is a set of *subs*.  A sub is a Hypothesis strategy that generates plain
JSON data (the whole case: inputs, operation history, schedule, faults) and a
function `run(case, t)` that executes that case against the real code in /repo
and raises `Violation` when an oracle disagrees.  Because a case is plain data, a
shrunk failure is written as a JSON replay file and replayed without Hypothesis.
"""
from .core import Check, Violation, require, fmt  # noqa: F401
