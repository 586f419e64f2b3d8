"""prof.py PROP SUB N: profile N generated cases of a check in this process"""
import cProfile, os, pstats, sys, time, warnings
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, "/verif")
from pbt import bootstrap
bootstrap.ensure()
warnings.simplefilter("ignore")
import random
from hypothesis import strategies as st
from pbt.core import load_check, run_one
import logging; logging.disable(logging.CRITICAL)
check = load_check(sys.argv[1])
sub = check.subs[sys.argv[2]] if isinstance(check.subs, dict) else [
    s for s in check.subs if s.name == sys.argv[2]][0]
strat = sub.strategy() if callable(sub.strategy) else sub.strategy
from hypothesis import given, settings, HealthCheck, Phase, seed
cases = []
@seed(3)
@settings(max_examples=int(sys.argv[3]), database=None, phases=[Phase.generate],
          suppress_health_check=list(HealthCheck))
@given(strat)
def g(c):
    cases.append(c)
t0 = time.time(); g(); print("generate", time.time() - t0)
pr = cProfile.Profile()
t0 = time.time()
pr.enable()
for c in cases:
    run_one(sub, c)
pr.disable()
print("run", time.time() - t0)
pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
