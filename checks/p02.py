from pbt import Check
from pbt.device import histories, run_history

check = Check(
    "P02", rule="a case is a history of requests sent to a generated device block "
    "(some writes block, some fail, fields turn read-only); non-trivial = it "
    "has a request that must be refused, blocks, or calls a method",
    assumptions=["cooperative scheduling (cothread)"])


@check.sub("history", lambda: histories(puts=2,posts=2,gets=3,weird=3,subs=2,toggles=1), quick=2500,
           shards=4, budget=40)
def run(case, t):
    run_history(case, t, "answer".split(":"))
