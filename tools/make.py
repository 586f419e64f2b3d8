#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py"""
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
from props import PROPS, NOT_APPLICABLE, NOTES  # noqa

TRUST = ("Generated-input search, so it shows presence, never absence, of a "
         "violation outside the explored cases; trusts the harness's reference "
         "model, Hypothesis, numpy and cothread. ")

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        files = p["files"]
        line = dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]),
            why_tests_cant=p["why"],
            anchors=dict(
                files=files,
                mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                state=[dict(name=n, meaning=m, where=w)
                       for n, m, w in p.get("state", [])],
                observe_at=p["observe"], hook_needed=None))
        assert len(p["title"]) <= 80, p["id"]
        for fn in files:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        f.write(json.dumps(line) + "\n")

checks = []
na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
for p in PROPS:
    if p["id"] in NOT_APPLICABLE:
        continue
    assert os.path.exists(os.path.join(root, "checks", p["id"].lower() + ".py")), p["id"]
    checks.append(dict(
        property=p["id"],
        quick_cmd="./check.sh %s" % p["id"],
        thorough_cmd="./check.sh %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=p["technique"], level="exploration",
        level_note=TRUST + p["note"]))
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1, setup_cmd="/opt/venv/bin/python pbt/bootstrap.py",
        hooks=dict(guard="none", enable="no hooks: the checks import malcolm "
                   "from /repo's working tree as it is", source_commits=[]),
        checks=checks, not_applicable=na, notes=NOTES), f, indent=1)
    f.write("\n")
