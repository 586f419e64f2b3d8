#!/usr/bin/env python3
"""mkseed.py: reads a JSON-ish python file defining SEEDS and writes seeded/<id>/"""
import json, os, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = runpy.run_path(sys.argv[1])
only = sys.argv[2:]
HEAD = """import os, sys
sys.path.insert(0, os.getcwd())
"""
for s in ns["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    copy = tempfile.mkdtemp(prefix="mk_", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (copy, copy), shell=True)
    for fn, old, new in s["edits"]:
        p = os.path.join(copy, fn)
        text = open(p).read()
        assert text.count(old) == 1, (s["id"], fn, text.count(old))
        open(p, "w").write(text.replace(old, new))
    diff = subprocess.check_output(["git", "-C", copy, "diff"], text=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(copy)
    open(d + "/demo.py", "w").write(HEAD + s["demo"].lstrip("\n"))
    open(d + "/demo.sh", "w").write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=\"$PWD\"\nexec timeout 250 /opt/venv/bin/python \"$(cd \"$(dirname \"$0\")\" && pwd)/demo.py\"\n")
    os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
