"""Try mutations on a scratch copy: mut.py PROP MUTFILE; MUTFILE has a list M of
(file, old, new) tuples. Says which ones the quick check catches."""
import os
import shutil
import subprocess
import sys
import tempfile

prop, mutfile = sys.argv[1:3]
only = [int(x) for x in sys.argv[3:]]
ns = {}
exec(open(mutfile).read(), ns)
top = tempfile.mkdtemp(prefix="mut")
copy = top + "/repo"
subprocess.check_call(["cp", "-a", os.environ.get("MUT_BASE", "/repo"), copy])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
try:
    for i, (f, old, new) in enumerate(ns["M"]):
        if only and i not in only:
            continue
        p = copy + "/malcolm/" + f
        s = open(p).read()
        if s.count(old) < 1:
            print(i, "NO MATCH", f, old)
            continue
        open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=copy)
        r = subprocess.run([here + "/check.sh", prop], env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True)
        open(p, "w").write(s)
        v = [x for x in r.stdout.splitlines() if x.startswith("sub ")]
        print(i, "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode,
              "|", old.strip().split("\n")[0][:60], "->",
              new.strip().split("\n")[0][:60], "|", v[:1], flush=True)
        for x in os.listdir(here + "/replays"):
            if x.startswith(prop + "-"):
                os.remove(here + "/replays/" + x)
finally:
    shutil.rmtree(top)
