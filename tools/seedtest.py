#!/opt/venv/bin/python
"""seedtest.py ID [--no-tests] [--no-check]: confirm a planted bug in a scratch copy of /repo.

Applies seeded/ID/patch.diff in the copy, runs the repository's stable tests
there, the demonstration on /repo and on the copy, and the property's check on
the copy."""
import concurrent.futures
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           MPLBACKEND="Agg", LANG="C.UTF-8", GIT_AUTHOR_NAME="t",
           GIT_AUTHOR_EMAIL="t@localhost", GIT_COMMITTER_NAME="t",
           GIT_COMMITTER_EMAIL="t@localhost")


def run_tests(copy, only=None):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    files = sorted(glob.glob(copy + "/tests/**/test_*.py", recursive=True))
    files = [f for f in files if "test_pva_server" not in f
             and "test_system_pva" not in f]
    serial = [f for f in files if "/test_web/" in f or "processcontroller" in f
              or "websocket" in f or "system" in f]
    par = [f for f in files if f not in serial]
    passed, ran = set(), set()

    def one(f):
        d = tempfile.mkdtemp(dir=copy)
        x = d + "/r.xml"
        rel = os.path.relpath(f, copy)
        subprocess.run(
            ["timeout", "-k", "10", "200", "/opt/venv/bin/python", "-m",
             "pytest", "-q", "-p", "no:cacheprovider", "-o", "addopts=",
             "--timeout=60", "-o", "junit_family=xunit2", "--junitxml=" + x,
             rel], cwd=copy, env=dict(ENV, TMPDIR=d, PYTHONPATH=copy),
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
            stdin=subprocess.DEVNULL)
        ok = set()
        try:
            for tc in ET.parse(x).getroot().iter("testcase"):
                name = "%s::%s" % (tc.get("classname"), tc.get("name"))
                if not any(c.tag in ("failure", "error") for c in tc):
                    ok.add(name)
        except Exception:
            pass
        return ok

    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for ok in ex.map(one, par):
            passed |= ok
    for f in serial:
        passed |= one(f)
    miss = stable - passed
    # timing: try the files of what failed once more, one after another
    again = [f for f in files if any(
        os.path.relpath(f, copy)[:-3].replace("/", ".") in m for m in miss)]
    for f in again:
        passed |= one(f)
    return sorted(stable - passed)


def main():
    ident = sys.argv[1]
    d = os.path.join(ROOT, "seeded", ident)
    prop = json.load(open(d + "/meta.json"))["property"]
    copy = tempfile.mkdtemp(prefix="sc_", dir="/tmp")
    try:
        shutil.rmtree(copy)
        subprocess.check_call(["cp", "-a", "/repo", copy])
        subprocess.check_call(["git", "-C", copy, "checkout", "-q", "--", "."])

        def demo(where):
            return subprocess.run(
                ["timeout", "300", "bash", d + "/demo.sh"], cwd=where,
                env=dict(ENV), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True)

        r = demo(copy)
        print(ident, "demo unchanged:", r.returncode, flush=True)
        if r.returncode:
            print(r.stdout[-1500:])
        subprocess.check_call(["git", "-C", copy, "apply", d + "/patch.diff"])
        r = demo(copy)
        print(ident, "demo patched:", r.returncode,
              r.stdout.strip().splitlines()[-1:], flush=True)
        if "--no-check" not in sys.argv:
            r = subprocess.run([ROOT + "/check.sh", prop],
                               env=dict(os.environ, VERIF_REPO=copy,
                                        VERIF_SCRATCH_EVIDENCE="1"),
                               stdout=subprocess.PIPE, text=True)
            print(ident, prop, "check:", r.returncode,
                  "CAUGHT" if r.returncode == 1 else "MISSED", flush=True)
            print("   ", "\n    ".join(
                line[:300] for line in r.stdout.splitlines()[:6]))
        if "--no-tests" not in sys.argv:
            miss = run_tests(copy)
            print(ident, "stable tests failing:", miss, flush=True)
    finally:
        shutil.rmtree(copy, ignore_errors=True)


main()
