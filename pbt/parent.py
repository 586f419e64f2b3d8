"""Parent process: runs the subs of a check in child processes, watches for hangs
and crashes, confirms failures by replaying them in a fresh process, and writes
the evidence."""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NPROC = 8


def child_env(scratch):
    env = dict(os.environ)
    env.update(
        HOME=scratch, TMPDIR=scratch, PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", LANG="C.UTF-8",
        PYTHONPATH=os.pathsep.join(
            [ROOT, os.environ.get("VERIF_REPO", "/repo")]), EPICS_CA_ADDR_LIST="127.0.0.1",
        EPICS_CA_AUTO_ADDR_LIST="NO", OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
    )
    return env


class Job:
    def __init__(self, prop, sub, shard, seed, n, budget, shrink, scratch):
        self.prop, self.sub, self.shard, self.seed = prop, sub, shard, seed
        self.n, self.budget, self.shrink = n, budget, shrink
        self.dir = tempfile.mkdtemp(prefix="%s-%d-" % (sub.name, shard),
                                    dir=scratch)
        self.out = os.path.join(self.dir, "out.json")
        self.journal = os.path.join(self.dir, "journal")
        self.proc = None
        self.last = None
        self.last_change = None
        self.attempt = 0

    def start(self):
        work = os.path.join(self.dir, "work")
        os.makedirs(work, exist_ok=True)
        if os.path.exists(self.out):
            os.unlink(self.out)
        self.started = self.last_change = time.time()
        self.log = open(os.path.join(self.dir, "log"), "ab")
        self.proc = subprocess.Popen(
            [PY, "-m", "pbt.child", self.prop, self.sub.name,
             "--seed", str(self.seed + 7919 * self.attempt), "--n", str(self.n),
             "--budget", str(self.budget), "--shrink-budget", str(self.shrink),
             "--out", self.out, "--journal", self.journal],
            cwd=work, env=child_env(work), stdin=subprocess.DEVNULL,
            stdout=self.log, stderr=self.log, start_new_session=True)

    def read_journal(self):
        try:
            with open(self.journal, "rb") as f:
                head = f.readline().split()
                n = int(head[1])
                return int(head[0]), f.read(n).decode()
        except Exception:
            return None, None

    def poll(self):
        """None while running, else 'done', 'hang' or 'crash'"""
        rc = self.proc.poll()
        if rc is not None:
            self.kill()
            return "done" if os.path.exists(self.out) else "crash"
        seq, _ = self.read_journal()
        now = time.time()
        if seq != self.last:
            self.last, self.last_change = seq, now
        elif now - self.last_change > self.sub.hang + (60 if seq is None else 0):
            if os.path.exists(self.out):
                self.kill()
                return "done"
            self.kill()
            return "hang"
        return None

    def kill(self):
        try:
            os.killpg(self.proc.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        self.proc.wait()
        self.log.close()

    def tail(self):
        try:
            with open(os.path.join(self.dir, "log"), "rb") as f:
                return f.read()[-3000:].decode(errors="replace")
        except OSError:
            return ""


def replay(prop, sub_name, path, hang, scratch):
    """Run one case in a fresh process: (failure dict or None)"""
    d = tempfile.mkdtemp(prefix="replay-", dir=scratch)
    out = os.path.join(d, "out.json")
    with open(os.path.join(d, "log"), "wb") as log:
        p = subprocess.Popen(
            [PY, "-m", "pbt.child", prop, sub_name, "--replay", path,
             "--out", out],
            cwd=d, env=child_env(d), stdin=subprocess.DEVNULL, stdout=log,
            stderr=log, start_new_session=True)
        try:
            p.wait(timeout=hang + 20)
            timed_out = False
        except subprocess.TimeoutExpired:
            timed_out = True
        try:
            os.killpg(p.pid, 9)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()
    if os.path.exists(out):
        with open(out) as f:
            return json.load(f).get("failure") or None
    if timed_out:
        return dict(kind="hang", message="the case did not terminate within "
                    "%d s" % (hang + 20))
    return dict(kind="crash", message="the process died with status %s while "
                "running the case" % p.returncode)


def write_replay(prop, sub_name, case, message):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(dict(property=prop, sub=sub_name, case=case,
                           message=message), indent=1)
    h = hashlib.blake2b(json.dumps([sub_name, case], sort_keys=True).encode(),
                        digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s-%s.json" % (prop, sub_name, h))
    with open(path, "w") as f:
        f.write(text)
    return path


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.jsonl")
    ret = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    e = json.loads(line)
                    if e.get("property") == prop and e.get("status") == "known":
                        ret.append(e)
    return ret


def describe(prop):
    """Ask a child for the sub list (the parent never imports the code)"""
    code = ("import json,sys,logging;logging.disable(50);"
            "from pbt import bootstrap;bootstrap.ensure();"
            "from pbt.core import load_check;c=load_check(sys.argv[1]);"
            "print('@@'+json.dumps(dict(level=c.level,rule=c.rule,"
            "assumptions=c.assumptions,subs=[[s.name,s.quick,s.thorough,s.hang,"
            "s.shards,s.budget] for s in c.subs.values()])));"
            "sys.stdout.flush();import os;os._exit(0)")
    d = tempfile.mkdtemp(prefix="describe-")
    try:
        p = subprocess.run([PY, "-c", code, prop], cwd=d, env=child_env(d),
                           stdin=subprocess.DEVNULL, capture_output=True,
                           text=True, timeout=180)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for line in p.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    sys.stderr.write(p.stdout + p.stderr)
    print("ERROR: cannot load check", prop)
    sys.exit(2)


class SubInfo:
    def __init__(self, row):
        (self.name, self.quick, self.thorough, self.hang, self.shards,
         self.budget) = row


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--only", default=None, help="comma separated subs")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = a.seed if a.seed is not None else int(
        os.environ.get("VERIF_SEED") or "1")
    sys.path.insert(0, ROOT)
    from pbt import bootstrap
    bootstrap.ensure()
    info = describe(prop)
    subs = [SubInfo(r) for r in info["subs"]]
    scratch = tempfile.mkdtemp(prefix="pbt-%s-" % prop)
    try:
        if a.replay:
            with open(a.replay) as f:
                r = json.load(f)
            hang = [s.hang for s in subs if s.name == r["sub"]][0]
            failure = replay(prop, r["sub"], os.path.abspath(a.replay), hang,
                             scratch)
            if failure:
                print(failure["message"])
                print(failure.get("traceback", ""))
                print("VIOLATION property=%s replay=%s" % (prop, a.replay))
                sys.exit(1)
            print("the replayed case passes")
            sys.exit(0)
        sys.exit(run_check(a, prop, tier, seed, info, subs, scratch))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(a, prop, tier, seed, info, subs, scratch):
    start = time.time()
    if a.only:
        subs = [s for s in subs if s.name in a.only.split(",")]
    pending, running, finished = [], [], []
    total_shards = 0
    for i, s in enumerate(subs):
        if tier == "quick":
            shards, n, budget, shrink = s.shards, s.quick, s.budget, 40
        else:
            shards, n = max(2 * s.shards, 4), s.thorough
            budget, shrink = s.budget * 12, 240
        n = max(1, int(n * a.scale))
        for k in range(shards):
            total_shards += 1
            h = hashlib.blake2b(("%s/%s/%d/%d" % (prop, s.name, k, seed)
                                 ).encode(), digest_size=6).digest()
            pending.append(Job(prop, s, k, int.from_bytes(h, "big"), n, budget,
                               shrink, scratch))
    results, candidates, notes, errors = [], [], [], []
    # hard limit, so that the check gives an answer within its time slot
    limit = start + (780 if tier == "quick" else 6 * 3600)
    while pending or running:
        while pending and len(running) < NPROC:
            j = pending.pop(0)
            j.start()
            running.append(j)
        time.sleep(0.1)
        for j in list(running):
            status = j.poll()
            if status is None and time.time() > limit:
                j.kill()
                status = "limit"
            if status is None:
                continue
            running.remove(j)
            if status == "done":
                with open(j.out) as f:
                    r = json.load(f)
                results.append((j, r))
                if r.get("error"):
                    errors.append((j, r["error"]))
                if r.get("failure"):
                    candidates.append((j, [r["failure"],
                                           r.get("first_failure")]))
                    # one confirmed failure is enough: drop what is waiting
                    if r["failure"]["kind"] == "violation":
                        pending = []
            elif status in ("hang", "crash"):
                _, text = j.read_journal()
                what = ("no progress for %d s" % j.sub.hang
                        if status == "hang" else
                        "process died: %s" % j.tail()[-800:])
                if text is None:
                    if j.attempt < 2:
                        j.attempt += 1
                        pending.append(j)
                    else:
                        errors.append((j, what + j.tail()))
                else:
                    f = dict(kind=status, message=what, case=json.loads(text))
                    candidates.append((j, [f]))
                    if status == "crash" and j.attempt < 2:
                        j.attempt += 1
                        pending.append(j)
            else:
                notes.append("%s stopped at the time limit" % j.sub.name)
    # Confirm candidate failures in fresh processes
    violations = []
    candidates.sort(key=lambda c: c[1][0]["kind"] != "violation")
    for j, failures in candidates:
        confirmed = False
        if violations and (failures[0]["kind"] != "violation" or
                           time.time() > start + (300 if tier == "quick" else 9999)):
            # One is enough, the others take long to confirm
            continue
        for f in failures:
            if f is None or confirmed:
                continue
            path = write_replay(prop, j.sub.name, f["case"], f["message"])
            for _ in range(2):
                if tier == "quick" and time.time() > start + 700:
                    break
                r = replay(prop, j.sub.name, path, j.sub.hang, scratch)
                if r is not None:
                    if r["kind"] == "harness":
                        errors.append((j, r["message"] + "\n"
                                       + r.get("traceback", "")))
                        break
                    violations.append((j.sub.name, path, r, f["case"]))
                    confirmed = True
                    break
            if not confirmed:
                os.unlink(path)
        if not confirmed and not errors:
            notes.append("a %s in %s did not reproduce in a fresh process: %s"
                         % (failures[0]["kind"], j.sub.name,
                            failures[0]["message"][:300]))
    for e in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    # Evidence
    evaluations, labels, samples, distinct, per_sub = 0, {}, [], set(), {}
    for j, r in results:
        evaluations += r["evaluations"]
        ps = per_sub.setdefault(j.sub.name, dict(evaluations=0, labels={},
                                                 nontrivial=set()))
        ps["evaluations"] += r["evaluations"]
        for k, v in r["labels"].items():
            ps["labels"][k] = ps["labels"].get(k, 0) + v
        for h in r["nontrivial"]:
            distinct.add(j.sub.name + h)
            ps["nontrivial"].add(h)
        samples += r["samples"][:4 if j.shard == 0 else 0]
    per_sub = {k: dict(evaluations=v["evaluations"],
                       distinct_nontrivial=len(v["nontrivial"]),
                       labels=dict(sorted(v["labels"].items())))
               for k, v in per_sub.items()}
    ev = dict(property=prop, tier=tier, seed=seed, level=info["level"],
              coverage=dict(evaluations=evaluations,
                            distinct_nontrivial=len(distinct),
                            rule=info["rule"], samples=samples,
                            per_sub=per_sub),
              assumptions=info["assumptions"] + notes,
              wall_s=round(time.time() - start, 2),
              violations=len(violations))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", "%s.json" % prop)
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for k, v in per_sub.items():
        print("%s/%s: %d cases, %d distinct non-trivial %s" % (
            prop, k, v["evaluations"], v["distinct_nontrivial"],
            v["labels"]))
    for n in notes:
        print("note:", n)
    print("%s: %d cases, %.1f s" % (prop, evaluations, time.time() - start))
    if violations:
        for i, (name, path, r, case) in enumerate(violations):
            print("sub %s: %s" % (name, r["message"][:2000 if i == 0 else 300]))
            if i == 0:
                print(json.dumps(case)[:2000])
                if r.get("traceback"):
                    print(r["traceback"][-2500:])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for j, e in errors[:3]:
            print("ERROR in the harness of %s: %s" % (j.sub.name, e))
        return 2
    if evaluations == 0:
        print("ERROR: nothing was evaluated")
        return 2
    return 0
