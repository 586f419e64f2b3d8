"""Definition of checks, and the child process that generates and runs cases."""
import hashlib
import json
import os
import sys
import time
import traceback


# /repo, unless the framework itself is being tried on a scratch copy
REPO = os.environ.get("VERIF_REPO", "/repo").rstrip("/") + "/"


class Violation(Exception):
    """An oracle disagreed with the code under test"""


def fmt(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def require(cond, msg, *args):
    if not cond:
        if args:
            msg = msg % tuple(a if isinstance(a, (int, float)) else fmt(a)
                              for a in args)
        raise Violation(msg)


class _Stop(BaseException):
    """Leave hypothesis: budget used up"""


class Recorder:
    """Passed to run(): collects labels and non-triviality of one case"""

    def __init__(self):
        self.labels = {}
        self.is_nontrivial = False
        self.note_text = None

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels[name] = self.labels.get(name, 0) + 1

    def note(self, text):
        self.note_text = text


class Sub:
    def __init__(self, name, strategy, func, quick, thorough, hang, shards,
                 budget):
        self.name = name
        self.strategy = strategy
        self.func = func
        self.quick = quick
        self.thorough = thorough
        self.hang = hang
        self.shards = shards
        self.budget = budget


class Check:
    def __init__(self, prop, level="exploration", rule="", assumptions=()):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.subs = {}

    def sub(self, name, strategy, quick=500, thorough=None, hang=60, shards=1,
            budget=45):
        """strategy may be a callable returning a strategy (built lazily).

        quick/thorough: number of cases per shard; shards: number of
        independently seeded child processes in the quick tier; budget: soft
        number of seconds for generation in the quick tier.
        """
        def deco(func):
            self.subs[name] = Sub(name, strategy, func, quick,
                                  thorough or quick * 20, hang, shards, budget)
            return func
        return deco


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def repo_frame(tb):
    """Does the traceback go through the code under test?"""
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(REPO) and "/malcolm/" in fn:
            return True
        tb = tb.tb_next
    return False


def exception_chain_in_repo(e):
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        if repo_frame(e.__traceback__):
            return True
        e = e.__cause__ or e.__context__
    return False


def run_one(sub, case):
    """Run one case. Returns (recorder, None | dict describing the failure)"""
    t = Recorder()
    try:
        sub.func(case, t)
    except Violation as e:
        return t, dict(kind="violation", message=str(e))
    except Exception as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if exception_chain_in_repo(e):
            return t, dict(kind="violation",
                           message="unexpected %s from the code under test: %s"
                           % (type(e).__name__, e), traceback=text[-4000:])
        return t, dict(kind="harness",
                       message="%s: %s" % (type(e).__name__, e),
                       traceback=text[-4000:])
    return t, None


class Journal:
    """Tells the parent what case is running, so that it can spot hangs"""

    def __init__(self, path):
        self.fd = os.open(path, os.O_RDWR | os.O_CREAT, 0o600)
        self.seq = 0

    def write(self, text):
        self.seq += 1
        data = ("%d %d\n%s" % (self.seq, len(text.encode()), text)).encode()
        os.pwrite(self.fd, data, 0)


def child_main(check, sub, seed, n, budget, shrink_budget, out, journal_path):
    from . import bootstrap
    bootstrap.ensure()
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, settings

    journal = Journal(journal_path)
    strategy = sub.strategy() if callable(sub.strategy) else sub.strategy
    res = dict(evaluations=0, nontrivial=[], samples=[], labels={},
               failure=None, complete=False, seed=seed)
    seen = set()
    state = dict(best=None, first=None, fail_t=None)
    start = time.time()

    def save():
        res["nontrivial"] = sorted(seen)
        res["wall"] = time.time() - start
        tmp = out + ".tmp"
        with open(tmp, "w") as f:
            json.dump(res, f)
        os.replace(tmp, out)

    @settings(max_examples=n, database=None, deadline=None,
              suppress_health_check=list(HealthCheck),
              phases=[Phase.generate, Phase.shrink],
              verbosity=Verbosity.quiet, report_multiple_bugs=False,
              print_blob=False)
    @hypothesis.seed(seed)
    @hypothesis.given(strategy)
    def test(case):
        now = time.time()
        if state["fail_t"] is None:
            if now - start > budget:
                raise _Stop()
        elif now - state["fail_t"] > shrink_budget:
            raise _Stop()
        text = canon(case)
        journal.write(text)
        case = json.loads(text)
        t, failure = run_one(sub, case)
        if state["fail_t"] is None:
            res["evaluations"] += 1
            for k, v in t.labels.items():
                res["labels"][k] = res["labels"].get(k, 0) + 1
            if t.is_nontrivial:
                h = hashlib.blake2b(text.encode(), digest_size=8).hexdigest()
                if h not in seen:
                    seen.add(h)
                    k = len(seen)
                    if k <= 2 or (k & (k - 1) == 0 and len(res["samples"]) < 8):
                        s = dict(sub=sub.name, case=case)
                        if t.note_text:
                            s["note"] = t.note_text
                        if len(text) < 3000:
                            res["samples"].append(s)
        if failure is not None:
            failure["case"] = json.loads(text)
            if state["fail_t"] is None:
                state["fail_t"] = time.time()
                state["first"] = failure
            b = state["best"]
            if b is None or (len(text), text) <= (len(canon(b["case"])),
                                                  canon(b["case"])):
                state["best"] = failure
            raise Violation(failure["kind"])

    try:
        test()
        res["complete"] = True
    except _Stop:
        pass
    except BaseException as e:
        if state["best"] is None:
            res["error"] = "".join(
                traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    res["failure"] = state["best"]
    res["first_failure"] = state["first"]
    save()


def load_check(prop):
    import importlib
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if root not in sys.path:
        sys.path.insert(0, root)
    mod = importlib.import_module("checks." + prop.lower())
    return mod.check


def child_entry(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("sub")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=100)
    ap.add_argument("--budget", type=float, default=40)
    ap.add_argument("--shrink-budget", type=float, default=45)
    ap.add_argument("--out", required=True)
    ap.add_argument("--journal")
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    import logging
    logging.disable(logging.CRITICAL)
    try:
        from . import bootstrap
        bootstrap.ensure()
        check = load_check(a.prop)
        sub = check.subs[a.sub]
        if a.replay:
            with open(a.replay) as f:
                case = json.load(f)["case"]
            t, failure = run_one(sub, case)
            with open(a.out, "w") as f:
                json.dump(dict(failure=failure, done=True), f)
        else:
            child_main(check, sub, a.seed, a.n, a.budget, a.shrink_budget,
                       a.out, a.journal)
    except BaseException as e:
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        with open(a.out, "w") as f:
            json.dump(dict(evaluations=0, nontrivial=[], samples=[], labels={},
                           failure=None, complete=False, error=text[-4000:]), f)
    sys.stdout.flush()
    sys.stderr.flush()
    # cothread may crash while the interpreter is torn down
    os._exit(0)


if __name__ == "__main__":
    child_entry(sys.argv[1:])
