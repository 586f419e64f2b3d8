"""P30: the scan runner runs the scans of its file, each once, and says how they went"""
import json
import os
import shutil
import tempfile

from annotypes import add_call_types
from hypothesis import strategies as st
from scanpointgenerator import CompoundGenerator

from malcolm.core import NumberMeta, Part, Post, Process, Put, TimeoutError
from malcolm.modules.builtin.controllers import ManagerController
from malcolm.modules.builtin.hooks import ResetHook
from malcolm.modules.scanning import hooks as sh
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.parts import ScanRunnerPart

from pbt import Check, require
from pbt.mal import Client, ask, get, yield_all
from pbt.motion import add_block, attr
from pbt.ws import wait_for

check = Check(
    "P30", rule="a case is a history of scan files (good ones and broken ones) that are "
    "loaded and run, with how each scan goes: well, refused or failing in different "
    "ways, aborted at the scan block or at the runner; non-trivial = a scan failed or "
    "was aborted, a file was broken, or several sets of scans ran",
    assumptions=["the scan sets of a file have different names",
                 "runs into the same directory are a second apart"])

NAMES = ["coarse", "fine_2d", "a", "set-3", "B.4"]
BROKEN = ["missing file", "no yaml", "empty", "not a list", "unknown key", "no name",
          "no generator", "no generators", "no duration", "repeats text", "line"]
HOW = ["ok"] * 6 + ["configure assert", "configure error", "validate assert",
                    "validate error", "run timeout", "run assert",
                    "run error", "hold", "abort", "stop", "stop configure",
                    "reset error"]


class DevicePart(Part):
    """Does scans as planned"""

    step = None

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(sh.ValidateHook, self.on_validate)
        registrar.hook(sh.ConfigureHook, self.on_configure)
        registrar.report(sh.ConfigureHook.create_info(self.on_configure))
        registrar.hook(sh.RunHook, self.on_run)
        registrar.hook(ResetHook, self.on_reset)
        self.plan, self.seen, self.bad_reset, self.at = [], [], False, None

    def how(self):
        n = len(self.seen) - 1
        return self.plan[n] if n < len(self.plan) else "ok"

    def wait(self, context, where):
        self.at = where
        try:
            context.block_view("MOT").when_value_matches("step", len(self.seen))
        finally:
            self.at = None

    @add_call_types
    def on_validate(self, generator: sh.AGenerator, fileDir: sh.AFileDir) -> None:
        self.seen.append([generator, fileDir, os.path.isdir(fileDir), False])
        if self.how() == "validate assert":
            assert False, "not valid"
        elif self.how() == "validate error":
            raise ValueError("not valid")

    @add_call_types
    def on_configure(self, context: sh.AContext, generator: sh.AGenerator,
                     fileDir: sh.AFileDir) -> None:
        self.bad_reset = self.how() == "reset error"
        if self.how() == "configure assert":
            assert False, "not this one"
        elif self.how() == "configure error":
            raise ValueError("not this one")
        elif self.how() == "stop configure":
            self.wait(context, "configure")

    @add_call_types
    def on_run(self, context: sh.AContext) -> None:
        self.seen[-1][3] = True
        how = self.how()
        if how == "run timeout":
            raise TimeoutError("too long")
        elif how == "run assert":
            assert False, "failed"
        elif how in ("run error", "reset error"):
            raise ValueError("failed")
        elif how in ("hold", "abort", "stop"):
            self.wait(context, "run")

    @add_call_types
    def on_reset(self) -> None:
        assert not self.bad_reset, "cannot be reset"


@st.composite
def scan_sets(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    sets = []
    for n in names:
        lines = []
        for axis in draw(st.sampled_from([["x"], ["y", "x"], ["z"]])):
            lines.append(dict(line=dict(
                axes=axis, units="mm", start=draw(st.integers(-5, 5)) / 10,
                stop=draw(st.integers(-5, 5)) / 10, size=draw(st.integers(1, 4)),
                alternate=draw(st.booleans()))))
        g = dict(generators=lines, duration=draw(st.sampled_from([0.1, 1.0, 2])))
        if draw(st.booleans()):
            g.update(continuous=draw(st.booleans()), delay_after=draw(
                st.sampled_from([0, 0.5])))
        s = dict(name=n, generator=g)
        if draw(st.booleans()):
            s["repeats"] = draw(st.integers(0, 3))
        sets.append(dict(scan=s))
    return sets


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["load", "load", "run", "run", "run", "broken"]))
        if k == "load" or not ops:
            ops.append(dict(op="load", sets=draw(scan_sets())))
        elif k == "broken":
            ops.append(dict(op="broken", what=draw(st.sampled_from(BROKEN)),
                            sets=draw(scan_sets()), i=draw(st.integers(0, 2))))
        else:
            ops.append(dict(op="run", slash=draw(st.booleans()), plan=draw(st.lists(
                st.sampled_from(HOW), max_size=6)), nodir=draw(st.sampled_from(
                    [False] * 9 + [True]))))
    if ops[-1]["op"] != "run":
        ops.append(dict(op="run", slash=False, nodir=False, plan=draw(st.lists(
            st.sampled_from(HOW), max_size=6))))
    return dict(ops=ops)


def broken_text(op):
    what, sets = op["what"], op["sets"]
    s = sets[op["i"] % len(sets)]
    if what == "no yaml":
        return json.dumps(sets)[:-1] + "{"
    elif what == "empty":
        return ""
    elif what == "not a list":
        return "3"
    elif what == "unknown key":
        sets.insert(op["i"], dict(motor=dict(name="x")))
    elif what == "no name":
        del s["scan"]["name"]
    elif what == "no generator":
        del s["scan"]["generator"]
    elif what == "no generators":
        del s["scan"]["generator"]["generators"]
    elif what == "no duration":
        del s["scan"]["generator"]["duration"]
    elif what == "repeats text":
        s["scan"]["repeats"] = "many"
    elif what == "line":
        s["scan"]["generator"]["generators"][0] = dict(circle={})
    return json.dumps(sets)


class Runner:
    def __init__(self, top, t):
        self.top, self.t = top, t
        self.process = Process("p")
        self.process.start()
        self.dev = DevicePart("dev")
        self.dev.step = attr(NumberMeta("int32", "d"), 0)
        add_block(self.process, "MOT", dict(step=self.dev.step))
        c = RunnableController("SCAN", config_dir=top)
        c.add_part(self.dev)
        self.process.add_controller(c)
        m = ManagerController("RUNNER", config_dir=top)
        m.add_part(ScanRunnerPart("scanRunner", "SCAN"))
        self.process.add_controller(m)
        self.sets = []
        self.configured = 0
        self.unsure = False
        self.n = 0

    def v(self, field, mri="RUNNER"):
        ok, v = get(self.process, [mri, field, "value"])
        require(ok, "Get %s: %s", field, v)
        return v

    def put(self, field, value):
        rs = ask(self.process, "RUNNER", Put(
            id=1, path=["RUNNER", field, "value"], value=value))
        require("Error" not in rs[0]["typeid"], "put %s: %s", field, rs)

    def post(self, method, mri="RUNNER"):
        rs = ask(self.process, mri, Post(id=1, path=[mri, method]))
        require(len(rs) == 1, "%s gave %s", method, rs)
        return "Error" not in rs[0]["typeid"], rs[0].get("message")

    def load(self, op, text=None):
        self.n += 1
        path = "%s/scans%d.yaml" % (self.top, self.n)
        if text is not None:
            with open(path, "w") as f:
                f.write(text)
        self.put("scanFile", path)
        return self.post("loadFile")

    def do_load(self, op):
        ok, m = self.load(op, json.dumps(op["sets"]))
        require(ok, "loadFile of %s failed: %s", op["sets"], m)
        self.sets = [s["scan"] for s in op["sets"]]
        self.unsure = False
        self.configured = sum(s.get("repeats", 1) for s in self.sets)
        require(self.v("runnerState") == "Configured", "state %s after loadFile",
                self.v("runnerState"))
        self.check_configured()

    def check_configured(self):
        require(self.v("scansConfigured") == self.configured, "%s scans configured, "
                "should be %s", self.v("scansConfigured"), self.configured)

    def do_broken(self, op):
        self.t.nontrivial()
        self.t.label(op["what"])
        ok, m = self.load(op, None if op["what"] == "missing file" else broken_text(op))
        require(not ok, "loadFile of a broken file succeeded: %s", op)
        require(self.v("runnerState") == "Fault", "state %s after loadFile of a broken "
                "file", self.v("runnerState"))
        # either what was there before, or nothing
        if self.v("scansConfigured") == 0:
            self.unsure = self.unsure or (self.sets and self.configured == 0)
            self.sets, self.configured = [], 0
        self.check_configured()

    def do_run(self, op):
        if self.unsure:
            return
        self.n += 1
        d = "%s/out%d" % (self.top, self.n)
        if not op["nodir"]:
            os.mkdir(d)
        self.put("outputDirectory", d + "/" * op["slash"])
        dev = self.dev
        dev.plan, dev.seen, dev.bad_reset = list(op["plan"]), [], False
        dev.step.set_value(-1)
        if not self.sets:
            ok, m = self.post("run")
            require(not ok, "run without scans gave %s", m)
            require(not dev.seen and not (os.path.isdir(d) and os.listdir(d)),
                    "run without scans did something")
            return
        if op["nodir"]:
            ok, m = self.post("run")
            require(not ok and self.v("runnerState") == "Fault", "run with nowhere to "
                    "write gave %s, state %s", m, self.v("runnerState"))
            require(not dev.seen, "run with nowhere to write did scans")
            return
        cl = Client(self.process)
        cl.send(Post(id=2, path=["RUNNER", "run"]), wait=False)
        stopped = self.steer(cl)
        require(wait_for(lambda: cl.responses, 10), "run goes on, after %s scans",
                len(dev.seen))
        yield_all(10)
        ok = "Error" not in str(cl.responses[0])
        want = [(s["name"], i + 1, s["generator"]) for s in self.sets
                for i in range(s.get("repeats", 1))]
        how = (dev.plan + ["ok"] * len(want))[:len(want)]
        fault = False
        for i, h in enumerate(how):
            if h in ("stop", "stop configure"):
                want, how = want[:i + 1], how[:i + 1]
                break
            if h == "reset error" and i + 1 < len(want):
                # the next one cannot be done
                want, how = want[:i + 1], how[:i + 1]
                fault = True
                break
        self.t.nontrivial(len(self.sets) > 1 or set(how) != {"ok"})
        for h in set(how):
            self.t.label(h)
        self.check_scans(d, want)
        outcomes = dict(ok="Success", hold="Success", abort="Aborted", stop="Aborted")
        outcomes.update({
            "configure assert": "Misconfigured", "configure error": "Misconfigured",
            "validate assert": "Misconfigured", "validate error": "Misconfigured",
            "run timeout": "Timeout", "run assert": "Fail", "run error": "Other",
            "reset error": "Other", "stop configure": None})
        lines = self.report(d)
        got = [(name, int(n), out) for name, n, out, _, _ in lines]
        exp = [(w[0], w[1], outcomes[h] or got[i][2] if i < len(got) else None)
               for i, (w, h) in enumerate(zip(want, how))]
        require(got == exp, "the report says %s, should be %s", got, exp)
        for line in lines:
            require(line[3] <= line[4], "scan ended before it started: %s", line)
        good = sum(h in ("ok", "hold") for h in how)
        counts = [self.v("scansCompleted"), self.v("scanSuccesses"),
                  self.v("scanFailures")]
        require(counts == [len(want), good, len(want) - good], "completed, successes, "
                "failures are %s, should be %s", counts,
                [len(want), good, len(want) - good])
        state = self.v("runnerState")
        if stopped:
            require(state == "Aborted", "state %s after abort", state)
        elif fault:
            require(not ok and state == "Fault", "state %s, answer %s, after the scan "
                    "block could not be reset", state, cl.responses)
        else:
            require(ok and state == "Finished", "state %s, answer %s after all scans",
                    state, cl.responses)
            require(self.v("currentScanSet") == "", "current set %s",
                    self.v("currentScanSet"))
        self.check_configured()
        dev.bad_reset = False

    def steer(self, cl):
        dev = self.dev
        while True:
            require(wait_for(lambda: cl.responses or dev.at, 10), "stuck in scan %s",
                    len(dev.seen))
            if cl.responses:
                return False
            require(self.v("runnerState") == "Running", "state %s while running",
                    self.v("runnerState"))
            name = os.path.basename(os.path.dirname(dev.seen[-1][1]))
            require(self.v("currentScanSet") and name.endswith(self.v(
                "currentScanSet")), "current set %s while doing %s",
                self.v("currentScanSet"), dev.seen[-1][1])
            require(self.v("scansCompleted") == len(dev.seen) - 1, "%s scans completed "
                    "while doing number %s", self.v("scansCompleted"), len(dev.seen))
            require(not cl.responses, "run is over while doing a scan")
            at, how = len(dev.seen), dev.how()
            if how.startswith("stop"):
                ok, m = self.post("abort")
                require(ok, "abort: %s", m)
                require(wait_for(lambda: self.v("state", "SCAN") == "Aborted", 5),
                        "runner aborted, scan block is %s", self.v("state", "SCAN"))
                return True
            elif how == "abort":
                ok, m = self.post("abort", "SCAN")
                require(ok, "abort of the scan: %s", m)
            else:
                dev.step.set_value(at)
            require(wait_for(lambda: cl.responses or len(dev.seen) != at or
                             not dev.at, 10), "stuck in scan %s", at)

    def check_scans(self, d, want):
        seen = self.dev.seen
        require(len(seen) == len(want), "%s scans were done (%s), should be %s",
                len(seen), [s[1] for s in seen], len(want))
        for (gen, path, there, _), (name, n, g) in zip(seen, want):
            require(there and path.startswith(d + "/"), "scan was told to write to %s",
                    path)
            parts = path[len(d) + 1:].split("/")
            require(len(parts) == 3 and name in parts[1] and str(n) in parts[2],
                    "scan %s of %s was told to write to %s", n, name, path)
            gens = [dict(x["line"], typeid="scanpointgenerator:generator/LineGenerator:"
                         "1.0") for x in g["generators"]]
            exp = CompoundGenerator.from_dict(dict(g, generators=gens))
            require(gen.to_dict() == exp.to_dict(), "scan %s of %s is %s, should be %s",
                    n, name, gen.to_dict(), exp.to_dict())
        dirs = [s[1] for s in seen]
        require(len(set(dirs)) == len(dirs), "scans share a directory: %s", dirs)

    def report(self, d):
        subs = os.listdir(d)
        require(len(subs) == 1, "output directory has %s", subs)
        path = "%s/%s/report.txt" % (d, subs[0])
        if not os.path.isfile(path):
            return []
        return [line.split() for line in open(path)]


@check.sub("runner", cases, quick=600, thorough=15000, shards=6, budget=25)
def run_runner(case, t):
    top = tempfile.mkdtemp(prefix="p30")
    try:
        r = Runner(top, t)
        try:
            for op in case["ops"]:
                getattr(r, "do_" + op["op"])(json.loads(json.dumps(op)))
        finally:
            r.dev.step.set_value(len(r.dev.seen))
            r.process.stop(timeout=30)
    finally:
        shutil.rmtree(top)
