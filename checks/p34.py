"""P34: what is put around a scan: shutters, guards and triggers"""
import shutil
import tempfile

from annotypes import add_call_types
from hypothesis import strategies as st
from scanpointgenerator import CompoundGenerator, LineGenerator

from malcolm.core import (
    NumberMeta, Part, Post, Process, Put, StringMeta, config_tag)
from malcolm.modules.ADPandABlocks.parts import PandAPulseTriggerPart
from malcolm.modules.builtin.controllers import (
    BasicController, ManagerController, StatefulController)
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable
from malcolm.modules.scanning import hooks as sh
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.infos import (
    ExposureDeadtimeInfo, MinTurnaroundInfo, RunProgressInfo)
from malcolm.modules.scanning.parts import (
    AttributePreRunPart, DatasetTablePart, DetectorChildPart, DirectoryMonitorPart,
    DoubleTriggerPart, ExposureDeadtimePart, MinTurnaroundPart, SimultaneousAxesPart)
from malcolm.modules.scanning.util import DetectorTable

from pbt import Check, require
from pbt.mal import AttrPart, Client, ask, get, yield_all
from pbt.motion import add_block, attr
from pbt.ws import wait_for

check = Check(
    "P34", rule="a case is a scan block with generated shutters, guards or pulse "
    "triggers and a history of configures, runs, pauses, aborts, faults and changes of "
    "what the parts look at; non-trivial = a run was interrupted or a scan refused, or "
    "a detector was given several pulses per step",
    assumptions=["a shutter after a fault or a disable is not judged until the next "
                 "run, pause or abort", "time resolution of pulses is not modelled"])


# -- shutters and guards ----------------------------------------------------------


class Driver(Part):
    shutters = ()

    def setup(self, registrar):
        super().setup(registrar)
        self.credit = self.pos = self.target = 0
        self.fail = self.running = False
        self.seen, self.configured, self.info = [], 0, None
        registrar.hook(sh.ConfigureHook, self.on_configure)
        registrar.hook((sh.PostRunArmedHook, sh.SeekHook), self.on_more)
        registrar.hook(sh.RunHook, self.on_run)

    @add_call_types
    def on_configure(self, completed_steps: sh.ACompletedSteps,
                     steps_to_do: sh.AStepsToDo, part_info: sh.APartInfo) -> None:
        self.configured += 1
        self.info = [[x.gap, x.interval] for x in
                     MinTurnaroundInfo.filter_values(part_info)]
        self.on_more(completed_steps, steps_to_do)

    @add_call_types
    def on_more(self, completed_steps: sh.ACompletedSteps,
                steps_to_do: sh.AStepsToDo) -> None:
        self.pos = completed_steps
        self.target = completed_steps + steps_to_do

    def look(self):
        self.seen.append([a.value for a in self.shutters])

    @add_call_types
    def on_run(self, context: sh.AContext) -> None:
        self.running = True
        try:
            self.look()
            while self.pos < self.target:
                if self.fail:
                    self.fail = False
                    raise ValueError("motor failed")
                if self.credit:
                    self.credit -= 1
                    self.look()
                    self.pos += 1
                    self.registrar.report(RunProgressInfo(self.pos))
                else:
                    context.sleep(0.0005)
        finally:
            self.running = False


class CheckPart(Part):
    how = "ok"
    calls = 0

    def setup(self, registrar):
        super().setup(registrar)
        registrar.add_method_model(self.managerCheck)

    def managerCheck(self):
        self.calls += 1
        if self.how == "assert":
            assert False, "disk is full"
        elif self.how == "error":
            raise ValueError("no answer")


AXES = ["x", "y", "z"]
OPS = dict(
    Ready=["configure"] * 6 + ["put", "axes", "check", "turn", "design", "abort",
                               "disable"],
    Armed=["run"] * 6 + ["pause", "seek", "abort", "reset", "put", "disable"],
    Running=["steps"] * 3 + ["finish"] * 2 + ["pause"] * 3 + ["abort", "fail",
                                                              "disable"],
    Paused=["resume"] * 4 + ["abort", "put", "disable"],
    Finished=["configure"] * 3 + ["reset", "put", "abort", "check"],
    Fault=["reset"] * 4 + ["put", "disable", "check"],
    Aborted=["reset"] * 4 + ["put", "disable"],
    Disabled=["reset"])


@st.composite
def around(draw):
    shutters = []
    for i in range(draw(st.integers(1, 2))):
        shutters.append(dict(
            pre=draw(st.sampled_from(["Open", "open"])),
            reset=draw(st.sampled_from(["Close", "Closed"])),
            name=draw(st.sampled_from([None, "beam"])),
            same=draw(st.booleans())))
    ops = []
    for pick in draw(st.lists(st.integers(0, 59), min_size=3, max_size=25)):
        ops.append(dict(
            pick=pick, n=draw(st.integers(0, 7)), bp=draw(st.booleans()),
            axes=draw(st.sampled_from([None, None, ["x"], ["y", "x"]])),
            allow=draw(st.lists(st.sampled_from(AXES), max_size=3)),
            value=draw(st.sampled_from(["Open", "Closed", "Half"])),
            how=draw(st.sampled_from(["ok", "assert", "error"])),
            gap=draw(st.integers(0, 20)) / 10))
    return dict(shutters=shutters, ops=ops, dims=[draw(st.integers(1, 2)),
                                                  draw(st.integers(1, 3))],
                monitors=draw(st.lists(st.booleans(), max_size=2)),
                axes=draw(st.sampled_from([None, ["x", "y"], ["x", "y"], ["x"],
                                           ["z", "y", "x"]])),
                turn=draw(st.booleans()))


class World:
    def __init__(self, case, top):
        self.process = Process("p")
        self.process.start()
        c = RunnableController("TOP", config_dir=top)
        self.driver = Driver("driver")
        self.attrs, self.pre, self.rest, self.mris = [], [], [], []
        for i, s in enumerate(case["shutters"]):
            mri = "SH%d" % i
            n = s["name"] or "shutter"
            a = StringMeta("d", tags=[config_tag()]).create_attribute_model("Closed")
            sc = StatefulController(mri)
            sc.add_part(AttrPart("a", {n: a}, {n: a.set_value}))
            self.process.add_controller(sc)
            self.attrs.append(a)
            self.pre.append(s["pre"])
            self.rest.append(s["reset"])
            kw = dict(attribute_name=s["name"]) if s["name"] else {}
            c.add_part(AttributePreRunPart(
                name="sh%d" % i, mri=mri, pre_run_value=s["pre"],
                reset_value=s["reset"], **kw))
            self.mris.append([mri, n])
        self.driver.shutters = self.attrs
        c.add_part(self.driver)
        self.monitors = []
        for i, must in enumerate(case["monitors"]):
            p = CheckPart("check")
            sc = StatefulController("MON%d" % i)
            sc.add_part(p)
            h = attr(StringMeta("d"), "host%d" % i)
            sc.add_part(AttrPart("a", dict(managerHostname=h)))
            self.process.add_controller(sc)
            self.monitors.append((p, must))
            c.add_part(DirectoryMonitorPart("mon%d" % i, "MON%d" % i, must))
        if case["axes"] is not None:
            c.add_part(SimultaneousAxesPart(value=case["axes"]))
        if case["turn"]:
            c.add_part(MinTurnaroundPart(gap=0.5, interval=0.01))
        self.turn = [[0.5, 0.01]] if case["turn"] else []
        self.axes = case["axes"]
        self.process.add_controller(c)
        self.client = Client(self.process)
        self.spawned = []
        # What each shutter should be, None when not known
        self.want = ["Closed"] * len(self.attrs)

    def state(self):
        ok, v = get(self.process, ["TOP", "state", "value"])
        require(ok, "%s", v)
        return v

    def post(self, method, wait=True, **params):
        c = Client(self.process)
        s = c.send_to("TOP", Post(id=1, path=["TOP", method], parameters=params),
                      wait=wait)
        if wait:
            require(len(c.responses) == 1, "%s answered %s", method, c.responses)
            return "Error" not in c.responses[0][1]["typeid"], c.responses[0][1]
        self.spawned.append(s)
        return True, None

    def check(self, what):
        got = [a.value for a in self.attrs]
        for i, (g, w) in enumerate(zip(got, self.want)):
            require(w is None or g == w, "after %s in state %s shutter %s is %s, "
                    "expected %s", what, self.state(), i, g, w)
        for s in self.driver.seen:
            require(s == self.pre, "shutters were %s while the scan ran, expected %s",
                    s, self.pre)
        self.driver.seen = []

    def close(self):
        self.want = list(self.rest)


@check.sub("around", around, quick=700, thorough=9000, shards=4, budget=25)
def around_scan(case, t):
    top = tempfile.mkdtemp()
    w = World(case, top)
    try:
        for op in case["ops"]:
            kinds = OPS.get(w.state())
            require(kinds, "still in state %s", w.state())
            op["op"] = kinds[op["pick"] % len(kinds)]
            do(w, op, case, t)
            if any(x is None for x in w.want):
                t.label("unknown")
            w.check(op["op"])
    finally:
        w.driver.credit = 1000
        try:
            w.process.stop(timeout=20)
        finally:
            shutil.rmtree(top, ignore_errors=True)


def do(w, op, case, t):
    state, k = w.state(), op["op"]
    if k == "configure":
        if state not in ("Ready", "Finished"):
            return
        size = case["dims"][0] * case["dims"][1]
        g = CompoundGenerator([LineGenerator("y", "mm", 0, 1, case["dims"][0]),
                               LineGenerator("x", "mm", 0, 1, case["dims"][1])],
                              [], [], 0.1)
        params = dict(generator=g)
        if op["axes"] is not None:
            params["axesToMove"] = op["axes"]
        axes = ["y", "x"] if op["axes"] is None else op["axes"]
        whole = set(axes) == {"x", "y"}
        if op["bp"] and whole and size > 1:
            params["breakpoints"] = [1, size - 1]
        for p, _ in w.monitors:
            p.calls = 0
        before = w.driver.configured
        ok, r = w.post("configure", **params)
        if w.axes is not None and set(axes) - set(w.axes):
            t.label("axes refused")
            t.nontrivial()
            require(not ok, "moving %s was accepted, allowed are %s", axes, w.axes)
            require(w.state() == state and w.driver.configured == before,
                    "refused, but state went %s to %s", state, w.state())
            require(all(p.calls == 0 for p, _ in w.monitors), "directories checked")
            return
        if state == "Finished":
            # It is reset first
            w.close()
        hows = [(p.how, must) for p, must in w.monitors]
        if any(h != "ok" and must for h, must in hows):
            t.label("monitor refused")
            t.nontrivial()
            require(not ok and w.state() == "Fault", "configured with %s of the "
                    "directories, state %s", hows, w.state())
        elif any(h == "error" for h, must in hows):
            if not ok:
                return
        else:
            require(ok and w.state() == "Armed", "configure with %s: %s", hows, r)
            require(w.driver.configured == before + 1, "configured %s times",
                    w.driver.configured - before)
            require(w.driver.info == w.turn, "turnaround told as %s, expected %s",
                    w.driver.info, w.turn)
        require(all(p.calls == 1 for p, _ in w.monitors) or not ok,
                "directories checked %s times", [p.calls for p, _ in w.monitors])
    elif k == "run":
        if state != "Armed":
            return
        w.driver.credit = 0
        w.post("run", wait=False)
        wait_for(lambda: w.driver.running or w.state() != "Running")
        require(w.state() == "Running", "run: state %s", w.state())
        w.want = list(w.pre)
    elif k in ("steps", "finish"):
        if state != "Running":
            return
        n = op["n"] if k == "steps" else 100
        end = min(w.driver.pos + n, w.driver.target)
        w.driver.credit = n
        wait_for(lambda: w.driver.pos >= end)
        if end == w.driver.target:
            wait_for(lambda: w.state() in ("Armed", "Finished", "Fault"))
            if w.state() == "Finished":
                w.close()
            else:
                require(w.state() == "Armed", "run ended in state %s", w.state())
                # May stay open between the runs of a scan
                w.want = [None] * len(w.attrs)
        w.driver.credit = 0
    elif k in ("pause", "seek"):
        if state not in ("Armed", "Running", "Paused", "Finished"):
            return
        params = {}
        if k == "seek":
            # Stay within what is done
            params["lastGoodStep"] = 0
        if state == "Finished" or (k == "seek" and state not in ("Armed",)):
            return
        if state == "Running":
            t.nontrivial()
        if state == "Paused" and k == "pause":
            return
        ok, r = w.post("pause", **params)
        require(ok and w.state() in ("Paused", "Armed"), "pause: %s", r)
        w.close()
    elif k == "resume":
        if state != "Paused":
            return
        ok, r = w.post("resume")
        require(ok, "resume: %s", r)
        wait_for(lambda: w.driver.running or w.state() != "Running")
        w.want = list(w.pre)
    elif k == "abort":
        if state not in ("Ready", "Armed", "Running", "Paused", "Finished"):
            return
        if state == "Running":
            t.nontrivial()
        ok, r = w.post("abort")
        require(ok and w.state() == "Aborted", "abort: %s", r)
        w.close()
    elif k == "fail":
        if state != "Running":
            return
        t.nontrivial()
        w.driver.fail = True
        wait_for(lambda: w.state() == "Fault")
        w.want = [None] * len(w.attrs)
    elif k == "reset":
        if state not in ("Fault", "Aborted", "Disabled", "Armed", "Finished"):
            return
        ok, r = w.post("reset")
        require(ok and w.state() == "Ready", "reset: %s", r)
        w.close()
    elif k == "disable":
        if state in ("Running", "Paused"):
            w.want = [None] * len(w.attrs)
        ok, r = w.post("disable")
        wait_for(lambda: not w.driver.running)
    elif k == "put":
        if state in ("Running", "Disabled"):
            return
        i = op["n"] % len(w.attrs)
        mri, n = w.mris[i]
        rs = ask(w.process, mri, Put(id=3, path=[mri, n, "value"], value=op["value"]))
        require("Error" not in rs[0]["typeid"], "put: %s", rs)
        w.want[i] = op["value"]
    elif k == "axes":
        if w.axes is None or state == "Disabled":
            return
        rs = ask(w.process, "TOP", Put(
            id=3, path=["TOP", "simultaneousAxes", "value"], value=op["allow"]))
        if "Error" not in rs[0]["typeid"]:
            w.axes = op["allow"]
    elif k == "turn":
        if not w.turn or state == "Disabled":
            return
        rs = ask(w.process, "TOP", Put(
            id=3, path=["TOP", "minTurnaround", "value"], value=op["gap"]))
        if "Error" not in rs[0]["typeid"]:
            w.turn = [[op["gap"], w.turn[0][1]]]
    elif k == "check":
        if w.monitors:
            w.monitors[op["n"] % len(w.monitors)][0].how = op["how"]
    elif k == "design":
        # A design that was saved with the shutter open does not open it
        if state != "Ready" or None in w.want:
            return
        for v in ("Half", "Closed"):
            for mri, n in w.mris:
                ask(w.process, mri, Put(id=3, path=[mri, n, "value"], value=v))
            if v == "Half":
                ok, r = w.post("save", designName="d")
                require(ok, "save: %s", r)
        rs = ask(w.process, "TOP", Put(id=3, path=["TOP", "design", "value"], value="d"))
        require("Error" not in rs[0]["typeid"], "load: %s", rs)
        w.want = ["Closed"] * len(w.attrs)
        t.label("design")


# -- pulses -----------------------------------------------------------------------

SUFFIXES = ["Width", "Step", "Delay", "Pulses"]


class PulsePart(Part):
    odd_units = None

    def setup(self, registrar):
        super().setup(registrar)
        self.values, self.puts = {}, []
        for s in ("width", "step", "delay", "pulses"):
            a = attr(NumberMeta("float64", "d"), 0.0)
            self.values[s] = a

            def put(v, s=s, a=a):
                self.puts.append(s)
                a.set_value(v)
            registrar.add_attribute_model(s, a, put)
            if s != "pulses":
                registrar.add_attribute_model(s + "Units", attr(
                    StringMeta("d"), "ms" if s == self.odd_units else "s"))


class DetPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(sh.ConfigureHook, self.on_configure)
        registrar.hook(sh.RunHook, self.on_run)
        registrar.report(sh.ConfigureHook.create_info(self.on_configure))

    @add_call_types
    def on_configure(self, fileDir: sh.AFileDir,
                     formatName: sh.AFormatName = "det",
                     fileTemplate: sh.AFileTemplate = "%s.h5") -> None:
        pass

    @add_call_types
    def on_run(self) -> None:
        pass


@st.composite
def pulse_cases(draw):
    dets = []
    for i in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["pulse"] * 5 + ["double", "none"]))
        d = dict(kind=kind, takes=draw(st.sampled_from([True, True, False])),
                 readout=draw(st.sampled_from([0.0, 0.001, 0.01])),
                 acc=draw(st.sampled_from([0.0, 50.0, 50.0])),
                 zero=draw(st.booleans()), panda=draw(st.integers(0, 1)),
                 order=draw(st.permutations(range(4))), bad=None)
        if kind == "pulse" and draw(st.sampled_from([False] * 3 + [True])):
            d["bad"] = draw(st.sampled_from(
                ["missing", "other", "width", "step", "delay"]))
            d["which"] = draw(st.integers(0, 3))
        dets.append(d)
    scans = []
    for _ in range(draw(st.integers(1, 3))):
        rows = []
        for d in dets:
            takes = d["takes"]
            frames = 1
            if d["kind"] == "double":
                frames = draw(st.sampled_from([2, 2, 2, 1, 3]))
            elif d["kind"] == "pulse":
                frames = draw(st.sampled_from([0, 1, 2, 3, 5]))
            exposure = draw(st.sampled_from([0.0, 0.0, 0.01, 0.05]))
            if not takes or frames == 0:
                exposure = 0.0
            rows.append([draw(st.sampled_from([True] * 4 + [False])), exposure, frames])
        scans.append(dict(
            rows=rows, duration=draw(st.sampled_from([0.5, 1.0, 1.0, 3])),
            how=draw(st.sampled_from(["configure", "configure", "validate"])),
            then=draw(st.sampled_from(["run", "abort", "reset"])),
            left=draw(st.integers(0, 9)) == 0))
    return dict(dets=dets, scans=scans, two=draw(st.booleans()))


def add_pulses(process, case, d, c):
    """The PandAs, and the parts that make pulses for detectors"""
    pulses, pandas, exports = {}, [], []
    for j in range(2 if case["two"] else 1):
        p = ManagerController("PANDA%d" % j, config_dir=d)
        pandas.append(p)
        exports.append([])
        spare = BasicController("PANDA%d:SPARE" % j)
        spare.add_part(PulsePart("spare"))
        process.add_controller(spare)
        p.add_part(ChildPart("SPARE", "PANDA%d:SPARE" % j, initial_visibility=True,
                             stateful=False))
    for i, det in enumerate(case["dets"]):
        j = det["panda"] if case["two"] else 0
        if det["kind"] == "none":
            continue
        add_block(process, "TRIG%d" % i, dict(
            panda=attr(StringMeta("d"), "PANDA%d" % j),
            detector=attr(StringMeta("d"), "DET%d" % i)))
        if det["kind"] == "double":
            c.add_part(DoubleTriggerPart(
                "trig%d" % i, "TRIG%d" % i, initial_visibility=True))
            continue
        c.add_part(PandAPulseTriggerPart(
            "trig%d" % i, "TRIG%d" % i, zero_delay=det["zero"]))
        part = PulsePart("pulse")
        if det["bad"] in ("width", "step", "delay"):
            part.odd_units = det["bad"]
        name = "PULSE%d" % (i + 1)
        b = BasicController("PANDA%d:%s" % (j, name))
        b.add_part(part)
        process.add_controller(b)
        pandas[j].add_part(ChildPart(name, b.mri, initial_visibility=True,
                                     stateful=False))
        pulses[i] = part
        for n, s in enumerate(det["order"]):
            suffix = SUFFIXES[s]
            src = name
            if n == det.get("which"):
                if det["bad"] == "missing":
                    continue
                elif det["bad"] == "other":
                    src = "SPARE"
            exports[j].append(["%s.%s" % (src, suffix.lower()), "trig%d%s" % (
                i, suffix)])
    for p in pandas:
        process.add_controller(p)
    return pulses, pandas, exports


@check.sub("pulses", pulse_cases, quick=700, thorough=9000, shards=4, budget=25)
def pulses(case, t):
    d = tempfile.mkdtemp()
    process = Process("p")
    try:
        process.start()
        top = RunnableController("TOP", config_dir=d)
        for i, det in enumerate(case["dets"]):
            c = RunnableController("DET%d" % i, config_dir=d)
            c.add_part(DetPart("driver"))
            if det["takes"]:
                c.add_part(ExposureDeadtimePart("dt", det["readout"], det["acc"], 0.001))
            c.add_part(DatasetTablePart("ds"))
            process.add_controller(c)
            top.add_part(DetectorChildPart("det%d" % i, "DET%d" % i, True))
        parts, pandas, exports = add_pulses(process, case, d, top)
        top.add_part(DatasetTablePart("ds"))
        process.add_controller(top)
        for p, rows in zip(pandas, exports):
            p.set_exports(ExportTable.from_rows(rows))
        for scan in case["scans"]:
            one_scan(process, case, scan, parts, d, t)
    finally:
        process.stop(timeout=20)
        shutil.rmtree(d, ignore_errors=True)


def value(process, *path):
    ok, v = get(process, list(path) + ["value"])
    require(ok, "%s", v)
    return v


def close(a, b):
    return abs(a - b) <= 1e-9


def one_scan(process, case, scan, parts, d, t):
    rows = []
    for i, (en, ex, fr) in enumerate(scan["rows"]):
        if not (scan["left"] and i == 0):
            rows.append([en, "det%d" % i, "DET%d" % i, ex, fr])
    on = [(not (scan["left"] and i == 0)) and r[0] for i, r in enumerate(scan["rows"])]
    g = CompoundGenerator([LineGenerator("x", "mm", 0, 1, 3)], [], [], scan["duration"])
    for p in parts.values():
        p.puts = []
    before = {i: {k: a.value for k, a in p.values.items()} for i, p in parts.items()}
    start = value(process, "TOP", "state")
    rs = ask(process, "TOP", Post(id=1, path=["TOP", scan["how"]], parameters=dict(
        generator=g, fileDir=d, detectors=DetectorTable.from_rows(rows))))
    require(len(rs) == 1, "answers: %s", rs)
    ok = "Error" not in rs[0]["typeid"]
    state = value(process, "TOP", "state")
    for i, det in enumerate(case["dets"]):
        fr = scan["rows"][i][2]
        if det["kind"] == "double" and on[i] and fr != 2:
            t.label("not 2 frames")
            t.nontrivial()
            require(not ok and state == start, "%s frames with a double trigger "
                    "were accepted, state %s", fr, state)
            return
    if scan["how"] == "validate":
        require(ok and state == start, "validate: %s", rs)
        require(not any(p.puts for p in parts.values()), "validate put %s",
                [p.puts for p in parts.values()])
        return
    bad = [i for i, det in enumerate(case["dets"]) if det["bad"]]
    wide = [i for i, det in enumerate(case["dets"])
            if det["kind"] == "pulse" and on[i] and det["takes"] and
            det["readout"] == 0 and det["acc"] == 0 and scan["rows"][i][1] == 0]
    if wide or any(on[i] for i in bad):
        t.label("refused")
        t.nontrivial()
        require(not ok and state == "Fault", "detectors %s cannot be triggered but "
                "the scan was configured (%s)", bad + wide, state)
        # Cannot go on
        for i in parts:
            if i in bad or i in wide or not on[i]:
                require(not parts[i].puts, "pulses %s put", parts[i].puts)
    elif ok or not bad:
        require(ok and state == "Armed", "configure: %s", rs)
        for i, p in parts.items():
            det = case["dets"][i]
            now = {k: a.value for k, a in p.values.items()}
            if not on[i]:
                require(not p.puts and now == before[i], "pulses of detector %s "
                        "that takes no part: %s", i, now)
                continue
            frames = scan["rows"][i][2] or 1
            if frames > 1:
                t.nontrivial()
            step = scan["duration"] / frames
            if det["takes"]:
                width = value(process, "DET%d" % i, "exposure")
                want = scan["rows"][i][1] or ExposureDeadtimeInfo(
                    det["readout"], det["acc"], 0.001).calculate_exposure(step)
                require(close(width, want), "exposure %s, expected %s", width, want)
            else:
                width = step - 1e-6
            want = dict(step=step, width=width, pulses=frames,
                        delay=0.0 if det["zero"] else (step - width) / 2)
            for k in want:
                require(close(now[k], want[k]), "%s of pulses for detector %s is %s, "
                        "expected %s", k, i, now[k], want[k])
            require(sorted(p.puts) == ["delay", "pulses", "step", "width"],
                    "put %s", p.puts)
            # All of them are exposures within the step
            end = now["delay"] + (frames - 1) * now["step"] + now["width"]
            require(now["delay"] >= 0 and now["width"] > 0 and
                    end < scan["duration"], "pulses end after %s of %s", end,
                    scan["duration"])
    if value(process, "TOP", "state") == "Armed":
        if scan["then"] == "run":
            rs = ask(process, "TOP", Post(id=1, path=["TOP", "run"]))
            require("Error" not in rs[0]["typeid"], "run: %s", rs)
        elif scan["then"] == "abort":
            ask(process, "TOP", Post(id=1, path=["TOP", "abort"]))
    if value(process, "TOP", "state") != "Finished":
        rs = ask(process, "TOP", Post(id=1, path=["TOP", "reset"]))
        require("Error" not in rs[0]["typeid"], "reset: %s", rs)
    yield_all(2)
