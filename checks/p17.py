"""P17: detectors in a scan"""
import math
import shutil
import tempfile

from annotypes import add_call_types
from hypothesis import strategies as st
from scanpointgenerator import CompoundGenerator, LineGenerator

from malcolm.core import Part, Post, Process
from malcolm.modules.scanning import hooks as sh
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.infos import (
    DatasetProducedInfo, DatasetType, DetectorMutiframeInfo, RunProgressInfo)
from malcolm.modules.scanning.parts import (
    DatasetTablePart, DetectorChildPart, ExposureDeadtimePart)
from malcolm.modules.scanning.util import DetectorTable

from pbt import Check, require
from pbt.mal import Client, ask, get, plain, yield_all

check = Check(
    "P17", rule="a case is a scan with generated detectors (readout time, accuracy, "
    "minimum exposure, trigger multiplier), a detectors table, duration and "
    "breakpoints, and then runs and seeks; non-trivial = something was worked out "
    "(duration, exposure or frames) or a detector takes several frames per step",
    assumptions=["fastest axis of the generator is moved within the scan",
                 "detectors with a minimum exposure above 0"])


class DetPart(Part):
    """Stands for the driver of a detector"""
    seen = None

    def setup(self, registrar):
        super().setup(registrar)
        self.credit = self.pos = self.target = 0
        self.frames = []
        registrar.hook(sh.ConfigureHook, self.on_configure)
        registrar.hook((sh.PostRunArmedHook, sh.SeekHook), self.on_more)
        registrar.hook(sh.RunHook, self.on_run)
        registrar.report(sh.ConfigureHook.create_info(self.on_configure))

    @add_call_types
    def on_configure(self, completed_steps: sh.ACompletedSteps,
                     steps_to_do: sh.AStepsToDo, generator: sh.AGenerator,
                     axesToMove: sh.AAxesToMove, breakpoints: sh.ABreakpoints,
                     fileDir: sh.AFileDir, formatName: sh.AFormatName = "det",
                     fileTemplate: sh.AFileTemplate = "%s.h5") -> sh.UInfos:
        self.seen.append(dict(
            generator=generator, axes=list(axesToMove), bp=list(breakpoints),
            fileDir=fileDir, formatName=formatName, fileTemplate=fileTemplate))
        self.on_more(completed_steps, steps_to_do)
        return [DatasetProducedInfo(formatName + ".data", formatName + ".h5",
                                    DatasetType.PRIMARY, 4, "/entry/data", "/uid")]

    @add_call_types
    def on_more(self, completed_steps: sh.ACompletedSteps,
                steps_to_do: sh.AStepsToDo) -> None:
        self.pos = completed_steps
        self.target = completed_steps + steps_to_do

    @add_call_types
    def on_run(self, context: sh.AContext) -> None:
        while self.pos < self.target:
            if self.credit:
                self.credit -= 1
                self.frames.append(self.pos)
                self.pos += 1
                self.registrar.report(RunProgressInfo(self.pos))
            else:
                context.sleep(0.0005)


class MultiPart(Part):
    mris = ()

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(sh.ReportStatusHook, self.on_report)

    @add_call_types
    def on_report(self) -> sh.UInfos:
        return [DetectorMutiframeInfo(m) for m in self.mris]


@st.composite
def cases(draw):
    dets = []
    for i in range(draw(st.integers(1, 3))):
        dets.append(dict(
            readout=draw(st.sampled_from([0.0, 0.001, 0.03])),
            acc=draw(st.sampled_from([0.0, 50.0, 5000.0])),
            min=draw(st.sampled_from([0.001, 0.02])),
            takes=draw(st.sampled_from([True, True, True, False])),
            multi=draw(st.booleans()),
            initial=draw(st.sampled_from([1, 1, 0, 2]))))
    rows = []
    for i in draw(st.permutations(range(len(dets)))):
        if draw(st.integers(0, 4)) == 0:
            continue
        d = dets[i]
        exposure = draw(st.sampled_from([0.0, 0.0, 0.0, 0.01, 0.05, 0.13, 0.0005]))
        if not d["takes"] and draw(st.integers(0, 3)):
            exposure = 0.0
        frames = draw(st.sampled_from([0, 1, 1, 2, 3, 5]))
        if frames > 1 and not d["multi"] and draw(st.integers(0, 4)):
            frames = 1
        if frames == 0 and not d["takes"] and exposure:
            frames = 1
        rows.append([draw(st.sampled_from([True, True, True, False])), i,
                     draw(st.integers(0, 19)) == 0, exposure, frames])
    dims = [draw(st.integers(1, 3)), draw(st.integers(1, 4))]
    inner = draw(st.booleans())
    size = dims[1] if inner else dims[0] * dims[1]
    bp = []
    if draw(st.sampled_from([0, 0, 1])):
        left = size
        while left and len(bp) < 3 and draw(st.integers(0, 3)):
            bp.append(draw(st.integers(1, left)))
            left -= bp[-1]
    return dict(
        dets=dets, rows=rows if draw(st.integers(0, 5)) else None, dims=dims,
        inner=inner, bp=bp,
        # scanpointgenerator cannot do several frames in a snaked axis
        snake=draw(st.booleans()) and not any(x["multi"] for x in dets),
        duration=draw(st.sampled_from([0.0, 0.0, 0.05, 0.1, 0.4, 1.0, 3.0])),
        only=draw(st.sampled_from(["configure", "configure", "validate"])),
        seeks=draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 12),
                                      st.integers(0, 30)).map(list), max_size=3)),
        template=draw(st.sampled_from([None, "x-%s.hdf"])))


def name(i):
    return "DET%d" % i


def mri(i):
    return "B:DET:%d" % i


class Boundary(Exception):
    """Floating point decides"""


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-3)


def max_exposure(d, duration):
    return max(d["min"], duration - d["readout"] - d["acc"] * duration / 1e6)


def expected(case):
    """(duration, {detector: (enable, exposure, frames)}) or why it is refused"""
    dets = case["dets"]
    rows = case["rows"]
    if rows is None:
        rows = [[bool(d["initial"]), i, False, 0.0, d["initial"] or 1]
                for i, d in enumerate(dets)]
    duration = case["duration"]
    out = {}
    for enable, i, wrong, exposure, frames in rows:
        d = dets[i]
        if not enable:
            out[i] = [False, exposure, frames]
            continue
        if wrong:
            return "wrong mri"
        if exposure and not d["takes"] and not d["multi"]:
            return "does not take exposure"
        if exposure and d["takes"] and exposure < d["min"]:
            return "exposure below minimum"
        if frames == 0:
            if exposure == 0 or duration == 0:
                frames = 1
            else:
                dead = duration - max_exposure(d, duration)
                n = duration / (exposure + dead)
                if abs(n - round(n)) < 1e-9:
                    raise Boundary()
                frames = int(math.floor(n))
                if frames == 0:
                    # the longest exposure is never less than the minimum
                    if exposure <= max_exposure(d, duration):
                        raise Boundary()
                    return "exposure too long"
        if frames > 1 and not d["multi"]:
            return "no multiplier"
        out[i] = [True, exposure, frames]
    if duration == 0.0:
        needed = [
            (o[1] or dets[i]["min"]) + dets[i]["readout"] for i, o in out.items()]
        needed = [
            n / (1 - dets[i]["acc"] / 1e6) * o[2]
            for n, (i, o) in zip(needed, out.items()) if o[0] and dets[i]["takes"]]
        duration = max(needed or [0.0])
        for en, i, _, exposure, frames in rows:
            # several frames may fit in what another detector needs
            if en and exposure and frames == 0:
                d = dets[i]
                n = duration / (exposure + duration - max_exposure(d, duration))
                if abs(n - 1) < 1e-9:
                    n = 1
                elif abs(n - round(n)) < 1e-9:
                    raise Boundary()
                out[i][2] = int(math.floor(n))
                if out[i][2] > 1 and not d["multi"]:
                    return "no multiplier"
    for i, o in out.items():
        d = dets[i]
        if o[0] and d["takes"]:
            longest = max_exposure(d, duration / o[2])
            if o[1] == 0.0:
                o[1] = longest
            elif close(o[1], longest):
                if case["duration"]:
                    raise Boundary()
            elif o[1] > longest:
                return "exposure too long"
    for i in range(len(dets)):
        if i not in out:
            out[i] = [False, 0.0, 0]
    return duration, out


def make_gen(case):
    return CompoundGenerator(
        [LineGenerator("y", "mm", 0, 1, case["dims"][0]),
         LineGenerator("x", "mm", 0, 3, case["dims"][1], case["snake"])], [], [],
        case["duration"])


@check.sub("detectors", cases, quick=1000, thorough=12000, shards=8, budget=30)
def detectors(case, t):
    d = tempfile.mkdtemp()
    process = Process("proc")
    try:
        top = RunnableController("TOP", config_dir=d)
        drivers = []
        for i, det in enumerate(case["dets"]):
            c = RunnableController(mri(i), config_dir=d)
            p = DetPart("driver")
            p.seen = []
            drivers.append(p)
            c.add_part(p)
            if det["takes"]:
                c.add_part(ExposureDeadtimePart("dt", det["readout"], det["acc"],
                                                det["min"]))
            c.add_part(DatasetTablePart("ds"))
            process.add_controller(c)
            top.add_part(DetectorChildPart(
                name(i), mri(i), True, initial_frames_per_step=det["initial"]))
        m = MultiPart("multi")
        m.mris = [mri(i) for i, det in enumerate(case["dets"]) if det["multi"]]
        top.add_part(m)
        top.add_part(DatasetTablePart("ds"))
        process.add_controller(top)
        process.start(timeout=20)
        scan(process, drivers, case, d, t)
    finally:
        process.stop(timeout=20)
        shutil.rmtree(d, ignore_errors=True)


def value(process, *path):
    ok, v = get(process, list(path) + ["value"])
    require(ok, "%s", v)
    return v


def scan(process, drivers, case, d, t):
    g = make_gen(case)
    params = dict(generator=g, fileDir=d)
    if case["rows"] is not None:
        params["detectors"] = DetectorTable.from_rows(
            [[en, name(i), "OTHER" if wrong else mri(i), ex, fr]
             for en, i, wrong, ex, fr in case["rows"]])
    if case["inner"]:
        params["axesToMove"] = ["x"]
    if case["bp"]:
        params["breakpoints"] = case["bp"]
    if case["template"]:
        params["fileTemplate"] = case["template"]
    ok, block = get(process, ["TOP"])
    want = [[bool(x["initial"]), name(i), mri(i), 0.0, x["initial"] or 1]
            for i, x in enumerate(case["dets"])]
    got = block["configure"]["meta"]["defaults"]["detectors"]
    got = [list(r) for r in zip(*[got[k] for k in
                                  ("enable", "name", "mri", "exposure",
                                   "framesPerStep")])]
    require(got == want, "default detectors are %s, expected %s", got, want)
    try:
        want = expected(case)
    except Boundary:
        t.label("boundary")
        return
    rs = ask(process, "TOP", Post(id=1, path=["TOP", case["only"]],
                                  parameters=params))
    yield_all(3)
    require(len(rs) == 1, "answered with %s", rs)
    r = rs[0]
    failed = "Error" in r["typeid"]
    if isinstance(want, str):
        t.label(want)
        t.nontrivial()
        require(failed, "%s was accepted for %s: %s", want, case["rows"],
                None if failed else r["value"]["detectors"])
        for i, p in enumerate(drivers):
            require(not p.seen, "detector was configured although the scan was "
                    "refused (%s)", want)
            require(value(process, mri(i), "state") == "Ready", "detector is in "
                    "state %s", value(process, mri(i), "state"))
        require(value(process, "TOP", "state") == "Ready", "state %s after %s",
                value(process, "TOP", "state"), want)
        return
    duration, out = want
    require(not failed, "rows %s duration %s refused: %s, expected %s", case["rows"],
            case["duration"], r.get("message"), want)
    got = r["value"]
    require(close(got["generator"]["duration"], duration), "duration is %s, expected "
            "%s", got["generator"]["duration"], duration)
    table = {n: [en, ex, fr, m] for en, n, m, ex, fr in zip(
        *[got["detectors"][k] for k in
          ("enable", "name", "mri", "exposure", "framesPerStep")])}
    require(len(table) == len(got["detectors"]["name"]) == len(out), "table has "
            "rows %s", got["detectors"]["name"])
    changed = case["duration"] == 0
    for i, (enable, exposure, frames) in out.items():
        row = table.get(name(i))
        require(row is not None, "no row for %s in %s", name(i), table)
        require(row[0] == enable and close(row[1], exposure) and row[2] == frames,
                "%s: row is %s, expected %s", name(i), row,
                [enable, exposure, frames])
        changed = changed or frames > 1
    t.nontrivial(changed or any(o[0] for o in out.values()))
    given = {name(i): [en, ex, fr] for en, i, _, ex, fr in case["rows"] or []}
    for n, (en, ex, fr) in given.items():
        row = table[n]
        if ex:
            require(row[1] == ex, "exposure given as %s became %s", ex, row[1])
        if fr:
            require(row[2] == fr, "frames given as %s became %s", fr, row[2])
    if case["only"] == "validate":
        require(not any(p.seen for p in drivers), "validate configured a detector")
        return
    size = case["dims"][0] * case["dims"][1]
    require(got["generator"]["generators"] == plain(g)["generators"] and
            len(got["generator"]["excluders"]) == 0, "generator changed to %s",
            got["generator"])
    pg = make_gen(case)
    pg.prepare()
    points = [pg.get_point(j).positions for j in range(size)]
    enabled = {}
    for i, p in enumerate(drivers):
        enable, exposure, frames = out[i]
        state = value(process, mri(i), "state")
        if not enable:
            require(not p.seen and state == "Ready", "detector %s is not enabled but "
                    "was configured, state %s", i, state)
            continue
        enabled[i] = frames
        require(len(p.seen) == 1 and state == "Armed", "detector %s configured %s "
                "times, state %s", i, len(p.seen), state)
        s = p.seen[0]
        require(s["fileDir"] == d and s["formatName"] == name(i) and
                s["fileTemplate"] == (case["template"] or "%s.h5"), "detector got "
                "file %s", s)
        cg = s["generator"]
        cg.prepare()
        require(cg.size == size * frames, "detector does %s frames for %s steps of %s",
                cg.size, size, frames)
        require(close(cg.duration * frames, got["generator"]["duration"]),
                "frame duration %s, %s frames, step duration %s", cg.duration,
                frames, got["generator"]["duration"])
        for j in range(cg.size):
            pos = cg.get_point(j).positions
            require({k: pos[k] for k in ("x", "y")} == points[j // frames],
                    "frame %s is at %s, step is at %s", j, pos, points[j // frames])
        if case["dets"][i]["takes"]:
            require(value(process, mri(i), "exposure") == table[name(i)][1],
                    "exposure of detector is %s, table says %s",
                    value(process, mri(i), "exposure"), table[name(i)][1])
        require(value(process, mri(i), "totalSteps") == size * frames, "total steps")
    names = sorted(value(process, "TOP", "datasets")["name"])
    require(names == sorted(name(i) + ".data" for i in enabled), "datasets %s, "
            "enabled %s", names, sorted(enabled))
    if enabled:
        runs(process, drivers, enabled, case, size, t)


def in_step(process, enabled, what):
    """The detectors are set up for the same part of the scan as the scan"""
    top = [value(process, "TOP", k) for k in ("completedSteps", "configuredSteps")]
    for i, frames in enabled.items():
        det = [value(process, mri(i), k) for k in
               ("completedSteps", "configuredSteps")]
        require(det == [x * frames for x in top], "after %s scan has completed and "
                "configured %s, detector %s with %s frames per step has %s", what,
                top, i, frames, det)
    return top


def runs(process, drivers, enabled, case, size, t):
    in_step(process, enabled, "configure")
    seeks = {}
    for when, to, partial in case["seeks"]:
        seeks.setdefault(when, (to, partial))
    n = 0
    wanted = list(range(size))
    for p in drivers:
        p.frames = []
    cover = []
    while value(process, "TOP", "state") == "Armed":
        require(n < 60, "scan does not end")
        if n in seeks:
            to, partial = seeks.pop(n)
            if to <= size:
                rs = ask(process, "TOP", Post(
                    id=2, path=["TOP", "pause"], parameters=dict(lastGoodStep=to)))
                yield_all(3)
                if "Error" not in rs[0]["typeid"]:
                    t.label("seek")
                    cover.append(("seek", to))
                require(value(process, "TOP", "state") == "Armed", "state %s after "
                        "seek to %s: %s", value(process, "TOP", "state"), to, rs)
        else:
            partial = None
        start, end = in_step(process, enabled, "seek" if cover else "run")
        cli = Client(process)
        s = cli.send_to("TOP", Post(id=3, path=["TOP", "run"]), wait=False)
        yield_all(6)
        if partial is not None:
            # let the detectors get some way, each as far as it gets
            done = []
            for k, (i, frames) in enumerate(enabled.items()):
                k = (partial + 5 * k) % ((end - start) * frames)
                drivers[i].credit = k
                done.append(start + k // frames)
            settle(lambda: all(drivers[i].credit == 0 for i in enabled))
            yield_all(20)
            got = value(process, "TOP", "completedSteps")
            require(got == min(done), "detectors got to steps %s, completedSteps is "
                    "%s", done, got)
            t.label("partial")
        for i in enabled:
            drivers[i].credit = 10 ** 6
        s.wait(20)
        yield_all(3)
        for i in enabled:
            drivers[i].credit = 0
        require(len(cli.responses) == 1 and "Error" not in
                cli.responses[0][1]["typeid"], "run gave %s",
                [w for _, w in cli.responses])
        for i, frames in enabled.items():
            f, drivers[i].frames = drivers[i].frames, []
            require(f == list(range(start * frames, end * frames)), "run from %s to "
                    "%s: detector %s with %s frames per step took frames %s", start,
                    end, i, frames, f)
        require(value(process, "TOP", "completedSteps") == end, "completedSteps is "
                "%s after run to %s", value(process, "TOP", "completedSteps"), end)
        n += 1
    require(value(process, "TOP", "state") == "Finished", "state at the end is %s",
            value(process, "TOP", "state"))
    for i in enabled:
        require(value(process, mri(i), "state") == "Finished", "detector is %s",
                value(process, mri(i), "state"))


def settle(done):
    import cothread
    for _ in range(2000):
        if done():
            return
        cothread.Sleep(0.0005)
    require(False, "detectors never got there")
