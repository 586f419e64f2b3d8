"""P28: each frame of a camera ends up at its point of the scan"""
import os
import shutil
import tempfile
from xml.etree import ElementTree as ET

import h5py
from annotypes import add_call_types
from hypothesis import strategies as st
from scanpointgenerator import (
    CircularROI, CompoundGenerator, ROIExcluder, LineGenerator, SpiralGenerator,
    StaticPointGenerator)

from malcolm.core import NumberMeta, Part, Post, Process, Put
from malcolm.modules.ADCore import util as adutil
from malcolm.modules.ADCore.parts import (
    DetectorDriverPart, FilepathTranslatorPart, HDFWriterPart, PositionLabellerPart,
    StatsPluginPart, positionlabellerpart)
from malcolm.modules.scanning import hooks as sh
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.parts import DatasetTablePart, ExposureDeadtimePart

from pbt import Check, require
from pbt.camera import World
from pbt.mal import Client, ask, get, yield_all
from pbt.motion import add_block, attr

check = Check(
    "P28", rule="a case is a scan (lines, spirals, static points, regions), the setup of "
    "the camera (trigger mode, extra attributes, statistics, Windows paths) and a "
    "history of exposures, deliveries of frames between plugins, pauses, seeks, aborts "
    "and resets; non-trivial = paused, sought or aborted, or in several pieces",
    assumptions=["frames taken before the camera was stopped have gone through the "
                 "plugins when it reports that it is no longer acquiring",
                 "the labeller gets its positions faster than the frames arrive"])


class MotionPart(Part):
    """Moves the sample and triggers the camera"""
    world = step = None
    target = 0
    moving = False

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook((sh.ConfigureHook, sh.PostRunArmedHook, sh.SeekHook),
                       self.on_configure)
        registrar.hook(sh.RunHook, self.on_run)

    @add_call_types
    def on_configure(self, completed_steps: sh.ACompletedSteps,
                     steps_to_do: sh.AStepsToDo) -> None:
        self.world.step = completed_steps
        self.step.set_value(completed_steps)
        self.target = completed_steps + steps_to_do

    @add_call_types
    def on_run(self, context: sh.AContext) -> None:
        self.moving = True
        try:
            context.block_view("MOT").when_value_matches("step", self.target)
        finally:
            self.moving = False


@st.composite
def cases(draw):
    dims = []
    names = ["x", "y", "z"]
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["line"] * 5 + ["static", "spiral"]))
        if kind == "spiral" and len(names) == 3:
            dims.append(["spiral", names.pop(0), names.pop(0),
                         draw(st.sampled_from([0.8, 1.0])), draw(st.booleans())])
        elif kind == "static" and dims:
            dims.append(["static", draw(st.integers(1, 3))])
        elif names:
            dims.append(["line", names.pop(0), draw(st.integers(-9, 9)),
                         draw(st.integers(-9, 9)), draw(st.integers(1, 4)),
                         draw(st.booleans())])
    case = dict(
        dims=dims, roi=draw(st.integers(0, 3)) == 0,
        duration=draw(st.sampled_from([0.1, 0.02, 1.0])),
        inner=draw(st.integers(0, len(dims))),
        breakpoints=draw(st.booleans()) and draw(
            st.lists(st.integers(1, 4), min_size=1, max_size=4)) or [],
        soft=draw(st.sampled_from([False, False, True])),
        exposure=draw(st.sampled_from([0.0, 0.005, None])),
        readout=draw(st.sampled_from([0.0, 0.001])),
        attrs=draw(st.lists(st.tuples(
            st.sampled_from(["I0", "T", "It", "X"]),
            st.sampled_from(["PVAttribute", "paramAttribute"]),
            st.sampled_from(["INT", "DOUBLE", "STRING", "DBR_NATIVE"]),
            st.sampled_from(["detector", "monitor", "position"])), max_size=3,
            unique_by=lambda a: a[0])),
        stats=draw(st.sampled_from([None, "SUM", "MAX", "NET"])),
        useful=draw(st.sampled_from([True, True, True, False])),
        windows=draw(st.sampled_from([None, None, "letter", "network"])),
        demand=draw(st.booleans()), all_attrs=draw(st.booleans()),
        subdir=draw(st.integers(0, 2)), slash=draw(st.booleans()),
        name=draw(st.sampled_from([["det", "%s.h5"], ["cam", "run-%s.hdf"],
                                   ["a.b", "%s.v1.h5"]])),
        bad_layout=draw(st.integers(0, 15)) == 0,
        draining=draw(st.integers(0, 6)),
        per_xml=draw(st.integers(2, 6)),
        rounds=draw(st.lists(st.tuples(
            st.text("TTPH", max_size=12),
            st.sampled_from(["pause", "pause", "seek", "abort", "none"]),
            st.integers(0, 9)), max_size=4)))
    case["attrs"] = [list(a) for a in case["attrs"]]
    case["rounds"] = [list(a) for a in case["rounds"]]
    return case


def make_gen(case):
    gens, axes = [], []
    for d in case["dims"]:
        if d[0] == "line":
            gens.append(LineGenerator(d[1], "mm", d[2] / 10, d[3] / 10, d[4], d[5]))
            axes.append([d[1]])
        elif d[0] == "static":
            gens.append(StaticPointGenerator(d[1]))
            axes.append([])
        else:
            gens.append(SpiralGenerator([d[1], d[2]], ["mm", "um"], [0.1, 0.2], d[3],
                                        alternate=d[4]))
            axes.append([d[1], d[2]])
    excluders = []
    flat = sum(axes, [])
    if case["roi"] and len(flat) > 1:
        excluders = [ROIExcluder([CircularROI([0.1, 0.1], 0.7)], flat[:2])]
    move = sum(axes[len(axes) - case["inner"]:], []) if not excluders else flat
    if not move or case["inner"] == 0:
        move = flat
    return CompoundGenerator(gens, excluders, [], case["duration"]), move


def value(process, *path):
    ok, v = get(process, list(path) + ["value"])
    require(ok, "Get %s: %s", path, v)
    return v


@check.sub("camera", cases, quick=500, thorough=12000, shards=6, budget=30)
def camera(case, t):
    try:
        gen, move = make_gen(case)
        gen.prepare()
    except ValueError:
        # not all can be put together
        t.label("invalid")
        return
    if gen.size == 0:
        t.label("empty")
        return
    top = tempfile.mkdtemp(prefix="p28")
    old = getattr(positionlabellerpart, "POSITIONS_PER_XML", None)
    if old is not None:
        positionlabellerpart.POSITIONS_PER_XML = case["per_xml"]
    try:
        run_case(case, gen, move, top, t)
    finally:
        if old is not None:
            positionlabellerpart.POSITIONS_PER_XML = old
        shutil.rmtree(top)


def run_case(case, gen, move, top, t):
    d = top
    if case["subdir"] == 1:
        d = top + "/visit"
    elif case["subdir"] == 2:
        d = top + "/old" + top
    os.makedirs(d, exist_ok=True)
    win = case["windows"]

    def local(path):
        if not win or not path:
            return path
        path = path.replace("\\", "/")
        start = "D:" if win == "letter" else "//dc" + top
        if path.startswith(start):
            return top + path[len(start):]
        return "nowhere:" + path

    process = Process("p")
    process.start()
    try:
        world = World(process, local)
        world.draining = case["draining"]
        mot = MotionPart("motion")
        mot.world = world
        mot.step = attr(NumberMeta("int32", "d"), 0)
        add_block(process, "MOT", dict(step=mot.step))
        soft = case["soft"]
        c = RunnableController("DET", config_dir=top)
        on_windows = dict(runs_on_windows=bool(win))
        c.add_part(DetectorDriverPart(
            "DRV", "DRV", soft_trigger_modes=["Internal"],
            main_dataset_useful=case["useful"], **on_windows))
        if case["exposure"] is not None:
            c.add_part(ExposureDeadtimePart("DEAD", case["readout"], 50.0, 0.001))
        c.add_part(PositionLabellerPart("POS", "POS"))
        if case["stats"]:
            c.add_part(StatsPluginPart(
                "STAT", "STAT", adutil.StatisticsName[case["stats"]], **on_windows))
        c.add_part(HDFWriterPart(
            "HDF", "HDF", write_all_nd_attributes=case["all_attrs"],
            remove_demand_positions_from_xml=not case["demand"], **on_windows))
        c.add_part(DatasetTablePart("DSET"))
        if win:
            c.add_part(FilepathTranslatorPart(
                "WIN", "D", top, "//dc" if win == "network" else ""))
        c.add_part(mot)
        process.add_controller(c)
        if soft:
            world.drv.set("triggerMode", "Internal")
        yield_all(10)
        names = value(process, "DET", "layout")["name"]
        rs = ask(process, "DET", Put(id=1, path=["DET", "layout", "value"], value=dict(
            name=names, mri=names, x=[0] * len(names), y=[0] * len(names),
            visible=[True] * len(names))))
        require("Error" not in rs[0]["typeid"], "layout: %s", rs)
        attrs = dict(zip(("name", "sourceType", "dataType", "datasetType"),
                         [list(x) for x in zip(*case["attrs"])] or [[]] * 4))
        attrs["sourceId"] = ["pv:" + n for n in attrs["name"]]
        attrs["description"] = ["desc " + n for n in attrs["name"]]
        rs = ask(process, "DET", Put(
            id=1, path=["DET", "attributesToCapture", "value"], value=attrs))
        bad = any(a[1] == "paramAttribute" and a[2] == "DBR_NATIVE"
                  for a in case["attrs"])
        require(("Error" in rs[0]["typeid"]) == bad,
                "attributes %s: answer %s", case["attrs"], rs)
        if bad:
            case = dict(case, attrs=[])
        Scan(process, case, gen, move, d, world, mot, t).go()
    finally:
        world.drv.left = 0
        world.drv.finish()
        world.hdf.stop()
        process.stop(timeout=30)


class Scan:
    def __init__(self, process, case, gen, move, d, world, mot, t):
        self.process, self.case, self.gen, self.dir = process, case, gen, d
        self.world, self.mot, self.t, self.move = world, mot, t, move
        self.exposure = None

    def state(self):
        return value(self.process, "DET", "state")

    def completed(self):
        return value(self.process, "DET", "completedSteps")

    def post(self, method, **params):
        rs = ask(self.process, "DET", Post(id=1, path=["DET", method],
                                           parameters=params))
        require(len(rs) == 1, "%s gave %s", method, rs)
        ok = "Error" not in rs[0]["typeid"]
        return ok, rs[0].get("message") or rs[0].get("value")

    def good(self, method, **params):
        ok, v = self.post(method, **params)
        require(ok, "%s(%s) failed: %s", method, params, v)
        return v

    def configure(self):
        case = self.case
        bps, total = [], 0
        for b in case["breakpoints"]:
            if total + b < self.gen.size:
                bps.append(b)
                total += b
        if bps:
            bps.append(self.gen.size - total)
        fmt, template = case["name"]
        params = dict(
            generator=self.gen, fileDir=self.dir + ("/" if case["slash"] else ""),
            axesToMove=self.move, formatName=fmt, fileTemplate=template)
        if bps:
            # then all axes are moved
            params.update(breakpoints=bps, axesToMove=list(self.gen.axes))
            self.t.label("breakpoints")
        if case["exposure"] is not None:
            params["exposure"] = case["exposure"]
        self.world.bad_layout = case["bad_layout"]
        ok, v = self.post("configure", **params)
        if case["bad_layout"]:
            require(not ok, "the HDF writer said the layout was bad and configure "
                    "succeeded")
            require(self.state() == "Fault", "state %s after bad layout", self.state())
            self.world.bad_layout = False
            self.case = case = dict(case, bad_layout=False)
            self.good("reset")
            ok, v = self.post("configure", **params)
        require(ok, "configure failed: %s", v)
        require(self.state() == "Armed", "state %s after configure", self.state())
        if isinstance(v, dict):
            self.exposure = v.get("exposure")
        self.check_setup()

    def check_setup(self):
        case, w = self.case, self.world
        drv = w.drv
        f = w.hdf.file
        require(w.hdf.v("running"), "HDF writer is not running")
        name = self.dir + "/" + case["name"][1] % case["name"][0]
        require(w.local_path(f["name"]) == name, "file is %s, should be %s", f["name"],
                name)
        want = dict(fileWriteMode="Stream", swmrMode=True, storeAttr=True,
                    positionMode=True, dimAttDatasets=True, lazyOpen=True, numCapture=0,
                    enableCallbacks=True)
        require(f["settings"] == want, "HDF writer started with %s", f["settings"])
        dims = self.gen.dimensions
        require(f["dims"] == [("d%d" % i, x.size) for i, x in enumerate(dims)],
                "dimensions %s of the file, should be %s", f["dims"],
                [x.size for x in dims])
        require(drv.v("acquiring") != case["soft"], "acquiring %s with soft triggers %s",
                drv.v("acquiring"), case["soft"])
        declared = set()
        if case["attrs"]:
            path = w.local_path(drv.v("attributesFile"))
            root = ET.parse(path).getroot()
            got = {a.attrib["name"]: a.attrib for a in root}
            require(sorted(got) == sorted(a[0] for a in case["attrs"]),
                    "attributes %s declared to the driver", sorted(got))
            for n, source, typ, _ in case["attrs"]:
                a = got[n]
                want = dict(name=n, description="desc " + n, source="pv:" + n)
                if source == "PVAttribute":
                    want.update(type="EPICS_PV", dbrtype={
                        "INT": "DBR_LONG", "DOUBLE": "DBR_DOUBLE",
                        "STRING": "DBR_STRING"}.get(typ, typ))
                else:
                    want.update(type="PARAM", datatype=typ)
                require(a == want, "attribute %s declared, should be %s", a, want)
            declared |= set(got)
        if case["stats"]:
            stat = w.blocks["STAT"]
            require(stat.v("enableCallbacks") and stat.v("computeStatistics"),
                    "statistics are not enabled")
            root = ET.parse(w.local_path(stat.v("attributesFile"))).getroot()
            declared |= {a.attrib["name"] for a in root}
            source = adutil.StatisticsName[case["stats"]].value
            require([a.attrib["source"] for a in root] == [source],
                    "statistics plugin has %s", [a.attrib for a in root])
        self.check_layout(f["layout"], declared)
        if case["exposure"] is not None:
            got, period = drv.v("exposure"), drv.v("acquirePeriod")
            if case["exposure"]:
                require(got == case["exposure"], "exposure %s, asked for %s", got,
                        case["exposure"])
            require(0.001 <= got and got + case["readout"] <= case["duration"] + 1e-9,
                    "exposure %s does not fit duration %s", got, case["duration"])
            require(got + case["readout"] - 1e-9 <= period <= case["duration"] + 1e-9,
                    "period %s, exposure %s, readout %s, duration %s", period, got,
                    case["readout"], case["duration"])

    def check_layout(self, layout, declared):
        case = self.case
        root = ET.fromstring(layout)
        datasets, links, attribs = {}, {}, {}

        def walk(el, path):
            for ch in el:
                p = path + "/" + ch.attrib.get("name", "")
                if ch.tag == "group":
                    attribs[p] = {a.attrib["name"]: a.attrib.get("value") for a in ch
                                  if a.tag == "attribute"}
                    walk(ch, p)
                elif ch.tag == "dataset":
                    require(p not in datasets, "dataset %s twice", p)
                    datasets[p] = ch.attrib
                elif ch.tag == "hardlink":
                    links[p] = ch.attrib["target"]

        walk(root, "")
        for p, target in links.items():
            require(target in datasets, "link %s to %s which does not exist", p, target)
        places = set(datasets) | set(links)
        require(datasets.get("/entry/detector/detector", {}).get("source") == "detector",
                "no detector data in the layout")
        sources = {}
        for p, a in datasets.items():
            if a["source"] == "ndattribute":
                n = a["ndattribute"]
                sources.setdefault(n, []).append(p)
                require(n in declared or n in ("NDArrayUniqueId", "NDArrayTimeStamp"),
                        "dataset %s from attribute %s, but only %s are produced", p, n,
                        sorted(declared))
        for n in declared | {"NDArrayUniqueId"}:
            require(n in sources, "attribute %s is not written", n)
        require(root.find(".//group[@name='NDAttributes']").attrib["ndattr_default"]
                == ("true" if case["all_attrs"] else "false"), "ndattr_default")
        # set points
        axes = {}
        for i, dim in enumerate(self.gen.dimensions):
            for a in dim.axes:
                axes[a] = i, [float(x) for x in dim.get_positions(a)]
        rank = len(self.gen.dimensions)
        additional = None
        if case["demand"]:
            for a, (i, points) in axes.items():
                el = datasets.get("/entry/detector/%s_set" % a)
                require(el is not None, "no set points of %s", a)
                got = [float(x) for x in el["value"].split(",")]
                require(len(got) == len(points) and all(
                    abs(x - y) < 1e-9 for x, y in zip(got, points)),
                    "set points %s of %s should be %s", got, a, points)
            signal = [["%s_set" % x.axes[0] if len(x.axes) == 1 else "."]
                      for x in self.gen.dimensions]
            signal = ",".join(sum(signal, []) + [".", "."])
            for g in {p.rsplit("/", 1)[0] for p in places} - {"/entry/NDAttributes"}:
                require(attribs[g].get("axes") == signal, "axes of %s are %s should be "
                        "%s", g, attribs[g].get("axes"), signal)
                require("%s/%s" % (g, attribs[g].get("signal")) in places,
                        "signal of %s", g)
                for a, (i, _) in axes.items():
                    require(attribs[g].get(a + "_set_indices") == str(i),
                            "indices of %s in %s", a, g)
                    require("%s/%s_set" % (g, a) in places, "no %s_set in %s", a, g)
        # what is published
        ds = value(self.process, "DET", "datasets")
        rows = list(zip(ds["name"], ds["filename"], ds["type"], ds["rank"], ds["path"],
                        ds["uniqueid"]))
        fname = case["name"][1] % case["name"][0]
        types = sorted(r[2] for r in rows)
        want = ["position_set"] * len(axes)
        if case["useful"]:
            want.append("primary")
            if case["stats"]:
                want.append("secondary")
        for a in case["attrs"]:
            want.append(dict(detector="primary", monitor="monitor",
                             position="position_value")[a[3]])
        require(types == sorted(want), "datasets %s, should be %s", types, sorted(want))
        for n, filename, typ, r, path, uid in rows:
            if typ == "position_set":
                a = n[:-len(".value_set")]
                require(a in axes and r == 1, "dataset %s rank %s", n, r)
                if case["demand"]:
                    require(filename == fname, "set points in %s", filename)
                else:
                    require(os.path.isfile(os.path.join(self.dir, filename)),
                            "no file %s for the set points", filename)
                    with h5py.File(os.path.join(self.dir, filename), "r",
                                   swmr=True) as f:
                        require(path in f, "no %s in %s", path, filename)
                        got = list(f[path])
                        require(got == axes[a][1], "set points %s of %s should be %s",
                                got, a, axes[a][1])
                        require(f[path].attrs["units"] == self.gen.units[a], "units")
                    additional = filename
                    continue
            else:
                require(filename == fname, "%s is in file %s", n, filename)
                require(uid in datasets, "unique id of %s is %s", n, uid)
                main = n == case["name"][0] + ".data" and path == \
                    "/entry/detector/detector"
                require(r == rank + (2 if main else 0), "rank %s of %s", r, n)
            require(path in places, "%s is said to be at %s, the file has %s", n, path,
                    sorted(places))
        require(additional is None or additional != fname, "same file")

    def trigger(self):
        w = self.world
        if self.case["soft"]:
            if w.drv.v("acquiring") and w.drv.left > 0:
                w.expose()
                self.mot.step.set_value(w.step)
        elif self.mot.moving and w.step < self.mot.target:
            taken = w.expose()
            require(taken is not None, "the camera was not ready for the trigger of "
                    "step %s", w.step - 1)
            self.mot.step.set_value(w.step)

    def act(self, what):
        dict(T=self.trigger, P=self.world.deliver, H=self.world.write)[what]()
        self.pump()
        w = self.world
        if self.state() == "Running" and not w.to_pos and not w.to_hdf:
            require(self.completed() == w.step, "completedSteps %s when all the %s "
                    "frames taken are in the file", self.completed(), w.step)

    def pump(self):
        yield_all(25)
        w = self.world
        require(not w.problems, "%s", w.problems)
        self.progress()

    def stored(self):
        """Number of steps from the start that are in the file as they should"""
        f = self.world.hdf.file["frames"]
        for i in range(self.gen.size):
            if f.get(tuple(self.gen.get_point(i).indexes)) != i:
                return i
        return self.gen.size

    def progress(self):
        done = self.completed()
        require(done <= self.stored(), "completedSteps %s, but the file only has the "
                "first %s", done, self.stored())

    def go(self):
        case, t = self.case, self.t
        self.configure()
        for schedule, op, n in case["rounds"]:
            spawned, client = self.start()
            for x in schedule:
                self.act(x)
            state = self.state()
            if op in ("pause", "seek") and state in ("Running", "Armed", "Finished",
                                                     "Paused"):
                step = -1
                if op == "seek":
                    step = self.completed() * n // 9
                    if step == value(self.process, "DET", "configuredSteps"):
                        # at the end of a piece it goes one back
                        step -= 1
                self.good("pause", lastGoodStep=step)
                t.nontrivial()
                t.label(op + " " + state)
                self.pump()
                if step >= 0:
                    require(self.completed() == step, "completedSteps %s after pause "
                            "at %s", self.completed(), step)
                if state == "Running":
                    require(self.state() == "Paused", "state %s", self.state())
            elif op == "abort":
                self.good("abort")
                t.nontrivial()
                t.label("abort " + state)
                spawned.wait(20) if spawned else None
                self.good("reset")
                self.check_reset()
                self.configure()
        pieces = 0
        for _ in range(60):
            if self.state() == "Finished":
                break
            spawned, client = self.start()
            for _ in range(3 * self.gen.size + 3):
                self.act("T")
                self.act("P")
                self.act("H")
                if self.state() != "Running":
                    break
            spawned.wait(20)
            require(self.state() in ("Armed", "Finished"), "state %s after run, "
                    "answer %s, completed %s", self.state(),
                    [x for _, x in client.responses], self.completed())
            t.label("pieces")
            pieces += 1
            t.nontrivial(pieces > 1)
        require(self.state() == "Finished", "state %s", self.state())
        f = self.world.hdf.file["frames"]
        for i in range(self.gen.size):
            idx = tuple(self.gen.get_point(i).indexes)
            require(f.get(idx) == i, "the file has the frame of step %s at %s where "
                    "that of step %s belongs", f.get(idx), idx, i)
        require(len(f) == self.gen.size, "%s frames in the file of %s points", len(f),
                self.gen.size)
        require(self.completed() == self.gen.size, "completed %s", self.completed())
        self.good("reset")
        self.check_reset()

    def start(self):
        """Run or resume"""
        state = self.state()
        method = {"Armed": "run", "Paused": "resume"}.get(state)
        client = Client(self.process)
        if method == "run":
            spawned = client.send_to("DET", Post(id=7, path=["DET", method]),
                                     wait=False)
            self.run_client = spawned, client
        elif method:
            self.good("resume")
        self.pump()
        return getattr(self, "run_client", (None, None))

    def check_reset(self):
        require(self.state() == "Ready", "state %s after reset", self.state())
        w = self.world
        left = [x for x in os.listdir(self.dir) if x.endswith(".xml")]
        require(not left, "files %s left after reset", left)
        for b, n in (("DRV", "attributesFile"), ("STAT", "attributesFile"),
                     ("HDF", "xmlLayout")):
            require(w.blocks[b].v(n) == "", "%s %s after reset is %s", b, n,
                    w.blocks[b].v(n))
        require(not w.hdf.v("running") and not w.drv.v("acquiring"),
                "still going after reset")
