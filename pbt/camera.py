"""Stand-ins for an areaDetector camera: driver, position labeller, statistics and HDF
writer. Frames go from one to the next when the harness says so."""
import os
from collections import deque
from xml.etree import ElementTree as ET

import cothread

from malcolm.core import (
    BooleanMeta, ChoiceMeta, NumberMeta, Part, StringMeta)
from malcolm.modules.builtin.controllers import StatefulController

from .mal import yield_all

SUFFIXES = "NXY3456789"


class SimPart(Part):
    """Fields that just keep what is put, unless there is a put_<name>"""

    world = None

    def meta(self):
        return {}

    def actions(self):
        return ["start", "stop"]

    def setup(self, registrar):
        super().setup(registrar)
        self.f = {}
        for n, (m, v) in self.meta().items():
            a = m.create_attribute_model()
            a.set_value(v)
            self.f[n] = a
            registrar.add_attribute_model(n, a, getattr(self, "put_" + n, a.set_value))
        for n in self.actions():
            registrar.add_method_model(getattr(self, n), n)

    def v(self, n):
        return self.f[n].value

    def set(self, n, value):
        self.f[n].set_value(value)

    def put_arrayCounter(self, value):
        value = int(value)
        self.set("arrayCounter", value)
        self.set("arrayCounterReadback", value)

    def count(self):
        n = self.v("arrayCounterReadback") + 1
        self.set("arrayCounter", n)
        self.set("arrayCounterReadback", n)
        return n


def num(v=0, dtype="int32"):
    return NumberMeta(dtype, "d"), v


def text(v=""):
    return StringMeta("d"), v


def flag(v=False):
    return BooleanMeta("d"), v


class Driver(SimPart):
    """Takes a frame for each trigger while acquiring, or on its own"""

    def meta(self):
        return dict(
            arrayCounter=num(), arrayCounterReadback=num(), numImages=num(1),
            imageMode=(ChoiceMeta("d", ["Single", "Multiple", "Continuous"]), "Single"),
            arrayCallbacks=flag(), exposure=num(0.0, "float64"),
            acquirePeriod=num(0.0, "float64"), acquiring=flag(),
            triggerMode=text("Hardware"), attributesFile=text(),
            driverVersion=text("2.2"))

    def setup(self, registrar):
        super().setup(registrar)
        self.left = 0
        self.starts = []
        self.ended = None

    def start(self):
        assert not self.v("acquiring"), "already acquiring"
        assert self.v("imageMode") == "Multiple", "image mode"
        assert self.v("arrayCallbacks"), "callbacks not enabled"
        self.left = self.v("numImages")
        self.starts.append(self.left)
        self.ended = cothread.Event()
        self.set("acquiring", True)
        self.ended.Wait(30)

    def stop(self):
        self.left = 0
        # what has been taken goes through the plugins first
        cothread.Spawn(self.world.drain)

    def finish(self):
        """No more to take, and the plugins are done"""
        if self.v("acquiring") and self.left == 0:
            self.set("acquiring", False)
            self.ended.Signal()

    def trigger(self, step):
        if not self.v("acquiring") or self.left <= 0:
            return None
        self.left -= 1
        return dict(uid=self.count(), step=step)


class Labeller(SimPart):
    """Attaches the next position to each frame"""

    def meta(self):
        return dict(
            arrayCounter=num(), arrayCounterReadback=num(), xml=text(),
            enableCallbacks=flag(), idStart=num(1), qty=num())

    def actions(self):
        return ["start", "stop", "delete"]

    def setup(self, registrar):
        super().setup(registrar)
        self.positions = deque()
        self.running = False
        self.expected = 1

    def put_xml(self, value):
        root = ET.fromstring(value)
        names = [d.attrib["name"] for d in root.find("dimensions")]
        for p in root.find("positions"):
            assert sorted(p.attrib) == sorted(names), (p.attrib, names)
            self.positions.append({k: int(x) for k, x in p.attrib.items()})
        self.set("xml", value)
        self.set("qty", len(self.positions))

    def delete(self):
        self.positions.clear()
        self.set("qty", 0)

    def start(self):
        self.expected = self.v("idStart")
        self.running = True

    def stop(self):
        self.running = False

    def receive(self, frame):
        if not self.v("enableCallbacks"):
            return None
        self.count()
        if not self.running or frame["uid"] < self.expected:
            return None
        while frame["uid"] > self.expected and self.positions:
            self.positions.popleft()
            self.expected += 1
        if not self.positions:
            self.running = False
            self.world.problem("the position labeller ran out of positions at frame "
                               "%s" % frame["uid"])
            return None
        frame = dict(frame, pos=self.positions.popleft())
        self.expected += 1
        self.set("qty", len(self.positions))
        return frame


class Stats(SimPart):
    def meta(self):
        return dict(arrayCounter=num(), attributesFile=text(), enableCallbacks=flag(),
                    computeStatistics=flag())

    def actions(self):
        return []


class Writer(SimPart):
    """Puts each frame at its place in the file"""

    def meta(self):
        m = dict(
            arrayCounter=num(), arrayCounterReadback=num(), enableCallbacks=flag(),
            fileWriteMode=text("Single"), swmrMode=flag(), storeAttr=flag(),
            positionMode=flag(), dimAttDatasets=flag(), lazyOpen=flag(),
            filePath=text(), fileName=text(), fileTemplate=text(),
            numExtraDims=num(), flushDataPerNFrames=num(), flushAttrPerNFrames=num(),
            xmlLayout=text(), xmlLayoutValid=flag(True), xmlErrorMsg=text(),
            numCapture=num(1), numCapturedReadback=num(), uniqueId=num(),
            running=flag(), driverVersion=text("2.2"))
        for s in SUFFIXES:
            m["posNameDim" + s] = text("old")
            m["extraDimSize" + s] = num(7)
        return m

    def actions(self):
        return ["start", "stop", "flushNow"]

    def setup(self, registrar):
        super().setup(registrar)
        self.file = None
        self.files = []
        self.ended = None

    def start(self):
        assert not self.v("running"), "already running"
        w = self.world
        dims = []
        for i in range(self.v("numExtraDims") + 1):
            s = SUFFIXES[i]
            dims.insert(0, (self.v("posNameDim" + s), self.v("extraDimSize" + s)))
        path = w.local_path(self.v("xmlLayout"))
        self.file = dict(
            name=self.v("fileTemplate") % (self.v("filePath"), self.v("fileName")),
            dims=dims, frames={}, layout=open(path).read() if os.path.isfile(path)
            else None, settings={k: self.v(k) for k in (
                "fileWriteMode", "swmrMode", "storeAttr", "positionMode",
                "dimAttDatasets", "lazyOpen", "numCapture", "enableCallbacks")})
        self.files.append(self.file)
        self.set("numCapturedReadback", 0)
        self.set("xmlLayoutValid", self.file["layout"] is not None and not w.bad_layout)
        self.ended = cothread.Event()
        self.set("running", True)
        self.ended.Wait(60)

    def stop(self):
        if self.v("running"):
            self.set("running", False)
            self.ended.Signal()

    def flushNow(self):
        assert self.v("running"), "not running"

    def receive(self, frame):
        self.count()
        self.set("uniqueId", frame["uid"])
        if not self.v("running"):
            return
        index = tuple(frame["pos"].get(n, 0) for n, _ in self.file["dims"])
        if any(i >= size for i, (_, size) in zip(index, self.file["dims"])):
            self.world.problem("frame written at %s outside the file of %s" % (
                index, self.file["dims"]))
        self.file["frames"][index] = frame["step"]
        self.set("numCapturedReadback", self.v("numCapturedReadback") + 1)


class World:
    """One camera with its plugins"""

    def __init__(self, process, local_path):
        self.problems = []
        self.bad_layout = False
        self.local_path = local_path
        self.step = 0  # where the sample is
        self.to_pos = deque()
        self.to_hdf = deque()
        self.draining = 0  # yields between deliveries while stopping
        self.blocks = {}
        for n, cls in (("DRV", Driver), ("POS", Labeller), ("STAT", Stats),
                       ("HDF", Writer)):
            part = cls("sim")
            part.world = self
            c = StatefulController(n)
            c.add_part(part)
            process.add_controller(c)
            self.blocks[n] = part
        self.drv, self.pos, self.hdf = [self.blocks[n] for n in ("DRV", "POS", "HDF")]

    def problem(self, msg):
        self.problems.append(msg)

    def expose(self):
        """A frame of where we are"""
        frame = self.drv.trigger(self.step)
        self.step += 1
        if frame:
            self.to_pos.append(frame)
        return frame

    def deliver(self):
        """One frame further on to the labeller"""
        if self.to_pos:
            frame = self.pos.receive(self.to_pos.popleft())
            if frame:
                self.to_hdf.append(frame)
        self.settle()

    def write(self):
        if self.to_hdf:
            self.hdf.receive(self.to_hdf.popleft())
        self.settle()

    def settle(self):
        if not self.to_pos and not self.to_hdf:
            self.drv.finish()

    def drain(self):
        yield_all(self.draining)
        while self.to_pos or self.to_hdf:
            if self.to_hdf:
                self.write()
            else:
                self.deliver()
            yield_all(self.draining)
        self.settle()
