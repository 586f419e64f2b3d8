"""P36: the file of an Odin scan has every frame at its point"""
import os
import shutil
import tempfile

import cothread
import h5py
import numpy as np
from hypothesis import strategies as st
from scanpointgenerator import (
    CircularROI, CompoundGenerator, LineGenerator, ROIExcluder, SpiralGenerator,
    SquashingExcluder, StaticPointGenerator)

from malcolm.core import Post, Process, Put
from malcolm.modules.ADOdin.parts import OdinWriterPart
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.parts import DatasetTablePart, UnrollingPart

from pbt import Check, require
from pbt.camera import SimPart, num, text
from pbt.mal import Client, ask, get, yield_all
from pbt.motion import add_block
from pbt.ws import wait_for

check = Check(
    "P36", rule="a case is a scan (lines, spirals, static points, regions, snakes with "
    "or without the part that unrolls them), a number of writer processes, a block size, "
    "the size and type of the images, and when frames are captured and scans aborted; "
    "non-trivial = two or more writers and more than one block, or a snake, or cut up",
    assumptions=["process i of n writes blocks i, i + n, ... of the frames to its file",
                 "uid and sum are one value per frame, as 1 x 1 images"])


class Writer(SimPart):
    """Writes files as Odin does"""

    files = uid_name = sum_name = ended = None
    problem = None

    def meta(self):
        return dict(numCapture=num(), numCaptured=num(), numProcesses=num(1),
                    imageHeight=num(1), imageWidth=num(1), blockSize=num(1),
                    dataType=text("UInt16"), filePath=text(), fileName=text())

    def setup(self, registrar):
        super().setup(registrar)
        self.stopped = 0
        self.running = False

    def start(self):
        assert not self.running, "already running"
        self.running = True
        self.total = self.v("numCapture")
        self.files = []
        dtype = self.v("dataType").lower()
        shape = (self.v("imageHeight"), self.v("imageWidth"))
        for i in range(self.v("numProcesses")):
            path = self.v("filePath") + self.v("fileName") + "_%06d.h5" % (i + 1)
            f = h5py.File(path, "w", libver="latest")
            f.create_dataset("data", (0,) + shape, maxshape=(None,) + shape, dtype=dtype)
            for n in (self.uid_name, self.sum_name):
                f.create_dataset(n, (0, 1, 1), maxshape=(None, 1, 1), dtype="uint64")
            self.files.append(f)
        self.set("numCaptured", 0)
        self.ended = cothread.Event()
        self.ended.Wait(60)

    def image(self, i):
        """Image of step i, no two are alike"""
        h, w = self.v("imageHeight"), self.v("imageWidth")
        return (np.arange(h * w) * 3 + i * 7 + 1).reshape((h, w)) % 251

    def capture(self):
        i = self.v("numCaptured")
        if i >= self.total:
            self.problem = "more frames than were asked for"
            return
        f = self.files[i // self.v("blockSize") % len(self.files)]
        for n, v in (("data", self.image(i)), (self.uid_name, i + 1),
                     (self.sum_name, 1000 + 3 * i)):
            d = f[n]
            d.resize(d.shape[0] + 1, 0)
            d[-1] = v
        self.set("numCaptured", i + 1)

    def close(self):
        if self.running:
            self.running = False
            for f in self.files:
                f.close()
            self.ended.Signal()

    def stop(self):
        self.stopped += 1
        self.close()


@st.composite
def cases(draw):
    dims = []
    names = ["x", "y", "z"]
    snake = draw(st.sampled_from([0, 0, 1]))
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(["line"] * 5 + ["static", "spiral"]))
        alt = bool(snake) and draw(st.booleans())
        if kind == "spiral" and len(names) == 3:
            dims.append(["spiral", names.pop(0), names.pop(0),
                         draw(st.sampled_from([0.8, 1.0])), alt])
        elif kind == "static" and dims:
            dims.append(["static", draw(st.integers(1, 3))])
        elif names:
            dims.append(["line", names.pop(0), draw(st.integers(-9, 9)),
                         draw(st.integers(-9, 9)), draw(st.integers(1, 6)), alt])
    return dict(
        dims=dims, roi=draw(st.integers(0, 3)) == 3, squash=draw(st.integers(0, 5)) == 5,
        inner=draw(st.integers(0, len(dims))),
        duration=draw(st.sampled_from([0.1, 1.0, 0.02])),
        breakpoints=draw(st.booleans()) and draw(
            st.lists(st.integers(1, 4), min_size=1, max_size=4)) or [],
        unroll=draw(st.sampled_from([None, True, True, False])),
        processes=draw(st.integers(1, 5)), block=draw(st.sampled_from(
            [1, 1, 2, 3, 4, 7, 1000])),
        height=draw(st.integers(1, 4)), width=draw(st.integers(1, 4)),
        dtype=draw(st.sampled_from(["UInt8", "UInt16", "uint32"])),
        names=draw(st.sampled_from([["uid", "sum"], ["ID", "total"]])),
        secondary="sum",
        slash=draw(st.booleans()),
        name=draw(st.sampled_from([["det", "%s.h5"], ["cam", "run-%s.hdf"],
                                   ["odin2", "a_%s_b.h5"],
                                   ["a.b", "%s.v1.h5"], [None, None]])),
        again=draw(st.booleans()), abort=draw(st.one_of(
            st.none(), st.integers(0, 20))),
        early=draw(st.booleans()))


def make_gen(case):
    gens, axes = [], []
    for d in case["dims"]:
        if d[0] == "line":
            gens.append(LineGenerator(d[1], "mm", d[2] / 10, d[3] / 10, d[4], d[5]))
            axes.append([d[1]])
        elif d[0] == "static":
            gens.append(StaticPointGenerator(d[1]))
            axes.append([])
        else:
            gens.append(SpiralGenerator([d[1], d[2]], ["mm", "um"], [0.1, 0.2], d[3],
                                        alternate=d[4]))
            axes.append([d[1], d[2]])
    excluders = []
    flat = sum(axes, [])
    if case["roi"] and len(flat) > 1:
        excluders = [ROIExcluder([CircularROI([0.1, 0.1], 0.7)], flat[:2])]
    move = sum(axes[len(axes) - case["inner"]:], []) if not excluders else flat
    if not move or case["inner"] == 0:
        move = flat
    if case["squash"] and len(move) > 1:
        excluders.append(SquashingExcluder(axes=move))
    return CompoundGenerator(gens, excluders, [], case["duration"]), move


def value(process, *path):
    ok, v = get(process, list(path) + ["value"])
    require(ok, "Get %s: %s", path, v)
    return v


@check.sub("odin", cases, quick=500, thorough=12000, shards=6, budget=25)
def odin(case, t):
    try:
        gen, move = make_gen(case)
        gen.prepare()
        if case["breakpoints"]:
            move = list(gen.axes)
        if case["unroll"] and len(move) > 1:
            CompoundGenerator(gen.generators, list(gen.excluders) + [
                SquashingExcluder(axes=move)], [], 1).prepare()
    except ValueError:
        # not all can be put together
        t.label("invalid")
        return
    if gen.size == 0:
        t.label("empty")
        return
    top = tempfile.mkdtemp(prefix="p36")
    try:
        Scan(case, gen, move, top, t).go()
    finally:
        shutil.rmtree(top)


def opened(f, path):
    try:
        return f[path]
    except KeyError:
        return None


class Scan:
    def __init__(self, case, gen, move, top, t):
        self.case, self.gen, self.move, self.dir, self.t = case, gen, move, top, t

    def go(self):
        case = self.case
        self.process = Process("p")
        self.process.start()
        w = self.writer = Writer("writer")
        w.uid_name, w.sum_name = case["names"]
        wc = StatefulController("OD")
        wc.add_part(w)
        self.process.add_controller(wc)
        c = RunnableController("DET", config_dir=self.dir)
        c.add_part(OdinWriterPart(
            "WRITER", "OD", uid_name=case["names"][0], sum_name=case["names"][1],
            secondary_set=case["secondary"]))
        c.add_part(DatasetTablePart("DSET"))
        if case["unroll"] is not None:
            add_block(self.process, "UN", {})
            c.add_part(UnrollingPart("UNROLL", "UN", initial_visibility=case["unroll"]))
        try:
            self.process.add_controller(c)
            for n, v in dict(numProcesses=case["processes"], blockSize=case["block"],
                             imageHeight=case["height"], imageWidth=case["width"],
                             dataType=case["dtype"]).items():
                w.set(n, v)
            require(self.state() == "Ready", "state %s", self.state())
            self.scan()
            if case["again"] and self.state() == "Finished":
                self.t.label("again")
                self.scan("again")
        finally:
            w.close()
            self.process.stop(timeout=30)

    def state(self):
        return value(self.process, "DET", "state")

    def completed(self):
        return value(self.process, "DET", "completedSteps")

    def scan(self, extra=""):
        case, t, w = self.case, self.t, self.writer
        bps, total = [], 0
        for b in case["breakpoints"]:
            if total + b < self.gen.size:
                bps.append(b)
                total += b
        if bps:
            bps.append(self.gen.size - total)
        params = dict(generator=self.gen, axesToMove=self.move,
                      fileDir=self.dir + "/" * case["slash"])
        fmt, template = case["name"]
        if fmt:
            params.update(formatName=fmt + extra, fileTemplate=template)
        else:
            fmt, template = "odin", "%s.h5"
            if extra:
                params.update(formatName=fmt + extra)
        self.format = fmt + extra
        self.file = self.dir + "/" + template % self.format
        if bps:
            params.update(breakpoints=bps)
            t.label("breakpoints")
        rs = ask(self.process, "DET", Post(id=1, path=["DET", "configure"],
                                           parameters=params))
        require(len(rs) == 1, "configure gave %s", rs)
        ok = "Error" not in rs[0]["typeid"]
        gen = self.gen
        if case["unroll"] and len(self.move) > 1:
            gen = CompoundGenerator.from_dict(gen.to_dict())
            if not any(isinstance(e, SquashingExcluder) and set(e.axes) == set(
                    self.move) for e in gen.excluders):
                gen = CompoundGenerator(gen.generators, list(gen.excluders) + [
                    SquashingExcluder(axes=self.move)], [], gen.duration)
                t.label("unrolled")
            gen.prepare()
        snake = any(d.alternate for d in gen.dimensions[1:])
        if snake:
            t.label("snake refused")
            t.nontrivial()
            require(not ok, "a snake was accepted")
            require(self.state() == "Fault", "state %s", self.state())
            return
        if any(d[-1] is True for d in case["dims"][1:]):
            t.label("snake unrolled")
            t.nontrivial()
        require(ok, "configure(%s) failed: %s", params, rs)
        require(self.state() == "Armed", "state %s", self.state())
        require(w.running, "the writer is not running")
        require(w.total == gen.size, "the writer is to capture %s frames, the scan has "
                "%s", w.total, gen.size)
        t.nontrivial(case["processes"] > 1 and gen.size > case["block"])
        sent = Client(self.process)
        todo = bps or self.pieces(rs)
        done = 0
        for n, k in enumerate(todo):
            if len(todo) > 1:
                t.nontrivial()
            sent = Client(self.process)
            if case["early"] and n == 0:
                # frames may come before run is called
                w.capture()
            sent.send(Post(id=2, path=["DET", "run"]), wait=False)
            wait_for(lambda: self.state() == "Running", 5)
            while w.v("numCaptured") < done + k:
                if case["abort"] == w.v("numCaptured"):
                    self.abort(sent)
                    return
                require(not sent.responses, "run ended after %s of %s frames: %s",
                        w.v("numCaptured"), done + k, sent.responses)
                w.capture()
                yield_all(6)
                require(wait_for(lambda: self.completed() == w.v("numCaptured") or
                                 self.completed() == 0 and w.v("numCaptured") == 0, 5),
                        "%s frames captured, completedSteps %s", w.v("numCaptured"),
                        self.completed())
            done += k
            if done == gen.size:
                yield_all(20)
                require(not sent.responses and self.state() in (
                    "Running", "PostRun"), "%s although the file is not closed",
                    self.state())
                w.close()
            require(wait_for(lambda: sent.responses, 5), "run goes on after all %s "
                    "frames", done)
            require("Error" not in str(sent.responses), "run failed: %s", sent.responses)
            want = "Finished" if done == gen.size else "Armed"
            require(self.state() == want, "state %s after %s of %s", self.state(), done,
                    gen.size)
        require(not w.problem, "%s", w.problem)
        self.check_file(gen)

    def pieces(self, rs):
        configured = value(self.process, "DET", "configuredSteps")
        n = self.gen.size // configured
        require(configured * n == self.gen.size, "configured %s of %s", configured,
                self.gen.size)
        return [configured] * n

    def abort(self, sent):
        self.t.label("abort")
        self.t.nontrivial()
        before = self.writer.stopped
        rs = ask(self.process, "DET", Post(id=1, path=["DET", "abort"]))
        require("Error" not in rs[0]["typeid"], "abort: %s", rs)
        require(self.state() == "Aborted", "state %s after abort", self.state())
        require(self.writer.stopped > before and not self.writer.running,
                "the writer goes on after abort")
        require(wait_for(lambda: sent.responses, 5) and "Error" in str(sent.responses),
                "run gave %s after abort", sent.responses)

    def check_file(self, gen):
        w = self.writer
        name = os.path.basename(self.file)
        table = value(self.process, "DET", "datasets")
        rows = list(zip(*[table[k] for k in (
            "name", "filename", "type", "rank", "path", "uniqueid")]))
        with h5py.File(self.file, "r") as f:
            for n, fn, typ, rank, path, uid in rows:
                require(fn == name, "dataset %s is in %s, should be %s", n, fn, name)
                require(isinstance(opened(f, path), h5py.Dataset), "dataset %s (%s) is "
                        "not in the file", n, path)
                if typ != "raw":
                    require(f[path].ndim == rank, "dataset %s has rank %s, the table "
                            "says %s", n, f[path].ndim, rank)
                require(not uid or opened(f, uid), "uniqueid %s of %s is not in the file",
                        uid, n)
            paths = {n: p for n, _, _, _, p, _ in rows}
            primary = [r for r in rows if r[2] == "primary"]
            require([r[0] for r in primary] == [self.format + ".data"],
                    "primary datasets %s", primary)
            data, uids = f[primary[0][4]], f[primary[0][5]]
            second = "%s.%s" % (self.format, self.case["secondary"])
            require(second in paths, "no dataset %s: %s", second, list(paths))
            sums = f[paths[second]]
            shape = tuple(gen.shape)
            for d, image in ((data, (w.v("imageHeight"), w.v("imageWidth"))),
                             (uids, (1, 1)), (sums, (1, 1))):
                require(d.shape == shape + image, "shape %s of %s, should be %s",
                        d.shape, d.name, shape + image)
            require(data.dtype == self.case["dtype"].lower(), "type %s", data.dtype)
            got_data, got_uids, got_sums = data[()], uids[()], sums[()]
            for i in range(gen.size):
                p = gen.get_point(i)
                at = tuple(p.indexes)
                require(np.array_equal(got_data[at], w.image(i)), "frame %s at %s is "
                        "%s, should be %s", i, at, got_data[at], w.image(i))
                require(got_uids[at][0, 0] == i + 1, "uid of frame %s at %s is %s", i,
                        at, got_uids[at])
                require(got_sums[at][0, 0] == 1000 + 3 * i, "sum of frame %s at %s is "
                        "%s", i, at, got_sums[at])
                for base in ("detector", "detector_sum", "detector_uid"):
                    for axis, pos in p.positions.items():
                        g = opened(f, "entry/" + base)
                        require(g, "no group %s", base)
                        k = g.attrs.get(axis + "_set_indices", None)
                        require(k is not None and axis + "_set" in g, "%s has no "
                                "positions of %s: %s, %s", base, axis, list(g),
                                list(g.attrs))
                        v = g[axis + "_set"][at[k]]
                        require(v == pos, "%s of %s at step %s is %s, should be %s",
                                axis, base, i, v, pos)
            for axis in gen.axes:
                require(paths.get(axis + ".value_set") == "/entry/detector/%s_set" %
                        axis, "%s.value_set is at %s", axis,
                        paths.get(axis + ".value_set"))
            for base, signal in (("detector", data), ("detector_uid", uids),
                                 ("detector_sum", sums)):
                g = opened(f, "entry/" + base)
                require(g and g.attrs.get("signal") in g and "axes" in g.attrs,
                        "group %s has %s", base, g and list(g.attrs))
                require(g[g.attrs["signal"]].name.endswith(signal.name.split("/")[-1])
                        and np.array_equal(g[g.attrs["signal"]][()], signal[()]),
                        "signal of %s is not %s", base, signal.name)
                axes = list(g.attrs["axes"])
                want = [d.axes[0] + "_set" if len(d.axes) == 1 else "."
                        for d in gen.dimensions] + [".", "."]
                require(axes == want, "axes %s of %s, should be %s", axes, base, want)
            for i in range(self.case["processes"]):
                require(opened(f, "raw%d" % (i + 1)), "no raw%d", i + 1)
                with h5py.File(self.writer_file(i), "r") as raw:
                    require(np.array_equal(f["raw%d" % (i + 1)][()], raw["data"][()]),
                            "raw%d is not the data of process %d", i + 1, i + 1)

    def writer_file(self, i):
        return self.writer.v("filePath") + self.writer.v("fileName") + "_%06d.h5" % (
            i + 1)
