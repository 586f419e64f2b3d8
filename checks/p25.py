"""P25: the detectors get exactly one gate for each point of the scan"""
from unittest import mock

import cothread
from annotypes import Anno, add_call_types
from hypothesis import strategies as st

from malcolm.core import Context, Part, Process, StringMeta, TableMeta
from malcolm.modules.ADPandABlocks.doublebuffer import (
    MIN_PULSE, SEQ_TABLE_SWITCH_DELAY, TICK)
from malcolm.modules.ADPandABlocks.parts import PandASeqTriggerPart
from malcolm.modules.ADPandABlocks.parts import pandaseqtriggerpart
from malcolm.modules.ADPandABlocks.util import DatasetPositionsTable
from malcolm.modules.builtin.util import ExportTable
from malcolm.modules.pmac.util import cs_axis_mapping, profile_between_points
from malcolm.modules.scanning.infos import MinTurnaroundInfo, MotionTrigger

from pbt import Check, require
from pbt.mal import yield_all
from pbt.motion import Pmac, add_block, attr, layout_attr, motor_fields, string
from pbt.panda import INFINITE, Sequencers, expand, merge
from pbt.scans import generators, make_generator

check = Check(
    "P25", rule="a case is a scan of up to three motors (some of them wired to the "
    "PandA), the way rows are triggered and the pieces the scan is done in; "
    "non-trivial = there is a turnaround, or more than one table",
    assumptions=["the sequencers hand over as the double buffered PandA design does, "
                 "and compare positions by level",
                 "the motors turn around as profile_between_points says (see P27)"])

INPUTS = ["INENC1.VAL", "INENC2.VAL", "INENC3.VAL"]


@st.composite
def cases(draw):
    case = dict(
        gens=draw(generators()),
        duration=draw(st.sampled_from([0.1, 0.5, 1.0, 0.01, 0.0333333, 4.0])),
        continuous=draw(st.integers(0, 9)) > 0,
        delay=draw(st.sampled_from([0.0, 0.0, 0.0, 0.2])))
    if draw(st.integers(0, 5)) == 0:
        case["alternating"] = draw(st.sampled_from(
            [[0.0, 0.1], [0.1, 0.0], [0.05, 0.3]]))
    case["motors"] = {
        n: dict(velocity=draw(st.sampled_from([10.0, 50.0, 200.0, 2.0])),
                acc=draw(st.sampled_from([0.1, 0.5, 0.02, 1.0])),
                scale=draw(st.sampled_from([0.001, 0.002, -0.001, 0.0001])),
                offset=draw(st.sampled_from([0.0, 0.0, 1.5, -0.25])))
        for n in "xyz"}
    case["moved"] = draw(st.sampled_from([3, 3, 3, 3, 2, 1, 0]))
    case["trigger"] = draw(st.sampled_from(
        ["Position Compare", "Position Compare", "Row Gate"]))
    # which of the motors are wired to the sequencers
    case["wired"] = draw(st.sampled_from(
        ["xyz"] * 6 + ["zyx", "zyx", "yzx", "xy", "x", "y", "yx", "zy", "z", ""]))
    if case["trigger"] == "Position Compare" and draw(st.integers(0, 5)):
        # something has to move in each point
        while len(case["gens"]) > 1 and (
                case["gens"][-1][0] == "static" or case["gens"][-1][4:5] == [1]):
            case["gens"].pop()
        case["continuous"] = True
    case["gap"] = draw(st.sampled_from([None, None, None, [0.1, 0.002], [0.02, 0.004]]))
    case["batch"] = draw(st.sampled_from([5000, 5000, 2, 3, 7]))
    case["durations"] = draw(st.sampled_from(
        [None, None, None, [1, 2], [1, 1, 3], [2, 1, 1, 1, 2]]))
    case["switch"] = draw(st.integers(0, 4)) == 0
    case["order"] = draw(st.booleans())
    case["pieces"] = draw(st.lists(st.tuples(
        st.integers(1, 12), st.sampled_from(["run", "run", "inner", "abort"])).map(list),
        min_size=0, max_size=3))
    case["wiring"] = draw(st.sampled_from([""] * 12 + ["posa", "bita", "zero"]))
    return case


class PandaPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.calls = []
        for n in ("seqSetEnable", "seqReset"):
            registrar.add_method_model(getattr(self, n), n)

    def seqSetEnable(self):
        self.calls.append("enable")

    def seqReset(self):
        self.calls.append("reset")


def table_attr(cls, rows):
    a = TableMeta.from_table(cls, "d").create_attribute_model()
    a.set_value(cls.from_rows(rows))
    return a


def joined(p, q):
    return p.delay_after == 0 and all(p.upper[a] == q.lower[a] for a in p.upper)


def velocity(p, a, entry):
    v = (p.upper[a] - p.lower[a]) / p.duration
    half = p.positions[a] - p.lower[a] if entry else p.upper[a] - p.positions[a]
    return 4 * half / p.duration - v


def half(seconds):
    return int(round(seconds / TICK / 2))


def pulse(trigger, position, half_time, live=False, dead=False):
    off = (False,) * 4
    return (trigger, position, half_time, (live, dead) + off, half_time,
            (False,) * 6)


def fast(points, axes, case):
    return any(abs(velocity(p, a, e)) > case["motors"][a]["velocity"] * (1 - 1e-3)
               for p in points for a in axes for e in (True, False))


class Refused(Exception):
    pass


def compare_axes(case, p, axes):
    """{(axis, counts, increasing)} the start of this point may be compared with"""
    moves = {}
    for a in axes:
        m = case["motors"][a]
        lo, mid = [int(round((x - m["offset"]) / m["scale"]))
                   for x in (p.lower[a], p.positions[a])]
        if lo != mid:
            moves[a] = (abs(mid - lo), lo, mid > lo)
    if not moves:
        raise Refused()
    most = max(v[0] for v in moves.values())
    return {(a, v[1], v[2]) for a, v in moves.items() if v[0] == most}


def at(times, velocities, when):
    """How far the axis is from where it started"""
    pos = 0.0
    for i in range(1, len(times)):
        t0, t1 = times[i - 1], times[i]
        if t1 <= t0:
            continue
        v0, v1 = velocities[i - 1], velocities[i]
        dt = min(when, t1) - t0
        if dt <= 0:
            break
        v = v0 + (v1 - v0) * dt / (t1 - t0)
        pos += (v0 + v) / 2 * dt
    return pos


@check.sub("gates", cases, quick=1500, thorough=25000, shards=4, budget=27)
def run(case, t):
    process = Process("proc")
    fields = {}
    for (n, d), letter in zip(case["motors"].items(), "XYZ"):
        fields[n] = motor_fields("CS1," + letter, d["velocity"], 100.0, d["acc"])
    Pmac(process, fields)
    seqs = Sequencers(process)
    wired = case["wired"]
    for i, s in enumerate("abc"):
        inp = INPUTS[i] if i < len(wired) else "ZERO"
        for k, p in enumerate(seqs.parts):
            if case["wiring"] == "posa" and s == "a" and k:
                inp = "OTHER.VAL"
            p.wire = getattr(p, "wire", {})
            p.wire["pos" + s] = inp
    for k, p in enumerate(seqs.parts):
        p.wire["bita"] = "ZERO" if case["wiring"] == "zero" else (
            "TTLIN2.VAL" if k and case["wiring"] == "bita" else "TTLIN1.VAL")
    positions = [("COUNTER1.OUT", 0.0, "", 1.0, 0.0, "No", "count", "monitor")]
    for i, n in enumerate(wired):
        m = case["motors"][n]
        positions.append((INPUTS[i], 0.0, "mm", m["scale"], m["offset"], "Value", n,
                          "position"))
    positions.append(("QDEC1.OUT", 0.0, "", 1.0, 0.0, "No", "x", "monitor"))
    panda = PandaPart("panda")
    trigger = string(case["trigger"])
    add_block(process, "PANDA", dict(
        exports=table_attr(ExportTable, [
            ("SRGATE1.forceSet", "seqSetEnable"), ("SEQ2.table", "seqTableB"),
            ("SEQ1.table", "seqTableA")]),
        layout=layout_attr([("SRGATE1", "PANDA:SRGATE1"), ("SEQ2", "PANDA:SEQ2"),
                            ("SEQ1", "PANDA:SEQ1")]),
        positions=table_attr(DatasetPositionsTable, positions)), [panda])
    add_block(process, "SCAN:PCOMP", dict(
        panda=string("PANDA"), pmac=string("PMAC"), rowTrigger=trigger))
    process.start()
    for p in seqs.parts:
        for n, v in p.wire.items():
            p.attrs[n].set_value(v)
    part = PandASeqTriggerPart("pcomp", "SCAN:PCOMP")
    part.setup(mock.Mock())
    generator = make_generator(case)
    size = generator.size
    axes = [a for a in generator.axes if a in fields][:case["moved"]]
    pcomp = case["trigger"] == "Position Compare"
    seen = [a for a in axes if a in wired]
    allp = [generator.get_point(i) for i in range(size)]
    info = {}
    gap, interval = case["gap"] or (0.002, 0.002)
    if case["gap"]:
        info["m"] = [MinTurnaroundInfo(*case["gap"])]
    first = 0
    pieces = list(case["pieces"])
    patch = mock.patch.object(pandaseqtriggerpart, "BATCH_SIZE", case["batch"])
    patch.start()
    configured = False
    try:
        context = Context(process)
        status = part.on_report_status(context)
        require(status.trigger == (MotionTrigger.NONE if pcomp else
                                   MotionTrigger.ROW_GATE), "asks for %s triggers",
                status.trigger)
        mapping = cs_axis_mapping(context, layout_attr(
            [(n, "MOTOR:" + n) for n in fields]).value, axes)
        while first < size:
            n, what = pieces.pop(0) if pieces else (size, "run")
            n = min(n, size - first)
            points = allp[first:first + n]
            context = Context(process)
            for p in seqs.parts:
                p.attrs["active"].set_value(False)
                del p.loaded[:]
            args = (context, first, n, info, generator, axes)
            th = None
            try:
                if what == "inner" and configured:
                    resets = panda.calls.count("reset")
                    part.post_inner_scan(*args)
                    require(panda.calls.count("reset") == resets + 1,
                            "sequencers were not reset")
                    t.label("inner scan")
                else:
                    part.on_configure(*args)
                configured = True
                enabled = panda.calls.count("enable")
                part.on_pre_run(context)
                require(panda.calls.count("enable") == enabled + bool(axes), "sequencers "
                        "are enabled too early or too late")

                th = cothread.Spawn(part.on_run, context, raise_on_wait=True)
                yield_all(20)
                require(panda.calls.count("enable") == enabled + 1, "sequencers were "
                        "enabled %s times", panda.calls.count("enable") - enabled)
                if what == "abort":
                    t.label("aborted")
                    part.on_abort(Context(process))
                    require(panda.calls[-1] == "reset", "sequencers were not reset")
                    yield_all(10)
                    th.Wait(10)
                    first += n // 2
                    continue
                tables = seqs.execute(case["order"])
                yield_all(20)
                if th:
                    th.Wait(10)
            except AssertionError as e:
                refused(case, points, axes, seen, pcomp, e)
                t.label("refused")
                return
            require(not wrong(case, axes, seen, pcomp), "scanned with wrong wiring")
            if tables and not any(r[0] == 0 for r in tables[-1]):
                # a refusal of what comes later stops the loading
                refused(case, points, axes, seen, pcomp, None)
                t.label("refused later")
                return
            judge(case, t, tables, points, axes, seen, pcomp, mapping, gap, interval)
            for p in seqs.parts:
                require(not p.errors, "a sequencer was %s", p.errors)
            t.nontrivial(len(tables) > 1)
            t.label("several tables", len(tables) > 1)
            if not pieces or pieces[0][1] != "inner":
                part.on_abort(Context(process))
                yield_all(10)
            first += n
            if pieces and case["switch"]:
                case = dict(case, trigger="Row Gate" if pcomp else "Position Compare")
                pcomp = not pcomp
                trigger.set_value(case["trigger"])
                t.label("switched")
    finally:
        patch.stop()
        process.stop(timeout=20)


def wrong(case, axes, seen, pcomp):
    if not axes:
        return False
    if pcomp:
        return not seen or case["wiring"] == "posa"
    return case["wiring"] in ("bita", "zero")


def refused(case, points, axes, seen, pcomp, e):
    """Only what can't be done may be refused"""
    if wrong(case, axes, seen, pcomp):
        return
    if axes and fast(points, axes, case):
        return
    if pcomp and axes:
        for k, p in enumerate(points):
            if k and joined(points[k - 1], p):
                continue
            try:
                found = compare_axes(case, p, seen)
            except Refused:
                return
            for a, _, inc in found:
                if velocity(p, a, True) / case["motors"][a]["scale"] * (
                        1 if inc else -1) <= 1e-6 * case["motors"][a]["velocity"]:
                    # not going that way at the start of the point
                    return
    if e is not None and "check the math" in str(e):
        return
    if e is None:
        require(False, "the loading of tables stopped")
    raise e


def judge(case, t, tables, points, axes, seen, pcomp, mapping, gap, interval):
    got = []
    for i, rows in enumerate(tables):
        got += expand(rows, 0 if i == len(tables) - 1 else SEQ_TABLE_SWITCH_DELAY)
    got = merge(got)
    it = iter(got)
    left = None  # what is left of a repeated pulse

    def take():
        nonlocal left
        if left is None:
            left = list(next(it, (None, None)))
        n, p = left
        if n in (INFINITE, 1, None):
            left = None
        else:
            left[0] = n - 1
        return n, p

    for k, p in enumerate(points):
        name = "point %d of %d" % (k, len(points))
        live = dict(half_time=half(p.duration), live=True)
        if k and (not axes or joined(points[k - 1], p)):
            n, g = take()
            require(n not in (INFINITE, None) and g == pulse("Immediate", 0, **live),
                    "%s gets %s, should be a gate of %s ticks", name, g,
                    2 * live["half_time"])
            continue
        if not axes:
            n, g = take()
            require(g == pulse("Immediate", 0, **live), "%s gets %s", name, g)
            continue
        blind = None
        if k:
            t.nontrivial(True)
            n, g = take()
            if pcomp:
                require(n == 1 and g[0] == "Immediate" and g[3][:2] == (False, True)
                        and g[2] == g[4] and not any(g[3][2:] + g[5]), "%s is not "
                        "preceded by a dead pulse but by %s", name, g)
                blind = 2 * g[2] * TICK
            else:
                require(n == 1 and g == pulse("BITA=0", 0, MIN_PULSE, dead=True), "%s is "
                        "not preceded by a dead pulse but by %s", name, g)
        n, g = take()
        require(n != INFINITE, "%s is never done", name)
        if not pcomp:
            require(g == pulse("BITA=1", 0, **live), "%s gets %s", name, g)
            continue
        try:
            found = compare_axes(case, p, seen)
        except Refused:
            require(False, "%s can't be compared but is triggered by %s", name, g)
        for a, cts, inc in found:
            letter = "ABC"[case["wired"].index(a)]
            trigger = "POS%s%s=POSITION" % (letter, ">" if inc else "<")
            if g == pulse(trigger, cts, **live):
                break
        else:
            require(False, "%s is triggered by %s, should be one of %s", name, g,
                    sorted(found))
        if blind is None:
            continue
        # Is the axis on its way to the start of the row when it is looked at?
        last = points[k - 1]
        times, vels = profile_between_points(
            mapping, last, p, max(gap, 0.002, last.delay_after), interval)
        ts, vs = times[a], vels[a]
        total = ts[-1]
        require(blind <= total + 2 * TICK, "the sequencers look %s s after the row at "
                "where %s is, it starts %s after %s s", blind, a, name, total)
        m = case["motors"][a]
        sign = (1 if inc else -1) * (1 if m["scale"] > 0 else -1)
        slack = 1.01 * abs(m["scale"]) + 1e-6 + abs(vs[-1]) * 1e-5
        for when in [blind] + [x for x in ts if blind < x < total]:
            pos = last.upper[a] + at(ts, vs, when)
            ahead = sign * (pos - p.lower[a])
            require(ahead <= slack, "the sequencers wait for %s at the start of %s when "
                    "it is %s past it, %s s after the row of a turnaround that takes "
                    "%s s", a, name, ahead, when, total)
        t.label("blind")
    n, g = take()
    require(n == 1 and g == pulse("Immediate", 0, MIN_PULSE, dead=True), "ends with %s", g)
    n, g = take()
    require(n == INFINITE and g == pulse("Immediate", 0, MIN_PULSE), "ends with %s", g)
    require(take()[0] is None, "there is more after the end")
