"""Parts that talk to EPICS over Channel Access."""
import cothread
from hypothesis import strategies as st

from malcolm.core import Alarm, Port, Process, Put, Post
from malcolm.modules.builtin.controllers import StatefulController
from malcolm.modules.ca import parts as cap, util as cautil
from malcolm.modules.asyn.parts import AsynSourcePortPart
from malcolm.modules.pmac.parts import (
    CompoundMotorSinkPortsPart, CSSourcePortsPart, RawMotorSinkPortsPart)

from pbt import Check, require
from pbt.ca import CA
from pbt.mal import Client, WAIT, get, yield_all

check = Check(
    "P32", rule="a case is a block of generated CA parts on simulated PVs and a history "
    "of PV changes, alarms, lost connections, puts, resets and disables; non-trivial = "
    "a connection is lost, an alarm is raised, a put is done or the block is reset",
    assumptions=["monitors behave as cothread.catools documents (latest value wins, "
                 "closed when the callback raises)"])

CSAXES = list("ABCUVWXYZ") + ["I"]
LABELS = ["off", "on", "auto"]
CSLABELS = ["NONE", "CS1", "CS2"]
KINDS = {  # kind of part: (kind of PV, values, values to put)
    "double": ("double", [0.0, 1.5, -2.25, 1e9], [0.0, 2.5, 7]),
    "long": ("long", [0, 1, -7, 2 ** 31 - 1], [0, 3, -4]),
    "string": ("string", ["", "abc", "1.5"], ["", "x y"]),
    "boolean": ("long", [0, 1, 5], [False, True]),
    "choice": ("enum", [0, 1, 2], LABELS),
    "char": ("char", ["", "long " * 20], ["", "/a/path"]),
    "doubles": ("doubles", [[], [1.5], [0.0, -1.5, 3.0]], [[], [2.5, 4.0]]),
    "longs": ("longs", [[], [4], [0, -1, 3]], [[], [2, 4]]),
    "asyn": ("string", ["PORT", "other"], []),
    "cs": ("string", ["CS1", "BRICKCS2"], []),
}
NAMES = sorted(KINDS) + ["table", "raw", "compound"]
OUTS = ["@asyn(BRICK1, 3)", "@asyn(PMAC2,1)", "@asyn(P,7)"]


@st.composite
def cases(draw):
    parts = []
    for kind in draw(st.lists(st.sampled_from(NAMES + ["raw", "table", "double"]), min_size=1, max_size=4)):
        p = dict(kind=kind, throw=draw(st.integers(0, 3)) != 2,
                 min_delta=draw(st.sampled_from([0, 0, 0.002])))
        if kind in KINDS:
            vals, puts = KINDS[kind][1:]
            p["how"] = draw(st.sampled_from(
                ["pv", "rbv", "both", "suffix"] if puts else ["rbv"]))
            p["init"] = draw(st.integers(0, len(vals) - 1))
            p["timeout"] = draw(st.sampled_from([-1, 10, 0.5]))
            p["follow"] = draw(st.sampled_from(["yes", "yes", "no", "first"]))
            p["display"] = draw(st.booleans())
        parts.append(p)
    op = st.one_of(
        st.tuples(st.just("value"), st.integers(0, 9), st.integers(0, 5)),
        st.tuples(st.just("value"), st.integers(0, 9), st.integers(0, 5)),
        st.tuples(st.just("severity"), st.integers(0, 9), st.integers(0, 3)),
        st.tuples(st.just("lost"), st.integers(0, 9), st.just(0)),
        st.tuples(st.just("found"), st.integers(0, 9), st.just(0)),
        st.tuples(st.just("found"), st.integers(0, 9), st.just(0)),
        st.tuples(st.just("refuse"), st.integers(0, 9), st.integers(0, 1)),
        st.tuples(st.just("put"), st.integers(0, 3), st.integers(0, 9)),
        st.tuples(st.just("put"), st.integers(0, 3), st.integers(0, 9)),
        st.tuples(st.just("limits"), st.integers(0, 9), st.integers(0, 2)),
        st.tuples(st.sampled_from(["reset", "disable"]), st.just(0), st.just(0)),
        st.tuples(st.just("settle"), st.just(0), st.just(0)),
    )
    return dict(parts=parts, ops=draw(st.lists(op, min_size=1, max_size=14)),
                yields=draw(st.sampled_from([0, 1, 5])),
                lost=draw(st.sampled_from([-1, -1, -1, 0, 1, 2])))


class World:
    def __init__(self, case, t):
        self.case, self.t = case, t
        self.ca = CA()
        self.ca.put_yields = case["yields"]
        self.process = Process("p")
        self.controller = StatefulController("B")
        self.parts = []
        for i, p in enumerate(case["parts"]):
            self.parts.append(getattr(self, "make_" + p["kind"], self.make)(
                dict(p), "f%d" % i))
        self.raws = [p for p in self.parts if p["kind"] == "raw"]
        self.names = sorted(self.ca.pvs)
        if 0 <= case["lost"] < len(self.names):
            self.ca.pvs[self.names[case["lost"]]].connected = False

    def make(self, p, name):
        kind, vals, puts = KINDS[p["kind"]]
        d, r = "PV:%s" % name, "PV:%s_RBV" % name
        kw = dict(min_delta=p["min_delta"], timeout=p["timeout"])
        if p["how"] == "pv":
            kw["pv"], r = d, d
        elif p["how"] == "rbv":
            kw["rbv"] = r
        elif p["how"] == "both":
            kw.update(pv=d, rbv=r)
        else:
            kw.update(pv=d, rbv_suffix="_RBV")
        for pv in {d, r} if puts else {r}:
            if pv == r or p["how"] != "rbv":
                self.ca.add(pv, kind, vals[p["init"]], LABELS)
        cls = dict(double=cap.CADoublePart, long=cap.CALongPart, string=cap.CAStringPart,
                   boolean=cap.CABooleanPart, choice=cap.CAChoicePart,
                   char=cap.CACharArrayPart, doubles=cap.CADoubleArrayPart,
                   longs=cap.CALongArrayPart).get(p["kind"])
        if p["kind"] in ("double", "doubles"):
            kw["display_from_pv"] = p["display"]
        if p["kind"] in ("double", "long", "string", "boolean"):
            kw["throw"] = p["throw"]
        else:
            p["throw"] = True
        if p["kind"] == "asyn":
            part = AsynSourcePortPart(name, "d", r, Port.INT32)
        elif p["kind"] == "cs":
            if any(q["kind"] == "cs" for q in self.parts):
                p["kind"] = "asyn"  # only one has the axes
                part = AsynSourcePortPart(name, "d", r, Port.INT32)
            else:
                part = CSSourcePortsPart(name, r)
        else:
            part = cls(name=name, description="d", **kw)
        p.update(name=name, d=d if "pv" in kw else None, r=r, pvs=[r], limits={})
        if p["d"] and p["d"] != r:
            p["pvs"].append(d)

            def on_put(v):
                if p["follow"] == "yes":
                    self.ca.change(r, value=v)
                elif p["follow"] == "first":
                    self.ca.change(r, value=vals[0])
            self.ca.pvs[d].on_put = on_put
        self.controller.add_part(part)
        return p

    def make_table(self, p, name):
        p["cols"] = ["x", "y"]
        p["pvs"] = ["PV:%s:%s" % (name, c) for c in p["cols"]]
        for pv in p["pvs"]:
            self.ca.add(pv, "doubles", [1.0, 2.0])
        p.update(name=name, throw=True, limits={}, d=None)
        self.controller.add_part(cap.CAWaveformTablePart(
            name, "d", pv_list=p["pvs"], name_list=p["cols"],
            min_delta=p["min_delta"]))
        return p

    def make_raw(self, p, name):
        if any(q["kind"] == "raw" for q in self.parts):
            return self.make_compound(p, name)
        pre = "M:" + name
        p["pvs"] = [pre + x for x in (":CsPort", ":CsAxis", ":CsPort_RBV",
                                      ":CsAxis_RBV", ".OUT")]
        a, b, c, d, e = p["pvs"]
        for pv in (a, c):
            self.ca.add(pv, "enum", 1, CSLABELS)
        for pv in (b, d):
            self.ca.add(pv, "string", "A")
        self.ca.add(e, "string", OUTS[0])
        self.ca.pvs[a].on_put = lambda v: self.ca.change(c, value=v)
        self.ca.pvs[b].on_put = lambda v: self.ca.change(d, value=v)
        p.update(name="cs", throw=True, d=a, axis=b)
        self.controller.add_part(RawMotorSinkPortsPart(pre))
        return p

    def make_compound(self, p, name):
        p.update(kind="compound", name=name, throw=True, pvs=["M:%s.OUT" % name], d=None)
        self.ca.add(p["pvs"][0], "string", OUTS[0])
        self.controller.add_part(CompoundMotorSinkPortsPart(name, p["pvs"][0]))
        return p

    def read(self, *path):
        ok, v = get(self.process, ["B"] + list(path))
        require(ok, "Get %s: %s", path, v)
        return v

    def state(self):
        return self.read("state", "value")

    def value(self, p, pv=None):
        """What the PV means as the value of the attribute"""
        v = self.ca.pvs[pv or p["r"]].value
        if p["kind"] == "boolean":
            return bool(v)
        if p["kind"] == "choice":
            return LABELS[v]
        return v

    def could_connect(self):
        for p in self.parts:
            if any(not self.ca.pvs[pv].connected for pv in p["pvs"]) and p["throw"]:
                return False
        return True

    def connected(self):
        """The block has just been reset: note what it was told"""
        for p in self.parts:
            if p["kind"] in ("double", "doubles") and p["display"]:
                if self.ca.pvs[p["r"]].connected:
                    p["limits"] = self.ca.pvs[p["r"]].limits
            elif p["kind"] == "table":
                for c, pv in zip(p["cols"], p["pvs"]):
                    p["limits"][c] = self.ca.pvs[pv].limits
            if p["kind"] in ("choice",):
                require(self.read(p["name"], "meta", "choices") == LABELS, "choices")
            if p["kind"] in ("cs", "asyn"):
                v = self.ca.pvs[p["r"]].value
                for k in CSAXES if p["kind"] == "cs" else [""]:
                    field = k.lower() or p["name"]
                    tags = self.read(field, "meta", "tags")
                    want = "sourcePort:motor:%s,%s" % (v, k) if k else \
                        "sourcePort:int32:%s" % v
                    require([x for x in tags if x.startswith("sourcePort:")] == [want],
                            "tags of %s are %s, the port is %s", field, tags, v)
            if "r" in p or p["kind"] == "table":
                p["last"] = None if p["kind"] == "table" else self.value(p) \
                    if self.ca.pvs[p["r"]].connected else p.get(
                        "last", self.read(p["name"], "value"))
        subs = sorted(s.pv.name for s in self.ca.subs)
        want = []
        for p in self.parts:
            want += p["pvs"] if p["kind"] in ("table", "compound") else \
                p["pvs"][2:] if p["kind"] == "raw" else [p["r"]]
        require(subs == sorted(want), "monitors on %s, should be on %s", subs,
                sorted(want))

    def alarm(self, name):
        a = self.read(name, "alarm")
        return a["severity"], a["message"]

    def judge(self):
        for p in self.parts:
            getattr(self, "judge_" + p["kind"], self.judge_one)(p)

    def judge_one(self, p):
        pv = self.ca.pvs[p["r"]]
        got = self.read(p["name"], "value")
        severity = self.alarm(p["name"])[0]
        if pv.connected:
            want = self.value(p)
            p["last"] = want
            require(got == want, "%s is %s, the PV is %s", p["name"], got, want)
            require(severity == pv.severity, "%s of %s has alarm severity %s, the PV %s",
                    p["name"], p["kind"], severity, pv.severity)
            ts = self.read(p["name"], "timeStamp", "secondsPastEpoch")
            require(ts == pv.stamp, "%s has time %s, the PV %s", p["name"], ts, pv.stamp)
        else:
            require(severity == 4, "%s has alarm severity %s, the PV is not connected",
                    p["name"], severity)
            require(got == p["last"], "%s is %s after the PV was lost, it was %s",
                    p["name"], got, p["last"])
        if p["limits"]:
            low, high, units, prec = p["limits"]
            d = self.read(p["name"], "meta", "display")
            require((d["limitLow"], d["limitHigh"], d["units"], d["precision"]) ==
                    (low, high, units, prec), "display of %s is %s", p["name"], d)

    def judge_table(self, p):
        pvs = [self.ca.pvs[pv] for pv in p["pvs"]]
        got = self.read(p["name"], "value")
        severity = self.alarm(p["name"])[0]
        if all(pv.connected for pv in pvs):
            for c, pv in zip(p["cols"], pvs):
                require(got[c] == pv.value, "column %s is %s, the PV is %s", c, got[c],
                        pv.value)
            want = max(pv.severity for pv in pvs)
            require(severity == want, "table has alarm severity %s, the worst of its "
                    "PVs is %s", severity, want)
        else:
            require(severity >= 3, "table has alarm severity %s, a PV is not connected",
                    severity)
        for c in p["cols"]:
            low, high, units, prec = p["limits"][c]
            d = self.read(p["name"], "meta", "elements", c, "display")
            require((d["limitLow"], d["limitHigh"], d["units"], d["precision"]) ==
                    (low, high, units, prec), "display of %s is %s", c, d)

    def judge_compound(self, p):
        pv = self.ca.pvs[p["pvs"][0]]
        if pv.connected:
            port, n = pv.value[6:-1].split(",")
            want = "%s,%s" % (port, CSAXES[int(n) - 1])
            require(self.read(p["name"], "value") == want and
                    self.alarm(p["name"])[0] == 0, "%s is %s, OUT is %s", p["name"],
                    self.read(p["name"], "value"), pv.value)
        else:
            require(self.alarm(p["name"])[0] >= 3, "alarm %s with OUT lost",
                    self.alarm(p["name"]))

    def judge_raw(self, p):
        port, axis, out = [self.ca.pvs[x] for x in p["pvs"][2:]]
        got = self.read("cs", "value")
        if not port.connected or not axis.connected:
            require(self.alarm("cs")[0] >= 3, "alarm %s with a PV lost",
                    self.alarm("cs"))
        elif axis.value not in CSAXES:
            require(got == "", "cs is %s for axis %s", got, axis.value)
        else:
            want = "" if port.value == 0 else "%s,%s" % (CSLABELS[port.value],
                                                         axis.value)
            require(got == want, "cs is %s, should be %s", got, want)
            require(self.alarm("cs")[0] == 0, "alarm %s for %s", self.alarm("cs"), got)
        if out.connected:
            a, n = out.value[6:-1].split(",")
            got = self.read("pmac", "value"), self.read("axisNumber", "value")
            require(got == (a, int(n)), "pmac, axis %s, OUT %s", got, out.value)
            require(self.alarm("pmac")[0] == 0 and self.alarm("axisNumber")[0] == 0,
                    "alarms %s", self.alarm("pmac"))
        else:
            require(self.alarm("pmac")[0] >= 3 and self.alarm("axisNumber")[0] >= 3,
                    "alarm %s with OUT lost", self.alarm("pmac"))

    # operations
    def pick(self, i):
        return self.ca.pvs[self.names[i % len(self.names)]]

    def do_value(self, i, v):
        pv = self.pick(i)
        if not pv.connected:
            return
        p = [p for p in self.parts if pv.name in p["pvs"]][0]
        if p["kind"] in KINDS:
            vals = KINDS[p["kind"]][1]
        elif p["kind"] == "table":
            vals = [[1.0, 2.0], [3.0, 4.0], [-1.0, 0.5]]
        elif pv.name.endswith("OUT"):
            vals = OUTS
        elif pv.kind == "enum":
            vals = [0, 1, 2]
        else:
            vals = ["A", "B", "I", "", "Q"]
        self.ca.change(pv.name, value=vals[v % len(vals)])

    def do_severity(self, i, v):
        pv = self.pick(i)
        if pv.connected:
            self.ca.change(pv.name, severity=v)
            self.t.nontrivial()

    def do_lost(self, i, _):
        pv = self.pick(i)
        if pv.connected:
            # a value that is lost with the connection was never told
            self.ca.settle()
            if self.state() == "Ready":
                self.judge()
            self.ca.change(pv.name, connected=False)
            self.t.nontrivial()

    def do_found(self, i, _):
        lost = [n for n in self.names if not self.ca.pvs[n].connected]
        if lost:
            self.ca.change(lost[i % len(lost)], connected=True)

    def do_refuse(self, i, v):
        self.pick(i).refuse = bool(v)

    def do_limits(self, i, v):
        self.pick(i).limits = [(-1.5, 2.5, "mm", 3), (0.0, 9.0, "s", 1),
                               (-3.0, -1.0, "", 6)][v]

    def do_put(self, i, v):
        p = self.parts[i % len(self.parts)]
        writeable = p["d"] is not None
        if p["kind"] == "raw":
            vals = [""] + ["%s,%s" % (c, a) for c in CSLABELS[1:] for a in "AXI"]
        elif p["kind"] in KINDS:
            vals = KINDS[p["kind"]][2] or ["x"]
        else:
            return
        v = vals[v % len(vals)]
        del self.ca.puts[:]
        c = Client(self.process)
        before = self.state()
        spawned = c.send(Put(id=3, path=["B", p["name"], "value"], value=v), wait=False)
        spawned.wait(WAIT)
        require(len(c.responses) == 1, "%s answers", len(c.responses))
        ok = c.responses[0][1]["typeid"] == "malcolm:core/Return:1.0"
        if not writeable or before != "Ready":
            if not writeable:
                require(not ok and not self.ca.puts, "put to %s was done", p["name"])
            return
        self.t.nontrivial()
        if p["kind"] == "raw":
            port, axis = v.split(",") if v else (CSLABELS[0], "")
            want = [(p["d"], CSLABELS.index(port), True, 5),
                    (p["axis"], axis, True, 5)]
            pvs = [self.ca.pvs[x] for x in (p["d"], p["axis"])]
            bad = [x for x in pvs if not x.connected or x.refuse]
            if bad and bad[0] is pvs[0]:
                want = want[:1]
            reads = p["pvs"][2:]
            got = [(a, b, w, 5) for a, b, w, _ in self.ca.puts]
        else:
            wire = {"choice": LABELS.index(v) if v in LABELS else None,
                    "boolean": int(v) if p["kind"] == "boolean" else None}.get(
                        p["kind"], v)
            want = [(p["d"], wire, True, None if p["timeout"] < 0 else p["timeout"])]
            x = self.ca.pvs[p["d"]]
            bad = not x.connected or x.refuse
            reads = [p["r"]]
            got = self.ca.puts
        require(got == want, "put of %s to %s did the puts %s, should be %s", v,
                p["name"], got, want)
        if bad:
            require(not ok, "put to %s which refuses it was fine", p["name"])
        elif all(self.ca.pvs[r].connected for r in reads):
            require(ok, "put failed: %s", c.responses[0][1])
            # the value is the readback's by the time the put is done
            if p["kind"] == "raw":
                self.judge_raw_value(p)
            else:
                now = self.read(p["name"], "value")
                require(now == self.value(p), "%s is %s when the put is done, the PV is "
                        "%s", p["name"], now, self.value(p))

    def judge_raw_value(self, p):
        port, axis = [self.ca.pvs[x] for x in p["pvs"][2:4]]
        got = self.read("cs", "value")
        if axis.value in CSAXES and port.value:
            want = "%s,%s" % (CSLABELS[port.value], axis.value)
        else:
            want = ""
        require(got == want, "cs is %s when the put is done, should be %s", got, want)

    def post(self, name):
        c = Client(self.process)
        c.send(Post(id=5, path=["B", name]), wait=True)
        return c.responses[0][1]["typeid"] == "malcolm:core/Return:1.0"

    def do_reset(self, *_):
        if self.state() not in ("Disabled", "Fault"):
            return
        self.t.nontrivial()
        self.ca.settle()
        want = self.could_connect()
        ok = self.post("reset")
        require(ok == want, "reset gave %s, the PVs are %s", ok,
                {n: pv.connected for n, pv in self.ca.pvs.items()})
        require(self.state() == ("Ready" if want else "Fault"), "state %s after reset",
                self.state())
        self.ca.settle()
        if want:
            self.connected()

    def do_disable(self, *_):
        if self.state() == "Disabled":
            return
        require(self.post("disable"), "disable failed")
        self.ca.settle()
        require(not self.ca.subs, "monitors left on %s by disable",
                [s.pv.name for s in self.ca.subs])
        self.frozen = {p["name"]: self.read(p["name"]) for p in self.parts}

    def do_settle(self, *_):
        self.ca.settle()

    def go(self):
        self.process.add_controller(self.controller)
        want = self.could_connect()
        self.process.start(20)
        self.ca.settle()
        require(self.state() == ("Ready" if want else "Fault"), "state %s after start, "
                "PVs %s", self.state(), {n: p.connected for n, p in self.ca.pvs.items()})
        if want:
            self.connected()
            self.judge()
        for i, (op, a, b) in enumerate(self.case["ops"]):
            self.t.label(op)
            getattr(self, "do_" + op)(a, b)
            state = self.state()
            if i % 3 == 2 or op in ("settle", "reset", "lost"):
                self.ca.settle()
                if state == "Ready":
                    self.judge()
            if state == "Disabled":
                for n, v in self.frozen.items():
                    require(self.read(n) == v, "%s changed to %s when disabled", n,
                            self.read(n))
        self.ca.settle()
        if self.state() == "Ready":
            self.judge()


@check.sub("parts", cases, quick=900, thorough=10000, shards=4, budget=30)
def run(case, t):
    saved = cautil.catools
    w = None
    try:
        w = cautil.catools = CA()
        w.stop()
        w = World(case, t)
        cautil.catools = w.ca
        w.go()
    finally:
        cautil.catools = saved
        if isinstance(w, World):
            w.process.stop(20)
            w.ca.stop()


@st.composite
def actions(draw):
    succeed = draw(st.booleans())
    moves = st.lists(st.sampled_from(
        ["good", "busy", "bad"] if succeed else ["busy", "bad"]), max_size=3)
    if succeed:
        moves = st.tuples(moves, st.integers(0, 3)).map(
            lambda x: x[0][:x[1]] + ["good"] + x[0][x[1]:])
    return dict(
        # so that a slow machine does not matter
        timeout=20 if succeed else 0.01,
        value=draw(st.sampled_from([0, 1, 7])), wait=draw(st.booleans()),
        throw=draw(st.booleans()), lost=draw(st.sampled_from([""] * 5 + [
            "pv", "status", "message"])),
        status=draw(st.booleans()), message=draw(st.booleans()),
        calls=draw(st.lists(st.tuples(
            moves, st.booleans()), min_size=1, max_size=3)))


@check.sub("action", actions, quick=120, thorough=2000, shards=2, budget=15)
def action(case, t):
    ca = CA()
    saved = cautil.catools
    cautil.catools = ca
    process = Process("p")
    try:
        pvs = dict(pv="A:GO", status="A:STATUS", message="A:MESSAGE")
        ca.add("A:GO", "long", 0)
        kw = {}
        if case["status"]:
            ca.add("A:STATUS", "enum", 1, ["good", "busy", "bad"])
            kw.update(status_pv="A:STATUS", good_status="good", status_timeout=case["timeout"])
            if case["message"]:
                ca.add("A:MESSAGE", "char", "what went wrong")
                kw["message_pv"] = "A:MESSAGE"
        lost = pvs.get(case["lost"])
        lost = lost if lost in ca.pvs else None
        if lost:
            ca.pvs[lost].connected = False
        c = StatefulController("B")
        c.add_part(cap.CAActionPart(
            "go", "d", pv="A:GO", value=case["value"], wait=case["wait"],
            throw=case["throw"], **kw))
        process.add_controller(c)
        process.start(20)

        def read(*path):
            return get(process, ["B"] + list(path))[1]
        if lost:
            t.nontrivial()
            require(read("state", "value") == ("Fault" if case["throw"] else "Ready"),
                    "state %s with %s not there", read("state", "value"), lost)
            if not case["throw"]:
                require("method:return:unpacked" not in [] and any(
                    "hidden" in x for x in read("go", "meta", "tags")),
                    "method is not hidden: %s", read("go", "meta", "tags"))
            return
        require(not any("hidden" in x for x in read("go", "meta", "tags")), "hidden")
        for moves, refuse in case["calls"]:
            if case["status"]:
                ca.change("A:STATUS", value=1)
            ca.settle()
            ca.pvs["A:GO"].refuse = refuse
            del ca.puts[:]
            client = Client(process)
            running = []

            def on_put(v, moves=moves, running=running):
                def change():
                    for m in moves:
                        ca.change("A:STATUS", value=["good", "busy", "bad"].index(m))
                        yield_all(3)
                if case["status"]:
                    running.append(cothread.Spawn(change)) if len(moves) > 1 \
                        else change()
            ca.pvs["A:GO"].on_put = on_put
            client.send(Post(id=4, path=["B", "go"]), wait=True)
            reply = client.responses[0][1]
            ok = reply["typeid"] == "malcolm:core/Return:1.0"
            require(ca.puts == [("A:GO", case["value"], case["wait"], None)],
                    "call did the puts %s", ca.puts)
            good = not refuse and (not case["status"] or "good" in moves)
            require(ok == good, "call gave %s, the status went through %s", reply, moves)
            if not good and not refuse:
                t.nontrivial()
                require(any(m in reply["message"] for m in moves + ["busy"]),
                        "error %s, the status was %s", reply["message"], moves)
                if case["message"]:
                    require("what went wrong" in reply["message"], "error %s",
                            reply["message"])
            for r in running:
                r.Wait()
            ca.settle()
            require(not ca.subs, "monitors left on %s", [s.pv.name for s in ca.subs])
    finally:
        cautil.catools = saved
        process.stop(20)
        ca.stop()
