"""P12: block health is the worst current fault"""
from hypothesis import strategies as st

from malcolm.core import Alarm, Part, Post, Process, TimeStamp
from malcolm.modules.builtin.controllers import (
    BasicController, StatefulController)
from malcolm.modules.builtin.infos import HealthInfo, LabelInfo

from pbt import Check, gen, require
from pbt.mal import ask, get, plain

check = Check(
    "P12", rule="a case is a sequence of alarm reports by the parts of a block, "
    "mixed with disable and reset of the block; non-trivial = at least two "
    "reporters were in alarm at the same time",
    assumptions=[])


class ReportPart(Part):
    def report(self, info):
        self.registrar.report(info)


@st.composite
def cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["report"] * 6 + ["disable", "reset", "label"]))
        if k == "report":
            ops.append(dict(op=k, part=draw(st.integers(0, 3)),
                            alarm=draw(alarms),
                            ts=draw(st.one_of(st.none(),
                                              st.integers(1, 10 ** 9)))))
        else:
            ops.append(dict(op=k, v=draw(gen.TEXT)))
    return dict(stateful=draw(st.booleans()), ops=ops)


# severity (0 = no alarm .. 4), status, message
alarms = st.tuples(st.sampled_from([0, 0, 1, 2, 2, 3, 4]), st.integers(0, 7),
                   st.sampled_from(["", "a", "b", "bad thing", "OK"])).map(list)


@check.sub("reports", cases, quick=2500, shards=3, budget=15)
def run(case, t):
    process = Process("proc")
    c = (StatefulController if case["stateful"] else BasicController)("blk")
    parts = [ReportPart("p%d" % i) for i in range(4)]
    for p in parts:
        c.add_part(p)
    process.add_controller(c)
    process.start(timeout=20)
    faults = {}
    label = "blk"
    state = "Ready"
    try:
        for op in case["ops"]:
            ts = None
            if op["op"] == "report":
                sev, status, msg = op["alarm"]
                info = dict(alarm=gen.Alarm(
                    severity=list(gen.AlarmSeverity)[sev],
                    status=list(gen.AlarmStatus)[status], message=msg))
                if op["ts"] is not None:
                    ts = op["ts"]
                    info["ts"] = gen.make_ts(ts)
                parts[op["part"]].report(HealthInfo(**info))
                if sev:
                    faults[op["part"]] = [sev, status, msg]
                else:
                    faults.pop(op["part"], None)
            elif op["op"] == "label":
                parts[0].report(LabelInfo(op["v"]))
                label = op["v"]
            elif case["stateful"]:
                ok = state == "Disabled" if op["op"] == "reset" else \
                    state == "Ready"
                r = ask(process, "blk", Post(id=1, path=["blk", op["op"]]))
                require(("Error" in r[0]["typeid"]) != ok, "%s in %s gave %s",
                        op["op"], state, r)
                if ok and op["op"] == "disable":
                    faults["self"] = [3, 1, "Disabled"]
                    state = "Disabled"
                elif ok:
                    faults.pop("self", None)
                    state = "Ready"
            t.nontrivial(len(faults) > 1)
            t.label("tie", len(faults) > 1 and
                    len({f[0] for f in faults.values()}) < len(faults))
            ok, h = get(process, ["blk", "health"])
            got = [h["alarm"]["severity"], h["alarm"]["status"],
                   h["alarm"]["message"]]
            if faults:
                worst = max(f[0] for f in faults.values())
                cands = [f for f in faults.values() if f[0] == worst]
                require(got in cands, "faults %s give health alarm %s", faults,
                        got)
                require(h["value"] == got[2], "health %s does not match its "
                        "alarm %s", h["value"], got)
            else:
                require(h["value"] == "OK" and got[0] == 0, "no faults but "
                        "health is %s", h)
            if ts is not None:
                want = plain(gen.make_ts(ts))
                require(h["timeStamp"] == want, "health has time stamp %s, "
                        "reported with %s", h["timeStamp"], want)
            ok, meta = get(process, ["blk", "meta", "label"])
            require(meta == label, "label is %s, expected %s", meta, label)
    finally:
        process.stop(timeout=20)
