"""P01: subscribers always see what a Get would return"""
from hypothesis import strategies as st

from malcolm.core import (
    Controller, Get, MethodLog, MethodMeta, MethodModel, MapMeta, NumberMeta,
    Process, StringMeta, Subscribe, Unsubscribe)

from pbt import Check, require
from pbt import gen
from pbt.mal import (
    AttrPart, Client, apply_delta, ask, get, plain, yield_all)

check = Check(
    "P01",
    rule="a case is a block with generated fields and a history of subscribe / "
    "unsubscribe / squashed-change-batch operations; non-trivial = at least one "
    "batch changed something while at least one subscription was live",
    assumptions=[
        "paths subscribed to are paths a Get accepts at some time in the "
        "history and that do not go through a mapping (meta.elements.x)",
        "cooperative scheduling (cothread): preemption only at yield points",
    ])

MRI = "blk"
LEAVES = {
    None: [[], ["meta"], ["meta", "fields"], ["meta", "label"],
           ["meta", "tags"]],
    "attr": [[], ["value"], ["alarm"], ["alarm", "message"], ["timeStamp"],
             ["timeStamp", "secondsPastEpoch"], ["meta"], ["meta", "label"],
             ["meta", "tags"], ["meta", "writeable"], ["meta", "description"]],
    "number": [["meta", "display"], ["meta", "display", "limitHigh"]],
    "choice": [["meta", "choices"]],
    "table": [["meta", "elements"], ["value", "alpha"], ["value", "beta"]],
    "method": [[], ["meta"], ["meta", "takes"], ["meta", "takes", "required"],
               ["meta", "label"], ["took"], ["took", "value"], ["returned"],
               ["returned", "alarm"]],
}


def field_paths(name, spec):
    kind = spec["kind"]
    if kind == "method":
        ret = LEAVES["method"]
    else:
        ret = LEAVES["attr"]
        if kind.startswith("number"):
            ret = ret + LEAVES["number"]
        elif kind.startswith("choice"):
            ret = ret + LEAVES["choice"]
        elif kind == "table":
            cols = [c[0] for c in spec["columns"]]
            ret = ret + [p for p in LEAVES["table"]
                         if len(p) < 2 or p[0] != "value" or p[1] in cols]
    return [[name] + p for p in ret]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    fields, initial = [], []
    for i in range(n):
        if draw(st.integers(0, 6)) == 0:
            spec = dict(kind="method")
        else:
            spec = draw(st.one_of(
                gen.meta_spec(), gen.meta_spec(kinds=["table", "table", "number",
                                                      "choice"])))
        v0 = None if spec["kind"] == "method" else draw(gen.values(spec))
        fields.append([gen.NAMES[i + 3], spec])
        initial.append(v0)
    specs = dict((f, s) for f, s in fields)
    paths = list(LEAVES[None])
    for f, s in fields:
        paths += field_paths(f, s)

    def mutation():
        f, spec = draw(st.sampled_from(fields))
        if spec["kind"] == "method":
            what = draw(st.sampled_from(["took", "returned", "takes", "label",
                                         "remove", "add"]))
            return dict(what=what, field=f, v=draw(st.integers(0, 9)))
        whats = ["value", "value", "value", "valuets", "alarm", "ts", "label",
                 "tags", "writeable", "description", "remove", "add", "meta",
                 "blocklabel"]
        if spec["kind"] == "table":
            whats += ["column"] * 5
        if spec["kind"].startswith("number"):
            whats += ["limit"] * 2
        if spec["kind"].startswith("choice"):
            whats += ["choices"] * 2
        what = draw(st.sampled_from(whats))
        m = dict(what=what, field=f)
        if what in ("value", "meta", "add"):
            m["v"] = draw(gen.values(spec))
        elif what == "valuets":
            m["v"] = draw(gen.values(spec))
            m["alarm"] = draw(gen.alarms)
            m["ts"] = draw(st.integers(0, 1000))
        elif what == "alarm":
            m["v"] = draw(gen.alarms)
        elif what == "ts":
            m["v"] = draw(st.integers(0, 1000))
        elif what in ("label", "description", "blocklabel"):
            m["v"] = draw(gen.TEXT)
        elif what == "tags":
            m["v"] = draw(st.lists(gen.TEXT, max_size=3))
        elif what == "writeable":
            m["v"] = draw(st.booleans())
        elif what == "limit":
            m["v"] = draw(st.integers(-5, 50))
        elif what == "choices":
            m["v"] = list(spec["choices"]) + draw(
                st.lists(st.sampled_from(["p", "q", "r"]), unique=True))
        elif what == "column":
            cols = spec["columns"]
            c, cs = draw(st.sampled_from(cols))
            m["col"] = c
            # rotates / changes the column, keeping its length
            m["v"] = draw(gen.values(cs, size=4))
        return m

    ops = []
    for _ in range(draw(st.integers(4, 14))):
        k = draw(st.integers(0, 9))
        if k < 4 or len(ops) < 2:
            ops.append(dict(op="sub", path=draw(st.sampled_from(paths)),
                            delta=draw(st.booleans())))
        elif k < 5:
            ops.append(dict(op="unsub", i=draw(st.integers(0, 5))))
        else:
            ops.append(dict(
                op="batch",
                muts=[mutation() for _ in range(draw(st.integers(1, 3)))],
                nested=draw(st.booleans()), peek=draw(st.booleans())))
    return dict(fields=[[f, specs[f]] for f, _ in fields], ops=ops, initial=initial)


def make_field(spec, v=None):
    if spec["kind"] == "method":
        return MethodModel(meta=MethodMeta(
            takes=MapMeta({"p": NumberMeta("int32", "d"),
                           "q": StringMeta("d")}, ["p"]),
            returns=MapMeta({"r": NumberMeta("int32", "d")})))
    return gen.make_meta(spec).create_attribute_model(v)


class Sub:
    def __init__(self, process, i, path, delta):
        self.client = Client(process)
        self.path = path
        self.delta = delta
        self.id = i
        self.seen = 0
        self.state = None
        self.live = True
        self.client.send(Subscribe(id=i, path=[MRI] + path, delta=delta))

    def new(self):
        return len(self.client.responses) - self.seen

    def absorb(self):
        for _, wire in self.client.responses[self.seen:]:
            require(wire["id"] == self.id, "response %s has the wrong id", wire)
            if self.delta:
                require(wire["typeid"] == "malcolm:core/Delta:1.0",
                        "expected a Delta, got %s", wire)
                self.state = apply_delta(self.state, wire["changes"])
            else:
                require(wire["typeid"] == "malcolm:core/Update:1.0",
                        "expected an Update, got %s", wire)
                self.state = wire["value"]
        self.seen = len(self.client.responses)


def related(change, path):
    n = min(len(change), len(path))
    return change[:n] == path[:n]


def mutate(c, specs, m, touched):
    f = m["field"]
    what = m["what"]
    block = c._block
    present = f in block.call_types
    if what == "blocklabel":
        block.meta.set_label(m["v"])
        touched.append(["meta", "label"])
        return
    if what == "add":
        # add a new field, or replace the one of that name
        c.add_block_field(f, make_field(specs[f], m.get("v") if
                                        specs[f]["kind"] != "method" else None),
                          None, False)
        touched += [[f], ["meta", "fields"]]
        return
    if not present:
        return
    if what == "remove":
        block.remove_endpoint(f)
        touched += [[f], ["meta", "fields"]]
        return
    touched.append([f])
    a = block[f]
    if what == "value":
        a.set_value(m["v"])
    elif what == "valuets":
        a.set_value(m["v"], alarm=gen.make_alarm(m["alarm"]),
                    ts=gen.make_ts(m["ts"]))
    elif what == "column":
        old = a.value
        cols = {k: old[k] for k in old}
        n = len(cols[m["col"]])
        cols[m["col"]] = (m["v"] * (n + 1))[:n]
        a.set_value(cols)
    elif what == "alarm":
        a.set_alarm(gen.make_alarm(m["v"]))
    elif what == "ts":
        a.set_timeStamp(gen.make_ts(m["v"]))
    elif what == "label":
        a.meta.set_label(str(m["v"]))
    elif what == "description":
        a.meta.set_description(m["v"])
    elif what == "tags":
        a.meta.set_tags(m["v"])
    elif what == "writeable":
        a.meta.set_writeable(m["v"])
    elif what == "limit":
        a.meta.display.set_limitHigh(m["v"])
    elif what == "choices":
        a.meta.set_choices(m["v"])
    elif what == "meta":
        a.set_meta(gen.make_meta(specs[f], label="new"))
    elif what == "took":
        a.set_took(MethodLog({"p": m["v"], "q": "x"}, ["p"]))
    elif what == "returned":
        a.set_returned(MethodLog({"r": m["v"]}, ["r"]))
    elif what == "takes":
        a.meta.takes.set_required([] if m["v"] % 2 else ["p"])


@check.sub("history", cases, quick=1500, shards=4, budget=40)
def run(case, t):
    specs = dict((f, s) for f, s in case["fields"])
    process = Process("proc")
    c = Controller(MRI)
    attrs = {f: make_field(s, v) for (f, s), v in
             zip(case["fields"], case["initial"]) if s["kind"] != "method"}
    c.add_part(AttrPart("part", attrs))
    process.start()
    process.add_controller(c)
    for f, s in case["fields"]:
        if s["kind"] == "method":
            c.add_block_field(f, make_field(s), None, False)
    subs = []

    def compare(when):
        for s in subs:
            if not s.live:
                require(s.new() == 0, "%s after unsubscribe of %s: %s", when,
                        s.path, [w for _, w in s.client.responses[s.seen:]])
                continue
            s.absorb()
            ok, value = get(process, [MRI] + s.path)
            if not ok:
                value = None
            require(s.state == value,
                    "%s: %s subscriber to %s has %s but Get gives %s", when,
                    "Delta" if s.delta else "Update", s.path, s.state, value)

    try:
        for i, op in enumerate(case["ops"]):
            when = "after op %d" % i
            if op["op"] == "sub":
                ok, _ = get(process, [MRI] + op["path"])
                s = Sub(process, i + 10, op["path"], op["delta"])
                require(s.new() == 1, "Subscribe to %s got %s initial "
                        "responses", op["path"], s.new())
                subs.append(s)
                t.label("delta", s.delta)
                t.label("subscribe to removed field", not ok)
            elif op["op"] == "unsub":
                live = [s for s in subs if s.live]
                if live:
                    s = live[op["i"] % len(live)]
                    s.client.send_to(MRI, Unsubscribe(id=s.id))
                    require(s.new() == 1 and s.client.responses[-1][1] == {
                        "typeid": "malcolm:core/Return:1.0", "id": s.id,
                        "value": None}, "Unsubscribe of %s answered with %s",
                        s.path, [w for _, w in s.client.responses[s.seen:]])
                    s.seen += 1
                    s.live = False
            else:
                touched = []
                peeker = Client(process)
                with c.changes_squashed:
                    if op["nested"]:
                        with c.changes_squashed:
                            mutate(c, specs, op["muts"][0], touched)
                    else:
                        mutate(c, specs, op["muts"][0], touched)
                    require(not any(s.new() for s in subs), "%s: subscribers "
                            "were notified in the middle of a squashed change",
                            when)
                    if op["peek"]:
                        # a concurrent Get must wait for the whole batch
                        peeker.send(Get(id=3, path=[MRI]), wait=False)
                        yield_all()
                        require(not peeker.responses, "%s: a Get was answered "
                                "in the middle of a squashed change", when)
                    for m in op["muts"][1:]:
                        mutate(c, specs, m, touched)
                    require(not any(s.new() for s in subs), "%s: subscribers "
                            "were notified in the middle of a squashed change",
                            when)
                for s in subs:
                    if not s.live:
                        continue
                    t.nontrivial(bool(touched))
                    if not s.path or any(related(ch, s.path)
                                         for ch in touched):
                        require(s.new() <= 1, "%s: %s got %s notifications for "
                                "one squashed change", when, s.path, s.new())
                        t.label("notified", s.new() == 1)
                    else:
                        require(s.new() == 0, "%s: subscriber to %s was "
                                "notified of changes to %s", when, s.path,
                                touched)
                if op["peek"]:
                    yield_all(10)
                    ok, value = get(process, [MRI])
                    require(len(peeker.responses) == 1 and
                            peeker.responses[0][1].get("value") == value,
                            "%s: concurrent Get was answered with %s, not the "
                            "state after the batch %s", when,
                            [w for _, w in peeker.responses], value)
                t.label("column", any(m["what"] == "column"
                                      for m in op["muts"]))
                t.label("remove", any(m["what"] == "remove"
                                      for m in op["muts"]))
            compare(when)
        # What was delivered is a snapshot, it never changes afterwards
        for s in subs:
            for r, wire in s.client.responses:
                require(plain(r) == wire, "a delivered response to %s changed "
                        "later from %s to %s", s.path, wire, plain(r))
    finally:
        process.stop(timeout=20)
