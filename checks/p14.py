"""P14: exported fields and layout of a manager"""
import shutil
import tempfile

from annotypes import Anno, add_call_types
from hypothesis import strategies as st

from malcolm.core import (
    ChoiceMeta, Part, Port, Post, Process, Put, StringMeta, camel_to_title,
    config_tag, group_tag)
from malcolm.modules.builtin.controllers import (
    BasicController, ManagerController)
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable

from pbt import Check, gen, require
from pbt.mal import AttrPart, ask, get, plain, yield_all

check = Check(
    "P14", rule="a case is a manager block with generated children and a history "
    "of changes to exports, layout and the children's fields, and of requests "
    "through the exported fields; non-trivial = a field was exported while its "
    "child changed or was hidden, or a connected child was hidden",
    assumptions=["layouts are put as whole tables, as the GUI does"])

with Anno("first"):
    AX = int
with Anno("second"):
    AY = int
with Anno("sum"):
    ASum = int


class CalcPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.calls = []
        registrar.add_method_model(self.calc)
        registrar.add_method_model(self.ping)

    @add_call_types
    def calc(self, x: AX, y: AY = 3) -> ASum:
        self.calls.append(["calc", x, y])
        if x < 0:
            raise ValueError("negative %d" % x)
        return x * 10 + y

    @add_call_types
    def ping(self) -> None:
        self.calls.append(["ping"])


CHILDREN = ["cam", "motor", "box"]


@st.composite
def cases(draw):
    n = draw(st.integers(1, 3))
    children = []
    for i in range(n):
        attrs = []
        for j in range(draw(st.integers(1, 3))):
            spec = draw(gen.meta_spec())
            attrs.append([gen.NAMES[j], dict(
                spec=spec, pool=draw(st.lists(gen.values(spec), min_size=2,
                                              max_size=3)),
                ro=draw(st.sampled_from([False, False, True])),
                tags=draw(st.sampled_from([[], ["config"], ["group"]])))])
        children.append(dict(
            name=CHILDREN[i], attrs=attrs,
            visible=draw(st.sampled_from([True, True, None, False])),
            bool_in=draw(st.integers(0, 3)), int_in=draw(st.integers(0, 3))))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("exports"), st.lists(st.tuples(
            st.integers(0, 2), st.integers(0, 8),
            st.sampled_from(["outA", "outB", "outC", "myField2"])).map(list),
            max_size=4)),
        st.tuples(st.just("exports"), st.lists(st.tuples(
            st.integers(0, 2), st.integers(0, 8),
            st.sampled_from(["outA", "outB", "outC", "myField2"])).map(list),
            min_size=2, max_size=4)),
        st.tuples(st.just("layout"), st.lists(st.booleans(), min_size=3,
                                              max_size=3),
                  st.integers(-4, 4)),
        st.tuples(st.just("layout"), st.lists(st.booleans(), min_size=3,
                                              max_size=3),
                  st.integers(-4, 4)),
        st.tuples(st.just("set"), st.integers(0, 2), st.integers(0, 3),
                  st.integers(0, 3)),
        st.tuples(st.just("alarm"), st.integers(0, 2), st.integers(0, 3),
                  st.integers(0, 4)),
        st.tuples(st.just("describe"), st.integers(0, 2), st.integers(0, 3),
                  st.integers(0, 9)),
        st.tuples(st.just("put"), st.integers(0, 3), st.integers(0, 3)),
        st.tuples(st.just("put"), st.integers(0, 3), st.integers(0, 3)),
        st.tuples(st.just("post"), st.integers(0, 3), st.integers(-1, 9),
                  st.one_of(st.none(), st.integers(0, 9))),
        st.tuples(st.just("connect"), st.integers(0, 2), st.booleans(),
                  st.integers(0, 3)),
        st.tuples(st.just("badexport"), st.sampled_from(
            ["Bad name", "1abc", "a-b", "Abc", ""])),
    ).map(list), min_size=3, max_size=16))
    # often export methods and fields early
    if draw(st.booleans()):
        ops.insert(0, ["exports", [
            [draw(st.integers(0, 2)), draw(st.integers(0, 8)), "outA"],
            [draw(st.integers(0, 2)), draw(st.integers(0, 8)), "outB"]]])
    return dict(children=children, ops=ops)


class World:
    def __init__(self, case):
        self.dir = tempfile.mkdtemp(prefix="pbt-export-")
        self.process = Process("proc")
        self.case = case
        names = [c["name"] for c in case["children"]]
        self.bools = ["ZERO"] + ["%s.BOOL" % n.upper() for n in names]
        self.ints = ["ZERO"] + ["%s.INT" % n.upper() for n in names]
        self.models, self.calc, self.specs = {}, {}, {}
        for c in case["children"]:
            fields, funcs = {}, {}
            for name, a in c["attrs"]:
                tags = []
                if "config" in a["tags"]:
                    tags.append(config_tag())
                if "group" in a["tags"]:
                    tags.append(group_tag("things"))
                m = gen.make_meta(a["spec"], tags=tags).create_attribute_model(
                    a["pool"][0])
                fields[name] = m
                if not a["ro"]:
                    funcs[name] = m.set_value
                self.specs[c["name"], name] = a
            me = "%s.BOOL" % c["name"].upper()
            fields["boolOut"] = StringMeta("o", tags=[
                Port.BOOL.source_port_tag(me)]).create_attribute_model("x")
            fields["intOut"] = StringMeta("o", tags=[
                Port.INT32.source_port_tag("%s.INT" % c["name"].upper())]).create_attribute_model("x")
            fields["boolIn"] = ChoiceMeta("i", self.bools, tags=[
                Port.BOOL.sink_port_tag("ZERO")]).create_attribute_model(
                self.bools[c["bool_in"] % len(self.bools)])
            fields["intIn"] = ChoiceMeta("i", self.ints, tags=[
                Port.INT32.sink_port_tag("ZERO")]).create_attribute_model(
                self.ints[c["int_in"] % len(self.ints)])
            for k in ("boolIn", "intIn"):
                funcs[k] = fields[k].set_value
            ctrl = BasicController(c["name"].upper())
            ctrl.add_part(AttrPart("fields", fields, funcs))
            self.calc[c["name"]] = CalcPart("calc")
            ctrl.add_part(self.calc[c["name"]])
            self.models[c["name"]] = fields
            self.process.add_controller(ctrl)
        self.top = ManagerController("TOP", config_dir=self.dir)
        for c in case["children"]:
            self.top.add_part(ChildPart(
                c["name"], c["name"].upper(), initial_visibility=c["visible"],
                stateful=False))
        self.process.add_controller(self.top)
        self.process.start(timeout=20)

    def names(self, child):
        c = [c for c in self.case["children"] if c["name"] == child][0]
        return [n for n, _ in c["attrs"]] + ["boolIn", "calc", "ping"]

    def close(self):
        try:
            self.process.stop(timeout=20)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)


def block(w, mri):
    ok, b = get(w.process, [mri])
    assert ok
    return b


def comparable(field, exported):
    """What an exported field has in common with the original one"""
    f = {k: v for k, v in field.items()}
    f["meta"] = {k: v for k, v in f["meta"].items()
                 if k not in ("label", "writeable", "tags")}
    for k in ("took", "returned"):
        f.pop(k, None)
    return f


def verify(w, exports, visible, t):
    top = block(w, "TOP")
    own = {"health", "state", "disable", "reset", "mri", "layout", "design",
           "exports", "modified", "save", "meta", "typeid"}
    want = {name: src for src, name in exports if visible[src.split(".")[0]]}
    got = set(top) - own
    require(got == set(want), "manager has fields %s, expected %s", sorted(got),
            sorted(want))
    require([f for f in top["meta"]["fields"] if f in want] ==
            [n for s, n in exports if n in want], "order of fields %s, exports "
            "%s", top["meta"]["fields"], exports)
    children = {}
    for name, src in want.items():
        child, attr = src.split(".")
        b = children.setdefault(child, block(w, child.upper()))
        a, e = comparable(b[attr], False), comparable(top[name], True)
        require(a == e, "%s exported as %s: child has %s, we have %s", src, name,
                a, e)
        require(top[name]["meta"]["label"] == camel_to_title(name), "%s exported "
                "as %s has label %s", src, name, top[name]["meta"]["label"])
        bad = [x for x in top[name]["meta"].get("tags", []) if
               x.startswith("config:") or x.startswith("group:")]
        require(not bad, "exported field %s has tags %s", name, bad)
    layout = top["layout"]["value"]
    require(dict(zip(layout["name"], layout["visible"])) == visible,
            "layout is %s, expected %s", layout, visible)
    require(layout["mri"] == [n.upper() for n in layout["name"]], "layout has %s",
            layout)
    choices = top["exports"]["meta"]["elements"]["source"]["choices"]
    every = []
    for c in w.case["children"]:
        every += ["%s.%s" % (c["name"], f) for f in
                  block(w, c["name"].upper())["meta"]["fields"]]
    require(choices == every, "exportable fields are %s, the children have %s",
            choices, every)
    rows = list(map(list, zip(top["exports"]["value"]["source"],
                              top["exports"]["value"]["export"])))
    require(rows == [list(r) for r in exports], "exports table is %s, expected "
            "%s", rows, exports)


def sinks(w):
    return {(c, k): w.models[c][k].value for c in w.models
            for k in ("boolIn", "intIn")}


def initial_visibility(w, case):
    """Given ones, the others are visible if something is connected"""
    vis = {c["name"]: c["visible"] for c in case["children"]}
    conn = set()
    for (child, k), v in sinks(w).items():
        if v != "ZERO":
            conn |= {child, v.split(".")[0].lower()}
    return {n: (n in conn if v is None else v) for n, v in vis.items()}


@check.sub("history", cases, quick=2000, thorough=30000, shards=7, budget=20)
def run(case, t):
    w = World(case)
    try:
        kids = [c["name"] for c in case["children"]]
        exports = []
        visible = initial_visibility(w, case)
        verify(w, exports, visible, t)
        # what a GUI does first: move things around
        ops = [["layout", [visible[k] for k in kids], 1]] + case["ops"]

        def send(req):
            rs = ask(w.process, req.path[0], req)
            require(len(rs) == 1, "%s answered with %s", plain(req), rs)
            yield_all(3)
            return rs[0]

        for i, op in enumerate(ops):
            kind, args = op[0], op[1:]
            t.label(kind)
            shown = {n: s for s, n in exports if visible[s.split(".")[0]]}
            if kind == "exports":
                rows, seen = [], set()
                for ci, ai, name in args[0]:
                    child = kids[ci % len(kids)]
                    names = w.names(child)
                    if name not in seen:
                        seen.add(name)
                        rows.append(("%s.%s" % (child, names[ai % len(names)]),
                                     name))
                r = send(Put(path=["TOP", "exports", "value"], value=ExportTable(
                    [s for s, _ in rows], [n for _, n in rows])))
                require("Error" not in r["typeid"], "exports %s give %s", rows, r)
                exports = rows
            elif kind == "badexport":
                r = send(Put(path=["TOP", "exports", "value"], value=ExportTable(
                    ["%s.calc" % kids[0]], [args[0]])))
                require("Error" in r["typeid"], "export as %s accepted", args[0])
            elif kind == "layout":
                before = sinks(w)
                new = dict(zip(kids, args[0]))
                r = send(Put(path=["TOP", "layout", "value"], value=LayoutTable(
                    kids, [""] * len(kids), [args[1]] * len(kids),
                    [i - args[1] for i in range(len(kids))],
                    [new[k] for k in kids])))
                require("Error" not in r["typeid"], "layout gives %s", r)
                hidden = [k for k in kids if visible[k] and not new[k]]
                want = {}
                for (child, k), v in before.items():
                    cut = child in hidden or v.split(".")[0].lower() in hidden
                    want[child, k] = "ZERO" if cut else v
                    t.nontrivial(cut and v != "ZERO")
                    t.label("severed", cut and v != "ZERO")
                require(i == 0 or sinks(w) == want, "hiding %s changed the connections %s "
                        "to %s", hidden, before, sinks(w))
                t.nontrivial(any(s.split(".")[0] in hidden for s, _ in exports))
                visible = {k: new[k] for k in kids}
                lay = block(w, "TOP")["layout"]["value"]
                require(lay["x"] == [args[1]] * len(kids) and
                        lay["y"] == [i - args[1] for i in range(len(kids))],
                        "positions are %s", lay)
            elif kind in ("set", "alarm", "describe"):
                child = kids[args[0] % len(kids)]
                names = [n for (c, n) in w.specs if c == child]
                name = names[args[1] % len(names)]
                m = w.models[child][name]
                if kind == "set":
                    pool = w.specs[child, name]["pool"]
                    m.set_value(pool[args[2] % len(pool)])
                elif kind == "alarm":
                    m.set_alarm(gen.make_alarm([args[2], 1, "msg"]))
                else:
                    m.meta.set_description("text %d" % args[2])
                t.nontrivial(any(s == "%s.%s" % (child, name)
                                 for s, _ in exports))
            elif kind == "put":
                attrs = sorted(n for n, s in shown.items()
                               if tuple(s.split(".")) in w.specs)
                if not attrs:
                    continue
                name = attrs[args[0] % len(attrs)]
                child, attr = shown[name].split(".")
                a = w.specs[child, attr]
                v = a["pool"][args[1] % len(a["pool"])]
                before = plain(w.models[child][attr].value)
                r = send(Put(path=["TOP", name, "value"], value=v))
                now = plain(w.models[child][attr].value)
                t.nontrivial()
                t.label("put through export")
                if a["ro"]:
                    require("Error" in r["typeid"] and now == before, "put to "
                            "export of read-only %s gives %s, now %s",
                            shown[name], r, now)
                else:
                    want = plain(w.models[child][attr].meta.validate(v))
                    require("Error" not in r["typeid"] and now == want, "put %s "
                            "through %s gives %s, child has %s", v, name, r, now)
            elif kind == "post":
                ms = sorted(n for n, s in shown.items()
                            if s.split(".")[1] in ("calc", "ping"))
                if not ms:
                    continue
                name = ms[args[0] % len(ms)]
                child, meth = shown[name].split(".")
                calls = w.calc[child].calls
                del calls[:]
                t.nontrivial()
                t.label("post through export")
                if meth == "ping":
                    r = send(Post(path=["TOP", name]))
                    require("Error" not in r["typeid"] and calls == [["ping"]],
                            "ping through export gives %s and calls %s", r,
                            calls)
                else:
                    params = dict(x=args[1])
                    if args[2] is not None:
                        params["y"] = args[2]
                    r = send(Post(path=["TOP", name], parameters=params))
                    y = params.get("y", 3)
                    require(calls == [["calc", args[1], y]], "%s through export "
                            "calls %s with answer %s", params, calls, r)
                    if args[1] < 0:
                        require("Error" in r["typeid"] and "negative" in
                                r["message"], "failing method gives %s", r)
                    else:
                        require("Error" not in r["typeid"] and r["value"] ==
                                args[1] * 10 + y, "method gives %s", r)
            elif kind == "connect":
                child = kids[args[0] % len(kids)]
                k = "boolIn" if args[1] else "intIn"
                vs = w.bools if args[1] else w.ints
                v = vs[args[2] % len(vs)]
                send(Put(path=[child.upper(), k, "value"], value=v))
            verify(w, exports, visible, t)
    finally:
        w.close()
