"""P13: designs"""
import copy
import shutil
import tempfile

from hypothesis import strategies as st

from malcolm.core import NumberMeta, Post, Process, Put, config_tag
from malcolm.modules.builtin.controllers import (
    BasicController, ManagerController)
from malcolm.modules.builtin.parts import ChildPart
from malcolm.modules.builtin.util import ExportTable, LayoutTable

from pbt import Check, gen, require
from pbt.manager import World, attr_specs, children_specs
from pbt.mal import AttrPart, ask, get, plain, yield_all

check = Check(
    "P13", rule="a case is a manager block with generated children, and a history "
    "of changes to their attributes, the layout and the exports, saves, loads and "
    "restarts; non-trivial = something was changed between a save and a load of "
    "that design",
    assumptions=["child attributes keep the value they were given",
                 "a field is exported once"])
DESIGNS = ["one", "two", "A design"]


@st.composite
def cases(draw):
    children = draw(children_specs())
    own = [["own%d" % i, a] for i, a in enumerate(
        draw(st.lists(attr_specs(), max_size=2)))]
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just("put"), st.integers(0, 2), st.integers(0, 3),
                  st.integers(0, 3)),
        st.tuples(st.just("put"), st.integers(0, 2), st.integers(0, 3),
                  st.integers(0, 3)),
        st.tuples(st.just("put"), st.integers(0, 2), st.integers(0, 3),
                  st.integers(0, 3)),
        st.tuples(st.just("own"), st.integers(0, 1), st.integers(0, 3)),
        st.tuples(st.just("layout"), st.integers(0, 2), st.booleans(),
                  st.integers(-5, 5), st.integers(-5, 5)),
        st.tuples(st.just("exports"), st.lists(st.tuples(
            st.integers(0, 2), st.integers(0, 3),
            st.sampled_from(["outA", "outB", "outC", "out4D"])).map(list),
            max_size=3)),
        st.tuples(st.just("save"), st.integers(0, 3)),
        st.tuples(st.just("save"), st.integers(0, 1)),
        st.tuples(st.just("load"), st.integers(0, 2), st.booleans()),
        st.tuples(st.just("load"), st.integers(0, 2), st.just(True)),
        st.tuples(st.just("blank")),
        st.tuples(st.just("restart"), st.integers(0, 2)),
        st.tuples(st.just("bad"), st.integers(0, 2)),
    ).map(list), min_size=4, max_size=18))
    # save something in the first half, so that there is something to load
    ops.insert(draw(st.integers(0, len(ops) // 2)),
               ["save", draw(st.integers(0, 2))])
    return dict(children=children, own=own, ops=ops)


def snapshot(w):
    """What a design holds"""
    layout = w.value("TOP", "layout")
    exports = w.value("TOP", "exports")
    return dict(
        layout={n: [x, y, v] for n, x, y, v in zip(
            layout["name"], layout["x"], layout["y"], layout["visible"])},
        exports=[list(r) for r in zip(exports["source"], exports["export"])],
        own={n: plain(w.own[n].value) for n, a in w.case["own"] if a["it"]},
        children=w.config_values())


UNKNOWN = object()


@check.sub("designs", cases, quick=1600, thorough=30000, shards=7, budget=20)
def run(case, t):
    w = World(case)
    designs = {}  # name: snapshot when it was saved
    current = ""
    saved = snapshot(w)  # the values that are not modified
    changed = set()
    try:
        verify(w, case, saved, designs, current, t, set())
        for op in case["ops"]:
            kind, args = op[0], op[1:]
            t.label(kind)
            if kind == "put":
                c = case["children"][args[0] % len(case["children"])]
                name, a = c["attrs"][args[1] % len(c["attrs"])]
                v = a["pool"][args[2] % len(a["pool"])]
                err = w.put([c["name"].upper(), name, "value"], v)
                require(err is None, "put %s to %s gives %s", v, name, err)
                changed.add("put")
            elif kind == "own":
                if case["own"]:
                    name, a = case["own"][args[0] % len(case["own"])]
                    v = a["pool"][args[1] % len(a["pool"])]
                    require(w.put(["TOP", name, "value"], v) is None,
                            "put to %s failed", name)
                    changed.add("own")
            elif kind == "layout":
                c = case["children"][args[0] % len(case["children"])]
                w.put(["TOP", "layout", "value"], LayoutTable(
                    [c["name"]], [""], [args[2]], [args[3]], [args[1]]))
                row = snapshot(w)["layout"][c["name"]]
                require(row == [args[2], args[3], args[1]], "layout of %s is %s "
                        "after setting %s", c["name"], row, args)
                changed.add("layout")
            elif kind == "exports":
                rows, seen = [], set()
                for ci, ai, name in args[0]:
                    c = case["children"][ci % len(case["children"])]
                    a = c["attrs"][ai % len(c["attrs"])][0]
                    source = "%s.%s" % (c["name"], a)
                    if source in seen or (name or a) in seen:
                        continue
                    seen |= {source, name or a}
                    rows.append((source, name))
                err = w.put(["TOP", "exports", "value"], ExportTable(
                    [r[0] for r in rows], [r[1] for r in rows]))
                require(err is None, "exports %s give %s", rows, err)
                changed.add("exports")
            elif kind == "save":
                name = (DESIGNS + [""])[args[0]]
                before = snapshot(w)
                ok, msg = w.post(["TOP", "save"], dict(designName=name))
                if not (name or current):
                    require(not ok, "save without a name gave %s", msg)
                    recover(w)
                else:
                    require(ok, "save %s failed with %s", name, msg)
                    current = name or current
                    require(snapshot(w) == before, "save changed %s to %s",
                            before, snapshot(w))
                    designs[current] = before
                    saved = copy.deepcopy(before)
                    changed = set()
            elif kind == "load":
                name = DESIGNS[args[0]]
                if designs and args[1]:
                    name = sorted(designs)[args[0] % len(designs)]
                w.puts = []
                others = w.other_values()
                before = snapshot(w)
                err = w.put(["TOP", "design", "value"], name)
                if name not in designs:
                    require(err, "load of unknown design %s worked", name)
                    require(snapshot(w) == before, "failed load changed the "
                            "block")
                    require(w.value("TOP", "state") == "Ready", "refused design "
                            "leaves state %s", w.value("TOP", "state"))
                else:
                    require(err is None, "load %s gives %s", name, err)
                    t.nontrivial(bool(changed))
                    now = snapshot(w)
                    require(now == designs[name], "loading %s gives %s, saved "
                            "was %s", name, now, designs[name])
                    require(w.other_values() == others, "load changed values "
                            "that are not in the design: %s to %s", others,
                            w.other_values())
                    order(w, case, before, now)
                    current = name
                    saved = copy.deepcopy(now)
                    changed = set()
            elif kind == "blank":
                before = snapshot(w)
                err = w.put(["TOP", "design", "value"], "")
                require(err is None, "clearing the design gives %s", err)
                current = ""
                now = snapshot(w)
                require(now["children"] == before["children"] and
                        now["layout"] == before["layout"], "clearing the design "
                        "changed %s to %s", before, now)
                require(now["exports"] == [], "exports after clearing the "
                        "design are %s", now["exports"])
                # there are no saved values for the attributes now
                saved = dict(now, children={})
                changed = set()
            elif kind == "restart":
                if not current:
                    continue
                want = designs[current]
                w.close() if not w.own_dir else stop(w)
                # the new devices start with other values
                w2 = World(case, initial=current, config=w.config,
                           pick=args[0])
                w2.own_dir, w.own_dir = w.own_dir, False
                w = w2
                now = snapshot(w)
                require(now == want, "starting with design %s gives %s, saved "
                        "was %s", current, now, want)
                saved = copy.deepcopy(now)
                changed = set()
                t.nontrivial()
            elif kind == "bad":
                bad = ["template_x", "template_one", "none"][args[0]]
                if bad == "none":
                    require(w.put(["TOP", "design", "value"], bad), "load of "
                            "unknown design worked")
                else:
                    ok, msg = w.post(["TOP", "save"], dict(designName=bad))
                    require(not ok, "could save over template %s", bad)
                    recover(w)
            verify(w, case, saved, designs, current, t, changed)
    finally:
        w.close()


def stop(w):
    own, w.own_dir = w.own_dir, False
    w.close()
    w.own_dir = own


def recover(w):
    require(w.value("TOP", "state") == "Fault", "failed save leaves state %s",
            w.value("TOP", "state"))
    ok, msg = w.post(["TOP", "reset"])
    require(ok, "reset gives %s", msg)


def order(w, case, before, now):
    """Only values that differ are written, lower iterations first"""
    its = {(c["name"], n): a["it"] for c in case["children"]
           for n, a in c["attrs"]}
    for c in case["children"]:
        name = c["name"]
        puts = [p for p in w.puts if p[0] == name]
        need = {(name, a) for a, v in before["children"][name].items()
                if now["children"][name][a] != v}
        require(need <= set(puts) and len(puts) == len(set(puts)),
                "load wrote %s, what changed is %s", puts, sorted(need))
        steps = [its[p] for p in puts]
        require(steps == sorted(steps) and 0 not in steps, "load wrote %s with "
                "iterations %s", puts, steps)


def verify(w, case, saved, designs, current, t, changed):
    now = snapshot(w)
    require(w.value("TOP", "state") == "Ready", "manager is in state %s",
            w.value("TOP", "state"))
    require(w.value("TOP", "design") == current, "design is %s, expected %s",
            w.value("TOP", "design"), current)
    modified = w.value("TOP", "modified")
    alarm = w.alarm("TOP", "modified")
    # arrays are shown over several lines
    lines = [x for x in alarm["message"].split("\n") if x and
             not x.startswith(" ")]
    want, maybe = [], []
    for c in case["children"]:
        name = c["name"]
        if not now["layout"][name][2]:
            continue
        for attr, v in sorted(now["children"][name].items()):
            if attr not in saved["children"].get(name, {}):
                maybe.append("%s.%s." % (name, attr))
            elif v != saved["children"][name][attr]:
                want.append("%s.%s." % (name, attr))
    if [v[2] for v in now["layout"].values()] != [
            v[2] for v in saved["layout"].values()]:
        want.append("layout changed")
    if now["exports"] != saved["exports"]:
        want.append("exports changed")
    t.label("modified", bool(want))
    t.label("not modified after changes", bool(changed) and not want)
    if want:
        require(modified is True and alarm["severity"] == 1, "modified is %s %s "
                "but %s differ from the design", modified, alarm, want)
    for x in want:
        require(any(line.startswith(x) for line in lines), "%s differs from the "
                "design but modified says %s", x, lines)
    for line in lines:
        require(any(line.startswith(x) for x in want + maybe), "modified says %s "
                "but only %s differ from the design", line, want + maybe)
    if not want and not lines:
        require(modified is False and alarm["severity"] == 0, "modified is %s %s "
                "but nothing differs from the design", modified, alarm)
    choices = w.process.get_controller("TOP").block_view().design.meta.choices
    require(sorted(choices) == sorted([""] + list(designs)), "the designs to "
            "choose from are %s, saved are %s", choices, sorted(designs))


# ------------------------------------------------------------ nested managers

@st.composite
def nested_cases(draw):
    return dict(ops=draw(st.lists(st.one_of(
        st.tuples(st.just("put"), st.integers(0, 3)),
        st.tuples(st.just("put"), st.integers(0, 3)),
        st.tuples(st.just("save"), st.sampled_from(["TOP", "SUB"]),
                  st.sampled_from(["one", "two"])),
        st.tuples(st.just("save"), st.sampled_from(["TOP", "SUB"]),
                  st.sampled_from(["one", "two"])),
        st.tuples(st.just("load"), st.sampled_from(["TOP", "TOP", "SUB"]),
                  st.integers(0, 2)),
        st.tuples(st.just("load"), st.sampled_from(["TOP", "TOP", "SUB"]),
                  st.integers(0, 2)),
        st.tuples(st.just("restart"), st.integers(0, 2), st.booleans()),
    ).map(list), min_size=4, max_size=20)))


def build_nested(config, top="", sub="", leaf=0):
    process = Process("proc")
    attr = NumberMeta("int32", tags=[config_tag()]).create_attribute_model(leaf)
    c = BasicController("LEAF")
    c.add_part(AttrPart("fields", dict(num=attr), dict(num=attr.set_value)))
    s = ManagerController("SUB", config_dir=config, initial_design=sub)
    s.add_part(ChildPart("leaf", "LEAF", initial_visibility=True,
                         stateful=False))
    m = ManagerController("TOP", config_dir=config, initial_design=top)
    m.add_part(ChildPart("sub", "SUB", initial_visibility=True))
    for x in (c, s, m):
        process.add_controller(x)
    process.start(timeout=20)
    return process


@check.sub("nested", nested_cases, quick=1500, thorough=20000, shards=4,
           budget=20)
def nested(case, t):
    d = tempfile.mkdtemp(prefix="pbt-design-")
    process = build_nested(d)
    num = 0
    designs = dict(TOP={}, SUB={})
    current = dict(TOP="", SUB="")
    clean = dict(TOP="", SUB=0)  # saved design of the child, value of the leaf

    def value(*path):
        ok, v = get(process, list(path) + ["value"])
        require(ok, "%s", v)
        return v

    def send(req):
        rs = ask(process, req.path[0], req)
        require(len(rs) == 1 and "Error" not in rs[0]["typeid"], "%s gives %s",
                plain(req), rs)
        yield_all(3)

    try:
        for op in case["ops"]:
            t.label(op[0])
            if op[0] == "put":
                num = op[1]
                send(Put(path=["LEAF", "num", "value"], value=num))
            elif op[0] == "save":
                mri, name = op[1:]
                send(Post(path=[mri, "save"], parameters=dict(designName=name)))
                held = num if mri == "SUB" else current["SUB"]
                designs[mri][name] = held
                current[mri] = name
                clean[mri] = held
            elif op[0] == "load":
                mri, n = op[1:]
                if not designs[mri]:
                    continue
                name = sorted(designs[mri])[n % len(designs[mri])]
                send(Put(path=[mri, "design", "value"], value=name))
                current[mri] = name
                clean[mri] = designs[mri][name]
                if mri == "SUB":
                    num = designs[mri][name]
                else:
                    sub = designs[mri][name]
                    if sub != current["SUB"]:
                        # the child is told to load that design
                        t.nontrivial()
                        t.label("load through the parent")
                        current["SUB"] = sub
                        if sub:
                            num = designs["SUB"][sub]
                            clean["SUB"] = num
                        else:
                            clean["SUB"] = None
            else:
                process.stop(timeout=20)
                num = op[1]
                top = current["TOP"] if op[2] else ""
                process = build_nested(d, top, current["SUB"], num)
                if current["SUB"]:
                    num = designs["SUB"][current["SUB"]]
                clean["SUB"] = num
                # the child keeps the design it was started with
                clean["TOP"] = current["SUB"] if not top else \
                    designs["TOP"][top]
                current["TOP"] = top
                t.nontrivial()
            require(value("LEAF", "num") == num, "after %s the leaf is %s, "
                    "expected %s", op, value("LEAF", "num"), num)
            for mri in ("TOP", "SUB"):
                require(value(mri, "design") == current[mri], "after %s design "
                        "of %s is %s, expected %s", op, mri,
                        value(mri, "design"), current[mri])
            if clean["SUB"] is not None:
                require(value("SUB", "modified") == (num != clean["SUB"]),
                        "leaf is %s, design has %s, SUB.modified is %s", num,
                        clean["SUB"], value("SUB", "modified"))
            require(value("TOP", "modified") == (current["SUB"] != clean["TOP"]),
                    "child has design %s, ours says %s, TOP.modified is %s",
                    current["SUB"], clean["TOP"], value("TOP", "modified"))
    finally:
        process.stop(timeout=20)
        shutil.rmtree(d, ignore_errors=True)
