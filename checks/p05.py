"""P05: tables, and everything else that goes over the wire"""
import json
from enum import Enum

import numpy as np
from annotypes import Anno, Array, deserialize_object, json_decode, json_encode
from hypothesis import strategies as st

from malcolm.core import (
    Alarm, AlarmSeverity, AlarmStatus, BlockMeta, ChoiceMeta, Delta, Display, Error,
    Get, MapMeta, MethodLog, MethodMeta, MethodModel, NumberMeta, Post, Put, Return,
    Subscribe, Table, TimeStamp, Unsubscribe, Update, Widget)
from malcolm.core.request import Request
from malcolm.core.response import Response

from pbt import Check, gen, require
from pbt.mal import plain

check = Check(
    "P05", rule="a case is a set of table rows (sub tables), or an object of the "
    "data model and the message around it (sub wire); non-trivial = the table has "
    "at least two rows and columns, or the object has structure inside",
    assumptions=["no NaN"])


class Colour(Enum):
    RED, GREEN, BLUE = "Red", "Green", "Blue"


with Anno("names"):
    ANames = Array[str]
with Anno("flags"):
    AFlags = Array[bool]
with Anno("ints"):
    AInts = Array[np.int32]
with Anno("floats"):
    AFloats = Array[np.float64]
with Anno("colours"):
    AColours = Array[Colour]


class Mixed(Table):
    def __init__(self, name: ANames, flag: AFlags, x: AInts, y: AFloats,
                 colour: AColours) -> None:
        self.name = ANames(name)
        self.flag = AFlags(flag)
        self.x = AInts(x)
        self.y = AFloats(y)
        self.colour = AColours(colour)


class Narrow(Table):
    def __init__(self, name: ANames, x: AInts) -> None:
        self.name = ANames(name)
        self.x = AInts(x)


CLASSES = {"mixed": Mixed, "narrow": Narrow}
CELLS = {
    "name": gen.TEXT, "flag": st.booleans(), "x": st.integers(-3, 3),
    "y": st.sampled_from([0.0, 1.0, -2.5, 1e300]),
    "colour": st.integers(0, 2)}


def rows_of(cls):
    return st.lists(st.tuples(*[CELLS[k] for k in CLASSES[cls].call_types])
                    .map(list), max_size=4)


@st.composite
def table_cases(draw):
    if draw(st.booleans()):
        cls = draw(st.sampled_from(sorted(CLASSES)))
        rows = draw(rows_of(cls))
        spec = None
        strat = rows_of(cls)
    else:
        cls = None
        spec = draw(gen.meta_spec(kinds=["table"]))
        def strat_of():
            return gen.values(spec).map(
                lambda v: [list(r) for r in zip(*[v[k] for k, _ in
                                                  spec["columns"]])])
        strat = strat_of()
        rows = draw(strat)
    kind = draw(st.sampled_from(["same", "other", "prefix", "repeat", "cell",
                                 "swap"]))
    other = [list(r) for r in rows]
    if kind == "other":
        other = draw(strat)
    elif kind == "prefix":
        other = other[:draw(st.integers(0, len(other)))]
    elif kind == "repeat" and other:
        # numpy likes to broadcast: a table with one repeated row
        rows = [list(rows[0])] * draw(st.integers(1, 3))
        other = [list(rows[0])] * draw(st.integers(0, 3))
    elif kind == "cell" and other:
        i = draw(st.integers(0, len(other) - 1))
        j = draw(st.integers(0, len(other[0]) - 1))
        donor = draw(strat)
        if donor:
            other[i][j] = donor[0][j]
    elif kind == "swap" and len(other) > 1:
        other[0], other[-1] = other[-1], other[0]
    return dict(cls=cls, spec=spec, rows=rows, other=other,
                ragged=draw(st.integers(0, 4)), index=draw(st.integers(-6, 6)))


def build(case, rows):
    """The table with these rows, by every way of making it"""
    if case["cls"]:
        cls = CLASSES[case["cls"]]
        meta = None
        names = list(cls.call_types)
        if "colour" in names:
            i = names.index("colour")
            rows = [r[:i] + [list(Colour)[r[i]]] + r[i + 1:] for r in rows]
    else:
        meta = gen.make_meta(case["spec"])
        cls = meta.table_cls
        names = [k for k, _ in case["spec"]["columns"]]
    cols = {k: [r[i] for r in rows] for i, k in enumerate(names)}
    ways = []
    if meta is None:
        ways.append(("from_rows", cls.from_rows(rows)))
        ways.append(("init", cls(**cols)))
    else:
        ways.append(("validate", meta.validate(cols)))
        ways.append(("again", meta.validate(meta.validate(cols))))
        ways.append(("wire", meta.validate(plain(meta.validate(cols)))))
        ways.append(("rows", meta.validate(cls.from_rows(rows))))
    return cls, names, rows, ways


def tame(row):
    return [c.tolist() if hasattr(c, "tolist") else c for c in row]


@check.sub("tables", table_cases, quick=4000, thorough=60000, shards=2)
def tables(case, t):
    cls, names, rows, ways = build(case, case["rows"])
    _, _, orows, oways = build(case, case["other"])
    t.nontrivial(len(rows) > 1 and len(names) > 1)
    i = case["index"]
    for how, table in ways:
        got = [tame(r) for r in table.rows()]
        require(got == rows, "%s: rows %s, given %s", how, got, rows)
        require(list(table) == names, "columns of %s", list(table))
        for j, k in enumerate(names):
            col = tame(table[k])
            require(col == [r[j] for r in rows], "%s: column %s is %s, rows are "
                    "%s", how, k, col, rows)
            require(tame(getattr(table, k)) == col, "attribute %s differs", k)
        if -len(rows) <= i < len(rows):
            require(tame(table[i]) == rows[i], "%s: row %s is %s, expected %s",
                    how, i, table[i], rows[i])
        else:
            try:
                r = table[i]
            except IndexError:
                pass
            else:
                require(False, "%s: row %s of %s is %s", how, i, len(rows), r)
        try:
            table["nonsense"]
        except KeyError:
            pass
        else:
            require(False, "got a column that does not exist")
        wire = plain(table)
        require(wire["typeid"] == cls.typeid and
                all(wire[k] == plain([r[j] for r in rows])
                    for j, k in enumerate(names)), "%s: wire form %s", how, wire)
        back = cls.from_rows(table.rows())
        require([tame(r) for r in back.rows()] == rows, "from_rows(rows()) gives "
                "%s", list(back.rows()))
        for ohow, other in oways:
            if how.startswith("init") != ohow.startswith("init"):
                continue
            same = rows == orows
            t.label("equal", same)
            require((table == other) == same, "%s == %s is %s", rows, orows,
                    table == other)
            require((table != other) == (not same), "%s != %s is %s", rows, orows,
                    table != other)
    a = ways[0][1]
    require(a != rows and not a == None, "table equal to something else")  # noqa
    if case["cls"] == "narrow":
        wide = Mixed.from_rows([])
        require(a != wide and not a == wide, "tables with different columns equal")
    # columns of different lengths are noticed
    k = names[case["ragged"] % len(names)]
    if len(names) > 1 and rows:
        cols = {n: [r[j] for r in rows] for j, n in enumerate(names)}
        cols[k] = cols[k][:-1]
        for what in ("rows", "row", "validate"):
            try:
                if what == "validate":
                    if case["cls"]:
                        continue
                    gen.make_meta(case["spec"]).validate(cols)
                elif what == "rows":
                    list(cls(**cols).rows())
                else:
                    cls(**cols)[0]
            except (AssertionError, ValueError):
                pass
            else:
                require(False, "columns of different lengths accepted: %s by %s",
                        cols, what)


# ---------------------------------------------------------------- the wire

TAGS = st.lists(st.sampled_from(
    ["config:1", "group:things", "widget:led", "sinkPort:bool:ZERO", "x"]),
    max_size=3, unique=True)
META_KW = st.fixed_dictionaries(dict(
    tags=TAGS, writeable=st.booleans(),
    label=st.sampled_from(["", "A label", "l"])))
DISPLAY = st.one_of(st.none(), st.fixed_dictionaries(dict(
    limitLow=st.sampled_from([0, -1.5, 1e9]), limitHigh=st.sampled_from([0, 7]),
    description=gen.TEXT, precision=st.integers(0, 8),
    units=st.sampled_from(["", "mm"]))))
NAMES4 = gen.NAMES[:4]


@st.composite
def elements(draw):
    n = draw(st.integers(0, 3))
    out = []
    for name in draw(st.permutations(NAMES4))[:n]:
        spec = draw(gen.meta_spec())
        out.append([name, spec, draw(META_KW), draw(gen.values(spec)),
                    draw(st.booleans()), draw(st.booleans())])
    return out


@st.composite
def wire_cases(draw):
    spec = draw(gen.meta_spec())
    ob = draw(st.sampled_from(["attr", "attr", "method", "method", "map", "alarm",
                               "ts", "blockmeta", "value"]))
    c = dict(ob=ob, spec=spec, kw=draw(META_KW), value=draw(gen.values(spec)),
             display=draw(DISPLAY), alarm=draw(gen.alarms),
             ts=draw(st.integers(0, 2 ** 31)),
             message=draw(st.sampled_from(
                 ["return", "update", "delta", "put", "post", "error"])),
             id=draw(st.integers(0, 2 ** 31)), flag=draw(st.booleans()),
             path=draw(st.lists(st.sampled_from(["A:B", "x", "value", "meta"]),
                                min_size=1, max_size=3)))
    if ob in ("method", "map"):
        c["takes"] = draw(elements())
        c["returns"] = draw(elements())
    if ob == "blockmeta":
        c["fields"] = draw(st.lists(st.sampled_from(gen.NAMES), unique=True))
    return c


def make_map(els):
    return MapMeta(
        elements={n: gen.make_meta(s, **kw) for n, s, kw, _, _, _ in els},
        required=[n for n, _, _, _, r, _ in els if r])


def make_object(c):
    ob = c["ob"]
    alarm, ts = gen.make_alarm(c["alarm"]), gen.make_ts(c["ts"])
    if ob in ("attr", "value"):
        kw = dict(c["kw"])
        if c["spec"]["kind"] in ("number", "numberarray") and c["display"]:
            kw["display"] = Display(**c["display"])
        meta = gen.make_meta(c["spec"], **kw)
        if ob == "value":
            return meta.validate(c["value"])
        attr = meta.create_attribute_model(c["value"])
        attr.set_value(c["value"], alarm=alarm, ts=ts)
        return attr
    if ob == "map":
        return make_map(c["takes"])
    if ob == "method":
        meta = MethodMeta(
            takes=make_map(c["takes"]), returns=make_map(c["returns"]),
            defaults={n: v for n, _, _, v, _, d in c["takes"] if d},
            description="does it", **c["kw"])
        m = MethodModel(meta=meta)
        if c["flag"]:
            took = meta.takes.validate({n: v for n, _, _, v, _, _ in c["takes"]})
            m.set_took(MethodLog(took, list(took), alarm, ts))
            r = meta.returns.validate({n: v for n, _, _, v, _, _ in c["returns"]})
            m.set_returned(MethodLog(r, list(r), alarm, ts))
        return m
    if ob == "alarm":
        return alarm
    if ob == "ts":
        return ts
    return BlockMeta(description="b", fields=c["fields"], **c["kw"])


def same_validation(a, b, value, what):
    """Both metas make the same of a value"""
    def result(m, v):
        try:
            return plain(m.validate(v))
        except (ValueError, AssertionError, TypeError) as e:
            return type(e).__name__
    for v in (value, None, "nonsense", 3, [1], {}):
        x, y = result(a, v), result(b, v)
        require(x == y, "%s: original makes %s of %s, rebuilt makes %s", what, x, v,
                y)


@check.sub("wire", wire_cases, quick=4000, thorough=60000, shards=2)
def wire(c, t):
    o = make_object(c)
    w = plain(o)
    ob = c["ob"]
    t.label(ob)
    t.nontrivial(ob in ("attr", "method", "map"))
    if ob == "value":
        meta = gen.make_meta(c["spec"])
        require(plain(meta.validate(w)) == w, "value %s came over the wire as %s",
                w, plain(meta.validate(w)))
    else:
        b = deserialize_object(json_decode(json_encode(o)))
        require(type(b) is type(o), "%s rebuilt as %s", type(o), type(b))
        require(plain(b) == w, "%s rebuilt from the wire is %s", w, plain(b))
        require(list(plain(b)) == list(w), "order of %s changed", list(w))
    if ob == "attr":
        same_validation(o.meta, b.meta, c["value"], c["spec"])
        require(w["value"] == plain(o.meta.validate(c["value"])), "value %s "
                "for %s", w["value"], c["value"])
        require(w["alarm"]["severity"] == c["alarm"][0] and
                w["alarm"]["status"] == c["alarm"][1] and
                w["alarm"]["message"] == c["alarm"][2], "alarm %s for %s",
                w["alarm"], c["alarm"])
        require(w["timeStamp"]["secondsPastEpoch"] == c["ts"], "time stamp %s",
                w["timeStamp"])
        require(w["meta"]["tags"] == c["kw"]["tags"] and
                w["meta"]["writeable"] == c["kw"]["writeable"] and
                w["meta"]["label"] == c["kw"]["label"], "meta %s for %s", w["meta"],
                c["kw"])
        if c["spec"]["kind"] in ("number", "numberarray"):
            require(w["meta"]["dtype"] == c["spec"]["dtype"], "dtype %s for %s",
                    w["meta"]["dtype"], c["spec"])
            for k, v in (c["display"] or {}).items():
                require(w["meta"]["display"][k] == v, "display %s for %s",
                        w["meta"]["display"], c["display"])
        # a change applied with the wire form of another value has the same effect
        b.apply_change(["value"], json.loads(json.dumps(w["value"])))
        require(plain(b)["value"] == w["value"], "value put from the wire is %s, "
                "expected %s", plain(b)["value"], w["value"])
    elif ob == "method":
        for side in ("takes", "returns"):
            els = c[side]
            require([k for k in w["meta"][side]["elements"]] ==
                    [e[0] for e in els], "%s are %s", side, w["meta"][side])
            require(w["meta"][side]["required"] == [e[0] for e in els if e[4]],
                    "required are %s", w["meta"][side]["required"])
            for n, spec, kw, v, _, _ in els:
                same_validation(o.meta[side].elements[n], b.meta[side].elements[n],
                                v, spec)
        require(sorted(k for k in w["meta"]["defaults"]) ==
                sorted(e[0] for e in c["takes"] if e[5]), "defaults %s",
                w["meta"]["defaults"])
        if c["flag"]:
            for log, els in (("took", c["takes"]), ("returned", c["returns"])):
                require(w[log]["present"] == [e[0] for e in els], "%s has present "
                        "%s", log, w[log]["present"])
    # and inside messages
    kind = c["message"]
    if kind == "return":
        m = Return(id=c["id"], value=o)
    elif kind == "update":
        m = Update(id=c["id"], value=o)
    elif kind == "delta":
        m = Delta(id=c["id"], changes=[[c["path"], o], [c["path"]]])
    elif kind == "put":
        m = Put(id=c["id"], path=c["path"], value=o, get=c["flag"])
    elif kind == "post":
        m = Post(id=c["id"], path=c["path"], parameters=dict(a=o, b=3))
    else:
        m = Error(id=c["id"], message=ValueError("bad %s" % c["path"]))
    expect = {
        "return": lambda: dict(value=w), "update": lambda: dict(value=w),
        "delta": lambda: dict(changes=[[c["path"], w], [c["path"]]]),
        "put": lambda: dict(path=c["path"], value=w, get=c["flag"]),
        "post": lambda: dict(path=c["path"], parameters=dict(a=w, b=3)),
        "error": lambda: dict(message="ValueError: bad %s" % c["path"])}[kind]()
    expect["id"] = c["id"]
    mw = plain(m)
    require(mw.pop("typeid") == type(m).typeid, "typeid missing")
    require(mw == expect, "message is %s, expected %s", mw, expect)
    back = deserialize_object(json_decode(json_encode(m)), (Request, Response))
    require(type(back) is type(m), "%s came back as %s", type(m), type(back))
    mb = plain(back)
    mb.pop("typeid")
    require(mb == expect, "message came back as %s, expected %s", mb, expect)
    for req in (Get(id=c["id"], path=c["path"]),
                Subscribe(id=c["id"], path=c["path"], delta=c["flag"]),
                Unsubscribe(id=c["id"])):
        back = deserialize_object(json_decode(json_encode(req)), Request)
        require(type(back) is type(req) and plain(back) == plain(req),
                "%s came back as %s", plain(req), plain(back))
