"""P04: attribute values always conform to the declared type"""
import enum
import math
import warnings

import numpy as np
from annotypes import Array
from hypothesis import strategies as st

from malcolm.core import (
    ChoiceArrayMeta, ChoiceMeta, Controller, Process, Put, Subscribe, Table)

from pbt import Check, require
from pbt import gen
from pbt.mal import AttrPart, Client, ask, get, plain

warnings.simplefilter("ignore")

check = Check(
    "P04",
    rule="a case is a generated declared type (scalar, choice, enum, array or "
    "table) and a sequence of JSON values, some of the type, some convertible, "
    "some wrong; non-trivial = at least one value was not already of exactly "
    "the declared type",
    assumptions=[
        "values are JSON values, as a client can send them",
        "integers outside the range of the declared integer type, and truth "
        "values of containers, only have to give a conforming value or an error",
    ])

ERR, ANY = "<error>", "<any>"
FALSE = {"0", "False", "false", "FALSE", "No", "no", "NO"}


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def ref(spec, v):
    """Expected wire value, ERR or ANY"""
    kind = spec["kind"]
    if kind == "bool":
        if isinstance(v, (list, dict)):
            return ANY
        if isinstance(v, str):
            return v != "" and v not in FALSE
        return bool(v)
    if kind == "string":
        if v is None:
            return ""
        if isinstance(v, str):
            return v
        if isinstance(v, bool) or is_num(v):
            return str(v)
        return ANY
    if kind == "choice":
        ch = spec["choices"]
        if v is None:
            return ch[0]
        if isinstance(v, str):
            return v if v in ch else ERR
        if isinstance(v, bool):
            return ANY
        if isinstance(v, int):
            return ch[v] if 0 <= v < len(ch) else ERR
        if isinstance(v, float):
            return ANY if v.is_integer() else ERR
        return ERR
    if kind == "number":
        return ref_number(spec["dtype"], v)
    if kind.endswith("array"):
        if v is None:
            return []
        elem = dict(spec, kind=kind[:-5])
        if isinstance(v, str):
            if kind in ("stringarray", "choicearray"):
                r = ref(elem, v)
                return ERR if r == ERR else [r]
            return ANY
        if not isinstance(v, list):
            if kind == "stringarray":
                return ERR
            return ANY
        if kind == "stringarray":
            return list(v) if all(isinstance(x, str) for x in v) else ERR
        if kind == "boolarray":
            if any(isinstance(x, (list, dict, str)) for x in v):
                return ANY
            return [bool(x) for x in v]
        if kind == "numberarray":
            if any(isinstance(x, (list, dict)) for x in v):
                # never a flat array of numbers
                return ERR
            if any(not is_num(x) for x in v):
                return ANY
            if not spec["dtype"].startswith("float") and any(
                    isinstance(x, float) for x in v):
                return ANY
        out = [ref(elem, x) for x in v]
        if any(isinstance(x, str) and x == ERR for x in out):
            return ERR
        if any(isinstance(x, str) and x == ANY for x in out):
            return ANY
        return out
    assert kind == "table"
    if v is None:
        return {k: [] for k, _ in spec["columns"]}
    if not isinstance(v, dict):
        return ERR
    cols = dict((k, s) for k, s in spec["columns"])
    if set(k for k in v if k != "typeid") != set(cols):
        return ERR
    out = {k: ref(s, v[k]) for k, s in spec["columns"]}
    if any(x == ERR for x in out.values()):
        return ERR
    if any(isinstance(x, str) and x == ANY for x in out.values()):
        return ANY
    if len(set(len(x) for x in out.values())) > 1:
        return ERR
    return out


def ref_number(dtype, v):
    if v is None:
        return 0
    if isinstance(v, (list, dict)):
        return ERR
    if isinstance(v, str):
        try:
            v = float(v) if dtype.startswith("float") else int(v)
        except ValueError:
            return ERR
        # any textual form of a number
    if isinstance(v, bool):
        v = int(v)
    if dtype.startswith("float"):
        if isinstance(v, int) and abs(v) > 2 ** 53:
            return ANY
        if dtype == "float32":
            return float(np.float32(v))
        return float(v)
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v):
            return ERR
        v = int(v)
    lo, hi = gen.int_range(dtype)
    return v if lo <= v <= hi else ANY


def conforms(spec, v):
    """Is the live object v of the declared type?"""
    kind = spec["kind"]
    if kind == "bool":
        return isinstance(v, (bool, np.bool_))
    if kind == "string":
        return isinstance(v, str)
    if kind == "choice":
        if spec.get("enum"):
            return isinstance(v, enum.Enum) and v.value in spec["choices"]
        return isinstance(v, str) and v in spec["choices"]
    if kind == "number":
        return isinstance(v, getattr(np, spec["dtype"]))
    if kind.endswith("array"):
        if not isinstance(v, Array):
            return False
        elem = dict(spec, kind=kind[:-5])
        if kind == "numberarray":
            want = np.dtype(spec["dtype"])
            if np.dtype(v.typ) != want:
                return False
            # an empty array may be held as an empty list
            return len(v) == 0 or (getattr(v.seq, "dtype", None) == want
                                   and v.seq.ndim == 1)
        return all(conforms(elem, x) for x in v)
    return (isinstance(v, Table) and
            list(v.call_types) == [k for k, _ in spec["columns"]] and
            all(conforms(s, v[k]) for k, s in spec["columns"]) and
            len(set(len(v[k]) for k, _ in spec["columns"])) == 1)


def wire_conforms(spec, w):
    kind = spec["kind"]
    if kind == "bool":
        return isinstance(w, bool)
    if kind == "string":
        return isinstance(w, str)
    if kind == "choice":
        return isinstance(w, str) and w in spec["choices"]
    if kind == "number":
        if spec["dtype"].startswith("float"):
            return isinstance(w, float)
        lo, hi = gen.int_range(spec["dtype"])
        return isinstance(w, int) and not isinstance(w, bool) and lo <= w <= hi
    if kind.endswith("array"):
        elem = dict(spec, kind=kind[:-5])
        return isinstance(w, list) and all(wire_conforms(elem, x) for x in w)
    return (isinstance(w, dict) and
            sorted(k for k in w if k != "typeid") ==
            sorted(k for k, _ in spec["columns"]) and
            all(wire_conforms(s, w[k]) for k, s in spec["columns"]) and
            len(set(len(w[k]) for k, _ in spec["columns"])) == 1)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (math.isnan(a) and math.isnan(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        a = {k: v for k, v in a.items() if k != "typeid"}
        b = {k: v for k, v in b.items() if k != "typeid"}
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return a == b


json_scalar = st.one_of(
    st.none(), st.booleans(), st.integers(-3, 6), st.integers(-2**70, 2**70),
    st.floats(), st.sampled_from([0.5, 2.0, -1.5, 300.7]), gen.TEXT,
    st.sampled_from(["0", "1", "False", "no", "NO", "yes", "5", " 7 ", "1e3",
                     "a", "b", "Yes", "No", "x", "one", "c,d", "True", "nO",
                     "-1", "0x10", "1_0", "nan"]))
json_value = st.one_of(
    json_scalar, st.lists(json_scalar, max_size=3),
    st.dictionaries(st.sampled_from(gen.NAMES[:3] + ["typeid"]), json_scalar,
                    max_size=3),
    st.lists(st.lists(json_scalar, max_size=2), max_size=2))


@st.composite
def near_value(draw, spec):
    """A value that almost fits the type"""
    kind = spec["kind"]
    if kind == "choice" and draw(st.booleans()):
        return draw(st.one_of(st.integers(-2, len(spec["choices"]) + 1),
                              st.sampled_from(spec["choices"])))
    if kind.endswith("array"):
        elem = dict(spec, kind=kind[:-5])
        return draw(st.lists(st.one_of(gen.values(elem), gen.values(elem),
                                       json_scalar if draw(st.booleans())
                                       else gen.values(elem)),
                             max_size=4))
    if kind == "table":
        v = draw(gen.values(spec))
        for _ in range(draw(st.integers(0, 2))):
            how = draw(st.integers(0, 5))
            col = draw(st.sampled_from([c[0] for c in spec["columns"]]))
            cs = dict((k, s) for k, s in spec["columns"])[col]
            if how == 0:
                v.pop(col, None)
            elif how == 1:
                v[draw(st.sampled_from(["extra", "typeid"]))] = []
            elif how == 2 and col in v and isinstance(v[col], list):
                v[col] = v[col] + draw(gen.values(cs, size=1))
            elif how == 3:
                v[col] = draw(near_value(cs))
            elif how == 4:
                v[col] = draw(json_value)
            else:
                v["typeid"] = "malcolm:core/Table:1.0"
        return v
    return draw(json_scalar)


@st.composite
def cases(draw):
    spec = draw(gen.meta_spec())
    if spec["kind"] in ("choice", "choicearray") and draw(st.booleans()):
        spec["enum"] = True
    vals = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 5))
        vals.append(draw(gen.values(spec)) if k == 0 else
                    draw(json_value) if k < 3 else draw(near_value(spec)))
    return dict(spec=spec, values=vals, initial=draw(gen.values(spec)))


def build_meta(spec, **kw):
    if spec.get("enum"):
        e = enum.Enum("E", [("m%d" % i, c) for i, c in
                            enumerate(spec["choices"])])
        cls = ChoiceMeta if spec["kind"] == "choice" else ChoiceArrayMeta
        return cls("d", choices=list(e), **kw)
    return gen.make_meta(spec, **kw)


@check.sub("put", cases, quick=4000, shards=4, budget=40)
def run(case, t):
    spec = case["spec"]
    attr = build_meta(spec).create_attribute_model(case["initial"])
    other = build_meta(spec)
    seen = []

    def write(value):
        seen.append(value)
        attr.set_value(value)

    process = Process("proc")
    c = Controller("blk")
    c.add_part(AttrPart("part", {"field": attr}, {"field": write}))
    process.start()
    process.add_controller(c)
    watcher = Client(process)
    watcher.send(Subscribe(id=7, path=["blk", "field", "value"]))
    try:
        ok, held = get(process, ["blk", "field", "value"])
        require(same(held, case["initial"]) or not ok or
                spec.get("dtype") == "float32" or spec["kind"] == "table",
                "initial value %s became %s", case["initial"], held)
        for v in case["values"]:
            want = ref(spec, v)
            n = len(watcher.responses)
            del seen[:]
            rs = ask(process, "blk", Put(id=5, path=["blk", "field"], value=v,
                                         get=True))
            require(len(rs) == 1 and rs[0]["id"] == 5,
                    "Put of %s answered with %s", v, rs)
            good = rs[0]["typeid"] == "malcolm:core/Return:1.0"
            ok, now = get(process, ["blk", "field", "value"])
            t.nontrivial(not same(want, v))
            if not good:
                t.label("rejected")
                require(want in (ERR, ANY), "%s rejects %s: %s", spec, v,
                        rs[0].get("message"))
                require(same(now, held) and len(watcher.responses) == n and
                        not seen, "rejected Put of %s changed the value from "
                        "%s to %s", v, held, now)
                continue
            t.label("accepted")
            require(not (isinstance(want, str) and want == ERR),
                    "%s accepts %s as %s", spec, v, now)
            require(conforms(spec, attr.value) and len(seen) == 1 and
                    conforms(spec, seen[0]),
                    "%s holds %s after Put of %s", spec, attr.value, v)
            require(wire_conforms(spec, now), "%s shows %s after Put of %s",
                    spec, now, v)
            require(same(rs[0]["value"], now), "Put of %s returned %s but the "
                    "value is %s", v, rs[0]["value"], now)
            require(len(watcher.responses) == n + 1 and
                    same(watcher.responses[-1][1]["value"], now),
                    "subscribers were not told of %s", now)
            if not (isinstance(want, str) and want == ANY):
                t.label("exact")
                if isinstance(want, str) or not is_num(want):
                    require(same(now, want), "%s turns %s into %s, expected %s",
                            spec, v, now, want)
                else:
                    require(same(float(now), float(want)), "%s turns %s into "
                            "%s, expected %s", spec, v, now, want)
            # validating again changes nothing, from the object or the wire
            again = plain(attr.meta.validate(attr.value))
            require(same(again, now), "validating %s again gives %s", now,
                    again)
            rewire = plain(other.validate(now))
            require(same(rewire, now), "the wire form %s of a %s validates to "
                    "%s", now, spec, rewire)
            held = now
    finally:
        process.stop(timeout=20)
