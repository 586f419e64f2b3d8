"""Strategies and constructors for metas and values, as plain JSON specs"""
from hypothesis import strategies as st

from malcolm.core import (
    Alarm, AlarmSeverity, AlarmStatus, BooleanArrayMeta, BooleanMeta,
    ChoiceArrayMeta, ChoiceMeta, Display, NumberArrayMeta, NumberMeta,
    StringArrayMeta, StringMeta, TableMeta, TimeStamp,
)

DTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64",
          "uint64", "float32", "float64"]
KINDS = ["bool", "string", "choice", "number", "boolarray", "stringarray",
         "choicearray", "numberarray", "table"]
SCALARS = KINDS[:4]
ARRAYS = KINDS[4:8]
TEXT = st.text(alphabet="abcXYZ 019_-é\"\\{", max_size=6)
NAMES = ["alpha", "beta", "gammaRay", "delta4", "epsilon", "zetaValue",
         "eta", "theta"]
CHOICES = [["a", "b", "c"], ["Yes", "No"], ["one"], ["x", "y", "z", "", "w"],
           ["a b", "c,d"]]


def int_range(dtype):
    bits = int(dtype.lstrip("uint"))
    if dtype.startswith("u"):
        return 0, 2 ** bits - 1
    return -(2 ** (bits - 1)), 2 ** (bits - 1) - 1


def number_values(dtype):
    if dtype == "float32":
        return st.one_of(st.integers(-1000, 1000).map(lambda i: i / 8),
                         st.floats(width=32, allow_nan=False,
                                   allow_infinity=False))
    if dtype == "float64":
        return st.one_of(st.integers(-1000, 1000).map(lambda i: i / 8),
                         st.floats(allow_nan=False, allow_infinity=False))
    lo, hi = int_range(dtype)
    return st.one_of(st.integers(max(lo, -5), min(hi, 100)),
                     st.integers(lo, hi))


@st.composite
def meta_spec(draw, kinds=KINDS):
    kind = draw(st.sampled_from(kinds))
    spec = dict(kind=kind)
    if kind in ("choice", "choicearray"):
        spec["choices"] = draw(st.sampled_from(CHOICES))
    if kind in ("number", "numberarray"):
        spec["dtype"] = draw(st.sampled_from(DTYPES))
    if kind == "table":
        n = draw(st.integers(1, 3))
        spec["columns"] = [
            [NAMES[i], draw(meta_spec(kinds=ARRAYS))] for i in range(n)]
    return spec


def values(spec, size=None, max_size=4):
    """Values that are already of the attribute's type"""
    kind = spec["kind"]
    if kind == "bool":
        return st.booleans()
    if kind == "string":
        return TEXT
    if kind == "choice":
        return st.sampled_from(spec["choices"])
    if kind == "number":
        return number_values(spec["dtype"])
    if kind.endswith("array"):
        elem = dict(spec, kind=kind[:-5])
        lo, hi = (0, max_size) if size is None else (size, size)
        return st.lists(values(elem), min_size=lo, max_size=hi)
    assert kind == "table"

    @st.composite
    def table(draw):
        n = draw(st.integers(0, max_size))
        return {k: draw(values(s, size=n)) for k, s in spec["columns"]}

    return table()


def make_meta(spec, **kw):
    kind = spec["kind"]
    if kind == "bool":
        return BooleanMeta("d", **kw)
    if kind == "string":
        return StringMeta("d", **kw)
    if kind == "choice":
        return ChoiceMeta("d", choices=spec["choices"], **kw)
    if kind == "number":
        return NumberMeta(spec["dtype"], "d", **kw)
    if kind == "boolarray":
        return BooleanArrayMeta("d", **kw)
    if kind == "stringarray":
        return StringArrayMeta("d", **kw)
    if kind == "choicearray":
        return ChoiceArrayMeta("d", choices=spec["choices"], **kw)
    if kind == "numberarray":
        return NumberArrayMeta(spec["dtype"], "d", **kw)
    assert kind == "table"
    return TableMeta("d", elements={k: make_meta(s)
                                    for k, s in spec["columns"]}, **kw)


alarms = st.tuples(st.integers(0, 3), st.integers(0, 7), TEXT).map(list)


def make_alarm(a):
    return Alarm(severity=list(AlarmSeverity)[a[0] % len(list(AlarmSeverity))],
                 status=list(AlarmStatus)[a[1] % len(list(AlarmStatus))],
                 message=a[2])


def make_ts(n):
    return TimeStamp(secondsPastEpoch=n, nanoseconds=n * 7 % 1000000000,
                     userTag=n % 5)
