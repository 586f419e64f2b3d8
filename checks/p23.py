"""P23: tables of a PandA"""
from hypothesis import strategies as st

from malcolm.core import TableMeta, TimeStamp
from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient
from malcolm.modules.pandablocks.parts.pandatablepart import PandATablePart

from malcolm.core import Process, Queue, snake_to_camel
from pbt import Check, require
from pbt.mal import plain
from pbt.pandabox import Box, Wire, columns

check = Check(
    "P23", rule="a case is a generated layout of bits in table rows and rows of values; "
    "non-trivial = more than one column and at least one row",
    assumptions=["a column lies within one 32 bit word, as the server guarantees"])


def limits(c):
    n = c["hi"] - c["lo"] + 1
    if c["typ"] == "enum":
        return 0, min(len(c["labels"]), 2 ** n) - 1
    if n > 1 and c["typ"] == "int":
        return -2 ** (n - 1), 2 ** (n - 1) - 1
    return 0, 2 ** n - 1


@st.composite
def cases(draw):
    cols = draw(st.one_of(columns(), columns(), st.just({})))
    used = cols or dict(VALUE=dict(hi=31, lo=0, typ="int"))
    rows = []
    for _ in range(draw(st.integers(0, 4))):
        row = []
        for c in used.values():
            lo, hi = limits(c)
            row.append(draw(st.one_of(st.integers(lo, hi),
                                      st.sampled_from([lo, hi]))))
        rows.append(row)
    words = max(c["hi"] for c in used.values()) // 32 + 1
    raw = draw(st.lists(st.lists(st.one_of(
        st.integers(0, 2 ** 32 - 1), st.sampled_from([0, 2 ** 32 - 1, 2 ** 31])),
        min_size=words, max_size=words), max_size=3))
    return dict(columns=cols, rows=rows, raw=raw, noise=draw(st.booleans()))


def pack(used, rows):
    words = max(c["hi"] for c in used.values()) // 32 + 1
    out = []
    for row in rows:
        total = 0
        for c, v in zip(used.values(), row):
            n = c["hi"] - c["lo"] + 1
            total |= (v & (2 ** n - 1)) << c["lo"]
        out += [(total >> 32 * w) & (2 ** 32 - 1) for w in range(words)]
    return out


def value(c, v):
    """Number -> what Malcolm shows"""
    if c["typ"] == "enum":
        return c["labels"][v]
    if c["hi"] == c["lo"]:
        return bool(v)
    return v


@check.sub("tables", cases, quick=2000, thorough=60000, shards=4, budget=15)
def run(case, t):
    cols = case["columns"]
    used = cols or dict(VALUE=dict(hi=31, lo=0, typ="int"))
    t.nontrivial(len(used) > 1 and len(case["rows"]) > 0)
    t.label("several words", max(c["hi"] for c in used.values()) > 31)
    t.label("negative", any(v < 0 for r in case["rows"] for v in r))
    box = Box(dict(SEQ=dict(number=2, desc="", fields=dict(
        TABLE=dict(index=0, type="table", subtype="", desc="Rows", columns=cols)))))
    process = Process("proc")
    process.start()
    client = PandABlocksClient("host", 8888, Queue)
    client.start(process.spawn, Wire(box, Queue))
    try:
        part = PandATablePart(client, TableMeta("Rows", writeable=True), "SEQ2", "TABLE")
        names = [snake_to_camel(n) for n in used]
        require(list(part.meta.elements) == names, "columns are %s, should be %s",
                list(part.meta.elements), names)
        # what the user writes ends up in the bits of the columns
        table = {n: [value(c, r[i]) for r in case["rows"]]
                 for i, (n, c) in enumerate(zip(names, used.values()))}
        given = part.meta.validate(table)
        for n in names:
            require(plain(given)[n] == table[n], "column %s can't hold %s: %s", n,
                    table[n], plain(given)[n])
        part.set_field(given)
        want = pack(used, case["rows"])
        require(box.tables["SEQ2.TABLE"] == want and not box.tables["SEQ1.TABLE"],
                "the PandA has %s, should have %s", box.tables, want)
        # and comes back
        part.handle_change([str(x) for x in want], TimeStamp())
        got = plain(part.attr.value)
        got.pop("typeid")
        require(got == table, "reads back as %s, should be %s", got, table)
        # anything the PandA has is shown, and written back as it was
        raw = []
        shown = {n: [] for n in names}
        for row in case["raw"]:
            total = sum(w << 32 * i for i, w in enumerate(row))
            values = []
            for n, c in zip(names, used.values()):
                bits = c["hi"] - c["lo"] + 1
                v = (total >> c["lo"]) & (2 ** bits - 1)
                lo, hi = limits(c)
                if c["typ"] == "enum" and v > hi:
                    total -= (v - hi) << c["lo"]
                    v = hi
                if v > hi:
                    v -= 2 ** bits
                values.append(v)
                shown[n].append(value(c, v))
            row = [(total >> 32 * w) & (2 ** 32 - 1) for w in range(len(row))]
            raw += row if case["noise"] else pack(used, [values])
        part.handle_change([str(x) for x in raw], TimeStamp())
        got = plain(part.attr.value)
        got.pop("typeid")
        require(got == shown, "PandA has %s, shown as %s, should be %s", raw, got, shown)
        if not case["noise"]:
            part.set_field(part.attr.value)
            require(box.tables["SEQ2.TABLE"] == raw, "%s is written back as %s", raw,
                    box.tables["SEQ2.TABLE"])
    finally:
        client.stop()
        process.stop(1)
