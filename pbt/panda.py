"""Stand-ins for the blocks of a PandA and the motors it is wired to"""
import cothread

from malcolm.core import (
    BooleanMeta, Context, NumberMeta, Part, Process, StringMeta, TableMeta)
from malcolm.modules.ADPandABlocks.util import SequencerTable
from malcolm.modules.builtin.controllers import BasicController

from .core import require
from .mal import AttrPart, yield_all

INFINITE = "forever"
COLUMNS = list(SequencerTable.call_types)


class SeqPart(Part):
    """A sequencer: remembers each table it is given"""

    def setup(self, registrar):
        super().setup(registrar)
        self.loaded = []
        self.errors = []
        self.table = TableMeta.from_table(
            SequencerTable, "table", writeable=list(SequencerTable.call_types)
        ).create_attribute_model()
        registrar.add_attribute_model("table", self.table, self.set_table)
        self.attrs = {}
        for n, m in (("active", BooleanMeta("d")),
                     ("repeats", NumberMeta("int16", "d")),
                     ("prescale", NumberMeta("int16", "d")),
                     ("label", StringMeta("d")),
                     ("bita", StringMeta("d")), ("posa", StringMeta("d")),
                     ("posb", StringMeta("d")), ("posc", StringMeta("d"))):
            a = m.create_attribute_model()
            self.attrs[n] = a
            registrar.add_attribute_model(n, a, a.set_value)
        self.attrs["repeats"].set_value(1)

    def set_table(self, value):
        if self.attrs["active"].value:
            self.errors.append("loaded while active")
        self.table.set_value(value)
        self.loaded.append(rows_of(value))


def rows_of(table):
    """[[repeats, trigger, position, time1, outs1, time2, outs2]]"""
    cols = [[v for v in table[c]] for c in COLUMNS]
    out = []
    for r in zip(*cols):
        d = dict(zip(COLUMNS, r))
        out.append((int(d["repeats"]), str(d["trigger"]), int(d["position"]),
                    int(d["time1"]), tuple(bool(d["out%s1" % x]) for x in "abcdef"),
                    int(d["time2"]), tuple(bool(d["out%s2" % x]) for x in "abcdef")))
    return out


def merge(pulses):
    """Run-length form: [(count or INFINITE, pulse)], neighbours merged"""
    out = []
    for n, p in pulses:
        if n != INFINITE and n <= 0:
            continue
        if out and out[-1][1] == p and INFINITE not in (n, out[-1][0]):
            out[-1] = (out[-1][0] + n, p)
        else:
            out.append((n, p))
    return out


def expand(rows, restore):
    """Pulses of a table, undoing the allowance for the switch to the next table"""
    out = [((r[0] if r[0] else INFINITE), r[1:]) for r in rows]
    if restore and out:
        n, p = out[-1]
        require(n == 1, "the last row of a table that is followed by another is "
                "repeated %s times", n)
        out[-1] = (1, p[:4] + (p[4] + restore,) + p[5:])
    return out


class Sequencers:
    """Two sequencers that hand over to each other, as the PandA design does"""

    def __init__(self, process, mris=("PANDA:SEQ1", "PANDA:SEQ2")):
        self.parts = []
        self.mris = mris
        for m in mris:
            c = BasicController(m)
            p = SeqPart("part")
            c.add_part(p)
            process.add_controller(c)
            self.parts.append(p)

    def execute(self, order, limit=400):
        """Run from seqA until the endless row, returns the executed tables"""
        done = []
        i = 0
        pos = [len(p.loaded) - 1 for p in self.parts]
        if self.parts[0].loaded:
            self.parts[0].attrs["active"].set_value(True)
        while True:
            part = self.parts[i]
            rows = part.loaded[-1] if part.loaded else []
            done.append(rows)
            if not rows or any(r[0] == 0 for r in rows) or len(done) > limit:
                return done
            other = self.parts[1 - i]
            before = len(part.loaded)
            if order:
                other.attrs["active"].set_value(True)
                part.attrs["active"].set_value(False)
            else:
                part.attrs["active"].set_value(False)
                other.attrs["active"].set_value(True)
            yield_all(10)
            require(len(part.loaded) <= before + 1, "a sequencer was loaded %d times "
                    "when it had finished", len(part.loaded) - before)
            i = 1 - i
