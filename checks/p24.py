"""P24: sequencer tables play exactly the pulses that were asked for"""
import cothread
from hypothesis import strategies as st

from malcolm.core import Context, Process
from malcolm.modules.ADPandABlocks.doublebuffer import (
    MAX_REPEATS, MIN_TABLE_DURATION, SEQ_TABLE_ROWS, SEQ_TABLE_SWITCH_DELAY, TICK,
    DoubleBuffer, SequencerRows)
from malcolm.modules.ADPandABlocks.util import Trigger

from pbt import Check, require
from pbt.mal import yield_all
from pbt.panda import INFINITE, Sequencers, expand, merge

check = Check(
    "P24", rule="a case is the entries of a scan, in groups, that are turned into "
    "sequencer tables and loaded while two sequencers hand over to each other; "
    "non-trivial = more than one table is needed or an entry is repeated more often "
    "than one row can",
    assumptions=["the sequencers hand over as the double buffered PandA design does",
                 "the last entry repeats for ever, as the users of the class add"])

TRIGGERS = [Trigger.IMMEDIATE, Trigger.IMMEDIATE, Trigger.BITA_0, Trigger.BITA_1,
            Trigger.POSA_GT, Trigger.POSB_LT]


@st.composite
def entry(draw):
    count = draw(st.one_of(
        st.integers(1, 5), st.sampled_from([1, 4095, 4096, 4097, 8191, 8192, 8193,
                                            12288, 20000]), st.integers(1, 9000)))
    e = dict(count=count, trigger=draw(st.sampled_from(TRIGGERS)),
             position=draw(st.integers(-2 ** 31, 2 ** 31 - 1)),
             half=draw(st.sampled_from([1250, 6250, 125000, 62500000, 937500000,
                                        2000, 2001])),
             live=draw(st.integers(0, 1)), dead=draw(st.integers(0, 1)))
    if draw(st.integers(0, 3)) == 0:
        e["trim"] = draw(st.sampled_from([1, 10, 600]))
    # how often this entry is repeated with another position
    if draw(st.integers(0, 7)) == 0:
        e["copies"] = draw(st.sampled_from([100, 1000, 4095, 4096, 4100, 8200]))
        e["count"] = draw(st.integers(1, 3))
    return e


@st.composite
def cases(draw):
    groups = [draw(st.lists(entry(), min_size=0, max_size=4))
              for _ in range(draw(st.integers(1, 6)))]
    return dict(groups=groups, order=draw(st.booleans()),
                repeats=draw(st.sampled_from([1, 1, 0, 5])),
                again=draw(st.sampled_from(["", "", "clean", "active", "over",
                                           "overwrite"])),
                joined=draw(st.booleans()))


def pulse(e, position):
    half = e["half"]
    return (e["trigger"], position, half,
            (bool(e["live"]), bool(e["dead"]), False, False, False, False),
            half - e.get("trim", 0), (False,) * 6)


def wrap(p):
    return (p + 2 ** 31) % 2 ** 32 - 2 ** 31


@check.sub("tables", cases, quick=800, thorough=20000, shards=4, budget=25)
def run(case, t):
    process = Process("proc")
    seqs = Sequencers(process)
    process.start()
    context = Context(process)
    context2 = Context(process)
    ends = []

    def rows_gen():
        for g in case["groups"]:
            rows = SequencerRows()
            n = 0
            for e in g:
                for i in range(e.get("copies", 1)):
                    kw = dict(trim=e["trim"]) if "trim" in e else {}
                    rows.add_seq_entry(
                        e["count"], e["trigger"], wrap(e["position"] + i), e["half"],
                        live=e["live"], dead=e["dead"], **kw)
                    n += e["count"] * (2 * e["half"] - e.get("trim", 0))
            require(abs(rows.duration - n * TICK) <= 1e-9 * max(1, n * TICK),
                    "rows of %s ticks say they last %s s", n, rows.duration)
            if not (case["joined"] and g is case["groups"][-1]):
                yield rows
        if not case["joined"]:
            rows = SequencerRows()
        rows.add_seq_entry(half_duration=1250, dead=1)
        rows.add_seq_entry(count=0)
        yield rows

    want = []
    for g in case["groups"]:
        for e in g:
            for i in range(e.get("copies", 1)):
                want.append((e["count"], pulse(e, wrap(e["position"] + i))))
            t.label("repeats of a whole row", e["count"] % MAX_REPEATS == 0)
            t.nontrivial(e["count"] >= MAX_REPEATS)
    want.append((1, pulse(dict(trigger=Trigger.IMMEDIATE, half=1250, live=0, dead=1),
                          0)))
    want.append((INFINITE, pulse(dict(trigger=Trigger.IMMEDIATE, half=1250, live=0,
                                      dead=0), 0)))
    want = merge(want)
    try:
        db = DoubleBuffer(context, *[context.block_view(m) for m in seqs.mris])
        for round in range(2 if case["again"] else 1):
            for p in seqs.parts:
                p.attrs["active"].set_value(False)
                p.attrs["repeats"].set_value(case["repeats"])
                p.attrs["prescale"].set_value(0 if case["repeats"] == 1 else 3)
                del p.loaded[:]
            db.configure(rows_gen())
            require(seqs.parts[0].loaded, "nothing was loaded")
            two = bool(seqs.parts[1].loaded)
            if two:
                for p in seqs.parts:
                    require(p.attrs["repeats"].value == 1 and
                            p.attrs["prescale"].value == 0, "sequencer left with "
                            "repeats %s and prescale %s", p.attrs["repeats"].value,
                            p.attrs["prescale"].value)
            finished = []

            def on_run():
                futures = db.run()
                if futures:
                    context.wait_all_futures(futures)
                finished.append(1)

            th = cothread.Spawn(on_run, raise_on_wait=True)
            yield_all(10)
            if round == 0 and case["again"]:
                # stopped in the middle, and configured again
                if case["again"] != "clean":
                    seqs.parts[0].attrs["active"].set_value(True)
                    yield_all(10)
                if case["again"] == "over" and two:
                    # the first table was played
                    seqs.parts[0].attrs["active"].set_value(False)
                    seqs.parts[1].attrs["active"].set_value(True)
                    yield_all(10)
                t.label("stopped while active", two and case["again"] != "clean")
                if case["again"] == "overwrite":
                    # configured again without having been told to stop
                    seqs.parts[0].attrs["active"].set_value(False)
                    yield_all(10)
                else:
                    db.clean_up()
                    yield_all(10)
                    th.Wait(10)
                continue
            tables = seqs.execute(case["order"])
            yield_all(20)
            got = []
            for i, rows in enumerate(tables):
                require(0 < len(rows) <= SEQ_TABLE_ROWS, "table %d has %d rows", i,
                        len(rows))
                last = i == len(tables) - 1
                for j, r in enumerate(rows):
                    require(0 <= r[0] < 65536 and r[3] >= 0 and r[5] >= 0,
                            "table %d row %d is %s", i, j, r)
                    require(r[0] or (last and j == len(rows) - 1), "table %d row %d of "
                            "%d, which is not the last, repeats for ever", i, j,
                            len(rows))
                got += expand(rows, 0 if last else SEQ_TABLE_SWITCH_DELAY)
                if not last:
                    ticks = sum(r[0] * (r[3] + r[5]) for r in rows)
                    require(ticks * TICK > MIN_TABLE_DURATION - 1e-6 or
                            len(rows) == SEQ_TABLE_ROWS, "table %d has %d rows and "
                            "lasts %s s", i, len(rows), ticks * TICK)
            got = merge(got)
            for i, (g, w) in enumerate(zip(got, want)):
                require(g == w, "pulse %d: the sequencers play %s, they were asked to "
                        "play %s", i, g, w)
            require(len(got) == len(want), "the sequencers play %d pulses, asked for "
                    "%d", len(got), len(want))
            for p in seqs.parts:
                require(not p.errors, "a sequencer was %s", p.errors)
            t.nontrivial(len(tables) > 1)
            t.label("several tables", len(tables) > 1)
            t.label("many tables", len(tables) > 3)
            t.label("full table", any(len(x) == SEQ_TABLE_ROWS for x in tables))
            if len(tables) > 2:
                require(finished, "still waiting for the sequencers at the end")
            db.clean_up()
            yield_all(10)
            th.Wait(10)
    finally:
        process.stop(timeout=20)
