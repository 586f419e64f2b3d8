"""P22: the PandA client"""
import queue

import cothread
from hypothesis import strategies as st

from malcolm.core import Process, Queue
from malcolm.core import TimeoutError as MalcolmTimeout
from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient

from pbt import Check, require
from pbt.mal import yield_all
from pbt.pandabox import Box, Wire, box_blocks, release

check = Check(
    "P22", rule="a case is a generated PandA (blocks, fields, tables, texts) and what "
    "several clients ask it at the same time while its replies arrive cut up in "
    "generated ways; non-trivial = at least two requests were outstanding at once or a "
    "reply of more than one line was cut",
    assumptions=["the server answers requests in the order in which it gets them"])

VALUES = ["1", "0", "12.5", "TTLIN1.VAL", "a=b", "µm", "ERR 3", "", "x?", "!a", "."]

op = st.one_of(
    st.tuples(st.just("get"), st.integers(0, 99)),
    st.tuples(st.just("set"), st.integers(0, 99), st.sampled_from(VALUES)),
    st.tuples(st.just("set"), st.integers(0, 99), st.sampled_from(VALUES)),
    st.tuples(st.just("sets"), st.lists(st.tuples(st.integers(0, 99),
                                                  st.sampled_from(VALUES)), max_size=5),
              st.integers(0, 9)),
    st.tuples(st.just("table"), st.integers(0, 9),
              st.lists(st.integers(0, 2 ** 32 - 1), max_size=8)),
    st.tuples(st.just("columns"), st.integers(0, 9)),
    st.tuples(st.just("bad"), st.sampled_from(["NONE.VAL", "TTLIN1.NONE", "", "X"])),
    st.tuples(st.just("refused"), st.integers(0, 99)),
    st.tuples(st.just("impatient"), st.integers(0, 99)),
    st.tuples(st.just("changes"), st.booleans()),
    st.tuples(st.just("blocks")),
    st.tuples(st.just("pcap")),
)


@st.composite
def cases(draw):
    return dict(
        blocks=draw(box_blocks()),
        chunks=draw(st.lists(st.sampled_from([1, 2, 3, 5, 10, 64, 1000, 4096]),
                             min_size=1, max_size=6)),
        rounds=draw(st.lists(st.lists(op, min_size=1, max_size=5), min_size=1,
                             max_size=6)),
        restart=draw(st.integers(0, 3)) == 0,
        errors=draw(st.lists(st.integers(0, 99), max_size=2)),
        hold=draw(st.booleans()))


class Asker:
    """What one user of the client does, and what they should get"""

    def __init__(self, client, box, number, t):
        self.client = client
        self.box = box
        self.number = number
        self.t = t
        self.result = None

    def since(self, start):
        return self.box.log[start:]

    def keys(self, users):
        # fields of this user only
        mine = [k for i, k in enumerate(sorted(self.box.values)) if i % users ==
                self.number]
        return mine

    def __call__(self, o, users):
        box, c = self.box, self.client
        kind = o[0]
        mine = self.keys(users)
        writeable = [k for k in mine if box.field_of(k)["type"] != "read"
                     or k.count(".") == 2]
        if kind == "get" and mine:
            k = mine[o[1] % len(mine)]
            expected = box.values[k]
            got = c.get_field(*k.split(".", 1))
            require(got == expected, "%s is %s, got %s", k, expected, got)
        elif kind in ("set", "refused") and writeable:
            k = writeable[o[1] % len(writeable)]
            if kind == "refused":
                box.refuse.add(k)
                self.refused(lambda: c.set_field(*k.split(".", 1), "1"), k)
                box.refuse.discard(k)
            else:
                if o[2].endswith("?"):
                    return
                c.set_field(*k.split(".", 1), o[2])
                require(box.values[k] == o[2], "set %s to %s, is %s", k, o[2],
                        box.values[k])
        elif kind == "sets" and writeable:
            d = {writeable[i % len(writeable)]: v for i, v in o[1]
                 if not v.endswith("?")}
            bad = list(d)[o[2] % len(d)] if o[2] and d else None
            if bad:
                # all of them are tried, and the failure is not lost
                box.refuse.add(bad)
                self.refused(lambda: c.set_fields(d), bad)
                box.refuse.discard(bad)
                d.pop(bad)
            else:
                c.set_fields(d)
            for k, v in d.items():
                require(box.values[k] == v, "set %s to %s, is %s", k, v, box.values[k])
        elif kind in ("table", "columns"):
            tables = sorted(box.tables)[self.number::users]
            if not tables:
                return
            k = tables[o[1] % len(tables)]
            block, field = k.split(".")
            if kind == "columns":
                got = c.get_table_fields(block, field)
                want = box.field_of(k)["columns"]
                require(list(got) == list(want), "columns of %s are %s, not %s", k, got,
                        want)
                for n, w in want.items():
                    g = got[n]
                    labels = w.get("labels") if w["typ"] == "enum" else None
                    require((g.bits_hi, g.bits_lo, g.description, g.labels, g.signed) ==
                            (w["hi"], w["lo"], w["desc"], labels, w["typ"] == "int"),
                            "column %s is %s, should be %s", n, g, w)
            else:
                c.set_table(block, field, o[2])
                require(box.tables[k] == o[2], "table %s is %s, set to %s", k,
                        box.tables[k], o[2])
        elif kind == "bad":
            self.refused(lambda: c.send_recv(o[1] + "?\n"), o[1])
            self.refused(lambda: c.get_field("NONE", "X"), "NONE.X")
            self.refused(lambda: c.set_fields({"NONE.A": 1, "NONE.B": 2}), "NONE.A")
        elif kind == "impatient" and mine:
            k = mine[o[1] % len(mine)]
            try:
                got = c.send_recv(k + "?\n", timeout=0)
            except (queue.Empty, MalcolmTimeout):
                self.t.label("timed out")
            else:
                require(got == "OK =" + box.values[k], "%s is %s, got %s", k,
                        box.values[k], got)
        elif kind == "changes":
            if self.number:
                return  # one poller
            start = len(box.log)
            got = list(c.get_changes(include_errors=o[1]))
            self.check_changes(got, start, o[1])
        elif kind == "blocks":
            self.check_blocks(c.get_blocks_data())
        elif kind == "pcap" and "PCAP" in box.blocks:
            got = c.get_pcap_bits_fields()
            want = {f"PCAP.{n}.CAPTURE": f["bits"] for n, f in
                    box.blocks["PCAP"]["fields"].items() if f["subtype"] == "bits"}
            require(dict(got) == want, "bits are %s, should be %s", dict(got), want)

    def refused(self, func, what):
        try:
            got = func()
        except ValueError as e:
            require("ERR" in str(e), "%s is refused with %s", what, e)
        else:
            require(False, "%s gives %s instead of an error", what, got)

    def check_changes(self, got, start, errors):
        line, reply = [x for x in self.since(start) if x[0] == "*CHANGES?"][0]
        fields = {}
        for x in reply.split("\n")[:-2]:
            x = x[1:]
            if "=" in x:
                k, v = x.split("=", 1)
                fields[k] = v
            elif x.endswith("<"):
                k = x[:-1]
                r = [b for a, b in self.since(start) if a == k + "?"]
                require(r, "%s has changed but was not asked for", k)
                fields[k] = [y[1:] for y in r[-1].split("\n")[:-2]]
                self.t.label("changed table")
            elif errors:
                fields[x.split(" ")[0]] = Exception
                self.t.label("field in error")
        final = {}
        for k, v in got:
            require(k not in final or final[k] is None, "%s comes twice", k)
            final[k] = v
        require(final == fields, "changes are %s, should be %s", final, fields)

    def check_blocks(self, got):
        want = self.box.blocks
        require(sorted(got) == sorted(want), "blocks are %s", list(got))
        for root, b in want.items():
            g = got[root]
            require((g.number, g.description) == (b["number"], b["desc"]),
                    "%s is %s", root, g)
            names = sorted(b["fields"], key=lambda n: b["fields"][n]["index"])
            require(list(g.fields) == names, "fields of %s are %s, should be %s", root,
                    list(g.fields), names)
            for n in names:
                f = b["fields"][n]
                labels = f.get("labels", [])
                require(tuple(g.fields[n]) ==
                        (f["type"], f["subtype"], f["desc"], labels),
                        "field %s.%s is %s, should be %s", root, n, g.fields[n], f)


@check.sub("cothreads", cases, quick=1500, thorough=40000, shards=4, budget=20)
def run_cothreads(case, t):
    drive(case, t, False)


@check.sub("threads", cases, quick=200, thorough=4000, shards=2, budget=10)
def run_threads(case, t):
    drive(case, t, True)


def drive(case, t, threads):
    box = Box(case["blocks"])
    keys = sorted(box.values)
    for i in case["errors"]:
        if keys:
            box.errors.add(keys[i % len(keys)])
    process = Process("proc")
    process.start()
    if threads:
        client = PandABlocksClient("host", 8888)
        wire = Wire(box, queue.Queue, case["chunks"])
        client.start(None, wire)
    else:
        client = PandABlocksClient("host", 8888, Queue)
        wire = Wire(box, Queue, case["chunks"], cothread.Yield)
        client.start(process.spawn, wire)
    require(wire.sockets[-1].address == ("host", 8888), "connects to %s",
            wire.sockets[-1].address)
    try:
        rounds(case, t, threads, box, wire, client, process)
        if case["restart"]:
            # anything still on its way is not for us
            wire.hold = True
            late = client.send("*BLOCKS?\n")
            yield_all()
            if not threads:
                # half of the reply
                for sock, data in wire.held:
                    sock.queue.put(data[:max(3, len(data) * 2 // 3)])
                yield_all(len(data) + 4)
            client.stop()
            release(wire)
            client.start(*((None, wire) if threads else (process.spawn, wire)))
            rounds(case, t, threads, box, wire, client, process)
            t.label("restarted")
            del late
    finally:
        client.stop()
        process.stop(1)


def rounds(case, t, threads, box, wire, client, process):
    from concurrent.futures import ThreadPoolExecutor
    for ops in case["rounds"]:
        users = len(ops)
        t.nontrivial(users > 1 or min(case["chunks"]) < 64)
        askers = [Asker(client, box, i, t) for i in range(users)]
        if threads:
            with ThreadPoolExecutor(users) as pool:
                futures = [pool.submit(a, o, users) for a, o in zip(askers, ops)]
                for f in futures:
                    f.result(20)
            continue
        if case["hold"]:
            wire.hold = True
        spawned = [process.spawn(a, o, users) for a, o in zip(askers, ops)]
        if case["hold"]:
            yield_all()
            release(wire)
        for s in spawned:
            s.get(20)
