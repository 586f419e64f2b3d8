"""P31: a PandA in Malcolm is what the PandA is"""
import json
import shutil
import tempfile

import cothread
from hypothesis import strategies as st

from malcolm.core import Post, Process, Put, Queue, Subscribe, snake_to_camel
from malcolm.modules.pandablocks.controllers import PandAManagerController
from malcolm.modules.pandablocks.pandablocksclient import PandABlocksClient

from pbt import Check, require
from pbt.mal import Client, ask, get, plain
from pbt.pandabox import Box, Wire, box_blocks

check = Check(
    "P31", rule="a case is a generated PandA and a history of changes made by its "
    "hardware, other clients and Malcolm users; non-trivial = at least two changes "
    "were made in one poll and something was put",
    assumptions=["the PandA reports every field that was written since the last poll"])

POLL = 0.002
CAPTURES = ["No", "Value", "Diff", "Sum", "Mean", "Min", "Max", "Min Max",
            "Min Max Mean"]
UNITS = ["", "mm", "µm", "deg"]
number = st.integers(0, 2 ** 31 - 1)
index = st.integers(0, 99)

op = st.one_of(
    st.tuples(st.just("poke"), st.lists(st.tuples(index, index, number), min_size=1,
                                        max_size=6)),
    st.tuples(st.just("poke"), st.lists(st.tuples(index, index, number), min_size=1,
                                        max_size=6)),
    st.tuples(st.just("put"), index, number, st.integers(0, 5)),
    st.tuples(st.just("put"), index, number, st.integers(0, 5)),
    st.tuples(st.just("puts"), st.lists(st.tuples(index, number), min_size=2,
                                        max_size=4)),
    st.tuples(st.just("pulse"), st.lists(st.tuples(index, st.integers(1, 3)),
                                         min_size=1, max_size=3)),
    st.tuples(st.just("train"), st.lists(st.lists(index, max_size=2), min_size=2,
                                         max_size=5)),
    st.tuples(st.just("label"), index, st.sampled_from(["", "My box", "µ"]),
              st.booleans()),
    st.tuples(st.just("positions"), st.lists(st.tuples(
        index, st.sampled_from(["capture", "scale", "offset", "units"]), index),
        min_size=1, max_size=4), st.integers(0, 3)),
    st.tuples(st.just("bits"), st.lists(index, min_size=1, max_size=4),
              st.integers(0, 3)),
    st.tuples(st.just("layout"), st.lists(st.tuples(index, st.integers(-9, 9)),
                                          max_size=4), st.booleans()),
    st.tuples(st.just("action"), index),
    st.tuples(st.just("outage")),
)


@st.composite
def cases(draw):
    blocks = draw(box_blocks(max_blocks=4))
    for root, b in blocks.items():
        fields = b["fields"]
        if root == "LUT" and fields.get("FUNC", {}).get("subtype") != "lut":
            fields.pop("FUNC", None)
        if root == "PULSE" and "TRIG_EDGE" in fields:
            fields["TRIG_EDGE"] = dict(
                index=fields["TRIG_EDGE"]["index"], type="param", subtype="enum",
                desc="Edge", labels=["Rising", "Falling", "Either", "level"])
        if draw(st.integers(0, 3)) == 0:
            fields["HEALTH"] = dict(index=50, type="read", subtype="enum", desc="Health",
                                    labels=["OK", "Broken"])
    alive = [f"{n}.{f}" for r, b in blocks.items() for n in
             ([r] if b["number"] == 1 else [f"{r}{i + 1}" for i in range(b["number"])])
             for f, d in b["fields"].items() if d["type"] in ("bit_out", "pos_out")]
    for b in blocks.values():
        for f in b["fields"].values():
            if f["type"].endswith("_mux"):
                f["labels"] = [x for x in f["labels"] if x in alive or "." not in x]
            if "bits" in f:
                f["bits"] = [x if x in alive else "" for x in f["bits"]]
    return dict(blocks=blocks, before=draw(st.lists(st.tuples(index, index, number),
                                                    max_size=8)),
                ops=draw(st.lists(op, min_size=1, max_size=7)))


def world(box, f, sub, n):
    """A value that the PandA may have, as it sends it"""
    typ, subtype = f["type"], f.get("subtype", "")
    if sub == ".UNITS":
        if typ == "pos_out":
            return UNITS[n % len(UNITS)]
        return ["min", "s", "ms", "us"][n % 4]
    if sub == ".CAPTURE":
        return (CAPTURES if typ == "pos_out" else f["labels"])[
            n % len(CAPTURES if typ == "pos_out" else f["labels"])]
    if sub == ".SCALE":
        return ["1", "0.001", "-2", "1e-05", "0"][n % 5]
    if sub == ".OFFSET":
        return ["0", "10", "-0.5"][n % 3]
    if sub == ".DELAY":
        return str(n % 256)
    if typ in ("bit_mux", "pos_mux") or subtype == "enum":
        return f["labels"][n % len(f["labels"])]
    if typ == "bit_out" or subtype == "bit":
        return str(n % 2)
    if typ == "pos_out" or subtype == "int":
        return str(n if n % 2 else -n)
    if typ == "time" or subtype in ("time", "scalar"):
        return ["0", "0.1", "1e-06", "12.5", "-3"][n % 5]
    if subtype == "lut":
        return ["A&B", "A|~B", "0", "A=>B"][n % 4]
    return str(n)


class Mirror:
    def __init__(self, case, t):
        self.case, self.t = case, t
        self.box = Box(case["blocks"])
        for root, b in case["blocks"].items():
            for f in b["fields"].values():
                if f["type"] == "table" and not f["columns"]:
                    f["columns"] = {}
        self.root = {}
        for root in case["blocks"]:
            for name in self.box.names(root):
                self.root[name] = root
        # (key, field, subfield) of everything with a value
        self.keys = []
        for name, root in sorted(self.root.items()):
            for fname, f in case["blocks"][root]["fields"].items():
                for sub, _ in self.box.initial(f):
                    self.keys.append((f"{name}.{fname}{sub}", f, sub))
        self.wo = {}
        self.poke(case["before"])

    def poke(self, which):
        for kind, i, n in which:
            box = self.box
            if kind % 8 == 0 and box.tables:
                k = sorted(box.tables)[i % len(box.tables)]
                cols = box.field_of(k)["columns"]
                words = max([c["hi"] for c in cols.values()] or [31]) // 32 + 1
                if any(c["typ"] == "enum" for c in cols.values()):
                    n = 0
                box.poke(k, [(n * (j + 1)) % 2 ** 32 for j in range(words * (i % 3))])
            elif kind % 8 == 1:
                k = sorted(box.metadata)[i % len(box.metadata)]
                box.poke("*METADATA." + k, ["", "A label", "X 1"][n % 3])
            elif self.keys:
                k, f, sub = self.keys[i % len(self.keys)]
                box.poke(k, world(box, f, sub, n))

    def start(self):
        self.process = Process("proc")
        box = self.box
        self.wire = Wire(box, Queue, [1000, 4096, 17])
        self.dir = tempfile.mkdtemp()
        original = self.original = PandABlocksClient.start
        wire = self.wire

        def start(self, spawn=None, socket_cls=None):
            return original(self, spawn, wire)

        PandABlocksClient.start = start
        self.manager = PandAManagerController(
            mri="PANDA", config_dir=self.dir, poll_period=POLL)
        self.process.add_controller(self.manager)
        self.process.start(10)
        self.client = Client(self.process)

    def stop(self):
        try:
            self.process.stop(10)
        finally:
            PandABlocksClient.start = self.original
            shutil.rmtree(self.dir)

    def polls(self):
        return sum(1 for a, _ in self.box.log if a == "*CHANGES?")

    def settle(self):
        """Wait until all has been polled, and once more"""
        n = self.polls()
        for _ in range(2000):
            if self.polls() >= n + 3 and not self.box.changed:
                break
            cothread.Sleep(POLL)
        else:
            require(False, "the PandA is not polled any more")
        cothread.Sleep(POLL / 4)

    def value(self, path):
        ok, v = get(self.process, path)
        require(ok, "%s can't be read: %s", path, v)
        return v

    def attr(self, key):
        name, field = key.split(".", 1)
        return [f"PANDA:{name}", snake_to_camel(field.replace(".", "_"))]

    def check(self):
        box = self.box
        state = self.value(["PANDA", "state", "value"])
        require(state == "Ready", "state is %s", state)
        views = {name: self.value([f"PANDA:{name}"]) for name in self.root}
        for name, root in self.root.items():
            b = box.blocks[root]
            label = box.metadata[f"LABEL_{name if b['number'] > 1 else name + '1'}"]
            if not label:
                label = b["desc"] + (" " + name[len(root):] if b["number"] > 1 else "")
            got = views[name]["label"]["value"]
            require(got == label, "label of %s is %s, should be %s", name, got, label)
            if "HEALTH" in b["fields"]:
                v = box.values[name + ".HEALTH"]
                health = views[name]["health"]
                want = (v, 0) if v == "OK" else (v, 2)
                require((health["value"], health["alarm"]["severity"]) == want,
                        "health of %s is %s, PandA says %s", name, health, v)
        for k, f, sub in self.keys:
            typ = f["type"]
            if typ == "pos_out" and sub or f.get("subtype") == "bits" or \
                    k.endswith(".HEALTH"):
                continue
            name, aname = self.attr(k)
            attr = views[name[6:]].get(aname)
            require(attr, "%s has no attribute %s", name, aname)
            want = self.parse(f, sub, box.values[k])
            require(attr["value"] == want and type(attr["value"]) is type(want),
                    "%s is %s, but Malcolm has %s", k, want, attr["value"])
            if typ in ("bit_mux", "pos_mux") and not sub:
                links = [x for x in attr["meta"]["tags"] if
                         x.startswith("linkedvalue:")]
                want = []
                if "." in box.values[k]:
                    mri, a = self.attr(box.values[k])
                    want = [f"linkedvalue:{a}:{mri}"]
                require(links == want, "%s = %s links to %s, should be %s", k,
                        box.values[k], links, want)
        for k, words in box.tables.items():
            name, aname = self.attr(k)
            got = views[name[6:]][aname]["value"]
            got.pop("typeid")
            want = self.rows(box.field_of(k)["columns"], words)
            require(got == want, "%s is %s, but Malcolm has %s", k, want, got)
        self.check_busses()
        self.check_layout()

    @staticmethod
    def rows(cols, words):
        cols = cols or dict(VALUE=dict(hi=31, lo=0, typ="int"))
        n = max(c["hi"] for c in cols.values()) // 32 + 1
        out = {}
        for cname, c in cols.items():
            bits = c["hi"] - c["lo"] + 1
            column = []
            for r in range(0, len(words), n):
                total = sum(w << 32 * i for i, w in enumerate(words[r:r + n]))
                v = (total >> c["lo"]) & (2 ** bits - 1)
                if c["typ"] == "enum":
                    v = c["labels"][v]
                elif bits == 1:
                    v = bool(v)
                elif c["typ"] == "int" and v >= 2 ** (bits - 1):
                    v -= 2 ** bits
                column.append(v)
            out[snake_to_camel(cname)] = column
        return out

    @staticmethod
    def parse(f, sub, v):
        typ, subtype = f["type"], f.get("subtype", "")
        if sub in (".UNITS", ".CAPTURE"):
            return v
        if sub == ".DELAY":
            return int(v)
        if typ in ("bit_mux", "pos_mux") or subtype in ("enum", "lut"):
            return v
        if typ == "bit_out" or subtype == "bit":
            return v == "1"
        if typ == "time" or subtype in ("time", "scalar"):
            return float(v)
        return int(v)

    def check_busses(self):
        box = self.box
        bits = self.value(["PANDA", "bits", "value"])
        want = {}
        for n, f in box.blocks["PCAP"]["fields"].items():
            for bit in f.get("bits", []):
                if bit:
                    want[bit] = (box.values[bit] == "1",
                                 box.values[f"PCAP.{n}.CAPTURE"] != "No")
        got = dict(zip(bits["name"], zip(bits["value"], bits["capture"])))
        require(got == want and len(bits["name"]) == len(want),
                "bits are %s, the PandA has %s", got, want)
        pos = self.value(["PANDA", "positions", "value"])
        want = {}
        for k, f, sub in self.keys:
            if f["type"] == "pos_out" and not sub:
                scale, offset = float(box.values[k + ".SCALE"]), float(
                    box.values[k + ".OFFSET"])
                want[k] = (int(box.values[k]) * scale + offset, box.values[k + ".UNITS"],
                           scale, offset, box.values[k + ".CAPTURE"])
        got = dict(zip(pos["name"], zip(pos["value"], pos["units"], pos["scale"],
                                        pos["offset"], pos["capture"])))
        require(got == want and len(pos["name"]) == len(want),
                "positions are %s, the PandA has %s", got, want)

    def check_layout(self):
        layout = self.value(["PANDA", "layout", "value"])
        names = layout["name"]
        require(sorted(names) == sorted(self.root) and layout["mri"] ==
                [f"PANDA:{n}" for n in names], "blocks in the layout are %s, of %s",
                layout, sorted(self.root))
        text = "".join(self.box.layout)
        have = json.loads(text) if text else {}
        got = {n: dict(x=x, y=y) for n, x, y, v in
               zip(names, layout["x"], layout["y"], layout["visible"]) if v}
        want = {n: v for n, v in have.items() if n in self.root}
        require(got == want, "layout is %s, the PandA has %s", got, want)

    def put(self, path, value):
        rs = ask(self.process, path[0], Put(id=1, path=path, value=value))
        require(len(rs) == 1, "Put %s gave %s", path, rs)
        return rs[0]["typeid"] == "malcolm:core/Return:1.0", rs[0]


def new_value(f, sub, n):
    """A value for Malcolm, and what should be sent"""
    v = world(None, f, sub, n)
    return Mirror.parse(f, sub, v)


@check.sub("mirror", cases, quick=250, thorough=6000, shards=6, budget=35)
def run(case, t):
    m = Mirror(case, t)
    m.start()
    try:
        m.settle()
        m.check()
        for attr in ("bits", "positions"):
            m.client.send(Subscribe(id=1, path=["PANDA", attr]))
        for o in case["ops"]:
            step(m, o, t)
            m.settle()
            m.check()
        for response, wire in m.client.responses:
            require(plain(response) == wire, "an update was %s when it was delivered, "
                    "now it is %s", wire, plain(response))
    except BaseException:
        try:
            m.stop()
        except Exception:
            pass
        raise
    m.stop()


def writeable_keys(m):
    out = []
    for k, f, sub in m.keys:
        if f["type"] in ("bit_out", "pos_out") or f.get("subtype") == "bits":
            continue
        if f["type"] == "read" and not sub:
            continue
        out.append((k, f, sub))
    return out


def step(m, o, t):
    box = m.box
    kind = o[0]
    t.label(kind)
    if kind == "poke":
        t.nontrivial(len(o[1]) > 1)
        m.poke(o[1])
    elif kind == "put":
        keys = writeable_keys(m)
        if not keys:
            return
        k, f, sub = keys[o[1] % len(keys)]
        value = new_value(f, sub, o[2])
        path = m.attr(k) + ["value"]
        before = box.values[k]
        if o[3] == 0:
            box.refuse.add(k)
            ok, r = m.put(path, value)
            box.refuse.discard(k)
            require(not ok and "ERR" in r["message"], "refused put of %s gives %s", k, r)
            require(box.values[k] == before, "refused put changed %s", k)
            return
        if o[3] == 1:
            # at the same time as the hardware
            box.poke(k, world(box, f, sub, o[2] + 1))
        ok, r = m.put(path, value)
        require(ok, "put of %s to %s is refused: %s", value, k, r)
        sent = m.parse(f, sub, box.values[k])
        require(sent == value, "put %s to %s, the PandA got %s", value, k,
                box.values[k])
        shown = m.value(path)
        require(shown == value, "put %s to %s, Malcolm shows %s", value, k, shown)
    elif kind == "puts":
        keys = writeable_keys(m)
        if not keys:
            return
        c = Client(m.process)
        todo = {}
        for i, n in o[1]:
            k, f, sub = keys[i % len(keys)]
            todo[k] = (f, sub, new_value(f, sub, n))
        spawned = [c.send_to(m.attr(k)[0], Put(id=i + 1, path=m.attr(k) + ["value"],
                                               value=v[2]), wait=False)
                   for i, (k, v) in enumerate(todo.items())]
        for s in spawned:
            s.wait(20)
        for k, (f, sub, v) in todo.items():
            require(m.parse(f, sub, box.values[k]) == v,
                    "put %s to %s with others, the PandA got %s", v, k, box.values[k])
    elif kind == "pulse":
        bits = [(k, f) for k, f, sub in m.keys if f["type"] == "bit_out"]
        if not bits:
            return
        watched = {}
        for i, n in o[1]:
            k = bits[i % len(bits)][0]
            if k not in watched:
                c = Client(m.process)
                c.send_to(m.attr(k)[0], Subscribe(id=1, path=m.attr(k) + ["value"]))
                watched[k] = c
            for _ in range(n):
                box.poke(k, str(1 - int(box.values[k])))
        m.settle()
        for k, c in watched.items():
            seen = [w["value"] for _, w in c.responses]
            require(len(set(seen)) == 2, "%s has changed, a subscriber saw %s", k, seen)
    elif kind == "train":
        # a change in every poll
        bits = [k for k, f, sub in m.keys if f["type"] == "bit_out"]
        for which in o[1]:
            n = m.polls()
            for i in which:
                if bits:
                    k = bits[i % len(bits)]
                    box.poke(k, str(1 - int(box.values[k])))
            for _ in range(1000):
                if m.polls() > n:
                    break
                cothread.Sleep(POLL / 10)
    elif kind == "label":
        name = sorted(m.root)[o[1] % len(m.root)]
        single = box.blocks[m.root[name]]["number"] == 1
        key = f"LABEL_{name}1" if single else f"LABEL_{name}"
        if o[3]:
            box.poke("*METADATA." + key, o[2])
        else:
            ok, r = m.put([f"PANDA:{name}", "label", "value"], o[2])
            require(ok, "label can't be put: %s", r)
            require(box.metadata[key] == o[2], "put label %s, the PandA has %s", o[2],
                    box.metadata)
    elif kind in ("positions", "bits"):
        busses(m, o, t)
    elif kind == "layout":
        names = sorted(m.root)
        where = {names[i % len(names)]: dict(x=float(p), y=p / 2) for i, p in o[1]}
        if o[2]:
            if where:
                box.poke("*METADATA.LAYOUT",
                         [json.dumps({k: where[k]})[1:-1] + "," for k in where])
                box.layout[0] = "{" + box.layout[0]
                box.layout[-1] = box.layout[-1][:-1] + "}"
        else:
            table = dict(name=names, mri=names, x=[], y=[], visible=[])
            for n in names:
                table["x"].append(where.get(n, dict(x=0.0))["x"])
                table["y"].append(where.get(n, dict(y=0.0))["y"])
                table["visible"].append(n in where)
            ok, r = m.put(["PANDA", "layout", "value"], table)
            require(ok, "layout can't be put: %s", r)
            text = "".join(box.layout)
            have = json.loads(text) if text else {}
            require(have == where, "layout put is %s, the PandA has %s", where, have)
    elif kind == "action":
        actions = [(n, f) for n, r in sorted(m.root.items())
                   for f, d in box.blocks[r]["fields"].items()
                   if d["type"] == "write" and d["subtype"] == "action"]
        actions += [("PCAP", "ARM"), ("PCAP", "DISARM")]
        name, field = actions[o[1] % len(actions)]
        start = len(box.log)
        rs = ask(m.process, f"PANDA:{name}",
                 Post(id=1, path=[f"PANDA:{name}", snake_to_camel(field)]))
        require(rs[0]["typeid"] == "malcolm:core/Return:1.0", "%s.%s: %s", name, field,
                rs)
        sent = [a for a, _ in box.log[start:] if a.endswith("=")
                and not a.startswith("*METADATA")]
        want = ("*" if field in ("ARM", "DISARM") else "") + f"{name}.{field}="
        require(sent == [want], "%s.%s sends %s", name, field, sent)
    elif kind == "outage":
        outage(m, t)


def outage(m, t):
    """The PandA can't answer for a while; a reset makes all good again"""
    request = m.box.request

    def broken(line):
        if line == "*CHANGES?":
            return "ERR Broken\n"
        return request(line)

    m.box.request = broken
    for _ in range(500):
        cothread.Sleep(POLL)
        if m.value(["PANDA", "state", "value"]) == "Fault":
            break
    else:
        require(False, "no Fault when the PandA can't be polled")
    m.box.request = request
    rs = ask(m.process, "PANDA", Post(id=1, path=["PANDA", "reset"]))
    require(rs[0]["typeid"] == "malcolm:core/Return:1.0", "reset fails: %s", rs)


def busses(m, o, t):
    box = m.box
    which = o[0]
    table = m.value(["PANDA", which, "value"])
    table.pop("typeid")
    names = table["name"]
    if not names:
        return
    rows = [dict(zip(table, r)) for r in zip(*table.values())]
    before = dict(box.values)
    touched = set()
    if which == "positions":
        for i, column, n in o[1]:
            row = rows[i % len(rows)]
            if column == "capture":
                row[column] = CAPTURES[n % len(CAPTURES)]
            elif column == "units":
                row[column] = UNITS[n % len(UNITS)]
            else:
                row[column] = [1.0, 0.5, -1e-3, 20.0][n % 4]
            touched.add(row["name"])
    else:
        for i in o[1]:
            row = rows[i % len(rows)]
            row["capture"] = not row["capture"]
            touched.add(row["name"])
    how = o[2]
    if how == 1:
        # only some of them, in another order
        rows = [r for r in rows[::-1] if r["name"] in touched]
        t.label("partial table")
    elif how == 2:
        # one that does not exist
        rows = rows + [dict(rows[0], name="NONE1.OUT")]
        t.label("unknown row")
    table = {k: [r[k] for r in rows] for k in table}
    ok, r = m.put(["PANDA", which, "value"], table)
    require(ok, "%s can't be put: %s", which, r)
    if which == "positions":
        for row in rows:
            name = row["name"]
            if name not in names:
                continue
            for column in ("capture", "units", "scale", "offset"):
                got = box.values[f"{name}.{column.upper()}"]
                if column in ("scale", "offset"):
                    got = float(got)
                require(got == row[column], "put %s of %s to %s, the PandA has %s",
                        column, name, row[column], got)
        for k, v in before.items():
            if not any(k.startswith(r["name"] + ".") for r in rows):
                require(same(box.values[k], v), "put of positions changed %s from %s "
                        "to %s", k, v, box.values[k])
    else:
        asked = {r["name"]: r["capture"] for r in rows}
        for n, f in box.blocks["PCAP"]["fields"].items():
            key = f"PCAP.{n}.CAPTURE"
            # the rows that are given decide
            flags = [asked[b] for b in f.get("bits", []) if b in asked]
            if not flags:
                require(key not in before or before[key] == box.values[key],
                        "put of other bits changed %s", key)
                continue
            want = any(flags)
            require((box.values[key] != "No") == want,
                    "capture of %s put as %s, %s is %s", f["bits"], asked, key,
                    box.values[key])


def same(a, b):
    try:
        return float(a) == float(b)
    except ValueError:
        return a == b
