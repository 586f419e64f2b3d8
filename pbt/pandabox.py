"""A simulated PandA: speaks the text protocol of the TCP server"""
import socket as pysocket


class Box:
    """blocks: {root: dict(number, desc, fields={name: dict(type, subtype, desc,
    labels, columns)})}

    A field "type" is as in the server; values are kept as the text it would send,
    tables as a list of ints.
    """

    def __init__(self, blocks):
        self.blocks = blocks
        self.values = {}
        self.tables = {}
        self.changed = {}  # in the order of change, as the server would not promise
        self.errors = set()
        self.log = []
        self.refuse = set()
        self.metadata = {}
        for root, b in blocks.items():
            for name in self.names(root):
                for fname, f in b["fields"].items():
                    for sub, value in self.initial(f):
                        self.values[f"{name}.{fname}{sub}"] = value
                    if f["type"] == "table":
                        self.tables[f"{name}.{fname}"] = []
                self.metadata[f"LABEL_{name if b['number'] > 1 else name + '1'}"] = ""
        for k in list(self.values) + list(self.tables):
            self.changed[k] = True
        for k in self.metadata:
            self.changed["*METADATA." + k] = True
        self.layout = []
        self.changed["*METADATA.LAYOUT"] = True

    def names(self, root):
        n = self.blocks[root]["number"]
        return [root] if n == 1 else [f"{root}{i + 1}" for i in range(n)]

    @staticmethod
    def initial(f):
        """Subfields and their first values"""
        typ, sub = f["type"], f.get("subtype", "")
        if typ == "time" or sub == "time":
            return [("", "0"), (".UNITS", "s")]
        if typ == "bit_out":
            return [("", "0")]
        if typ == "pos_out":
            return [("", "0"), (".CAPTURE", "No"), (".UNITS", ""), (".SCALE", "1"),
                    (".OFFSET", "0")]
        if typ == "ext_out":
            return [(".CAPTURE", "No")]
        if typ == "bit_mux":
            return [("", "ZERO"), (".DELAY", "0")]
        if typ == "pos_mux":
            return [("", "ZERO")]
        if typ == "table" or typ == "write":
            return []
        if sub == "enum":
            return [("", f["labels"][0])]
        if sub == "lut":
            return [("", "A&B")]
        return [("", "0")]

    def root_of(self, name):
        if name in self.blocks:
            return name
        root = name.rstrip("0123456789")
        return root if root in self.blocks else None

    def field_of(self, key):
        parts = key.split(".")
        root = self.root_of(parts[0])
        if root is None or len(parts) < 2:
            return None
        return self.blocks[root]["fields"].get(parts[1])

    # the world changes
    def poke(self, key, value):
        if key in self.tables:
            self.tables[key] = list(value)
        elif key == "*METADATA.LAYOUT":
            self.layout = list(value)
        elif key.startswith("*METADATA."):
            self.metadata[key[10:]] = value
        else:
            self.values[key] = value
        self.changed[key] = True

    # the protocol
    def feed(self, text):
        """Complete messages in text -> (replies, rest)"""
        replies = []
        while "\n" in text:
            line, rest = text.split("\n", 1)
            if line.endswith("<"):
                end = rest.find("\n\n")
                if rest.startswith("\n"):
                    lines, rest = [], rest[1:]
                elif end < 0:
                    break
                else:
                    lines, rest = rest[:end].split("\n"), rest[end + 2:]
                reply = self.table_write(line[:-1], lines)
                line = line + "\n" + "\n".join(lines)
            else:
                reply = self.request(line)
            text = rest
            self.log.append((line, reply))
            replies.append(reply)
        return replies, text

    @staticmethod
    def multi(lines):
        return "".join(f"!{x}\n" for x in lines) + ".\n"

    def table_write(self, key, lines):
        if key == "*METADATA.LAYOUT":
            self.layout = lines
            self.changed[key] = True
            return "OK\n"
        if key not in self.tables or key in self.refuse:
            return "ERR No such table\n"
        if not all(x.isdigit() and int(x) < 2 ** 32 for x in lines):
            return "ERR Bad number\n"
        self.tables[key] = [int(x) for x in lines]
        self.changed[key] = True
        return "OK\n"

    def request(self, line):
        if "=" in line and not line.endswith("?"):
            key, value = line.split("=", 1)
            return self.write(key, value)
        if not line.endswith("?"):
            return "ERR Unknown command\n"
        key = line[:-1]
        if key == "*BLOCKS":
            return self.multi(f"{k} {b['number']}" for k, b in self.blocks.items())
        if key == "*CHANGES":
            lines = []
            for k in self.changed:
                if k in self.tables or k == "*METADATA.LAYOUT":
                    lines.append(k + "<")
                elif k in self.errors:
                    lines.append(k + " (error)")
                elif k.startswith("*METADATA."):
                    lines.append(f"{k}={self.metadata[k[10:]]}")
                else:
                    lines.append(f"{k}={self.values[k]}")
            self.changed = {}
            return self.multi(lines)
        if key.startswith("*DESC."):
            return self.desc(key[6:])
        if key.startswith("*ENUMS."):
            return self.enums(key[7:])
        if key == "*METADATA.LAYOUT":
            return self.multi(self.layout)
        if key in self.tables:
            return self.multi(self.tables[key])
        if key in self.values:
            return f"OK ={self.values[key]}\n"
        if key.endswith(".FUNC.RAW") and key[:-4] in self.values:
            return f"OK ={self.blocks['LUT'].get('raw', '0x0')}\n"
        parts = key.split(".")
        root = self.root_of(parts[0])
        if root:
            fields = self.blocks[root]["fields"]
            if parts[1:] == ["*"]:
                return self.multi(
                    f"{n} {f['index']} {f['type']} {f.get('subtype', '')}".strip()
                    for n, f in fields.items())
            f = fields.get(parts[1]) if len(parts) == 3 else None
            if f and f["type"] == "table" and parts[2] == "FIELDS":
                return self.multi(
                    f"{c['hi']}:{c['lo']} {n} {c.get('typ', '')}".strip()
                    for n, c in f["columns"].items())
            if f and f.get("subtype") == "bits" and parts[2] == "BITS":
                return self.multi(f["bits"])
        return "ERR No such field\n"

    def write(self, key, value):
        if key in self.refuse:
            return "ERR Not now\n"
        if key.startswith("*METADATA."):
            if key[10:] not in self.metadata:
                return "ERR No such metadata\n"
            self.poke(key, value)
            return "OK\n"
        if key in ("*PCAP.ARM", "*PCAP.DISARM"):
            return "OK\n"
        f = self.field_of(key)
        if f is None:
            return "ERR No such field\n"
        if f["type"] == "write":
            return "OK\n"
        if key not in self.values or f["type"] == "read" and key.count(".") == 1:
            return "ERR Read only\n"
        self.poke(key, value)
        return "OK\n"

    def desc(self, key):
        parts = key.split(".", 2)
        root = self.root_of(parts[0])
        if root is None:
            return "ERR No such block\n"
        b = self.blocks[root]
        if len(parts) == 1:
            return f"OK ={b['desc']}\n"
        f = b["fields"].get(parts[1].replace("[]", ""))
        if f and len(parts) == 2:
            return f"OK ={f['desc']}\n"
        if f and parts[1].endswith("[]") and parts[2] in f.get("columns", ()):
            return f"OK ={f['columns'][parts[2]]['desc']}\n"
        return "ERR No such field\n"

    def enums(self, key):
        parts = key.split(".", 2)
        root = self.root_of(parts[0])
        f = self.blocks[root]["fields"].get(parts[1].replace("[]", "")) if root else None
        if f is None:
            return "ERR No such field\n"
        if parts[1].endswith("[]"):
            c = f.get("columns", {}).get(parts[2])
            if c and c.get("labels"):
                return self.multi(c["labels"])
        elif len(parts) == 3 and parts[2] == "CAPTURE" and f["type"] == "ext_out":
            return self.multi(f["labels"])
        elif len(parts) == 2 and f.get("labels"):
            return self.multi(f["labels"])
        return "ERR Not an enum\n"


class Wire:
    """Makes sockets connected to a box; chunks says how replies are cut up"""

    def __init__(self, box, queue_cls, chunks=(4096,), delay=None):
        self.box = box
        self.queue_cls = queue_cls
        self.chunks = list(chunks)
        self.delay = delay
        self.n = 0
        self.sockets = []
        self.hold = False
        self.held = []

    def __call__(self):
        s = Socket()
        s.wire = self
        s.queue = self.queue_cls()
        s.text = b""
        s.left = b""
        s.closed = False
        self.sockets.append(s)
        return s


class Socket:
    def connect(self, address):
        self.address = address

    def sendall(self, data):
        if self.closed:
            raise OSError("closed")
        self.text += data
        replies, rest = self.wire.box.feed(self.text.decode("utf-8"))
        self.text = rest.encode("utf-8")
        for r in replies:
            self.reply(r.encode("utf-8"))

    def reply(self, data):
        if self.wire.hold:
            self.wire.held.append((self, data))
        else:
            self.queue.put(data)

    def recv(self, n):
        while not self.left:
            data = self.queue.get()
            if data is None:
                return b""
            # whatever else has arrived
            self.left += data
            while True:
                try:
                    data = self.queue.get(timeout=0)
                except Exception:
                    break
                if data is None:
                    self.queue.put(None)
                    break
                self.left += data
        wire = self.wire
        size = min(n, wire.chunks[wire.n % len(wire.chunks)])
        wire.n += 1
        if wire.delay:
            wire.delay()
        out, self.left = self.left[:size], self.left[size:]
        return out

    def shutdown(self, how):
        assert how in (pysocket.SHUT_RD, pysocket.SHUT_RDWR)
        self.queue.put(None)

    def close(self):
        self.closed = True


def release(wire):
    held, wire.held = wire.held, []
    wire.hold = False
    for s, data in held:
        s.queue.put(data)


# generated boxes
from hypothesis import strategies as st  # noqa: E402

ROOTS = ["TTLIN", "TTLOUT", "LUT", "SRGATE", "PULSE", "SEQ", "PCOMP", "INENC", "QDEC",
         "CLOCKS", "FMC_IN", "CALC"]
NAMES = ["VAL", "INPA", "INP_B", "WIDTH", "STEP_SIZE", "OUT", "TABLE", "ENABLE",
         "FUNC", "TERM", "STATE", "REPEATS", "TRIG_EDGE", "SOFT", "ERR", "A", "B1"]
TEXTS = ["", "TTL input", "Step = 3", "µ-steps of 5 Å", "a.b < c", "!", "OK =1", ".",
         "ERR not", "日本", "delay (error)", "#1 'quoted' \"x\"", "x" * 200]
LABELS = ["No", "Value", "ONE", "ZERO", "50-Ohm", "High-Z", "a b", "µ", "rising edge",
          "ERR", "."]
TYPES = ["bit_out", "bit_out", "pos_out", "bit_mux", "pos_mux", "time", "param uint",
         "param int", "param scalar", "param bit", "param enum", "param lut",
         "param time", "read uint", "read enum", "read bit", "read time", "write action",
         "write uint", "ext_out timestamp", "ext_out samples", "table", "param "]


@st.composite
def columns(draw):
    """Non-overlapping bit ranges within 32 bit words"""
    out = {}
    words = draw(st.integers(1, 4))
    names = ["REPEATS", "TRIGGER", "POSITION", "TIME1", "OUTA1", "OUTA2", "TIME2",
             "X_Y", "C", "D", "E", "F", "G", "H"]
    for w in range(words):
        lo = 0
        for _ in range(draw(st.integers(0 if w < words - 1 else 1, 5))):
            if lo > 31 or not names:
                break
            lo += draw(st.sampled_from([0, 0, 0, 1, 7, 15]))
            if lo > 31:
                break
            n = draw(st.sampled_from([1, 1, 2, 4, 8, 12, 16, 20, 31, 32]))
            n = min(n, 32 - lo)
            typ = draw(st.sampled_from(["", "", "int", "uint", "enum"]))
            c = dict(hi=32 * w + lo + n - 1, lo=32 * w + lo, typ=typ,
                     desc=draw(st.sampled_from(TEXTS)))
            if typ == "enum":
                c["labels"] = draw(st.lists(st.sampled_from(LABELS), min_size=1,
                                            max_size=min(2 ** n, 6), unique=True))
            out[names.pop(draw(st.integers(0, len(names) - 1)))] = c
            lo += n
    # cases are saved with sorted keys
    return dict(sorted(out.items()))


@st.composite
def box_blocks(draw, max_blocks=5, max_fields=6, pcap=True):
    out = {}
    roots = draw(st.lists(st.sampled_from(ROOTS), min_size=1, max_size=max_blocks,
                          unique=True))
    bit_outs, pos_outs = [], []
    for root in roots:
        number = draw(st.sampled_from([1, 1, 2, 3]))
        fields = {}
        names = draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=max_fields,
                              unique=True))
        indexes = draw(st.permutations(range(len(names))))
        for name, index in zip(names, indexes):
            typ, _, sub = draw(st.sampled_from(TYPES)).partition(" ")
            if typ == "table" and any(f["type"] == "table" for f in fields.values()):
                typ, sub = "param", "uint"
            f = dict(index=index, type=typ, subtype=sub,
                     desc=draw(st.sampled_from(TEXTS)))
            if sub == "enum":
                f["labels"] = draw(st.lists(st.sampled_from(LABELS), min_size=1,
                                            max_size=5, unique=True))
            elif typ == "ext_out":
                f["labels"] = draw(st.sampled_from(
                    [["No", "Value"], ["No", "Value", "Diff", "Sum"]]))
            elif typ == "table":
                f["columns"] = draw(columns())
            fields[name] = f
        fields = dict(sorted(fields.items()))
        out[root] = dict(number=number, desc=draw(st.sampled_from(TEXTS)), fields=fields)
        for name in ([root] if number == 1 else
                     [f"{root}{i + 1}" for i in range(number)]):
            bit_outs += [f"{name}.{n}" for n, f in fields.items()
                         if f["type"] == "bit_out"]
            pos_outs += [f"{name}.{n}" for n, f in fields.items()
                         if f["type"] == "pos_out"]
    for b in out.values():
        for f in b["fields"].values():
            if f["type"] == "bit_mux":
                f["labels"] = bit_outs[::-1] + ["ONE", "ZERO"]
            elif f["type"] == "pos_mux":
                f["labels"] = ["ZERO"] + pos_outs
    if pcap:
        fields = {}
        groups = max(1, -(-len(bit_outs) // 3))
        for i in range(groups):
            bits = bit_outs[3 * i:3 * i + 3]
            fields[f"BITS{i}"] = dict(
                index=groups - i, type="ext_out", subtype="bits", desc="bits",
                labels=["No", "Value"], bits=bits + [""] * (4 - len(bits)))
        out["PCAP"] = dict(number=1, desc="Position capture", fields=fields)
    return dict(sorted(out.items()))
