"""A generated device block with a reference model, shared by P02, P03 and P07.

Histories of Get / Put / Post / Subscribe / Unsubscribe requests with good and bad
paths, values and parameters are sent to a real Controller while some writes block
and while fields change between writeable and read-only."""
from typing import Sequence, Union

import cothread
import numpy as np
from annotypes import Anno, Array, Serializable, add_call_types
from hypothesis import strategies as st

from malcolm.core import (
    BadValueError, ChoiceMeta, Controller, Get, NumberMeta, Part, Post,
    Process, Put, StringMeta, Subscribe, Unsubscribe)

from .core import require, fmt
from .mal import Client, get, plain, yield_all

MRI = "dev"

with Anno("first"):
    AA = int
with Anno("second"):
    AB = int
with Anno("text"):
    AText = str
with Anno("flag"):
    AFlag = bool
with Anno("items"):
    AItems = Union[Array[str]]
UItems = Union[AItems, Sequence[str]]
with Anno("result"):
    AResult = int
with Anno("out text"):
    AOutText = str


class Pair(Serializable):
    def __init__(self, total: AResult, text: AOutText) -> None:
        self.total = total
        self.text = text


with Anno("pair of results"):
    APair = Pair


class Boom(Exception):
    pass


class DevPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.calls = []
        self.pending = []
        self.attrs = {
            "num": NumberMeta("int32", "d").create_attribute_model(1),
            "text": StringMeta("d").create_attribute_model("t"),
            "opt": ChoiceMeta("d", ["a", "b", "c"]).create_attribute_model("a"),
            "ro": NumberMeta("float64", "d").create_attribute_model(2.5),
            "slow": NumberMeta("int32", "d").create_attribute_model(0),
            "bad": StringMeta("d").create_attribute_model("fine"),
            "echo": NumberMeta("int32", "d").create_attribute_model(9),
        }
        funcs = {k: getattr(self, "set_" + k) for k in self.attrs if k != "ro"}
        for k, a in self.attrs.items():
            registrar.add_attribute_model(k, a, funcs.get(k))
        self.methods = {}
        for name in ("add", "join", "boom", "wait", "plain", "fails"):
            m = registrar.add_method_model(getattr(self, name), name)
            self.methods[name] = m

    def record(self, what, *args):
        self.calls.append((what,) + args)

    def set_num(self, value):
        self.record("num", value)
        self.attrs["num"].set_value(value)

    def set_text(self, value):
        self.record("text", value)
        self.attrs["text"].set_value(value)

    def set_opt(self, value):
        # a device that accepts the demand but does not follow it
        self.record("opt", value)

    def set_echo(self, value):
        self.record("echo", value)
        self.attrs["echo"].set_value(value)
        return value + 1

    def set_bad(self, value):
        self.record("bad", value)
        raise Boom("no %s" % value)

    def block(self, result, error=None):
        ev = cothread.Event(auto_reset=False)
        self.pending.append(ev)
        ev.Wait(60)
        if error:
            raise error
        return result

    def set_slow(self, value):
        self.record("slow", value)
        self.block(None)
        self.attrs["slow"].set_value(value)

    @add_call_types
    def add(self, a: AA, b: AB = 5) -> AResult:
        self.record("add", a, b)
        return a + b

    @add_call_types
    def join(self, text: AText, items: UItems = (), flag: AFlag = False) -> APair:
        self.record("join", text, list(items), bool(flag))
        return Pair(len(items), text + "|".join(items))

    @add_call_types
    def boom(self, text: AText = "zap") -> AResult:
        self.record("boom", text)
        raise Boom("boom " + text)

    @add_call_types
    def fails(self) -> None:
        self.record("fails")
        raise BadValueError("always")

    @add_call_types
    def wait(self, a: AA) -> AResult:
        self.record("wait", a)
        return self.block(a * 2)

    @add_call_types
    def plain(self) -> None:
        self.record("plain")


ATTRS = ["num", "text", "opt", "ro", "slow", "bad", "echo"]
METHODS = {
    # name: {param: (kind, default or REQUIRED)}
    "add": [("a", "int", None), ("b", "int", 5)],
    "join": [("text", "str", None), ("items", "strs", []),
             ("flag", "bool", False)],
    "boom": [("text", "str", "zap")],
    "fails": [],
    "wait": [("a", "int", None)],
    "plain": [],
}
REQUIRED = {"add": ["a"], "join": ["text"], "boom": [], "fails": [],
            "wait": ["a"], "plain": []}
RETURNS = {"add": ["return"], "join": ["total", "text"], "boom": ["return"],
           "fails": [], "wait": ["return"], "plain": []}

# For each kind: values with the expected validated wire value, None = rejected
GOOD = {
    "int": [(3, 3), (0, 0), (-7, -7), ("12", 12), (4.0, 4)],
    "str": [("x", "x"), ("", ""), ("hello", "hello"), (5, "5")],
    "strs": [([], []), (["p"], ["p"]), (["p", "q"], ["p", "q"]), ("s", ["s"])],
    "bool": [(True, True), (False, False), ("no", False), (1, True)],
    "opt": [("a", "a"), ("c", "c"), (1, "b"), ("b", "b")],
}
BAD = {
    "int": ["abc", [1, 2], {"a": 1}, ""],
    "strs": [[1], 7, [None]],
    "opt": ["z", 5, "A", -1],
    "str": [], "bool": [],
}
KIND = {"num": "int", "text": "str", "opt": "opt", "slow": "int", "bad": "str",
        "echo": "int", "ro": "int"}


@st.composite
def value_of(draw, kind):
    """[value, expected or None, ok]"""
    if BAD[kind] and draw(st.integers(0, 3)) == 0:
        return [draw(st.sampled_from(BAD[kind])), None, False]
    v, e = draw(st.sampled_from(GOOD[kind]))
    return [v, e, True]


@st.composite
def put_op(draw):
    f = draw(st.sampled_from(ATTRS + ["num", "text", "opt", "slow"]))
    op = dict(op="put", field=f, value=draw(value_of(KIND[f])),
              get=draw(st.booleans()),
              tail=draw(st.sampled_from([[], [], ["value"]])))
    return op


@st.composite
def post_op(draw):
    m = draw(st.sampled_from(sorted(METHODS)))
    params = {}
    for p, kind, _ in METHODS[m]:
        if draw(st.integers(0, 3)):
            params[p] = draw(value_of(kind))
    if draw(st.integers(0, 5)) == 0:
        params["extra"] = [1, 1, False]
    op = dict(op="post", method=m, params=params,
              order=draw(st.booleans()))
    if not params:
        op["none"] = draw(st.booleans())
    return op


weird_put = st.sampled_from([
    [MRI], [MRI, "nope"], [MRI, "add"], [MRI, "meta"], [MRI, ""],
    [MRI, "num2", "value"], [MRI, "typeid"]])
weird_post = st.sampled_from([
    [MRI], [MRI, "nope"], [MRI, "num"], [MRI, "meta"], [MRI, "", "x"]])
get_paths = st.sampled_from([
    [MRI], [MRI, "num"], [MRI, "num", "value"], [MRI, "meta"],
    [MRI, "meta", "fields"], [MRI, "opt", "meta", "choices"],
    [MRI, "add", "meta", "takes", "elements"],
    [MRI, "add", "meta", "takes", "elements", "a", "label"],
    [MRI, "ro", "alarm", "severity"], [MRI, "join", "took"],
    [MRI, "nope"], [MRI, "num", "nope"], [MRI, "num", "value", "x"],
    [MRI, "meta", "fields", "0"], [MRI, "num", "meta", "display", "units"],
    [MRI, "add", "meta", "takes", "elements", "zz"], [MRI, ""],
    [MRI, "text", "value", "upper"], [MRI, "join", "_x"]])


@st.composite
def histories(draw, puts=3, posts=3, gets=2, weird=1, subs=1, toggles=2):
    kinds = (["put"] * puts + ["post"] * posts + ["get"] * gets +
             ["weird"] * weird + ["sub", "unsub"] * subs +
             ["toggle"] * toggles + ["release"])
    ops = []
    for _ in range(draw(st.integers(1, 12))):
        k = draw(st.sampled_from(kinds))
        if k == "put":
            op = draw(put_op())
        elif k == "post":
            op = draw(post_op())
        elif k == "get":
            op = dict(op="get", path=draw(get_paths))
        elif k == "weird":
            if draw(st.booleans()):
                op = dict(op="weirdput", path=draw(weird_put))
            else:
                op = dict(op="weirdpost", path=draw(weird_post))
        elif k == "sub":
            op = dict(op="sub", path=[MRI] + draw(st.sampled_from(
                [["num"], ["num", "value"], ["text", "value"], [],
                 ["slow", "value"], ["add", "took"]])),
                delta=draw(st.booleans()))
        elif k == "unsub":
            op = dict(op="unsub", i=draw(st.integers(0, 4)),
                      known=draw(st.booleans()))
        elif k == "toggle":
            op = dict(op="toggle", field=draw(st.sampled_from(
                [a for a in ATTRS if a != "ro"] + sorted(METHODS))),
                w=draw(st.booleans()))
        else:
            op = dict(op="release", i=draw(st.integers(0, 3)))
        op["id"] = draw(st.integers(1, 2 ** 31 - 1))
        ops.append(op)
    return dict(ops=ops)


class Model:
    def __init__(self):
        self.values = dict(num=1, text="t", opt="a", slow=0, bad="fine", echo=9,
                           ro=2.5)
        self.writeable = {a: a != "ro" for a in ATTRS}
        self.writeable.update({m: True for m in METHODS})


def tree_get(tree, path):
    for p in path:
        if isinstance(tree, dict) and p in tree:
            tree = tree[p]
        else:
            return False, None
    return True, tree


def run_history(case, t, focus):
    """focus: which groups of assertions are made"""
    def need(group, cond, msg, *args):
        if group in focus:
            require(cond, msg, *args)

    process = Process("proc")
    c = Controller(MRI)
    part = DevPart("part")
    c.add_part(part)
    process.start()
    process.add_controller(c)
    model = Model()
    clients = []  # every client, with the expected number of responses
    pending = []  # outstanding blocked requests, in order of blocking
    subs = []

    def answered(client, n, what):
        got = [w for _, w in client.responses]
        need("answer", len(got) == n, "%s got %d responses instead of %d: %s",
             what, len(got), n, got)
        return got

    def error_of(r):
        return r["typeid"] == "malcolm:core/Error:1.0"

    def check_values():
        for k, v in model.values.items():
            ok, now = get(process, [MRI, k, "value"])
            need("effect", ok and now == v, "%s is %s, expected %s", k, now, v)

    def new_client(op):
        cl = Client(process)
        clients.append((cl, op))
        return cl

    def check_log(m, params, before, error, wire):
        """The took/returned log of the last call of a method"""
        ok, method = get(process, [MRI, m])
        took, returned = method["took"], method["returned"]
        names = [p for p, _, _ in METHODS[m]]
        present = [p for p in names if p in params]
        need("log", took["present"] == present, "%s called with %s logs "
             "present %s", m, params, took["present"])
        need("log", sorted(took["value"]) == sorted(names),
             "%s logs arguments %s", m, took["value"])
        for p in present:
            need("log", took["value"][p] == params[p][1], "%s logs %s=%s, it "
                 "was called with %s", m, p, took["value"][p], params[p])
        need("log", sorted(returned["value"]) == sorted(RETURNS[m]),
             "%s logs returned %s", m, returned["value"])
        if error is None:
            need("log", returned["alarm"]["severity"] == 0, "%s succeeded but "
                 "logs alarm %s", m, returned["alarm"])
            if RETURNS[m] == ["return"]:
                want = {"return": wire}
            else:
                want = wire or {}
            want = {k: v for k, v in want.items() if k != "typeid"}
            need("log", returned["value"] == want and
                 sorted(returned["present"]) == sorted(want),
                 "%s returned %s but logs %s", m, wire, returned)
        else:
            need("log", returned["alarm"]["severity"] == 2 and
                 error in returned["alarm"]["message"] and
                 returned["present"] == [],
                 "%s failed with %s but logs %s", m, error, returned)

    def finish(entry):
        """The oldest blocked request has been released"""
        kind, cl, op, data = entry
        got = answered(cl, 1, op)
        if not got:
            return
        r = got[0]
        need("answer", r["id"] == op["id"], "%s answered with id %s", op,
             r["id"])
        if kind == "put":
            model.values["slow"] = data
            need("answer", not error_of(r), "%s answered with %s", op, r)
            if not error_of(r):
                need("effect", r["value"] == (data if op["get"] else None),
                     "%s answered with %s", op, r)
        else:
            need("answer", not error_of(r) and r["value"] == data * 2,
                 "%s answered with %s", op, r)
            check_log("wait", op["params"], None, None, data * 2)

    def call_params(op):
        items = [(k, v[0]) for k, v in op["params"].items()]
        if op["order"]:
            items.reverse()
        if not items and op.get("none"):
            return None
        return dict(items)

    try:
        for op in case["ops"]:
            k = op["op"]
            before = list(part.calls)
            if k == "toggle":
                f = op["field"]
                c._block[f].meta.set_writeable(op["w"])
                model.writeable[f] = op["w"]
                t.label("read-only", not op["w"])
            elif k == "release":
                if pending:
                    i = op["i"] % len(pending)
                    entry = pending.pop(i)
                    ev = part.pending.pop(i)
                    ev.Signal()
                    yield_all(20)
                    finish(entry)
                    t.label("released")
            elif k == "get":
                cl = new_client(op)
                cl.send(Get(id=op["id"], path=op["path"]), wait=False)
                yield_all()
                got = answered(cl, 1, op)
                _, tree = get(process, [MRI])
                ok, want = tree_get(tree, op["path"][1:])
                if got:
                    r = got[0]
                    need("answer", r["id"] == op["id"], "%s answered with %s",
                         op, r)
                    need("answer", error_of(r) != ok, "Get of %s %s path "
                         "answered with %s", "existing" if ok else "missing",
                         op["path"], r)
                    if ok and not error_of(r):
                        need("answer", r["value"] == want, "Get of %s gives %s "
                             "but the block has %s", op["path"], r["value"],
                             want)
                t.label("get missing", not ok)
            elif k in ("weirdput", "weirdpost"):
                cl = new_client(op)
                if k == "weirdput":
                    req = Put(id=op["id"], path=op["path"], value=3)
                else:
                    req = Post(id=op["id"], path=op["path"])
                cl.send(req, wait=False)
                yield_all()
                got = answered(cl, 1, op)
                if got:
                    need("answer", error_of(got[0]) and
                         got[0]["id"] == op["id"], "%s answered with %s", op,
                         got[0])
                need("effect", part.calls == before, "%s made the device "
                     "calls %s", op, part.calls[len(before):])
                t.nontrivial()
            elif k == "put":
                f = op["field"]
                cl = new_client(op)
                v, want, valid = op["value"]
                cl.send(Put(id=op["id"], path=[MRI, f] + op["tail"], value=v,
                            get=op["get"]), wait=False)
                yield_all(20)
                new = [(x[0], plain(x[1])) for x in part.calls[len(before):]]
                if not model.writeable[f] or not valid:
                    t.nontrivial()
                    t.label("put refused")
                    got = answered(cl, 1, op)
                    if got:
                        need("answer", error_of(got[0]) and
                             got[0]["id"] == op["id"], "%s answered with %s",
                             op, got[0])
                    need("effect", not new, "%s reached the device as %s "
                         "(writeable=%s)", op, new, model.writeable[f])
                else:
                    need("effect", new == [(f, want)], "%s reached the device "
                         "as %s, expected %s", op, new, want)
                    if f == "slow":
                        pending.append(("put", cl, op, want))
                        answered(cl, 0, op)
                        t.nontrivial()
                        t.label("blocked")
                    else:
                        got = answered(cl, 1, op)
                        if f == "bad":
                            if got:
                                need("answer", error_of(got[0]) and
                                     "no %s" % want in got[0]["message"],
                                     "failing %s answered with %s", op, got[0])
                        else:
                            if f != "opt":
                                model.values[f] = want
                            ret = None
                            if op["get"]:
                                ret = model.values[f]
                                if f == "echo":
                                    ret = want + 1
                            if got:
                                need("answer", not error_of(got[0]),
                                     "%s answered with %s", op, got[0])
                                need("effect", got[0].get("value") == ret,
                                     "%s answered with %s, expected value %s",
                                     op, got[0], ret)
                        if got:
                            need("answer", got[0]["id"] == op["id"],
                                 "%s answered with %s", op, got[0])
            elif k == "post":
                m = op["method"]
                cl = new_client(op)
                ok, old = get(process, [MRI, m])
                cl.send(Post(id=op["id"], path=[MRI, m],
                             parameters=call_params(op)), wait=False)
                yield_all(20)
                new = part.calls[len(before):]
                params = op["params"]
                valid = all(x[2] for x in params.values()) and \
                    "extra" not in params and \
                    all(r in params for r in REQUIRED[m])
                if not valid or not model.writeable[m]:
                    t.nontrivial()
                    t.label("post refused")
                    got = answered(cl, 1, op)
                    if got:
                        need("answer", error_of(got[0]) and
                             got[0]["id"] == op["id"], "%s answered with %s",
                             op, got[0])
                    need("effect", not new, "%s called the device with %s "
                         "(writeable=%s)", op, new, model.writeable[m])
                    need("args", not new, "%s called the device with %s", op,
                         new)
                    ok, now = get(process, [MRI, m])
                    need("log", now == old, "refused %s changed the method "
                         "from %s to %s", op, old, now)
                    continue
                args = [params[p][1] if p in params else d
                        for p, _, d in METHODS[m]]
                need("args", [tuple(plain(list(x))) for x in new] ==
                     [tuple([m] + args)], "%s called the device with %s, "
                     "expected %s", op, new, args)
                need("effect", len(new) == 1, "%s made device calls %s", op,
                     new)
                t.nontrivial()
                t.label("post defaults", len(params) < len(METHODS[m]))
                if m == "wait":
                    pending.append(("post", cl, op, args[0]))
                    answered(cl, 0, op)
                    t.label("blocked")
                    continue
                got = answered(cl, 1, op)
                if not got:
                    continue
                r = got[0]
                need("answer", r["id"] == op["id"], "%s answered with %s", op,
                     r)
                error = {"boom": "boom %s" % (args[0] if args else ""),
                         "fails": "always"}.get(m)
                if error is not None:
                    need("answer", error_of(r) and error in r["message"],
                         "failing %s answered with %s", op, r)
                    check_log(m, params, None, error, None)
                else:
                    if m == "add":
                        want = args[0] + args[1]
                    elif m == "join":
                        want = dict(total=len(args[1]),
                                    text=args[0] + "|".join(args[1]))
                    else:
                        want = None
                    wire = r.get("value")
                    if isinstance(wire, dict):
                        wire = {x: y for x, y in wire.items() if x != "typeid"}
                    need("answer", not error_of(r) and wire == want,
                         "%s answered with %s, expected %s", op, r, want)
                    check_log(m, params, None, None, wire)
            elif k == "sub":
                cl = Client(process)
                cl.send(Subscribe(id=op["id"], path=op["path"],
                                  delta=op["delta"]), wait=False)
                yield_all()
                got = answered(cl, 1, op)
                if got:
                    need("answer", got[0]["id"] == op["id"] and
                         not error_of(got[0]), "%s answered with %s", op,
                         got[0])
                subs.append((cl, op))
            elif k == "unsub":
                if op["known"] and subs:
                    cl, sop = subs.pop(op["i"] % len(subs))
                    n = len(cl.responses)
                    cl.send_to(MRI, Unsubscribe(id=sop["id"]), wait=False)
                    yield_all()
                    got = answered(cl, n + 1, op)
                    if len(got) > n:
                        need("answer", got[-1] == dict(
                            typeid="malcolm:core/Return:1.0", id=sop["id"],
                            value=None), "%s answered with %s", op, got[-1])
                    clients.append((cl, dict(op, final=n + 1)))
                else:
                    cl = new_client(op)
                    cl.send_to(MRI, Unsubscribe(id=op["id"]), wait=False)
                    yield_all()
                    got = answered(cl, 1, op)
                    if got:
                        need("answer", error_of(got[0]) and
                             got[0]["id"] == op["id"], "Unsubscribe with "
                             "nothing subscribed answered with %s", got[0])
                    t.nontrivial()
            check_values()
        while pending:
            entry = pending.pop(0)
            part.pending.pop(0).Signal()
            yield_all(20)
            finish(entry)
        check_values()
        yield_all(20)
        # nobody got an answer more than once
        for cl, op in clients:
            answered(cl, op.get("final", 1), op)
    finally:
        for ev in part.pending:
            ev.Signal()
        process.stop(timeout=20)
