"""P29: what pvAccess clients and proxies see and do is what the block says and does"""
import os
import socket

import cothread
import numpy as np
import p4p.client.raw
import p4p.server
from hypothesis import strategies as st
from p4p import Type, Value
from p4p.client.cothread import Context
from p4p.client.raw import RemoteError
from p4p.nt import NTURI

from malcolm.core import Get, Post, Process, Put
from malcolm.modules.builtin.controllers import BasicController, ProxyController
from malcolm.modules.pva.controllers.pvaclientcomms import PvaClientComms
from malcolm.modules.pva.controllers.pvaservercomms import PvaServerComms

from checks.p01 import MRI as P01_MRI, cases as p01_cases, make_field, mutate
from pbt import Check, require
from pbt.core import Violation
from pbt.device import METHODS, MRI, DevPart, get_paths, post_op, put_op
from pbt.mal import AttrPart, Client, get, plain, yield_all
from pbt.ws import scrub, wait_for

check = Check(
    "P29", rule="a case is a generated block served over pvAccess on loopback, with "
    "monitors, a proxy in another process object, puts and calls of a real client while "
    "the block changes; non-trivial = the block changed under a monitor, or a request "
    "was refused or blocked",
    assumptions=["loopback network works", "monitors may skip values in between",
                 "text without NUL bytes"])

# Servers of this process listen on the loopback on ports of their own, clients talk
# to the server started last
_conf = [None]
_server_init = p4p.server.Server.__init__
_context_init = p4p.client.raw.Context.__init__


def _port():
    """A UDP port that only this process uses: p4p lets several share one, so hold the
    TCP port of the same number as a token"""
    for i in range(1000):
        port = 20000 + (os.getpid() * 37 + i * 11) % 10000
        tcp = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        udp = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        try:
            tcp.bind(("127.0.0.1", port))
            udp.bind(("127.0.0.1", port))
            return tcp, port
        except OSError:
            tcp.close()
        finally:
            udp.close()


_token = []


def _isolated(self, providers, isolate=False, **kws):
    if not _token:
        _token.append(_port())
    _server_init(self, providers, useenv=False, conf={
        "EPICS_PVAS_INTF_ADDR_LIST": "127.0.0.1", "EPICS_PVA_ADDR_LIST": "127.0.0.1",
        "EPICS_PVA_AUTO_ADDR_LIST": "0", "EPICS_PVA_SERVER_PORT": "0",
        "EPICS_PVA_BROADCAST_PORT": str(_token[0][1])})
    _conf[0] = self.conf()


def _directed(self, *args, **kws):
    kws.update(conf=_conf[0], useenv=False)
    _context_init(self, *args, **kws)


# The time p4p gives a put or call unless told otherwise: less, so that it can be waited out
HOLD = 2.0


def _put(self, name, values, request=None, process=None, wait=None, timeout=HOLD,
         **kws):
    return _context_put(self, name, values, request=request, process=process, wait=wait,
                        timeout=timeout, **kws)


def _rpc(self, name, value, request=None, timeout=HOLD, **kws):
    return _context_rpc(self, name, value, request=request, timeout=timeout, **kws)


_context_put = Context.put
_context_rpc = Context.rpc
Context.put = _put
Context.rpc = _rpc
p4p.server.Server.__init__ = _isolated
p4p.client.raw.Context.__init__ = _directed


def dec(v):
    """Plain form of a p4p value"""
    if isinstance(v, Value):
        d = {}
        if v.getID() not in ("structure", ""):
            d["typeid"] = v.getID()
        for name in v.type().keys():
            if v.getID() == "epics:nt/NTTable:1.0" and name == "labels":
                continue
            d[name] = dec(v[name])
        return d
    if isinstance(v, dict):
        return {k: dec(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [dec(x) for x in v]
    if isinstance(v, np.ndarray):
        return [dec(x) for x in v.tolist()]
    if isinstance(v, np.generic):
        return v.item()
    return v


class Lost(Violation):
    """A client is not connected. Now and then p4p does not connect although its search
    was answered, so this counts only when it happens again and again"""


def require_connected(cond, msg, *args):
    try:
        require(cond, msg, *args)
    except Violation as e:
        raise Lost(*e.args)


def insist(func):
    def run(case, t):
        for i in range(3):
            try:
                return func(case, t)
            except Lost:
                if i == 2:
                    raise
                t.label("not connected, tried again")

    return run


class Pva:
    """A served block, its proxy, and a client that knows nothing of Malcolm"""

    made = 0

    def __init__(self, part, mri):
        # a name nobody else on this machine serves
        Pva.made += 1
        self.mri = mri = "%s-%d-%d" % (mri, os.getpid(), Pva.made)
        self.server = Process("server")
        self.block = BasicController(mri)
        self.block.add_part(part)
        self.server.add_controller(self.block)
        self.comms = PvaServerComms("pva")
        self.server.add_controller(self.comms)
        self.server.start()
        self.contexts = {}
        self.client = Process("client")
        self.client.add_controller(PvaClientComms("remote"))
        self.proxy = ProxyController(mri, "remote")
        self.client.add_controller(self.proxy)
        self.monitors = []
        self.up = True

    def start(self):
        self.client.start()

    def ctx(self, name):
        """A context of its own for each channel: the first search is the fast one"""
        if name not in self.contexts:
            self.contexts[name] = Context("pva", unwrap=False)
        return self.contexts[name]

    def tree(self, process):
        return get(process, [self.mri])[1]

    def same(self):
        a, b = self.tree(self.server), self.tree(self.client)
        return a == b and list(a) == list(b)

    def mirrored(self, when, *args):
        def ok():
            return self.same() and all(m.same() for m in self.monitors)

        if not wait_for(ok, 8):
            for m in self.monitors:
                require_connected(m.state or m.want() is None, "%s: the monitor of %s "
                                  "is not connected", when % args, m.name)
                require(m.same(), "%s: the monitor of %s has %s, Get gives %s",
                        when % args, m.name, m.state, m.want())
            a, b = self.tree(self.server), self.tree(self.client)
            require_connected(b["health"]["value"] != "pvAccess disconnected", "%s: the "
                              "proxy is not connected", when % args)
            diff = [(k, a.get(k), b.get(k)) for k in list(a) + list(b)
                    if a.get(k) != b.get(k)]
            require(not diff and list(a) == list(b), "%s: the proxy differs from the "
                    "remote block (field, remote, proxy): %s; fields %s and %s",
                    when % args, diff[:3], list(a), list(b))

    def gone(self, t):
        """The server goes away: the proxy says so, in health"""
        t.label("server gone")
        self.server.stop(timeout=20)
        self.up = False

        def ok():
            health = self.tree(self.client)["health"]
            return health["alarm"]["severity"] >= 3 and "disconnected" in health[
                "alarm"]["message"] + health["value"]

        require(wait_for(ok, 8), "the server stopped, the proxy's health is %s",
                self.tree(self.client)["health"])
        require(wait_for(lambda: not any(m.state for m in self.monitors), 8),
                "the server stopped, monitors still have %s",
                [m.state for m in self.monitors])

    def stop(self):
        for m in self.monitors:
            m.sub.close()
        for c in self.contexts.values():
            c.close()
        self.client.stop(timeout=20)
        if self.up:
            self.server.stop(timeout=20)


class Monitor:
    def __init__(self, pva, path):
        self.pva = pva
        self.path = [pva.mri] + path[:1]
        self.name = ".".join(self.path)
        self.state = None
        self.updates = 0
        self.sub = pva.ctx(self.name).monitor(
            self.name, self.update, notify_disconnect=True)
        pva.monitors.append(self)

    def update(self, value):
        if isinstance(value, Exception):
            self.state = None
        else:
            self.state = dec(value)
            self.updates += 1

    def want(self):
        ok, value = get(self.pva.server, self.path)
        return value if ok else None

    def same(self):
        want = self.want()
        return self.state == want and (want is None or list(self.state) == list(want))


def change(c, specs, m, touched):
    """As in P01, except that choices only go away when they are not chosen, and new
    ones are chosen at once"""
    f = m["field"]
    choices = specs[f].get("choices")
    if choices and f in c._block.call_types and m["what"] in ("choices", "meta"):
        a = c._block[f]
        many = specs[f]["kind"] == "choicearray"
        if m["what"] == "meta":
            a.set_value([] if many else choices[0])
        else:
            m = dict(m, v=list(a.meta.choices) + [
                x for x in m["v"] if x not in a.meta.choices])
            mutate(c, specs, m, touched)
            a.set_value([m["v"][-1]] if many else m["v"][-1])
            return
    mutate(c, specs, m, touched)


@check.sub("mirror", p01_cases, quick=600, thorough=15000, shards=4, budget=25)
@insist
def run_mirror(case, t):
    specs = dict((f, s) for f, s in case["fields"])
    attrs = {f: make_field(s, v) for (f, s), v in
             zip(case["fields"], case["initial"]) if s["kind"] != "method"}
    p = Pva(AttrPart("part", attrs), P01_MRI)
    try:
        for f, s in case["fields"]:
            if s["kind"] == "method":
                p.block.add_block_field(f, make_field(s), None, False)
        p.start()
        require_connected(p.same(), "the proxy block is not in sync once it has "
                          "started: %s, %s", p.tree(p.server), p.tree(p.client))
        for i, op in enumerate(case["ops"]):
            if op["op"] == "sub":
                Monitor(p, op["path"])
            elif op["op"] == "unsub":
                if p.monitors:
                    p.monitors.pop(op["i"] % len(p.monitors)).sub.close()
            else:
                touched = []
                with p.block.changes_squashed:
                    for m in op["muts"]:
                        change(p.block, specs, m, touched)
                t.nontrivial(bool(touched))
                for m in op["muts"]:
                    t.label(m["what"])
            p.mirrored("after op %s", op)
        if len(case["ops"]) % 3 == 0:
            p.gone(t)
    finally:
        p.stop()


def wire(kind, v):
    """What a client that knows the types would send"""
    return {"int": ("i", v), "str": ("s", v), "strs": ("as", v), "bool": ("?", v),
            "opt": ("s", v)}[kind]


@st.composite
def request_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["put"] * 4 + ["post"] * 4 + [
            "get", "release", "release", "toggle", "odd"]))
        if k == "put":
            op = draw(put_op())
            op["via"] = draw(st.sampled_from(["proxy", "block", "field"]))
        elif k == "post":
            op = draw(post_op())
            op["via"] = draw(st.sampled_from(["proxy", "block", "field", "request"]))
        elif k == "get":
            op = dict(op="get", path=draw(get_paths))
        elif k == "release":
            op = dict(op="release", i=draw(st.integers(0, 3)),
                      hold=draw(st.sampled_from([False] * 7 + [True])))
        elif k == "odd":
            op = dict(op="odd", what=draw(st.sampled_from([
                "two values", "meta", "alarm", "no such method", "not a method",
                "other block", "put to method"])))
        else:
            op = dict(op="toggle", w=draw(st.booleans()), field=draw(
                st.sampled_from(["num", "text", "add", "join", "opt"])))
        ops.append(op)
    if draw(st.sampled_from([False] * 30 + [True])):
        # a put that takes its time
        ops.append(dict(op="put", field="slow", value=[3, 3, True], get=draw(
            st.booleans()), tail=["value"], via="proxy"))
        ops.append(dict(op="release", i=-1, hold=True))
    return dict(ops=ops)


class Raw:
    """An operation of a client that knows nothing of Malcolm"""

    def __init__(self, func, *args, **kwargs):
        self.done = self.error = self.value = None
        self.count = 0
        self.args = func, args, kwargs
        cothread.Spawn(self.run)

    def run(self):
        func, args, kwargs = self.args
        try:
            self.value = dec(func(*args, **kwargs))
        except Exception as e:
            self.error = e
        self.done = True


def structure(d, typeid="structure"):
    return Value(Type([(k, t) for k, (t, _) in d.items()], typeid),
                 {k: v for k, (_, v) in d.items()})


def raw_put(p, op):
    f, v = op["field"], op["value"][1]
    if op["via"] == "field":
        return Raw(p.ctx(f).put, "%s.%s" % (p.mri, f), {"value": v}, request="value",
                   timeout=30)
    return Raw(p.ctx(p.mri).put, p.mri, {"%s.value" % f: v}, request="%s.value" % f,
               timeout=30)


def raw_post(p, op):
    m = op["method"]
    kinds = {n: k for n, k, _ in METHODS[m]}
    args = {n: wire(kinds.get(n, "int"), v[1]) for n, v in op["params"].items()}
    if op["via"] == "block":
        uri = NTURI([(n, t) for n, (t, _) in args.items()]).wrap(
            path="%s.%s" % (p.mri, m), kws={n: v for n, (_, v) in args.items()},
            scheme="pva")
        return Raw(p.ctx(p.mri).rpc, p.mri, uri, timeout=30)
    if op["via"] == "request":
        return Raw(p.ctx(p.mri).rpc, p.mri, structure(args), timeout=30,
                   request=structure(dict(method=("s", m))))
    return Raw(p.ctx(m).rpc, "%s.%s" % (p.mri, m), structure(args), timeout=30)


def raw_odd(p, what):
    if what == "two values":
        return Raw(p.ctx(p.mri).put, p.mri, {"num.value": 5, "echo.value": 6},
                   request="field(num.value,echo.value)", timeout=30)
    if what == "meta":
        return Raw(p.ctx(p.mri).put, p.mri, {"num.meta.label": "x"}, timeout=30,
                   request="num.meta.label")
    if what == "alarm":
        return Raw(p.ctx("num").put, p.mri + ".num", {"alarm.message": "x"}, timeout=30,
                   request="alarm.message")
    if what == "put to method":
        return Raw(p.ctx(p.mri).put, p.mri, {"add.meta.label": "x"}, timeout=30,
                   request="add.meta.label")
    if what == "no such method":
        return Raw(p.ctx(p.mri).rpc, p.mri, structure({}), timeout=30,
                   request=structure(dict(method=("s", "nothere"))))
    if what == "not a method":
        return Raw(p.ctx("num").rpc, p.mri + ".num", structure(dict(value=("i", 3))),
                   timeout=30)
    return Raw(p.ctx(p.mri).rpc, p.mri, NTURI([]).wrap(
        path="other.plain", kws={}, scheme="pva"), timeout=30)


@check.sub("requests", request_cases, quick=600, thorough=12000, shards=4, budget=25)
@insist
def run_requests(case, t):
    part = DevPart("part")
    p = Pva(part, MRI)
    twin = Process("twin")
    tc = BasicController(p.mri)
    tpart = DevPart("part")
    tc.add_part(tpart)
    twin.add_controller(tc)
    waiting = []  # (client or raw, twin client, op)

    def outcome(cl, tcl, what, ran=True):
        want = [scrub(w) for _, w in tcl.responses]
        require(len(want) == 1, "twin %s", want)
        want = want[0]
        error = want["typeid"] == "malcolm:core/Error:1.0"
        message = want["message"].split(": ", 1)[-1] if error else None
        if error:
            t.label("refused")
            t.nontrivial()
        if isinstance(cl, Raw):
            require_connected(wait_for(lambda: cl.done, 10), "%s got no answer, "
                              "expected %s", what, want)
            if error:
                require(isinstance(cl.error, RemoteError) and (
                    not ran or message in str(cl.error)), "%s gave %s %s, the block "
                    "answers %s", what, cl.error, cl.value, want)
            else:
                value = want["value"]
                if what["op"] == "put":
                    value = cl.value
                elif value is None:
                    value = {}
                elif not isinstance(value, dict):
                    value = {"return": value}
                require(cl.error is None and cl.value == value, "%s gave %s %s, the "
                        "block answers %s", what, cl.error, cl.value, want)
            return
        require(wait_for(lambda: cl.responses, 10), "%s got no answer, expected %s",
                what, want)
        yield_all(5)
        got = [scrub(w) for _, w in cl.responses]
        require(len(got) == 1 and got[0]["typeid"] == want["typeid"] and
                got[0]["id"] == want["id"], "%s through the proxy gave %s, the remote "
                "block answers %s", what, got, want)
        if error:
            require(not ran or message in got[0]["message"], "%s through the proxy "
                    "gave %s, the remote block answers %s", what, got, want)
        elif not (what["op"] == "put" and what["field"] == "echo"):
            # (what the setter returns stays on the server)
            value = want["value"]
            if what["op"] == "post" and value is None:
                value = {}
            require(got[0]["value"] == value, "%s through the proxy gave %s, "
                    "the remote block answers %s", what, got, want)

    try:
        p.start()
        twin.start()
        Monitor(p, [])
        Monitor(p, ["num"])
        for i, op in enumerate(case["ops"]):
            k = op["op"]
            if k == "toggle":
                for c in (p.block, tc):
                    c._block[op["field"]].meta.set_writeable(op["w"])
            elif k == "release":
                if waiting:
                    if op["hold"]:
                        cothread.Sleep(HOLD * 1.2)
                        t.label("held for long")
                    j = op["i"] % len(waiting)
                    part.pending.pop(j).Signal()
                    tpart.pending.pop(j).Signal()
                    yield_all(20)
                    cl, tcl, wop = waiting.pop(j)
                    outcome(cl, tcl, wop)
                    t.label("released")
            elif k == "odd":
                before = len(part.calls)
                cl = raw_odd(p, op["what"])
                require_connected(wait_for(lambda: cl.done, 10), "%s got no answer", op)
                require(isinstance(cl.error, RemoteError), "%s gave %s %s, it can't be "
                        "done", op, cl.error, cl.value)
                require(len(part.calls) == before, "%s called the device: %s", op,
                        part.calls[before:])
                t.nontrivial()
                t.label(op["what"])
            else:
                cl, tcl = Client(p.client), Client(twin)
                before = len(part.calls)
                via = op.get("via", "proxy")
                if k == "put" and not op["value"][2] or k == "post" and not all(
                        v[2] for v in op["params"].values()):
                    # can't be sent by someone who knows the types
                    via = "proxy"

                def make(sent=0):
                    if k == "put":
                        return Put(id=i + 1, path=[p.mri, op["field"]] + op["tail"],
                                   value=op["value"][sent], get=op["get"])
                    if k == "post":
                        return Post(id=i + 1, path=[p.mri, op["method"]], parameters={
                            n: v[sent] for n, v in op["params"].items()})
                    return Get(id=i + 1, path=[p.mri] + op["path"][1:])

                if via == "proxy":
                    cl.send(make(), wait=False)
                    tcl.send(make(), wait=False)
                else:
                    cl = (raw_put if k == "put" else raw_post)(p, op)
                    tcl.send(make(1), wait=False)
                yield_all(20)
                if k == "get":
                    outcome(cl, tcl, op, False)
                    continue
                t.nontrivial(k == "post")
                t.label(k + " via " + via)
                if not tcl.responses:
                    require_connected(
                        wait_for(lambda: len(part.pending) == len(tpart.pending), 10),
                        "%s does not reach the device", op)
                    waiting.append((cl, tcl, op))
                    t.label("blocked")
                    t.nontrivial()
                else:
                    outcome(cl, tcl, op, len(tpart.calls) > before)
                require(plain(part.calls) == plain(tpart.calls), "%s called the device "
                        "with %s, expected %s", op, part.calls[before:],
                        tpart.calls[before:])
            for cl, _, wop in waiting:
                require(not (cl.done if isinstance(cl, Raw) else cl.responses), "%s was "
                        "answered before it was finished: %s", wop, vars(cl))
            p.mirrored("after %s", op)
    finally:
        for x in (part, tpart):
            for ev in x.pending:
                ev.Signal()
        yield_all(20)
        p.stop()
        twin.stop(timeout=20)
