"""P18: what a websocket or REST client sees is what the block says"""
import fcntl
import json
import os
import shutil
import socket
import struct
import tempfile
import threading
import urllib.parse
from unittest import mock

from annotypes import json_decode
from hypothesis import strategies as st

from malcolm.core import Controller, Get, Post, Process, Put, Subscribe, Unsubscribe
from malcolm.modules.web.controllers import HTTPServerComms
from malcolm.modules.web.parts import RestfulServerPart, WebsocketServerPart
from malcolm.modules.web.parts import websocketserverpart as wsp
from malcolm.modules.web.util import IOLoopHelper

from pbt import Check, require
from pbt.device import (
    MRI, DevPart, get_paths, post_op, put_op, weird_post, weird_put)
from pbt.mal import Client, get, plain, yield_all
from pbt.ws import WSClient, free_port, http, scrub, wait_for

check = Check(
    "P18", rule="a case is a server with a device block, some network interfaces, "
    "clients that connect from different addresses and the messages they send (good, "
    "malformed, in bursts, while others disconnect); non-trivial = a subscription, a "
    "refused message, a forbidden address or a burst is involved",
    assumptions=["loopback network works", "cooperative scheduling (cothread)",
                 "ids are not reused on a connection, as the protocol demands"])

ERR = "malcolm:core/Error:1.0"
ADDRS = ["127.0.0.1", "127.0.0.2", "127.1.0.9", "127.1.2.3", "127.200.1.1",
         "127.0.1.130"]
IFADDRS = ["127.0.0.1", "127.1.0.1", "127.0.1.129", "10.0.0.1", "127.200.1.2",
           "192.168.0.7"]
BITS = [8, 12, 16, 24, 25, 30, 32]


def decoded(v):
    # as the server sees it
    return json_decode(json.dumps({"v": v}))["v"]


def num(a):
    return struct.unpack("!I", socket.inet_aton(a))[0]


def inside(addr, ifs):
    for i in ifs:
        if i["up"] and not i["fail"]:
            m = (0xFFFFFFFF << (32 - i["bits"])) & 0xFFFFFFFF
            if num(addr) & m == num(i["addr"]) & m:
                return True
    return False


BADTEXT = ["not json", "[1, 2]", "\"str\"", "{}", "", "{\"a\": 3}", "null", "{\"id\":",
           "17"]


@st.composite
def message(draw):
    k = draw(st.sampled_from(["get", "put", "put", "post", "sub", "sub", "unsub",
                              "bad", "badtext", "weird", "own", "unsub"]))
    if k == "put":
        return draw(put_op())
    if k == "post":
        return draw(post_op())
    if k == "get":
        return dict(op="get", path=draw(get_paths))
    if k == "weird":
        if draw(st.booleans()):
            return dict(op="weirdput", path=draw(weird_put))
        return dict(op="weirdpost", path=draw(weird_post))
    if k == "sub":
        return dict(op="sub", path=[MRI] + draw(st.sampled_from(
            [["num"], ["num", "value"], ["text", "value"], [], ["slow", "value"],
             ["add", "took"], ["opt"]])), delta=draw(st.booleans()))
    if k == "unsub":
        return dict(op="unsub", i=draw(st.integers(0, 3)),
                    known=draw(st.integers(0, 3)) > 0)
    if k == "own":
        return dict(op="own", path=draw(st.sampled_from(
            [[".", "blocks", "value"], [".", "blocks", "value", "mri"], [".", "nope"],
             [".", "meta", "fields"]])))
    if k == "badtext":
        return dict(op="badtext", text=draw(st.sampled_from(BADTEXT)))
    return dict(op="bad", kind=draw(st.sampled_from(
        ["notype", "badtype", "nopath", "emptypath", "extra", "nomri", "subnomri",
         "dup", "response"])))


def independent(messages):
    """What is sent in one burst is handled concurrently, so keep what has only one
    possible outcome: at most one message that changes something, and if so nothing
    that looks at or is told of changes"""
    def writes(m):
        return m["op"] in ("put", "post") or m["op"] == "unsub"
    first = next((m for m in messages if writes(m)), None)
    if first is None or len(messages) == 1:
        return messages
    return [m for m in messages if m is first or m["op"] in (
        "bad", "badtext", "weirdput", "weirdpost")]


@st.composite
def server_cases(draw):
    ifs = None
    if draw(st.integers(0, 2)):
        ifs = [dict(addr=draw(st.sampled_from(IFADDRS)),
                    bits=draw(st.sampled_from(BITS)), up=draw(st.integers(0, 4)) > 0,
                    fail=draw(st.integers(0, 6)) == 0)
               for _ in range(draw(st.integers(1, 3)))]
        if not any(i["up"] and not i["fail"] for i in ifs):
            ifs[0].update(up=True, fail=False)
    n = draw(st.integers(1, 3))
    sources = [draw(st.sampled_from(ADDRS)) for _ in range(n)]
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.sampled_from(["send"] * 7 + ["burst"] * 3 + [
            "storm", "storm", "release", "toggle", "drop", "drop"]))
        if k in ("send", "burst"):
            m = 1 if k == "send" else draw(st.integers(2, 14))
            op = dict(op="send", client=draw(st.integers(0, n - 1)),
                      messages=independent([draw(message()) for _ in range(m)]))
        elif k == "storm":
            op = dict(op="storm", n=draw(st.integers(1, 35)),
                      yields=draw(st.integers(0, 1)))
        elif k == "release":
            op = dict(op="release", i=draw(st.integers(0, 3)))
        elif k == "toggle":
            op = dict(op="toggle", field=draw(st.sampled_from(
                ["num", "text", "add", "join"])), w=draw(st.booleans()))
        else:
            op = dict(op="drop", client=draw(st.integers(0, n - 1)))
        ops.append(op)
    return dict(ifs=ifs, sources=sources, ops=ops)


def device(name):
    process = Process(name)
    c = Controller(MRI)
    part = DevPart("part")
    c.add_part(part)
    process.add_controller(c)
    return process, c, part


def stop(process):
    process.stop(timeout=20)
    # wait until the sockets have been closed
    done = threading.Event()
    IOLoopHelper.call(done.set)
    wait_for(done.is_set)


class Net:
    """Stand-in for the network interfaces the kernel reports"""

    def __init__(self, ifs):
        self.ifs = {"if%d" % i: d for i, d in enumerate(ifs)}
        self.dir = tempfile.mkdtemp()
        for name, d in self.ifs.items():
            os.mkdir(os.path.join(self.dir, name))
            with open(os.path.join(self.dir, name, "operstate"), "w") as f:
                f.write("up\n" if d["up"] else "down\n")

    def ioctl(self, fd, sig, arg=0, *rest):
        name = bytes(arg).split(b"\0")[0].decode()
        d = self.ifs[name]
        if d["fail"]:
            raise OSError(99, "Cannot assign requested address")
        if sig == 0x8915:
            v = num(d["addr"])
        else:
            assert sig == 0x891B, sig
            v = (0xFFFFFFFF << (32 - d["bits"])) & 0xFFFFFFFF
        return bytes(arg[:20]) + struct.pack("!I", v) + bytes(arg[24:])

    def close(self):
        shutil.rmtree(self.dir)


def wire_message(m, mid, subs):
    """(json dict or text, twin request or None)"""
    k = m["op"]
    if k == "get" or k == "own":
        return dict(typeid="malcolm:core/Get:1.0", id=mid, path=m["path"]), \
            Get(id=mid, path=m["path"])
    if k == "put":
        path = [MRI, m["field"]] + m["tail"]
        return dict(typeid="malcolm:core/Put:1.0", id=mid, path=path,
                    value=m["value"][0], get=m["get"]), \
            Put(id=mid, path=path, value=decoded(m["value"][0]), get=m["get"])
    if k == "post":
        path = [MRI, m["method"]]
        p = {n: v[0] for n, v in m["params"].items()}
        return dict(typeid="malcolm:core/Post:1.0", id=mid, path=path,
                    parameters=p), Post(id=mid, path=path, parameters=decoded(p))
    if k == "weirdput":
        return dict(typeid="malcolm:core/Put:1.0", id=mid, path=m["path"], value=3), \
            Put(id=mid, path=m["path"], value=3)
    if k == "weirdpost":
        return dict(typeid="malcolm:core/Post:1.0", id=mid, path=m["path"]), \
            Post(id=mid, path=m["path"])
    if k == "sub":
        d = dict(typeid="malcolm:core/Subscribe:1.0", id=mid, path=m["path"])
        if m["delta"]:
            d["delta"] = True
        return d, Subscribe(id=mid, path=m["path"], delta=m["delta"])
    assert k == "bad"
    d = dict(typeid="malcolm:core/Get:1.0", id=mid, path=[MRI, "num"])
    kind = m["kind"]
    if kind == "notype":
        del d["typeid"]
    elif kind == "badtype":
        d["typeid"] = "malcolm:core/Nope:1.0"
    elif kind == "nopath":
        del d["path"]
    elif kind == "emptypath":
        d["path"] = []
    elif kind == "extra":
        d["extra"] = 3
    elif kind == "nomri":
        d["path"] = ["nosuchblock", "num"]
    elif kind == "subnomri":
        d["typeid"] = "malcolm:core/Subscribe:1.0"
        d["path"] = ["nosuchblock", "num"]
    elif kind == "response":
        d = dict(typeid="malcolm:core/Return:1.0", id=mid, value=3)
    elif kind == "dup":
        if not subs:
            d["path"] = []
        else:
            d = dict(typeid="malcolm:core/Subscribe:1.0", id=subs[0],
                     path=[MRI, "text"])
    return d, None


class Conn:
    def __init__(self, process, port, source):
        self.ws = WSClient(port, source)
        self.twin = Client(process)
        self.expect = []  # of errors the twin does not make: id
        self.subs = []
        self.next_id = 1

    def want(self):
        """{id: [wire response or ERR]} expected so far"""
        d = {}
        for _, w in self.twin.responses:
            d.setdefault(w["id"], []).append(scrub(w))
        return d


@check.sub("ws", server_cases, quick=700, thorough=20000, shards=4, budget=30)
def run_ws(case, t):
    port = free_port()
    process, c, part = device("proc")
    twin, tc, tpart = device("twin")
    server = HTTPServerComms("server", port)
    server.add_part(WebsocketServerPart(
        "ws", subnet_validation=case["ifs"] is not None))
    process.add_controller(server)
    net = patches = None
    conns = []
    try:
        if case["ifs"] is not None:
            net = Net(case["ifs"])
            patches = [mock.patch.object(fcntl, "ioctl", net.ioctl),
                       mock.patch.object(wsp, "SYSNET", net.dir)]
            for p in patches:
                p.start()
        try:
            process.start()
        finally:
            if patches:
                for p in patches:
                    p.stop()
        twin.start()
        for s in case["sources"]:
            conns.append(Conn(twin, port, s))
        allowed = [case["ifs"] is None or inside(s, case["ifs"])
                   for s in case["sources"]]
        t.label("forbidden", not all(allowed))
        live = set(range(len(conns)))

        def settle(what):
            yield_all(20)
            for i in sorted(live):
                cn = conns[i]
                n = len(cn.twin.responses) + len(cn.expect)
                wait_for(lambda: len(cn.ws.got) >= n, 10)
            wait_for(lambda: plain(part.calls) == plain(tpart.calls), 10)
            compare(what)

        def compare(what):
            for i in sorted(live):
                cn = conns[i]
                want = cn.want()
                got = {}
                errs = []
                for w in cn.ws.got:
                    got.setdefault(w.get("id"), []).append(scrub(w))
                for mid in cn.expect:
                    mine = got.get(mid, [])
                    hit = next((x for x in mine if x["typeid"] == ERR), None)
                    require(hit is not None, "after %s: message with id %s should "
                            "have been refused, client got %s", what, mid, mine)
                    if hit in want.get(mid, []) and mine.count(hit) <= want[
                            mid].count(hit):
                        require(False, "after %s: message with id %s should have "
                                "been refused, client got %s", what, mid, mine)
                    mine.remove(hit)
                    if not mine:
                        del got[mid]
                require(got == want, "after %s: client %s got %s, the block "
                        "answers %s", what, i, got, want)
            require(plain(part.calls) == plain(tpart.calls), "after %s: device was "
                    "called %s, expected %s", what, part.calls, tpart.calls)

        for op in case["ops"]:
            k = op["op"]
            if k == "send":
                i = op["client"]
                if i not in live:
                    continue
                cn = conns[i]
                t.label("burst", len(op["messages"]) > 1)
                t.nontrivial(len(op["messages"]) > 1)
                for m in op["messages"]:
                    mid = cn.next_id
                    cn.next_id += 1
                    if m["op"] == "badtext":
                        cn.ws.send(m["text"])
                        cn.expect.append(-1)
                        t.label("malformed")
                        t.nontrivial()
                        continue
                    if m["op"] == "unsub":
                        known = bool(m["known"] and cn.subs)
                        if known:
                            mid = cn.subs.pop(m["i"] % len(cn.subs))
                        cn.ws.send(json.dumps(dict(
                            typeid="malcolm:core/Unsubscribe:1.0", id=mid)))
                        if known:
                            cn.twin.send_to(MRI, Unsubscribe(id=mid), wait=False)
                            t.label("unsubscribed")
                        else:
                            cn.expect.append(mid)
                        t.nontrivial()
                        continue
                    msg, req = wire_message(m, mid, cn.subs)
                    cn.ws.send(json.dumps(msg))
                    if req is None or (
                            isinstance(req, (Put, Post)) and not allowed[i]):
                        cn.expect.append(msg["id"])
                        t.nontrivial()
                        t.label("refused", req is not None)
                    elif req.path[0] == ".":
                        req.set_callback(cn.twin.callback)
                        server.handle_request(req).wait(20)
                    else:
                        cn.twin.send(req, wait=False)
                        # the twin handles each message before the next one
                        yield_all(1)
                    if m["op"] == "sub":
                        cn.subs.append(mid)
                        t.nontrivial()
                        t.label("subscribed")
            elif k == "storm":
                for x in range(op["n"]):
                    for p in (part, tpart):
                        p.attrs["num"].set_value(1000 + x)
                    if op["yields"]:
                        yield_all(1)
                t.label("storm", any(cn.subs for cn in conns))
            elif k == "toggle":
                for ctl in (c, tc):
                    ctl._block[op["field"]].meta.set_writeable(op["w"])
            elif k == "release":
                if part.pending and tpart.pending:
                    i = op["i"] % len(part.pending)
                    for p in (part, tpart):
                        p.pending.pop(i).Signal()
                    t.label("released")
            elif k == "drop":
                i = op["client"]
                if i in live and len(live) > 1:
                    live.discard(i)
                    cn = conns[i]
                    cn.ws.close()
                    for mid in cn.subs:
                        cn.twin.send_to(MRI, Unsubscribe(id=mid), wait=False)
                    t.label("dropped with subscriptions", bool(cn.subs))
                    t.nontrivial(bool(cn.subs))
            settle(op)
        for p in (part, tpart):
            while p.pending:
                p.pending.pop(0).Signal()
        settle("the release")
        for i in sorted(live):
            cn = conns[i]
            mid = cn.next_id
            cn.ws.send(json.dumps(dict(typeid="malcolm:core/Get:1.0", id=mid,
                                       path=[MRI, "num", "value"])))
            cn.twin.send(Get(id=mid, path=[MRI, "num", "value"]))
        settle("the end")
        yield_all(5)
        compare("the end")
    finally:
        for p in (part, tpart):
            for ev in p.pending:
                ev.Signal()
        for cn in conns:
            cn.ws.close()
        stop(process)
        twin.stop(timeout=20)
        if net:
            net.close()


REST_TEXT = st.text(alphabet="abc é%/?\n\r:☃\"", max_size=6)


@st.composite
def rest_cases(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(["get", "get", "post", "post", "boom", "badbody",
                                  "nomri", "set"]))
        if k == "get":
            ops.append(dict(op="get", path=draw(get_paths)))
        elif k == "post":
            op = draw(post_op())
            if op["method"] == "wait":
                op["method"] = "add"
            ops.append(op)
        elif k == "boom":
            ops.append(dict(op="post", method=draw(st.sampled_from(["boom", "join"])),
                            params={"text": [draw(REST_TEXT), 0, 0]}))
        elif k == "badbody":
            ops.append(dict(op="badbody", body=draw(st.sampled_from(
                ["", "not json", "[1]", "3", "{\"a\""]))))
        elif k == "nomri":
            ops.append(dict(op="nomri", path=draw(st.sampled_from(
                [["nope"], ["nope", "x"], [""], ["", "dev"]])),
                post=draw(st.booleans())))
        else:
            ops.append(dict(op="set", value=draw(REST_TEXT)))
    return dict(ops=ops)


@check.sub("rest", rest_cases, quick=500, thorough=10000, shards=2, budget=25)
def run_rest(case, t):
    port = free_port()
    process, c, part = device("proc")
    twin, tc, tpart = device("twin")
    server = HTTPServerComms("server", port)
    server.add_part(RestfulServerPart("rest"))
    process.add_controller(server)
    try:
        process.start()
        twin.start()
        for op in case["ops"]:
            k = op["op"]
            if k == "set":
                for p in (part, tpart):
                    p.attrs["text"].set_value(op["value"])
                t.nontrivial()
                continue
            if k == "badbody":
                code, _, _ = http(port, "POST", "/rest/dev/plain", op["body"])
                require(code >= 400, "POST with body %r answered %s", op["body"], code)
                t.nontrivial()
                t.label("refused")
            elif k == "nomri":
                code, _, _ = http(
                    port, "POST" if op["post"] else "GET", "/rest/" +
                    "/".join(op["path"]), "{}" if op["post"] else None)
                require(code >= 400, "%s answered %s", op, code)
                t.nontrivial()
            else:
                if k == "get":
                    path = op["path"]
                    req = Get(id=1, path=path)
                    args = ("GET", None)
                else:
                    path = [MRI, op["method"]]
                    params = {n: v[0] for n, v in op["params"].items()}
                    req = Post(id=1, path=path, parameters=decoded(params))
                    args = ("POST", json.dumps(params))
                    t.nontrivial()
                cl = Client(twin)
                cl.send(req)
                yield_all(20)
                require(len(cl.responses) == 1, "%s answered %s", op, cl.responses)
                want = scrub(cl.responses[0][1])
                url = "/rest/" + "/".join(urllib.parse.quote(x, safe="") for x in path)
                code, reason, body = http(port, args[0], url, args[1])
                if want["typeid"] == ERR:
                    require(code >= 400, "%s answered %s %s, the block answers %s",
                            op, code, body, want)
                    msg = " ".join(want["message"].split())
                    printable = msg.isascii() and '"' not in msg
                    if printable and msg == want["message"]:
                        require(msg in reason, "%s answered %s %r, the block answers "
                                "%s", op, code, reason, want)
                    t.label("error message kept", printable)
                    t.label("error with odd text", not printable)
                else:
                    require(code == 200, "%s answered %s %s, the block answers %s", op,
                            code, reason, want)
                    require(scrub(json.loads(body)) == want["value"], "%s answered "
                            "%s, the block answers %s", op, body, want)
            require(plain(part.calls) == plain(tpart.calls), "after %s: device was "
                    "called %s, expected %s", op, part.calls, tpart.calls)
    finally:
        stop(process)
        twin.stop(timeout=20)
