"""P19: a proxy block mirrors the remote block and passes requests on"""
import socket
import threading

import cothread
from hypothesis import strategies as st

from malcolm.core import Get, Post, Process, Put, Subscribe
from malcolm.modules.builtin.controllers import BasicController, ProxyController
from malcolm.modules.web.controllers import HTTPServerComms, WebsocketClientComms
from malcolm.modules.web.parts import WebsocketServerPart
from malcolm.modules.web.util import IOLoopHelper

from checks.p01 import MRI as P01_MRI, Sub, cases as p01_cases, make_field, mutate
from pbt import Check, require
from pbt.device import MRI, DevPart, get_paths, post_op, put_op
from pbt.mal import AttrPart, Client, get, plain, yield_all
from pbt.ws import free_port, scrub, wait_for

check = Check(
    "P19", rule="a case is a block served by one process and mirrored by another over "
    "a real websocket, with a history of changes, requests through the proxy and lost "
    "connections; non-trivial = the remote block changed, or a request was refused, "
    "blocked or interrupted",
    assumptions=["loopback network works", "cooperative scheduling (cothread)",
                 "a proxy that lost its connection is not expected to resynchronise"])


class Tunnel:
    """Forwards connections to the server, and can break them"""

    def __init__(self, target):
        self.target = target
        self.pairs = []
        self.open()

    def open(self):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
        self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.sock.bind(("127.0.0.1", getattr(self, "port", 0)))
        self.port = self.sock.getsockname()[1]
        self.sock.listen(5)
        self.up = True
        threading.Thread(target=self.accept, args=(self.sock,), daemon=True).start()

    def accept(self, sock):
        while True:
            try:
                a, _ = sock.accept()
            except OSError:
                return
            try:
                b = socket.create_connection(("127.0.0.1", self.target))
            except OSError:
                a.close()
                continue
            self.pairs.append((a, b))
            for x, y in ((a, b), (b, a)):
                x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                threading.Thread(target=self.pump, args=(x, y), daemon=True).start()

    @staticmethod
    def pump(x, y):
        try:
            while True:
                d = x.recv(65536)
                if not d:
                    break
                y.sendall(d)
        except OSError:
            pass
        for s in (x, y):
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def drop(self):
        pairs, self.pairs = self.pairs, []
        for p in pairs:
            for s in p:
                try:
                    s.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass

    def close(self):
        if self.up:
            self.up = False
            try:
                self.sock.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            self.sock.close()
        self.drop()


class Pair:
    """A served block and its proxy"""

    def __init__(self, part, mri, tunnel=False, timeout=10.0):
        self.mri = mri
        port = free_port()
        self.server = Process("server")
        self.block = BasicController(mri)
        self.block.add_part(part)
        self.server.add_controller(self.block)
        self.comms = HTTPServerComms("web", port)
        self.comms.add_part(WebsocketServerPart("ws", subnet_validation=False))
        self.server.add_controller(self.comms)
        self.server.start()
        self.barrier()
        self.tunnel = None
        if tunnel:
            self.tunnel = Tunnel(port)
            port = self.tunnel.port
        self.client = Process("client")
        self.remote = WebsocketClientComms(
            "remote", "127.0.0.1", port, connect_timeout=timeout)
        self.client.add_controller(self.remote)
        self.proxy = ProxyController(mri, "remote")
        self.client.add_controller(self.proxy)

    def start(self):
        self.client.start()

    def barrier(self):
        done = threading.Event()
        IOLoopHelper.call(done.set)
        wait_for(done.is_set)

    def trees(self):
        return (get(self.server, [self.mri])[1], get(self.client, [self.mri])[1])

    def same(self):
        a, b = self.trees()
        return a == b and list(a) == list(b)

    def mirrored(self, when, *args):
        if not wait_for(self.same, 2):
            a, b = self.trees()
            diff = [(k, a.get(k), b.get(k)) for k in list(a) + list(b)
                    if a.get(k) != b.get(k)]
            require(False, "%s: the proxy differs from the remote block (field, "
                    "remote, proxy): %s; fields %s and %s", when % args, diff[:3],
                    list(a), list(b))

    def stop(self):
        self.client.stop(timeout=20)
        self.server.stop(timeout=20)
        self.barrier()
        if self.tunnel:
            self.tunnel.close()


@check.sub("mirror", p01_cases, quick=600, thorough=15000, shards=4, budget=25)
def run_mirror(case, t):
    specs = dict((f, s) for f, s in case["fields"])
    attrs = {f: make_field(s, v) for (f, s), v in
             zip(case["fields"], case["initial"]) if s["kind"] != "method"}
    p = Pair(AttrPart("part", attrs), P01_MRI)
    try:
        for f, s in case["fields"]:
            if s["kind"] == "method":
                p.block.add_block_field(f, make_field(s), None, False)
        p.start()
        require(p.same(), "the proxy block is not in sync once it has started: %s",
                p.trees())
        subs = []
        for i, op in enumerate(case["ops"]):
            if op["op"] == "sub":
                subs.append(Sub(p.client, i + 10, op["path"], op["delta"]))
                continue
            if op["op"] == "unsub":
                continue
            touched = []
            with p.block.changes_squashed:
                for m in op["muts"]:
                    mutate(p.block, specs, m, touched)
            t.nontrivial(bool(touched))
            for m in op["muts"]:
                t.label(m["what"])
            p.mirrored("after op %s", op)
            # and so do those that subscribe to the proxy
            yield_all(5)
            for s in subs:
                s.absorb()
                ok, value = get(p.client, [P01_MRI] + s.path)
                require(s.state == (value if ok else None), "after op %s: subscriber "
                        "to %s of the proxy has %s but Get gives %s", op, s.path,
                        s.state, value)
    finally:
        p.stop()


@st.composite
def request_cases(draw):
    ops = []
    faults = draw(st.integers(0, 1))
    for _ in range(draw(st.integers(1, 7))):
        k = draw(st.sampled_from(["put", "put", "put", "post", "post", "post", "get",
                                  "release", "toggle", "block"] + ["lost"] * faults))
        if k == "put":
            ops.append(draw(put_op()))
        elif k == "post":
            ops.append(draw(post_op()))
        elif k == "get":
            ops.append(dict(op="get", path=draw(get_paths)))
        elif k == "release":
            ops.append(dict(op="release", i=draw(st.integers(0, 3))))
        elif k == "toggle":
            ops.append(dict(op="toggle", w=draw(st.booleans()), field=draw(
                st.sampled_from(["num", "text", "add", "join", "opt"]))))
        elif k == "lost":
            ops.append(dict(op="lost", down=draw(st.booleans()),
                            during=draw(st.booleans())))
            if draw(st.booleans()):
                ops.append(draw(put_op()))
            if draw(st.integers(0, 2)):
                ops.append(dict(op="reset"))
        else:
            ops.append(dict(op="block"))
    return dict(ops=ops)


def final(w):
    return w["typeid"] in ("malcolm:core/Error:1.0", "malcolm:core/Return:1.0")


@check.sub("requests", request_cases, quick=500, thorough=12000, shards=4, budget=25)
def run_requests(case, t):
    part = DevPart("part")
    p = Pair(part, MRI, tunnel=any(o["op"] == "lost" for o in case["ops"]),
             timeout=2.0)
    twin = Process("twin")
    tc = BasicController(MRI)
    tpart = DevPart("part")
    tc.add_part(tpart)
    twin.add_controller(tc)
    waiting = []  # (client, twin client, op)
    up = True
    nblocks = 0
    lost = False

    def listed():
        return get(p.client, ["remote", "remoteBlocks", "value"])[1]

    def outcome(cl, tcl, what, ran=True):
        wait_for(lambda: len(cl.responses) >= len(tcl.responses), 10)
        got = [scrub(w) for _, w in cl.responses]
        want = [scrub(w) for _, w in tcl.responses]
        for w in want:
            if w["typeid"] == "malcolm:core/Error:1.0":
                # the proxy may find another of several reasons to refuse
                require(len(got) == len(want) and got[-1]["typeid"] == w["typeid"] and
                        got[-1]["id"] == w["id"] and (
                            not ran or w["message"].split(": ", 1)[-1]
                            in got[-1]["message"]), "%s through the proxy gave %s, the "
                        "remote block answers %s", what, got, want)
                t.label("refused")
                t.nontrivial()
                return
        if len(got) == 1 and what["op"] == "put" and (
                lost or what["field"] == "echo"):
            # what the setter returns stays on the server, and a proxy that has lost
            # its connection no longer knows the value
            want[0]["value"] = got[0].get("value")
        require(got == want, "%s through the proxy gave %s, the remote block answers "
                "%s", what, got, want)

    try:
        p.start()
        twin.start()
        for i, op in enumerate(case["ops"]):
            k = op["op"]
            lost = lost or k == "lost"
            if k == "toggle":
                for c in (p.block, tc):
                    c._block[op["field"]].meta.set_writeable(op["w"])
            elif k == "block":
                nblocks += 1
                extra = BasicController("extra%d" % nblocks)
                p.server.add_controller(extra)
            elif k == "release":
                if part.pending and tpart.pending:
                    j = op["i"] % len(part.pending)
                    part.pending.pop(j).Signal()
                    tpart.pending.pop(j).Signal()
                    yield_all(20)
                    if up and j < len(waiting):
                        cl, tcl, wop = waiting.pop(j)
                        outcome(cl, tcl, wop)
                        t.label("released")
            elif k == "lost":
                if not up:
                    continue
                up = False
                t.label("connection lost", True)
                t.label("lost with outstanding requests", bool(waiting))
                t.nontrivial()
                if op["down"]:
                    p.tunnel.close()
                else:
                    p.tunnel.drop()
                for cl, _, wop in waiting:
                    require(wait_for(lambda: cl.responses, 10), "%s got no answer "
                            "when the connection was lost", wop)
                    require(len(cl.responses) == 1 and cl.responses[0][1][
                        "typeid"] == "malcolm:core/Error:1.0", "%s got %s when the "
                        "connection was lost", wop, cl.responses)
                waiting = []
                wait_for(lambda: get(p.client, ["remote", "state", "value"])[1] ==
                         "Fault", 10)
                state = get(p.client, ["remote", "state", "value"])[1]
                require(state == "Fault", "the client comms is in state %s after the "
                        "connection was lost", state)
            elif k == "reset":
                if up:
                    continue
                down = not p.tunnel.up
                cl = Client(p.client)
                cl.send(Post(id=5, path=["remote", "reset"]), wait=False)
                require(wait_for(lambda: cl.responses, 15), "reset of the client "
                        "comms does not end")
                ok = cl.responses[0][1]["typeid"] == "malcolm:core/Return:1.0"
                state = get(p.client, ["remote", "state", "value"])[1]
                if down:
                    require(not ok and state == "Fault", "with nobody listening "
                            "reset answered %s and the state is %s", cl.responses,
                            state)
                    p.tunnel.open()
                    t.label("failed reset")
                else:
                    require(ok and state == "Ready", "reset answered %s and the state "
                            "is %s", cl.responses, state)
                    up = True
                    t.label("reconnected")
            else:
                cl, tcl = Client(p.client), Client(twin)
                before = len(part.calls)

                def make():
                    if k == "put":
                        return Put(id=i + 1, path=[MRI, op["field"]] + op["tail"],
                                   value=op["value"][0], get=op["get"])
                    if k == "post":
                        return Post(id=i + 1, path=[MRI, op["method"]], parameters={
                            n: v[0] for n, v in op["params"].items()})
                    return Get(id=i + 1, path=op["path"])

                cl.send(make(), wait=False)
                if not up:
                    if k == "get":
                        continue
                    require(wait_for(lambda: cl.responses, 10), "%s got no answer "
                            "while the connection is lost", op)
                    require(cl.responses[0][1]["typeid"] == "malcolm:core/Error:1.0",
                            "%s got %s while the connection is lost", op, cl.responses)
                    t.label("request while lost")
                    continue
                tcl.send(make(), wait=False)
                yield_all(20)
                if k == "get":
                    if lost:
                        continue
                    outcome(cl, tcl, op, False)
                    continue
                t.nontrivial(k == "post")
                if not tcl.responses:
                    wait_for(lambda: len(part.pending) == len(tpart.pending), 10)
                    waiting.append((cl, tcl, op))
                    t.label("blocked")
                    t.nontrivial()
                else:
                    outcome(cl, tcl, op, len(tpart.calls) > before)
                require(plain(part.calls) == plain(tpart.calls), "%s through the proxy "
                        "called the device with %s, expected %s", op,
                        part.calls[before:], tpart.calls[before:])
            if up and not lost:
                p.mirrored("after %s", op)
            if up:
                want = get(p.server, ["web", "blocks", "value"])[1]
                require(wait_for(lambda: listed() == want, 10), "after %s: client comms "
                        "lists blocks %s, the server publishes %s", op, listed(), want)
    finally:
        for x in (part, tpart):
            for ev in x.pending:
                ev.Signal()
        yield_all(20)
        p.stop()
        twin.stop(timeout=20)
