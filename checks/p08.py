"""P08: asynchronous operations through a Context"""
import time

import cothread
from annotypes import Anno, add_call_types
from hypothesis import strategies as st

from malcolm.core import (
    AbortedError, BadValueError, Context, Controller, NumberMeta, Part,
    Process, TimeoutError)
from malcolm.modules.builtin.controllers import BasicController

from pbt import Check, require
from pbt.mal import AttrPart, plain, yield_all

check = Check(
    "P08", rule="a case is a history of asynchronous puts, calls, "
    "subscriptions, when-matches, waits, stops and device events on one "
    "context; non-trivial = a wait was made with something outstanding",
    assumptions=["one cothread uses a context at a time, as all callers do",
                 "subscription callbacks may wait on the same context"])

with Anno("x"):
    AX = int
with Anno("y"):
    AY = int
with Anno("r"):
    AR = int


class Boom(Exception):
    pass


class CtxPart(Part):
    def setup(self, registrar):
        super().setup(registrar)
        self.blocked = []
        self.puts = []
        self.attrs = {}
        for k in ("a0", "a1", "fast", "slow", "fail", "ro"):
            self.attrs[k] = NumberMeta("int32", "d").create_attribute_model(0)
        for k, a in self.attrs.items():
            f = {"fast": self.set_fast, "slow": self.set_slow,
                 "fail": self.set_fail}.get(k)
            registrar.add_attribute_model(k, a, f)
        for m in ("mul", "slowmul", "failmul"):
            registrar.add_method_model(getattr(self, m), m)

    def block(self):
        entry = [cothread.Event(auto_reset=False), True]
        self.blocked.append(entry)
        entry[0].Wait(120)
        if not entry[1]:
            raise Boom("released badly")

    def set_fast(self, v):
        self.puts.append(int(v))
        self.attrs["fast"].set_value(v)

    def set_slow(self, v):
        self.block()

    def set_fail(self, v):
        raise Boom("cannot %d" % v)

    @add_call_types
    def mul(self, x: AX, y: AY = 2) -> AR:
        return x * 10 + y

    @add_call_types
    def slowmul(self, x: AX, y: AY = 2) -> AR:
        self.block()
        return x * 10 + y

    @add_call_types
    def failmul(self, x: AX, y: AY = 2) -> AR:
        raise Boom("bad call %d" % x)


@st.composite
def cases(draw):
    nested = draw(st.sampled_from([False, False, True]))
    ops = []
    n = 0
    small = st.integers(0, 3)
    for _ in range(draw(st.integers(2, 16))):
        k = draw(st.sampled_from(
            ["put", "put", "post", "sub", "when", "when", "unsub", "set", "set",
             "set", "release", "release", "release", "wait", "wait", "wait",
             "sleep", "stop", "ignore"]))
        if k == "put":
            targets = ["fast", "slow", "slow"]
            if not nested:
                targets += ["fail", "ro"]
            op = dict(t=draw(st.sampled_from(targets)), v=draw(small))
            n += 1
        elif k == "post":
            ms = ["mul", "slowmul", "slowmul"]
            if not nested:
                ms += ["failmul"]
            op = dict(m=draw(st.sampled_from(ms)), x=draw(small),
                      y=draw(st.one_of(st.none(), small)))
            n += 1
        elif k == "sub":
            op = dict(a=draw(st.integers(0, 1)), cb="record")
            if nested:
                op["cb"] = draw(st.sampled_from(["record", "sleep", "sleep"]))
            n += 1
        elif k == "when":
            op = dict(a=draw(st.integers(0, 1)), good=draw(small),
                      bad=draw(st.lists(small, max_size=2)) if not nested
                      else [], call=draw(st.booleans()))
            n += 1
        elif k == "unsub":
            op = dict(i=draw(st.integers(0, 8)))
        elif k == "set":
            op = dict(a=draw(st.integers(0, 1)), d=draw(st.integers(1, 3)))
        elif k == "release":
            op = dict(i=draw(st.integers(0, 3)),
                      ok=nested or draw(st.integers(0, 3)) > 0)
        elif k == "wait":
            op = dict(f=draw(st.lists(st.integers(0, max(n - 1, 0)),
                                      min_size=0 if n == 0 else 1, max_size=4)),
                      via=draw(st.sampled_from(
                          ["all", "all", "event", "result", "exception"])),
                      block=draw(st.booleans()))
        else:
            op = {}
        op["op"] = k
        ops.append(op)
    return dict(ops=ops, nested=nested)


class MTimeout(Exception):
    pass


class MAborted(Exception):
    pass


class MError(Exception):
    """args: substring of the message"""


class MBad(Exception):
    pass


class Model:
    """Reference model: responses are taken off a FIFO queue"""

    def __init__(self):
        self.q = []
        self.done = {}  # index -> ("ok", v) or ("err", text)
        self.subs = {}  # live on our side: index -> dict
        self.server = {0: [], 1: []}  # live in the block: [indices]
        self.values = [0, 0]
        self.records = {}
        self.sentinel = None
        self.nsent = 0

    def subscribe(self, i, a, **kw):
        self.subs[i] = dict(a=a, **kw)
        self.server[a].append(i)
        self.q.append(("upd", i, self.values[a]))

    def unsubscribe(self, i):
        a = self.subs.pop(i)["a"]
        self.server[a].remove(i)
        self.q.append(("ret", i, None))

    def set(self, a, v):
        self.values[a] = v
        for i in self.server[a]:
            self.q.append(("upd", i, v))

    def step(self, futs):
        if not self.q:
            raise MTimeout()
        ev = self.q.pop(0)
        if ev[0] == "sentinel":
            if ev[1] == self.sentinel:
                self.sentinel = None
        elif ev[0] == "stop":
            if self.sentinel is None:
                raise MAborted()
        elif ev[0] == "upd":
            s = self.subs.get(ev[1])
            if s is not None:
                if s["cb"] == "when":
                    if ev[2] in s["bad"]:
                        self.unsubscribe(ev[1])
                        raise MBad()
                    if ev[2] == s["good"]:
                        self.unsubscribe(ev[1])
                else:
                    self.records.setdefault(ev[1], []).append(ev[2])
                    if s["cb"] == "sleep":
                        self.sleep()
            futs[:] = [f for f in futs if f not in self.done]
        elif ev[0] == "ret":
            self.done[ev[1]] = ("ok", ev[2])
            if ev[1] in futs:
                futs.remove(ev[1])
        else:
            self.done[ev[1]] = ("err", ev[2])
            if ev[1] in futs:
                futs.remove(ev[1])
                raise MError(ev[2])

    def start_wait(self, futs):
        ret = []
        for f in futs:
            if f in self.done:
                if self.done[f][0] == "err":
                    raise MError(self.done[f][1])
            else:
                ret.append(f)
        return ret

    def pump(self, futs):
        while futs:
            self.step(futs)

    def sleep(self):
        try:
            while True:
                self.step([])
        except MTimeout:
            pass


def outcome(func):
    try:
        return ("ok", func())
    except (MTimeout, TimeoutError):
        return ("timeout", None)
    except (MAborted, AbortedError):
        return ("aborted", None)
    except MError as e:
        return ("error", e.args[0])
    except MBad:
        return ("badvalue", None)
    except BadValueError:
        return ("badvalue", None)
    except Exception as e:
        return ("error", str(e))


def same(real, model):
    if real[0] != model[0]:
        return False
    if real[0] == "error":
        return model[1] in real[1]
    return True


@check.sub("history", cases, quick=2500, shards=4, budget=25, hang=60)
def run(case, t):
    process = Process("proc")
    c = Controller("blk")
    part = CtxPart("part")
    c.add_part(part)
    process.start()
    process.add_controller(c)
    yield_all()
    ctx = Context(process)
    view = ctx.block_view("blk")
    m = Model()
    futures, records, blocked = [], {}, []
    waiter = None

    def check_done():
        for i, f in enumerate(futures):
            require(f.done() == (i in m.done), "future %s done=%s, expected "
                    "%s after %s", i, f.done(), i in m.done, case["ops"])
            if i in m.done:
                kind, v = m.done[i]
                if kind == "ok":
                    require(f.exception() is None and
                            plain(f.result()) == v, "future %s resolved to %s, "
                            "expected %s", i, (f._result, f._exception), v)
                else:
                    require(f.exception() is not None and
                            v in str(f.exception()), "future %s resolved to "
                            "%s, expected error %s", i, f.exception(), v)
        require(records == m.records, "subscription callbacks got %s, expected "
                "%s", records, m.records)

    def check_waiter():
        """A cothread is blocked in wait_all_futures: it must have left if and
        only if the model has"""
        nonlocal waiter
        if waiter is None:
            return
        yield_all(20)
        result, futs = waiter
        got = outcome(lambda: m.pump(futs))
        if got[0] == "timeout":
            require(not result, "wait ended with %s while still waiting for %s",
                    result, futs)
        else:
            for _ in range(2000):
                if result:
                    break
                cothread.Sleep(0.001)
            require(result, "wait did not end, expected %s", got)
            require(same(result[0], got), "wait ended with %s, expected %s",
                    result[0], got)
            waiter = None

    try:
        for op in case["ops"]:
            k = op["op"]
            if waiter is not None and k not in ("set", "release", "stop"):
                continue
            i = len(futures)
            if k == "put":
                futures.append(ctx.put_async(["blk", op["t"], "value"],
                                             op["v"]))
                yield_all(10)
                if op["t"] == "fast":
                    m.q.append(("ret", i, None))
                elif op["t"] == "slow":
                    blocked.append((i, None))
                elif op["t"] == "fail":
                    m.q.append(("err", i, "cannot %d" % op["v"]))
                else:
                    m.q.append(("err", i, "not writeable"))
            elif k == "post":
                meth = getattr(view, op["m"])
                if op["y"] is None:
                    futures.append(meth.post_async(op["x"]))
                else:
                    futures.append(meth.post_async(op["x"], y=op["y"]))
                yield_all(10)
                r = op["x"] * 10 + (2 if op["y"] is None else op["y"])
                if op["m"] == "mul":
                    m.q.append(("ret", i, r))
                elif op["m"] == "slowmul":
                    blocked.append((i, r))
                else:
                    m.q.append(("err", i, "bad call %d" % op["x"]))
            elif k == "sub":
                def cb(value, idx, kind):
                    records.setdefault(idx, []).append(int(value))
                    if kind == "sleep":
                        ctx.sleep(0)

                futures.append(ctx.subscribe(
                    ["blk", "a%d" % op["a"], "value"], cb, i, op["cb"]))
                yield_all(10)
                m.subscribe(i, op["a"], cb=op["cb"])
            elif k == "when":
                good = op["good"]
                if op["call"]:
                    def func(v, good=good, bad=tuple(op["bad"])):
                        if v in bad:
                            raise BadValueError("bad")
                        return v == good
                    futures.append(view.when_value_matches_async(
                        "a%d" % op["a"], func))
                else:
                    futures.append(ctx.when_matches_async(
                        ["blk", "a%d" % op["a"], "value"], good,
                        list(op["bad"])))
                yield_all(10)
                m.subscribe(i, op["a"], cb="when", good=good, bad=op["bad"])
            elif k == "unsub":
                live = sorted(m.subs)
                if live:
                    j = live[op["i"] % len(live)]
                    ctx.unsubscribe(futures[j])
                    yield_all(10)
                    m.unsubscribe(j)
            elif k == "set":
                v = (m.values[op["a"]] + op["d"]) % 4
                # nested: several messages must be able to queue up
                part.attrs["a%d" % op["a"]].set_value(v)
                m.set(op["a"], v)
                check_waiter()
            elif k == "release":
                if blocked:
                    j = op["i"] % len(blocked)
                    i, r = blocked.pop(j)
                    entry = part.blocked.pop(j)
                    entry[1] = op["ok"]
                    entry[0].Signal()
                    yield_all(10)
                    if op["ok"]:
                        m.q.append(("ret", i, r))
                    else:
                        m.q.append(("err", i, "released badly"))
                    check_waiter()
            elif k == "stop":
                ctx.stop()
                m.q.append(("stop",))
                check_waiter()
            elif k == "ignore":
                ctx.ignore_stops_before_now()
                m.nsent += 1
                m.sentinel = m.nsent
                m.q.append(("sentinel", m.nsent))
            elif k == "sleep":
                want = outcome(m.sleep)
                got = outcome(lambda: ctx.sleep(0))
                require(same(got, want), "sleep gave %s, expected %s", got, want)
            elif k == "wait":
                if not futures:
                    continue
                idx = [j % len(futures) for j in op["f"]]
                idx = list(dict.fromkeys(idx))
                if op["via"] in ("result", "exception"):
                    idx = idx[:1]
                fs = [futures[j] for j in idx]
                t.nontrivial(any(j not in m.done for j in idx))
                if op["block"] and op["via"] in ("all", "event"):
                    want = outcome(lambda: m.start_wait(idx))
                    result = []
                    waiter = (result, want[1]) if want[0] == "ok" else None

                    def wait():
                        result.append(outcome(
                            lambda: ctx.wait_all_futures(fs)))

                    cothread.Spawn(wait)
                    yield_all(20)
                    t.label("blocking wait")
                    if waiter is None:
                        require(result and same(result[0], want),
                                "wait ended with %s, expected %s", result, want)
                    else:
                        check_waiter()
                    continue

                if op["via"] in ("all", "event"):
                    def model():
                        m.pump(m.start_wait(idx))
                    want = outcome(model)
                    if op["via"] == "all":
                        got = outcome(lambda: ctx.wait_all_futures(fs, 0))
                    else:
                        got = outcome(lambda: ctx.wait_all_futures(
                            fs, event_timeout=0))
                    require(same(got, want), "wait for %s gave %s, expected %s",
                            idx, got, want)
                    t.label("wait " + want[0])
                else:
                    def model():
                        if idx[0] not in m.done:
                            m.pump([idx[0]])
                        kind, v = m.done[idx[0]]
                        if op["via"] == "result":
                            if kind == "err":
                                raise MError(v)
                            return v
                        return v if kind == "err" else None
                    want = outcome(model)
                    got = outcome(lambda: getattr(fs[0], op["via"])(0))
                    ok = same(got, want)
                    if ok and want[0] == "ok":
                        if op["via"] == "result":
                            ok = plain(got[1]) == want[1]
                        else:
                            ok = (want[1] is None and got[1] is None) or (
                                want[1] is not None and want[1] in str(got[1]))
                    require(ok, "%s of future %s gave %s, expected %s",
                            op["via"], idx[0], got, want)
            if waiter is None:
                check_done()
            t.label("nested", case["nested"] and k in ("wait", "sleep"))
        if waiter is not None:
            ctx.stop()
            m.q.append(("stop",))
            check_waiter()
            if waiter is not None:
                # the model was ignoring stops
                ctx.stop()
                m.q.append(("stop",))
                check_waiter()
        check_done()
    finally:
        ctx.unsubscribe_all()
        for e in part.blocked:
            e[0].Signal()
        process.stop(timeout=20)


class Clock:
    """Stands in for the time module: time passes when the check says so"""

    def __init__(self):
        self.now = 1e9
        self.asked = 0

    def time(self):
        self.asked += 1
        return self.now

    monotonic = perf_counter = time

    def __getattr__(self, name):
        return getattr(time, name)


@st.composite
def wait_cases(draw):
    each = draw(st.sampled_from([None, 10.0, 20.0]))
    total = draw(st.sampled_from([None, None, 35.5, 60.5]))
    gaps = st.integers(1, 9) if each == 10.0 else st.integers(1, 19)
    return dict(each=each, total=total, nested=draw(st.booleans()),
                gaps=draw(st.lists(gaps, min_size=1, max_size=12)),
                via=draw(st.sampled_from(["wait", "when", "when"])))


@check.sub("timeouts", wait_cases, quick=250, thorough=3000, shards=2, budget=20)
def timeouts(case, t):
    from malcolm.core import context as module

    clock = Clock()
    real = getattr(module, "time", None)
    if not hasattr(real, "time"):
        t.label("no clock")
        return
    process = Process("p")
    process.start()
    module.time = clock
    ctx = Context(process)
    try:
        a = NumberMeta("int32", "d").create_attribute_model(0)
        c = BasicController("B")
        c.add_part(AttrPart("a", {"f": a}, {"f": a.set_value}))
        process.add_controller(c)
        ctx.sleep(0)
        if not clock.asked:
            t.label("no clock")
            return
        last, result = len(case["gaps"]), []
        if case["via"] == "wait":
            future = ctx.when_matches_async(["B", "f", "value"], last)
            start = clock.now

            def wait():
                result.append(outcome(lambda: ctx.wait_all_futures(
                    [future], timeout=case["total"], event_timeout=case["each"])))
        else:
            start = clock.now

            def wait():
                result.append(outcome(lambda: ctx.when_matches(
                    ["B", "f", "value"], last, timeout=case["total"],
                    event_timeout=case["each"])))
        cothread.Spawn(wait)
        yield_all(20)
        require(not result, "wait for %s ended with %s at once", last, result)
        for i, gap in enumerate(case["gaps"]):
            clock.now += gap
            late = case["total"] is not None and clock.now > start + case["total"]
            a.set_value(i + 1)
            yield_all(20)
            if late and i + 1 < last:
                t.label("timed out")
                t.nontrivial()
                require(result and result[0][0] == "timeout", "wait of at most %s s "
                        "gave %s after %s s", case["total"], result,
                        clock.now - start)
                return
            elif i + 1 < last:
                require(not result, "wait with timeout %s and %s for each event ended "
                        "with %s after %s s, gaps were %s", case["total"],
                        case["each"], result, clock.now - start, case["gaps"])
        require(result and (result[0][0] == "ok" or late), "wait ended with %s, "
                "gaps were %s", result, case["gaps"])
        t.nontrivial(len(case["gaps"]) > 2)
    finally:
        module.time = real
        ctx.stop()
        yield_all(5)
        ctx.unsubscribe_all()
        process.stop(timeout=20)
