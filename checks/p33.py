"""Queue and Spawned: what everything that waits is built on."""
import cothread
import numpy as np
from hypothesis import strategies as st

from malcolm.core import Process, Queue, TimeoutError
from malcolm.core.concurrency import Spawned

from pbt import Check, require
from pbt.mal import yield_all

check = Check(
    "P33", rule="a case is a schedule of puts and waiting gets on queues, or of spawned "
    "functions with generated outcomes and of waits for them; non-trivial = something "
    "had to wait, timed out or failed",
    assumptions=["cooperative scheduling (cothread)",
                 "one waiter per Spawned, as it says"])


def queue_cases():
    return st.lists(st.one_of(
        st.tuples(st.just("put"), st.integers(1, 3)),
        st.tuples(st.just("get"), st.sampled_from(["none", "long", "zero", "neg"])),
        st.tuples(st.just("getter"), st.sampled_from(["none", "long", "short"])),
        st.tuples(st.just("expire")),
        st.tuples(st.just("yield"), st.integers(1, 3)),
    ), min_size=1, max_size=16)


T = {"none": None, "long": 20, "zero": 0, "neg": -1, "short": 0.02}


@check.sub("queue", queue_cases, quick=1800, thorough=12000, shards=2, budget=15)
def queue(case, t):
    q = Queue()
    values = ["junk", None, 0, False, "", [], TimeoutError, {}]
    waiting = []   # getters in the order they came: [label, result list]
    items = []     # put and not got
    n = 0
    getters = []

    def getter(g):
        try:
            g["got"] = ("value", q.get(g["timeout"]))
        except TimeoutError:
            g["got"] = ("timeout", None)

    def settle():
        yield_all(6)

    def judge():
        for g in list(waiting):
            if g["short"] and g.get("got") == ("timeout", None):
                # slow machine: it has run out by itself
                waiting.remove(g)
        # the getters that came first get the values that came first
        for g in list(waiting):
            if items:
                v = items.pop(0)
                waiting.remove(g)
                require(g.get("got", (None,))[0] == "value" and g["got"][1] is v,
                        "a waiting get gave %r, %r was put", g.get("got"), v)
        for g in waiting:
            require("got" not in g, "a get gave %r with nothing put", g.get("got"))

    for op in case:
        t.label(op[0])
        if op[0] == "put":
            for _ in range(op[1]):
                v = values[n % len(values)]
                v = [n] if isinstance(v, list) else v
                n += 1
                items.append(v)
                q.put(v)
            settle()
            judge()
        elif op[0] == "get":
            if waiting and op[1] != "neg":
                continue
            if op[1] == "neg":
                try:
                    r = q.get(-1)
                except TimeoutError:
                    t.nontrivial()
                else:
                    require(False, "get with a negative timeout gave %r", r)
            elif items:
                v = items.pop(0)
                r = q.get(T[op[1]])
                require(r is v, "get gave %r, %r was put first", r, v)
            elif op[1] == "zero":
                try:
                    r = q.get(0)
                except TimeoutError:
                    t.nontrivial()
                else:
                    require(False, "get gave %r with nothing put", r)
        elif op[0] == "getter":
            g = dict(timeout=T[op[1]], short=op[1] == "short")
            getters.append(g)
            waiting.append(g)
            cothread.Spawn(getter, g)
            settle()
            t.nontrivial(not items)
            judge()
        elif op[0] == "expire":
            short = [g for g in waiting if g["short"]]
            if short:
                cothread.Sleep(0.03)
                settle()
                for g in short:
                    require(g.get("got") == ("timeout", None),
                            "a get with a short timeout gave %r", g.get("got"))
                    waiting.remove(g)
                t.nontrivial()
        else:
            yield_all(op[1])
        judge()
    # free the ones still waiting
    for g in waiting:
        q.put("end")
    settle()
    for g in waiting:
        require(g.get("got") in (("value", "end"), ("timeout", None)) and
                (g["short"] or g["got"][0] == "value"), "last get %r", g.get("got"))


class Odd:
    """Cannot be compared"""
    __hash__ = object.__hash__

    def __eq__(self, other):
        raise ValueError("not comparable")

    __ne__ = __eq__


class Same:
    """Equal to everything"""
    __hash__ = object.__hash__

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Mine(Exception):
    pass


RESULTS = {
    "none": None, "zero": 0, "text": "x", "array": np.arange(3), "empty": np.zeros(0),
    "list": [1], "odd": Odd(), "same": Same(), "class": Mine, "nan": float("nan"),
}
ERRORS = {"mine": Mine("m"), "key": KeyError("k"), "timeout": TimeoutError("t"),
          "assert": AssertionError(), "attr": AttributeError("a")}


def spawn_cases():
    f = st.fixed_dictionaries(dict(
        out=st.sampled_from(sorted(RESULTS) + sorted(ERRORS)),
        delay=st.sampled_from([0, 0, 1, 3, "event"]),
        process=st.booleans()))
    return st.tuples(st.lists(f, min_size=1, max_size=4), st.lists(st.tuples(
        st.sampled_from(["ready", "wait", "get", "short", "release", "yield"]),
        st.integers(0, 3)), max_size=12))


@check.sub("spawned", spawn_cases, quick=1800, thorough=12000, shards=2, budget=15)
def spawned(case, t):
    funcs, ops = case
    process = Process("p")
    running = []

    def make(f):
        s = dict(f=f, event=cothread.Event(auto_reset=False), calls=[], done=False)

        def func(*args, **kwargs):
            s["calls"].append((args, kwargs))
            if f["delay"] == "event":
                s["event"].Wait(30)
            else:
                for _ in range(f["delay"]):
                    cothread.Yield()
            s["done"] = True
            if f["out"] in ERRORS:
                raise ERRORS[f["out"]]
            return RESULTS[f["out"]]
        if f["process"]:
            s["spawned"] = process.spawn(func, 1, "b", key=3)
        else:
            s["spawned"] = Spawned(func, (1, "b"), dict(key=3))
        require(not s["calls"] and s["spawned"].ready() is False,
                "it ran before it could")
        running.append(s)

    process.start(20)
    try:
        for f in funcs:
            make(f)

        def outcome(s):
            f, sp = s["f"], s["spawned"]
            out = f["out"]
            try:
                r = sp.get(20)
            except Exception as e:
                require(e is ERRORS.get(out), "get of %s raised %r", out, e)
                t.nontrivial()
            else:
                require(out in RESULTS and r is RESULTS[out], "get of %s gave %r",
                        out, r)
            require(sp.ready() is True, "not ready after its get")
            require(s["calls"] == [((1, "b"), dict(key=3))], "called %s", s["calls"])

        for what, i in ops:
            s = running[i % len(running)]
            sp = s["spawned"]
            blocked = s["f"]["delay"] == "event" and not s["done"]
            if what == "ready":
                r = sp.ready()
                require(r is s["done"], "ready of %s says %r", s["f"]["out"], r)
            elif what == "yield":
                yield_all()
                r = sp.ready()
                require(r is s["done"], "ready of %s says %r", s["f"]["out"], r)
            elif what == "release":
                s["event"].Signal()
                yield_all()
            elif what == "short" and blocked:
                try:
                    sp.wait(0.001) if i % 2 else sp.get(0.001)
                except TimeoutError:
                    require(not s["done"], "timed out when it was done")
                    t.nontrivial()
                else:
                    require(False, "did not time out")
            elif what in ("wait", "get"):
                if blocked:
                    cothread.Spawn(s["event"].Signal)
                    t.nontrivial()
                if what == "wait":
                    require(sp.wait(20) is None, "wait gave something")
                    require(s["done"] and sp.ready() is True, "wait came back early")
                else:
                    outcome(s)
        for s in running:
            s["event"].Signal()
            outcome(s)
            outcome(s)
    finally:
        process.stop(20)
