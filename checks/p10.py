"""P10: process lifecycle, publishing and spawned work"""
import cothread
from annotypes import add_call_types
from hypothesis import strategies as st

from malcolm.core import (
    APublished, Controller, Part, Process, ProcessPublishHook,
    ProcessStartHook, ProcessStopHook, UUnpublishedInfos, UnpublishedInfo)

from pbt import Check, require
from pbt.mal import yield_all

check = Check(
    "P10", rule="a case is a history of start / add controllers / spawn / stop "
    "operations of a process whose controllers form a parent-child graph and "
    "whose start, publish and stop code may fail; non-trivial = something "
    "failed, blocked, was hidden from publishing or added after the start",
    assumptions=["no controller is its own descendant"])


class LinkPart(Part):
    mri = None


class Ctrl(Controller):
    spec = None
    events = None
    published_seen = None

    def arm(self, spec, events):
        self.spec = spec
        self.events = events
        self.published_seen = []
        if spec["start"] != "none":
            self.register_hooked(ProcessStartHook, self.on_start)
        if spec["publish"] != "none":
            self.register_hooked(ProcessPublishHook, self.on_publish)
        if spec["stop"] != "none":
            self.register_hooked(ProcessStopHook, self.on_stop)

    @add_call_types
    def on_start(self) -> UUnpublishedInfos:
        self.events.append(("start", self.mri))
        if self.spec["start"] == "fail":
            raise ValueError("start")
        if self.spec["start"] == "slow":
            yield_all(3)
        if self.spec["hide"]:
            return UnpublishedInfo(self.mri)
        return None

    @add_call_types
    def on_publish(self, published: APublished) -> None:
        self.events.append(("publish", self.mri))
        self.published_seen.append(list(published))
        if self.spec["publish"] == "fail":
            raise ValueError("publish")

    def on_stop(self):
        self.events.append(("stop", self.mri))
        if self.spec["stop"] == "fail":
            raise ValueError("stop")


@st.composite
def cases(draw):
    n = draw(st.integers(1, 7))
    ctrls = []
    for i in range(n):
        start = draw(st.sampled_from(["none", "ok", "ok", "slow", "fail"]))
        ctrls.append(dict(
            start=start, hide=draw(st.integers(0, 3)) == 0,
            publish=draw(st.sampled_from(["none", "ok", "ok", "fail"])),
            stop=draw(st.sampled_from(["none", "ok", "fail"])),
            # children have higher numbers, so the graph has no cycles
            children=sorted(set(draw(st.lists(
                st.integers(i + 1, n - 1), max_size=3)))) if i < n - 1 else []))
    order = list(draw(st.permutations(range(n))))
    groups, i = [], 0
    while i < n:
        k = draw(st.integers(1, 3))
        groups.append(order[i:i + k])
        i += k
    start_at = draw(st.integers(0, len(groups)))
    spawns = draw(st.lists(st.fixed_dictionaries(dict(
        kind=st.sampled_from(["value", "error", "block", "many"]),
        v=st.integers(0, 5))), max_size=4))
    return dict(ctrls=ctrls, groups=groups, start_at=start_at, spawns=spawns,
                again=draw(st.booleans()))


class Boom(Exception):
    pass


@check.sub("lifecycle", cases, quick=1500, shards=4, budget=20)
def run(case, t):
    process = Process("proc")
    specs = case["ctrls"]
    for go in range(2 if case["again"] else 1):
        events = []
        ctrls = {}
        for i, s in enumerate(specs):
            c = Ctrl("C%d" % i)
            c.arm(s, events)
            for k in s["children"]:
                p = LinkPart("part%d" % k)
                p.mri = "C%d" % k
                c.add_part(p)
            ctrls[i] = c
        t.nontrivial(case["start_at"] < len(case["groups"]) or any(
            "fail" in (s["start"], s["publish"], s["stop"]) or s["hide"]
            for s in specs) or bool(case["spawns"]))
        added = []
        counts = {}

        def check_published():
            names = ["C%d" % i for i in added]
            hidden = {"C%d" % i for i in added
                      if specs[i]["hide"] and specs[i]["start"] in ("ok", "slow")}
            want = set(names) - hidden
            is_child = {"C%d" % k for i in added for k in specs[i]["children"]}
            for i in added:
                c = ctrls[i]
                if want and specs[i]["publish"] != "none":
                    require(c.published_seen or "C%d" % i in hidden, "%s was "
                            "never told what is published", c.mri)
                if not c.published_seen:
                    continue
                # a hidden controller added last needs no new publishing
                last = c.published_seen[-1]
                require(len(set(last)) == len(last), "published twice: %s", last)
                require(set(last) == want, "published %s, expected %s", last,
                        sorted(want))
                if len(c.published_seen) == counts.get(i, 0):
                    # nothing was published this time
                    continue
                counts[i] = len(c.published_seen)
                top = [m in is_child for m in last]
                require(top == sorted(top), "a child is published before a "
                        "top level block: %s, children %s", last,
                        sorted(is_child))

        def start():
            process.start(timeout=20)
            require(sorted(e for e in events if e[0] == "start") ==
                    [("start", "C%d" % i) for i in sorted(added)
                     if specs[i]["start"] != "none"],
                    "start of %s ran %s", added, events)
            check_published()

        started = False
        for gi, g in enumerate(case["groups"]):
            if gi == case["start_at"]:
                start()
                started = True
            before = list(events)
            process.add_controllers([ctrls[i] for i in g], timeout=20)
            added += g
            new = [e for e in events[len(before):] if e[0] == "start"]
            want = [("start", "C%d" % i) for i in sorted(g)
                    if specs[i]["start"] != "none"] if started else []
            require(sorted(new) == want, "adding %s to a %s process started %s",
                    g, "started" if started else "stopped", new)
            if started:
                check_published()
            require(process.mri_list == ["C%d" % i for i in added],
                    "mri_list is %s after adding %s", process.mri_list, added)
            for i in range(len(specs)):
                try:
                    got = process.get_controller("C%d" % i)
                except ValueError:
                    got = None
                require(got is (ctrls[i] if i in added else None),
                        "get_controller(C%s) gave %s", i, got)
            # a second controller of the same name is refused
            dup = Ctrl("C%d" % g[0])
            dup.arm(specs[g[0]], [])
            try:
                process.add_controller(dup)
                require(False, "a second C%s was accepted", g[0])
            except AssertionError:
                pass
            require(process.get_controller("C%d" % g[0]) is ctrls[g[0]],
                    "refused controller replaced C%s", g[0])
        if not started:
            start()
        # spawned work
        blocked = []
        finished = []
        for s in case["spawns"]:
            if s["kind"] == "value":
                sp = process.spawn(lambda a, b=0: a + b, s["v"], b=2)
                require(sp.get(20) == s["v"] + 2 and sp.ready(),
                        "spawned work gave %s", sp.get(20))
            elif s["kind"] == "error":
                def fail(v):
                    raise Boom(v)
                sp = process.spawn(fail, s["v"])
                try:
                    got = sp.get(20)
                except Boom as e:
                    got = e
                require(isinstance(got, Boom) and got.args == (s["v"],),
                        "failing spawned work gave %s", got)
            elif s["kind"] == "block":
                ev = cothread.Event(auto_reset=False)

                def work(v, ev=ev):
                    ev.Wait(60)
                    finished.append(v)
                    return v
                sp = process.spawn(work, s["v"])
                yield_all()
                require(not sp.ready(), "blocked work is ready")
                blocked.append((sp, ev, s["v"]))
            else:
                sps = [process.spawn(lambda v=v: v) for v in range(400)]
                yield_all(3)
                require([x.get(20) for x in sps] == list(range(400)),
                        "spawned work gave wrong results")
                t.label("many")
        # stop waits for all of them
        before = list(events)
        stopped = []

        def stop():
            try:
                process.stop(timeout=20)
                stopped.append(None)
            except Exception as e:
                stopped.append(e)

        cothread.Spawn(stop)
        for sp, ev, v in blocked:
            yield_all(6)
            require(not stopped, "stop returned %s while spawned work was "
                    "running", stopped)
            ev.Signal()
            t.label("stop waits")
        for _ in range(4000):
            if stopped:
                break
            cothread.Sleep(0.002)
        require(stopped == [None], "stop gave %s", stopped)
        require(sorted(finished) == sorted(v for _, _, v in blocked),
                "stop returned before %s had finished", blocked)
        new = sorted(events[len(before):])
        require(new == [("stop", "C%d" % i) for i in sorted(added)
                        if specs[i]["stop"] != "none"],
                "stop ran %s", new)
        require(process.mri_list == [], "stopped process has %s",
                process.mri_list)
        try:
            process.spawn(lambda: 1)
            require(False, "a stopped process accepted work")
        except AssertionError:
            pass
