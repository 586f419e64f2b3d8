"""P09: hooks run every part, stop on error, and collect what parts return"""
import cothread
from annotypes import Anno, Array, add_call_types
from hypothesis import strategies as st
from typing import Sequence, Union

from malcolm.core import AbortedError, Context, Controller, Hook, Info, Part, Process
from malcolm.modules.builtin.hooks import AContext, APart, ControllerHook

from pbt import Check, require
from pbt.mal import yield_all

check = Check(
    "P09", rule="a case is a set of parts hooked (or not) to a hook, each "
    "returning infos, failing, aborting or blocking until released or stopped; "
    "non-trivial = at least two hooked parts, one of which blocks or fails",
    assumptions=["parts stop within the abort timeout when asked to"])


class NumInfo(Info):
    def __init__(self, n):
        self.n = n


class OtherInfo(Info):
    def __init__(self, n):
        self.n = n


with Anno("infos"):
    AInfos = Union[Array[Info]]
UInfos = Union[AInfos, Sequence[Info], Info, None]
with Anno("alpha"):
    AAlpha = int
with Anno("beta"):
    ABeta = str


class RunHook(ControllerHook[UInfos]):
    def __init__(self, part: APart, context: AContext, alpha: AAlpha,
                 beta: ABeta) -> None:
        super().__init__(part, context, alpha=alpha, beta=beta)

    def validate_return(self, ret: UInfos) -> AInfos:
        return AInfos(ret)


class OtherHook(ControllerHook[UInfos]):
    def __init__(self, part: APart, context: AContext) -> None:
        super().__init__(part, context)


class Boom(Exception):
    pass


class HookPart(Part):
    spec = None
    calls = ()
    contexts = ()
    state = "idle"

    def setup(self, registrar):
        super().setup(registrar)
        s = self.spec
        self.calls = []
        self.event = cothread.Event(auto_reset=False)
        self.state = "idle"
        if s["hooked"]:
            self.register_hooked(RunHook, getattr(self, "f_" + s["args"]))
        if s["other"]:
            self.register_hooked(OtherHook, self.f_other)

    def f_other(self):
        self.calls.append(("other",))

    @add_call_types
    def f_none(self) -> UInfos:
        return self.body()

    @add_call_types
    def f_context(self, context: AContext) -> UInfos:
        return self.body(context)

    @add_call_types
    def f_alpha(self, alpha: AAlpha) -> UInfos:
        return self.body(alpha=alpha)

    @add_call_types
    def f_all(self, context: AContext, beta: ABeta, alpha: AAlpha) -> UInfos:
        return self.body(context, alpha=alpha, beta=beta)

    def body(self, context=None, **kw):
        self.calls.append(kw)
        s = self.spec
        self.state = "running"
        try:
            if s["block"] == "event":
                self.event.Wait(60)
            elif s["block"] == "context":
                # like any hooked function that operates a child block
                assert context is not None
                while not self.event:
                    context.sleep(0.005)
            if s["outcome"] == "raise":
                raise Boom("boom " + self.name)
            elif s["outcome"] == "abort":
                raise AbortedError("aborted " + self.name)
        except AbortedError:
            self.state = "aborted"
            raise
        except Exception:
            self.state = "failed"
            raise
        self.state = "ok"
        infos = [(NumInfo if i % 2 else OtherInfo)(i) for i in s["infos"]]
        if s["single"] and len(infos) == 1:
            return infos[0]
        return infos or None


@st.composite
def cases(draw):
    parts = []
    for i in range(draw(st.integers(1, 5))):
        block = draw(st.sampled_from(["no", "no", "event", "context"]))
        args = draw(st.sampled_from(["none", "context", "alpha", "all"]))
        if block == "context":
            args = draw(st.sampled_from(["context", "all"]))
        parts.append(dict(
            hooked=draw(st.integers(0, 4)) > 0, other=draw(st.booleans()),
            args=args, block=block,
            outcome=draw(st.sampled_from(["ok", "ok", "ok", "ok", "raise",
                                          "abort"])),
            infos=draw(st.lists(st.integers(0, 9), max_size=3)),
            single=draw(st.booleans())))
    order = draw(st.permutations(range(len(parts))))
    return dict(parts=parts, order=list(order), stale=draw(st.booleans()))


@check.sub("run", cases, quick=1500, shards=4, budget=20)
def run(case, t):
    process = Process("proc")
    c = Controller("ctrl")
    parts = []
    for i, s in enumerate(case["parts"]):
        p = HookPart("p%d" % i)
        p.spec = s
        c.add_part(p)
        parts.append(p)
    process.start()
    process.add_controller(c)
    contexts = {p: Context(process) for p in parts}
    if case["stale"]:
        # a stop of an earlier operation must not affect this one
        for x in contexts.values():
            x.stop()
    result = []

    def runner():
        try:
            result.append(("ok", c.run_hooks(
                RunHook(p, contexts[p], 42, "bee") for p in parts)))
        except Exception as e:
            result.append(("error", e))

    hooked = [p for p in parts if p.spec["hooked"]]
    t.nontrivial(len(hooked) >= 2 and any(
        p.spec["block"] != "no" or p.spec["outcome"] != "ok" for p in hooked))
    try:
        cothread.Spawn(runner)
        yield_all(10)
        for p in parts:
            want = {"none": {}, "context": {}, "alpha": dict(alpha=42),
                    "all": dict(alpha=42, beta="bee")}[p.spec["args"]]
            require(p.calls == ([want] if p in hooked else []),
                    "part %s was called with %s, expected %s", p.spec, p.calls,
                    want if p in hooked else "no call")

        def settle():
            for _ in range(400):
                yield_all(10)
                if all(p.state != "running" or p.spec["block"] == "event"
                       for p in hooked) and (
                        result or any(p.state == "running" for p in hooked)):
                    break
                cothread.Sleep(0.002)

        # Which part was the first to fail, according to the order of release?
        first = None
        running = [p for p in hooked if p.spec["block"] != "no"]
        now = [p for p in hooked if p.spec["block"] == "no"]
        for p in now:
            if p.spec["outcome"] != "ok" and first is None:
                first = p
        steps = [parts[i] for i in case["order"] if parts[i] in running]
        stopped = []
        while True:
            if first is not None and first.spec["outcome"] != "abort":
                # everything that listens to its context must be stopped
                waiting = [p for p in running if p.spec["block"] == "context"]
                if waiting:
                    for _ in range(2000):
                        if not any(p.state == "running" for p in waiting):
                            break
                        cothread.Sleep(0.002)
                    for p in waiting:
                        require(p.state == "aborted", "%s failed but part %s "
                                "was not stopped: %s", first.name, p.name,
                                p.state)
                    stopped += waiting
                    running = [p for p in running if p not in waiting]
                    t.label("stopped others")
            if not running:
                break
            yield_all(20)
            require(not result, "hook finished with %s while parts %s were "
                    "still running", result, [p.name for p in running])
            steps = [p for p in steps if p in running]
            p = steps.pop(0)
            p.event.Signal()
            for _ in range(2000):
                if p.state != "running":
                    break
                cothread.Sleep(0.002)
            running.remove(p)
            if p.spec["outcome"] != "ok" and first is None:
                first = p
        for _ in range(5000):
            if result:
                break
            cothread.Sleep(0.002)
        require(result, "hook did not finish")
        kind, value = result[0]
        if first is None:
            require(kind == "ok", "all parts succeeded but the hook raised %s",
                    value)
            require(list(value) == [p.name for p in hooked], "hook returned "
                    "results of %s, expected %s", list(value),
                    [p.name for p in hooked])
            for p in hooked:
                got = [(type(x).__name__, x.n) for x in value[p.name]]
                want = [("NumInfo" if i % 2 else "OtherInfo", i)
                        for i in p.spec["infos"]]
                require(got == want, "part %s returned %s, the hook has %s",
                        p.name, want, got)
            # filtering
            for cls, odd in ((NumInfo, 1), (OtherInfo, 0)):
                want = {}
                for p in hooked:
                    w = [i for i in p.spec["infos"] if i % 2 == odd]
                    if w:
                        want[p.name] = w
                got = {k: [x.n for x in v]
                       for k, v in cls.filter_parts(value).items()}
                require(got == want, "filtered %s, expected %s", got, want)
                flat = [x for v in want.values() for x in v]
                require([x.n for x in cls.filter_values(value)] == flat,
                        "filter_values gave %s, expected %s",
                        cls.filter_values(value), flat)
                try:
                    one = cls.filter_single_value(value).n
                except Exception:
                    one = None
                require(one == (flat[0] if len(flat) == 1 else None),
                        "filter_single_value gave %s for %s", one, flat)
        else:
            require(kind == "error", "part %s failed but the hook returned %s",
                    first.name, value)
            want = {"raise": "boom " + first.name,
                    "abort": "aborted " + first.name}[
                        first.spec["outcome"]]
            require(want in str(value), "part %s failed first but the hook "
                    "raised %s", first.name, value)
            t.label("error")
        for p in parts:
            require(len(p.calls) == (1 if p in hooked else 0), "part %s was "
                    "called %s", p.name, p.calls)
    finally:
        for p in parts:
            p.event.Signal()
        for _ in range(3000):
            if result:
                break
            cothread.Sleep(0.005)
        process.stop(timeout=20)
