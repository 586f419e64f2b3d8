"""P15: the life cycle of a scan"""
import shutil
import tempfile

import cothread
from annotypes import add_call_types
from hypothesis import strategies as st
from scanpointgenerator import (
    CompoundGenerator, LineGenerator, StaticPointGenerator)

from malcolm.core import Part, Post, Process, Put
from malcolm.modules.builtin.hooks import DisableHook, ResetHook
from malcolm.modules.scanning import hooks as sh
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.infos import RunProgressInfo

from pbt import Check, require
from pbt.mal import Client, get, yield_all
from pbt.states import WRITEABLE, Monitor, may_write

check = Check(
    "P15", rule="a case is a history of configure / run / pause / resume / seek / "
    "abort / reset / disable requests on a block whose parts work through the "
    "steps as they are let, fail or block in any hook; non-trivial = the history "
    "contains a pause, abort, disable, fault or a run in several pieces",
    assumptions=["cooperative scheduling (cothread)",
                 "parts obey a stop of their context"])

HOOKS = {
    "PreConfigure": sh.PreConfigureHook, "Configure": sh.ConfigureHook,
    "PostConfigure": sh.PostConfigureHook, "PreRun": sh.PreRunHook,
    "Run": sh.RunHook, "PostRunArmed": sh.PostRunArmedHook,
    "PostRunReady": sh.PostRunReadyHook, "Pause": sh.PauseHook,
    "Seek": sh.SeekHook, "Abort": sh.AbortHook, "Reset": ResetHook,
    "Disable": DisableHook}
# hooks where a part may wait on its context for something that only a stop or
# the harness ends
BLOCKABLE = ("PreConfigure", "Configure", "PostConfigure", "PreRun",
             "PostRunArmed", "PostRunReady", "Seek")


class Boom(Exception):
    pass


class World:
    def __init__(self):
        self.log = []
        self.inside = {}
        self.gate = 0
        self.problem = None

    def begin(self, part, hook, args):
        self.log.append((part.name, hook) + args)
        if hook == "Disable":
            # disable does not wait for what it stops
            return
        for other, h in self.inside.items():
            if (h != hook or other is part) and self.problem is None:
                self.problem = "%s of %s starts while %s is still in %s" % (
                    hook, part.name, other.name, h)
        self.inside[part] = hook

    def end(self, part, hook):
        if self.inside.get(part) == hook:
            del self.inside[part]


class ScanPart(Part):
    world = None
    plan = {}
    reporter = True

    def setup(self, registrar):
        super().setup(registrar)
        self.counts = {}
        self.pos = self.target = self.credit = 0
        for name, hook in HOOKS.items():
            registrar.hook(hook, getattr(self, "on_" + name))

    def body(self, hook, context, *args):
        n = self.counts.get(hook, 0)
        self.counts[hook] = n + 1
        act = self.plan.get("%s%d" % (hook, n), "ok")
        self.world.begin(self, hook, args)
        try:
            if hook == "Run":
                self.credit = 0
                while self.pos < self.target:
                    if self.credit and act == "fail":
                        raise Boom("%s failed" % hook)
                    if self.credit:
                        self.credit -= 1
                        self.pos += 1
                        if self.reporter:
                            self.registrar.report(RunProgressInfo(self.pos))
                    else:
                        context.sleep(0.0005)
            else:
                if act.startswith("block"):
                    gate = self.world.gate
                    while self.world.gate == gate:
                        context.sleep(0.0005)
                elif act == "slow":
                    # a hook that takes a moment, but is not waiting on anything
                    for _ in range(12):
                        cothread.Yield()
                if act.endswith("fail"):
                    raise Boom("%s failed" % hook)
                if len(args) == 2:
                    self.pos = args[0]
                    self.target = args[0] + args[1]
        finally:
            self.world.end(self, hook)

    @add_call_types
    def on_PreConfigure(self, context: sh.AContext) -> None:
        self.body("PreConfigure", context)

    @add_call_types
    def on_Configure(self, context: sh.AContext,
                     completed_steps: sh.ACompletedSteps,
                     steps_to_do: sh.AStepsToDo) -> sh.UInfos:
        self.body("Configure", context, completed_steps, steps_to_do)

    @add_call_types
    def on_PostConfigure(self, context: sh.AContext) -> None:
        self.body("PostConfigure", context)

    @add_call_types
    def on_PreRun(self, context: sh.AContext) -> None:
        self.body("PreRun", context)

    @add_call_types
    def on_Run(self, context: sh.AContext) -> None:
        self.body("Run", context)

    @add_call_types
    def on_PostRunArmed(self, context: sh.AContext,
                        completed_steps: sh.ACompletedSteps,
                        steps_to_do: sh.AStepsToDo) -> None:
        self.body("PostRunArmed", context, completed_steps, steps_to_do)

    @add_call_types
    def on_PostRunReady(self, context: sh.AContext) -> None:
        self.body("PostRunReady", context)

    @add_call_types
    def on_Pause(self, context: sh.AContext) -> None:
        self.body("Pause", context)

    @add_call_types
    def on_Seek(self, context: sh.AContext,
                completed_steps: sh.ACompletedSteps,
                steps_to_do: sh.AStepsToDo) -> None:
        self.body("Seek", context, completed_steps, steps_to_do)

    @add_call_types
    def on_Abort(self, context: sh.AContext) -> None:
        self.body("Abort", context)

    @add_call_types
    def on_Reset(self, context: sh.AContext) -> None:
        self.body("Reset", context)

    @add_call_types
    def on_Disable(self, context: sh.AContext) -> None:
        self.body("Disable", context)


# ---------------------------------------------------------------- generation

@st.composite
def configs(draw):
    ndims = draw(st.integers(1, 3))
    dims = []
    for i in range(ndims):
        dims.append([draw(st.sampled_from(["line", "line", "line", "static"])),
                     draw(st.integers(1, 3 if i < ndims - 1 else 6))])
    if not any(k == "line" for k, _ in dims):
        dims[-1][0] = "line"
    nlines = sum(k == "line" for k, _ in dims)
    # how many of the innermost axes are moved by this block (None = default)
    move = draw(st.one_of(st.none(), st.integers(1, nlines)))
    inner = 1
    left = nlines if move is None else move
    for k, n in reversed(dims):
        if k == "line":
            if not left:
                break
            left -= 1
        inner *= n
    bp = []
    if draw(st.sampled_from([0, 0, 1])):
        left = inner
        while left > 0 and len(bp) < 4 and draw(st.booleans()):
            n = draw(st.integers(1, left))
            bp.append(n)
            left -= n
    return dict(dims=dims, move=move, bp=bp)


OPS = ["configure", "run", "step", "step1", "finish", "pause", "pause_to",
       "put", "resume", "abort", "reset", "disable", "release"]


@st.composite
def histories(draw):
    nparts = draw(st.integers(1, 3))
    plans = []
    for _ in range(nparts):
        plan = {}
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            hook = draw(st.sampled_from(sorted(HOOKS)))
            acts = ["fail", "slow"]
            if hook in BLOCKABLE:
                acts = ["fail", "block", "block", "blockfail", "slow"]
            plan["%s%d" % (hook, draw(st.integers(0, 2)))] = draw(
                st.sampled_from(acts))
        plans.append(plan)
    return dict(
        plans=plans, reporters=draw(st.lists(st.booleans(), min_size=nparts,
                                             max_size=nparts)),
        configs=draw(st.lists(configs(), min_size=1, max_size=2)),
        ops=draw(st.lists(st.tuples(
            st.integers(0, 9), st.integers(0, 60), st.integers(0, 12),
            st.integers(0, 2)).map(list), min_size=2, max_size=16)))


def build(cfg):
    gens, axes = [], []
    for i, (kind, n) in enumerate(cfg["dims"]):
        if kind == "line":
            axes.append("ax%d" % i)
            gens.append(LineGenerator("ax%d" % i, "mm", 0, 1, n))
        else:
            gens.append(StaticPointGenerator(n))
    args = dict(generator=CompoundGenerator(gens, [], [], 0.1))
    if cfg["move"] is not None:
        args["axesToMove"] = axes[len(axes) - cfg["move"]:]
    if cfg["bp"]:
        args["breakpoints"] = cfg["bp"]
    return args


def chunk_ends(cfg):
    """Where run() returns: after each group of the innermost dimensions that the
    block moves, itself split at the breakpoints"""
    total = inner = 1
    left = cfg["move"]
    if left is None:
        left = sum(k == "line" for k, _ in cfg["dims"])
    done = False
    for k, n in reversed(cfg["dims"]):
        total *= n
        if k == "line" and not left:
            done = True
        if not done:
            inner *= n
            left -= k == "line"
    pieces = []
    for b in cfg["bp"]:
        pieces.append(b)
    if sum(pieces) < inner:
        pieces.append(inner - sum(pieces))
    ends = []
    while not ends or ends[-1] < total:
        for p in pieces:
            ends.append((ends[-1] if ends else 0) + p)
    assert ends[-1] == total
    return ends


# --------------------------------------------------------------------- model

class Driver:
    def __init__(self, case, t):
        self.t = t
        self.case = case
        self.process = Process("proc")
        self.dir = tempfile.mkdtemp()
        self.c = RunnableController("blk", config_dir=self.dir)
        self.world = World()
        self.parts = []
        for i, plan in enumerate(case["plans"]):
            p = ScanPart("p%d" % i)
            p.world, p.plan = self.world, plan
            p.reporter = case["reporters"][i]
            self.c.add_part(p)
            self.parts.append(p)
        self.process.add_controller(self.c)
        self.process.start(timeout=20)
        self.last = None
        self.snap = {}
        self.mon = Monitor(self.c, "runnable")
        self.mon.also = self.counters
        self.mon.start()
        # model
        self.state = "Ready"
        self.ends = None
        self.total = self.configured = self.completed = 0
        self.pos = {}
        self.reported = set()
        self.exact = False
        self.ncalls = {}
        self.expected_log = {p.name: [] for p in self.parts}
        self.run_client = None  # unanswered run request
        self.cur = None  # operation in progress: dict(kind, client, hooks, done)

    def counters(self, b):
        """Check the counters of every snapshot"""
        state = b["state"]["value"]
        done, conf, total = (b[k]["value"] for k in (
            "completedSteps", "configuredSteps", "totalSteps"))
        self.snap = dict(state=state, completed=done, configured=conf,
                         total=total)
        if state in ("Armed", "Running", "PostRun", "Finished", "Paused"):
            if not 0 <= done <= conf <= total:
                self.mon.fail("in state %s completed=%s configured=%s total=%s",
                              state, done, conf, total)
            if self.last and self.last[0] == state == "Running" and \
                    done < self.last[1]:
                self.mon.fail("completedSteps went from %s to %s while running",
                              self.last[1], done)
            if state == "Finished" and done != total:
                self.mon.fail("Finished with %s of %s steps done", done, total)
        self.last = (state, done)

    # -- talking to the block

    def send(self, request):
        cl = Client(self.process)
        cl.send(request, wait=False)
        return cl

    def observe(self):
        return dict(self.snap)

    def wait_for(self, what, pred):
        for i in range(2500):
            if pred():
                break
            if i < 50:
                yield_all(3)
            else:
                cothread.Sleep(0.002)
        ok = pred()
        self.verify()
        require(ok, "%s: block is %s, requests %s", what() if callable(what)
                else what, self.observe(), self.answers())
        return ok

    def answers(self):
        ret = {}
        if self.run_client:
            ret["run"] = [w.get("message", w["typeid"]) for _, w in
                          self.run_client.responses]
        if self.cur and self.cur.get("client"):
            ret[self.cur["kind"]] = [
                w.get("message", w["typeid"]) for _, w in
                self.cur["client"].responses]
        return ret

    def verify(self):
        self.mon.check()
        require(self.world.problem is None, "%s", self.world.problem)

    def answered(self, cl, ok, contains=None):
        self.wait_for("request was not answered", lambda: cl.responses)
        rs = [w for _, w in cl.responses]
        require(len(rs) == 1 and ok == ("Error" not in rs[0]["typeid"]),
                "expected %s but the answer was %s",
                "success" if ok else "an error", rs)
        if contains:
            require(contains in rs[0]["message"], "the answer %s does not tell "
                    "%s", rs, contains)

    # -- model of the operations

    def start(self, kind, client, hooks, done):
        self.cur = dict(kind=kind, client=client, hooks=hooks, i=0, done=done,
                        entered=False)
        self.advance()

    def acts(self, hook):
        n = self.ncalls.get(hook, 0)
        self.ncalls[hook] = n + 1
        return [p.plan.get("%s%d" % (hook, n), "ok") for p in self.parts]

    def advance(self):
        cur = self.cur
        while cur["i"] < len(cur["hooks"]):
            step = cur["hooks"][cur["i"]]
            if callable(step):
                step()
                cur["i"] += 1
                continue
            hook, args = step
            if not cur["entered"]:
                cur["entered"] = True
                cur["acts"] = self.acts(hook)
                for p in self.parts:
                    self.expected_log[p.name].append((hook,) + tuple(args))
                if len(args) == 2:
                    self.pos = {p.name: args[0] for p in self.parts}
                if hook == "Run":
                    return  # goes on in step()
                if "fail" in cur["acts"]:
                    return self.fault(hook)
                if any(a.startswith("block") for a in cur["acts"]):
                    self.t.label("blocked in " + hook)
                    return
            cur["i"] += 1
            cur["entered"] = False
        self.cur = None
        cur["done"]()

    def fault(self, hook):
        self.t.nontrivial()
        self.t.label("fault in " + hook)
        cur, self.cur = self.cur, None
        self.state = "Fault"
        self.wait_for(lambda: "%s failed" % hook, lambda: self.observe()[
            "state"] == "Fault")
        self.answered(cur["client"], False, "%s failed" % hook)
        if self.run_client and self.run_client is not cur["client"]:
            self.answered(self.run_client, False)
        self.run_client = None
        ok, alarm = get(self.process, ["blk", "state", "alarm"])
        require(alarm["message"] == "%s failed" % hook and
                alarm["severity"] == 2, "%s failed but the state's alarm is %s",
                hook, alarm)

    def release(self):
        self.world.gate += 1
        if self.cur is not None and self.cur["entered"] and \
                self.cur["hooks"][self.cur["i"]][0] != "Run":
            hook = self.cur["hooks"][self.cur["i"]][0]
            if "blockfail" in self.cur["acts"]:
                return self.fault(hook)
            self.cur["i"] += 1
            self.cur["entered"] = False
            self.advance()

    def in_run(self):
        return self.cur is not None and self.cur["entered"] and \
            self.cur["hooks"][self.cur["i"]][0] == "Run"

    def give(self, names, n):
        """Let parts do n more steps of the current run"""
        if not self.in_run():
            return
        # everybody has got to the point where he waits to be let
        self.wait_for("parts do not enter Run", lambda: len(
            self.world.inside) == sum(self.pos[p.name] < self.configured
                                      for p in self.parts) and all(
                p.credit == 0 for p in self.parts))
        if n:
            for p, act in zip(self.parts, self.cur["acts"]):
                if act == "fail" and p.name in names and \
                        self.pos[p.name] < self.configured:
                    p.credit = n
                    return self.fault("Run")
        self.exact = self.reported >= self.reporters() or \
            len(self.reporters()) == 1
        for p in self.parts:
            if p.name in names:
                k = min(n, self.configured - self.pos[p.name])
                if k > 0:
                    p.credit = n
                    self.pos[p.name] += k
                    if p.reporter:
                        self.reported.add(p.name)
        self.wait_for(
            lambda: "parts do not get to %s" % self.pos,
            lambda: all(p.pos == self.pos[p.name] for p in self.parts))
        for p in self.parts:
            p.credit = 0
        if all(x == self.configured for x in self.pos.values()):
            self.cur["i"] += 1
            self.cur["entered"] = False
            self.advance()

    def set(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)

    def end_of(self, n):
        return min(e for e in self.ends if e > n)

    def run_hooks(self):
        """What a run from here to the end of the piece does"""
        old = self.configured
        hooks = [("PreRun", ()), ("Run", ()),
                 lambda: self.set(state="PostRun", completed=old,
                                  reported=self.reporters())]

        def done():
            cl, self.run_client = self.run_client, None
            self.state = "Finished" if old == self.total else "Armed"
            self.answered(cl, True)
        if old < self.total:
            self.t.nontrivial()
            end = self.end_of(old)
            hooks.append(("PostRunArmed", (old, end - old)))
            hooks.append(lambda: self.set(configured=end))
        else:
            hooks.append(("PostRunReady", ()))
        return hooks, done

    def reporters(self):
        return {p.name for p in self.parts if p.reporter}

    def drop(self):
        """The operation in progress was stopped by another one"""
        cur, self.cur = self.cur, None
        if cur:
            if cur["client"] is self.run_client:
                self.run_client = None
            self.answered(cur["client"], False)
        if self.run_client:
            self.answered(self.run_client, False)
            self.run_client = None

    def allowed(self, op):
        f = {"put": "completedSteps", "pause_to": "pause"}.get(op, op)
        return may_write(WRITEABLE["runnable"][f], self.state)

    def do(self, op, n, which):
        t = self.t
        if op == "release":
            return self.release()
        if op == "step":
            return self.give([p.name for p in self.parts], n % 3 + 1)
        if op == "step1":
            return self.give([self.parts[which % len(self.parts)].name], n % 4)
        if op == "finish":
            return self.give([p.name for p in self.parts], 10000)
        args = {}
        cfg = None
        if op == "configure":
            cfg = self.case["configs"][n % len(self.case["configs"])]
            args = build(cfg)
        if op == "pause_to":
            args = dict(lastGoodStep=n)
        name = {"pause_to": "pause"}.get(op, op)
        ok = self.allowed(op)
        before = self.observe()
        if op == "put":
            cl = self.send(Put(id=7, path=["blk", "completedSteps", "value"],
                               value=n))
        else:
            cl = self.send(Post(id=7, path=["blk", name], parameters=args))
        if not ok:
            t.label("refused")
            self.answered(cl, False)
            require(self.observe() == before, "refused %s changed %s to %s", op,
                    before, self.observe())
            return
        getattr(self, "op_" + name)(cl, n if op in ("pause_to", "put") else -1,
                                    cfg)

    def op_configure(self, cl, n, cfg):
        hooks = []
        if self.state == "Finished":
            hooks.append(("Reset", ()))
        ends = chunk_ends(cfg)
        self.state = "Configuring"
        hooks.append(("PreConfigure", ()))
        hooks.append(lambda: self.set(
            completed=0, configured=0, total=ends[-1], ends=ends,
            reported=set()))
        hooks.append(("Configure", (0, ends[0])))
        hooks.append(("PostConfigure", ()))

        def done():
            self.state = "Armed"
            self.configured = ends[0]
            self.answered(cl, True)
        self.start("configure", cl, hooks, done)

    def op_run(self, cl, n, cfg):
        self.state = "Running"
        self.run_client = cl
        hooks, done = self.run_hooks()
        self.start("run", cl, hooks, done)

    def op_resume(self, cl, n, cfg):
        self.answered(cl, True)
        self.state = "Running"
        hooks, done = self.run_hooks()
        self.start("run", self.run_client, hooks, done)

    def op_pause(self, cl, n, cfg):
        self.t.nontrivial()
        if n < 0:
            if self.state == "Finished":
                return self.answered(cl, True)
            n = self.completed
        elif n >= self.total:
            n = self.total - 1
        if self.state in ("Armed", "Finished"):
            nxt = "Armed"
        else:
            if n == self.configured:
                n -= 1
            nxt = "Paused"
        self.cur = None  # the run is suspended, its request stays unanswered
        end = self.end_of(n)
        self.state = "Seeking"
        hooks = [("Pause", ()),
                 lambda: self.set(completed=n, reported=set()),
                 ("Seek", (n, end - n)), lambda: self.set(configured=end)]
        self.t.label("seek to another piece", end != self.configured)

        def done():
            self.state = nxt
            self.answered(cl, True)
        self.start("pause", cl, hooks, done)

    op_put = op_pause

    def op_abort(self, cl, n, cfg):
        self.t.nontrivial()
        self.t.label("abort in " + self.state)
        self.finish_stop(cl, "Abort", "Aborted")

    def op_disable(self, cl, n, cfg):
        self.t.nontrivial()
        self.t.label("disable in " + self.state)
        self.finish_stop(cl, "Disable", "Disabled")

    def finish_stop(self, cl, hook, end):
        old, self.cur = self.cur, None
        run = self.run_client

        def stopped():
            self.cur = old
            self.drop()

        def done():
            self.state = end
            self.answered(cl, True)
            stopped()
        acts = [p.plan.get("%s%d" % (hook, self.ncalls.get(hook, 0)), "ok")
                for p in self.parts]
        if "fail" in acts:
            self.start("stop", cl, [(hook, ())], done)
            if old and old["client"] is not run:
                self.answered(old["client"], False)
        else:
            self.start("stop", cl, [(hook, ())], done)

    def op_reset(self, cl, n, cfg):
        def done():
            self.state = "Ready"
            self.total = self.completed = self.configured = 0
            self.answered(cl, True)
        self.start("reset", cl, [("Reset", ())], done)

    # --

    def compare(self):
        """The block is now what the model says"""
        if self.state == "Running" and self.in_run():
            reporters = self.reporters()
            if reporters and self.reported >= reporters and self.exact:
                self.completed = max(self.completed, min(
                    self.pos[n] for n in reporters))
            elif self.reported:
                # some have not said anything yet
                now = self.observe()["completed"]
                hi = max(self.pos[n] for n in reporters)
                require(self.completed <= now <= max(hi, self.completed),
                        "completedSteps is %s with parts at %s", now, self.pos)
                if len(reporters) > 1:
                    self.completed = now
        want = dict(state=self.state, completed=self.completed,
                    configured=self.configured, total=self.total)

        def same():
            now = self.observe()
            if self.state in ("Fault", "Aborted", "Disabled", "Seeking"):
                return now["state"] == want["state"]
            return now == want
        self.wait_for(lambda: "expected %s" % want, same)
        self.wait_for("hooks still running", lambda: not self.world.inside or
                      self.cur)
        def logs():
            ret = {p.name: [] for p in self.parts}
            for e in self.world.log:
                ret[e[0]].append(e[1:])
            return ret
        self.wait_for(lambda: "the parts were called with %s, expected %s" % (
            logs(), self.expected_log), lambda: logs() == self.expected_log)
        if self.run_client:
            require(not self.run_client.responses, "run was answered with %s in "
                    "state %s", self.answers(), self.state)
        if self.cur and self.cur["client"]:
            require(not self.cur["client"].responses, "%s was answered in state "
                    "%s", self.answers(), self.state)

    def close(self):
        self.world.gate += 1
        for p in self.parts:
            p.plan = {}
        self.process.stop(timeout=20)
        shutil.rmtree(self.dir, ignore_errors=True)


LEGAL = {
    "Ready": ["configure"] * 20 + ["abort", "disable"],
    "Armed": ["run"] * 9 + ["pause_to", "pause_to", "put", "pause", "reset",
                            "abort", "disable"],
    "Running": ["step", "step", "step1", "step1", "finish", "finish", "pause",
                "pause", "pause_to", "pause_to", "abort", "disable", "release",
                "release"],
    "PostRun": ["release", "release", "abort", "disable"],
    "Configuring": ["release", "release", "release", "abort", "disable"],
    "Seeking": ["release", "release", "release", "abort", "disable"],
    "Paused": ["resume"] * 5 + ["pause_to", "pause_to", "put", "pause", "abort",
                                "disable"],
    "Finished": ["configure", "configure", "pause_to", "pause", "abort",
                 "reset", "disable", "run"],
    "Fault": ["reset", "reset", "reset", "disable"],
    "Aborted": ["reset", "reset", "reset", "disable"],
    "Disabled": ["reset"],
}


@check.sub("history", histories, quick=2500, thorough=40000, shards=7, budget=20,
           hang=120)
def run(case, t):
    d = Driver(case, t)
    try:
        d.compare()
        for legal, pick, n, which in case["ops"]:
            menu = LEGAL[d.state] if legal else OPS
            op = menu[pick % len(menu)]
            t.label("op " + op)
            d.do(op, n, which)
            d.compare()
            yield_all(2)
            d.verify()
        # nothing changes any more on its own
        before = d.observe()
        cothread.Sleep(0.002)
        d.compare()
        if d.state not in ("Fault", "Aborted", "Disabled", "Seeking"):
            require(d.observe() == before, "the block went from %s to %s on its "
                    "own", before, d.observe())
    finally:
        d.close()


# ---------------------------------------------------------------------- races

RACERS = ["abort", "disable", "pause", "pause_to", "resume", "run", "reset",
          "finish", "abort", "pause", "disable", "configure"]


@st.composite
def races(draw):
    nparts = draw(st.integers(1, 2))
    plans = []
    for _ in range(nparts):
        plan = {}
        for _ in range(draw(st.sampled_from([0, 0, 1, 2]))):
            hook = draw(st.sampled_from(sorted(HOOKS)))
            acts = ["slow"]
            if hook in BLOCKABLE:
                acts = ["slow", "block"]
            plan["%s%d" % (hook, draw(st.integers(0, 1)))] = draw(
                st.sampled_from(acts))
        plans.append(plan)
    return dict(
        plans=plans, reporters=[True] * nparts,
        configs=[draw(configs())],
        prefix=draw(st.sampled_from([
            [], ["configure"], ["configure", "run"], ["configure", "run"],
            ["configure", "run", "step"], ["configure", "run", "step", "pause"],
            ["configure", "run", "pause"], ["configure", "run", "finish"],
            ["configure", "run", "finish", "run"]])),
        racers=draw(st.lists(st.tuples(
            st.sampled_from(RACERS), st.integers(0, 9),
            st.one_of(st.integers(0, 8), st.integers(0, 40))).map(list),
            min_size=2, max_size=3)))


@check.sub("races", races, quick=1500, thorough=20000, shards=7, budget=20,
           hang=120)
def race(case, t):
    d = Driver(case, t)
    try:
        for op in case["prefix"]:
            d.do(op, 0, 0)
            d.compare()
        state = d.state
        sent = []
        for op, n, gap in case["racers"]:
            if op == "finish":
                for p in d.parts:
                    p.credit = 10000
            else:
                name = {"pause_to": "pause"}.get(op, op)
                args = {}
                if op == "configure":
                    args = build(case["configs"][0])
                if op == "pause_to":
                    args = dict(lastGoodStep=n)
                sent.append((name, d.send(Post(
                    id=7, path=["blk", name], parameters=args))))
            yield_all(gap)
        if d.run_client:
            sent.append(("run", d.run_client))
        if d.cur and d.cur["client"] is not d.run_client:
            sent.append((d.cur["kind"], d.cur["client"]))
        t.nontrivial(len(sent) > 1)
        t.label("race in " + state)
        # let everything that waits for us go on
        final = ["Ready", "Armed", "Paused", "Finished", "Aborted", "Disabled",
                 "Running"]

        # an abort or disable has to get through without any help from us
        stopping = case["racers"][-1][0] in ("abort", "disable")

        def settled():
            now = d.observe()["state"]
            if not stopping:
                d.world.gate += 1
            if now == "Running" and not stopping:
                # everybody waits to be let
                for p in d.parts:
                    p.credit = 10000
            return now in final and now != "Running" and all(
                cl.responses or (name == "run" and now == "Paused")
                for name, cl in sent)

        def answers():
            return [(name, [w.get("message", "ok") for _, w in cl.responses])
                    for name, cl in sent]
        d.wait_for(lambda: "%s in state %s after %s do not settle, answers %s" % (
            case["racers"], state, case["prefix"], answers()), settled)
        for _ in range(3):
            cothread.Sleep(0.001)
        now = d.observe()["state"]
        require(settled(), "state went to %s on its own", now)
        for name, cl in sent:
            require(len(cl.responses) < 2, "%s was answered with %s", name,
                    answers())
        ok = [name for name, cl in sent if cl.responses and "Error" not in
              cl.responses[0][1]["typeid"]]
        t.label("all accepted", len(ok) == len(sent))
        t.label("ends in " + now)
        if "disable" in ok and "reset" not in ok:
            require(now == "Disabled", "disabled but the state is %s: %s", now,
                    answers())
        elif "abort" in ok and "reset" not in ok:
            require(now == "Aborted", "aborted but the state is %s: %s", now,
                    answers())
        # and the block still works
        for p in d.parts:
            p.plan = {}
        d.world.log[:] = []
        d.expected_log = {p.name: [] for p in d.parts}
        d.cur = d.run_client = None
        d.state = now
        if now == "Paused":
            d.do("abort", 0, 0)
        if d.state != "Ready":
            d.do("reset", 0, 0)
        d.total = d.configured = d.completed = 0
        d.compare()
        d.do("configure", 0, 0)
        d.compare()
        d.do("run", 0, 0)
        d.compare()
        d.do("finish", 0, 0)
        d.compare()
    finally:
        d.close()
