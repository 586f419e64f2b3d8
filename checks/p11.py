"""P11: state machine legality, access rights and faults"""
import os
import shutil
import tempfile

import cothread
from annotypes import add_call_types
from hypothesis import strategies as st

from malcolm.core import Controller, Part, Post, Process, StringMeta
from malcolm.modules.builtin.controllers import (
    ManagerController, StatefulController)
from malcolm.modules.builtin.hooks import (
    AContext, DisableHook, HaltHook, InitHook, ResetHook)
from malcolm.modules.scanning.controllers import RunnableController

from pbt import Check, require
from pbt.mal import AttrPart, Client, get, yield_all
from pbt.states import NOT_DISABLED, TABLES, Monitor

check = Check(
    "P11", rule="a case is a history of reset / disable requests on a block "
    "whose parts succeed, fail or block in their hooks, or a walk over requested "
    "state transitions; non-trivial = a hook failed or blocked, a request was "
    "refused, or an illegal transition was tried",
    assumptions=["cooperative scheduling (cothread)"])


class Boom(Exception):
    pass


class StatePart(Part):
    plan = ()

    def setup(self, registrar):
        super().setup(registrar)
        self.plan = list(self.plan)
        self.blocked = []
        self.calls = []
        for hook in (InitHook, ResetHook, DisableHook, HaltHook):
            registrar.hook(hook, getattr(self, "on_" + hook.__name__))

    def on_InitHook(self):
        self.body("init")

    def on_ResetHook(self):
        self.body("reset")

    def on_DisableHook(self):
        self.body("disable")

    def on_HaltHook(self):
        self.calls.append("halt")

    def body(self, what):
        self.calls.append(what)
        act = self.plan.pop(0) if self.plan else "ok"
        if act.startswith("block"):
            ev = cothread.Event(auto_reset=False)
            self.blocked.append(ev)
            ev.Wait(60)
        if act.endswith("fail"):
            raise Boom("%s of %s failed" % (what, self.name))


ACTS = st.sampled_from(["ok", "ok", "ok", "fail", "block", "blockfail"])


@st.composite
def histories(draw):
    nparts = draw(st.integers(1, 2))
    plans = [draw(st.lists(ACTS, max_size=5)) for _ in range(nparts)]
    # something like Init must be able to finish: the process waits for it
    for p in plans:
        if p and p[0].startswith("block"):
            p[0] = p[0][5:] or "ok"
    return dict(
        kind=draw(st.sampled_from(["stateful", "manager"])), plans=plans,
        extra=draw(st.lists(st.sampled_from(sorted(TABLES["stateful"])),
                            unique=True, max_size=3)),
        ops=draw(st.lists(st.sampled_from(
            ["reset", "disable", "reset", "disable", "release", "release",
             "wait"]), max_size=10)))


def make(kind, mri, d):
    if kind == "stateful":
        return StatefulController(mri)
    if kind == "manager":
        return ManagerController(mri, config_dir=d)
    return RunnableController(mri, config_dir=d)


@check.sub("history", histories, quick=1500, shards=3, budget=20)
def run(case, t):
    d = tempfile.mkdtemp()
    process = Process("proc")
    c = make(case["kind"], "blk", d)
    parts = []
    for i, plan in enumerate(case["plans"]):
        p = StatePart("p%d" % i)
        p.plan = plan
        c.add_part(p)
        parts.append(p)
    always = StringMeta("d").create_attribute_model("x")
    some = StringMeta("d").create_attribute_model("x")
    never = StringMeta("d").create_attribute_model("x")
    c.set_writeable_in(some, *case["extra"])
    c.add_part(AttrPart("fields", dict(always=always, some=some, never=never),
                        dict(always=always.set_value, some=some.set_value)))
    mon = Monitor(c, case["kind"], dict(
        always=NOT_DISABLED, never=set()))
    if case["kind"] == "stateful":
        # a manager works out the states for the fields of its parts itself
        mon.writeable["some"] = set(case["extra"])
    outstanding = []  # (client, what) of requests not answered yet
    try:
        mon.controller = c
        process.add_controller(c)
        # fields of parts of a manager only appear after init: subscribe now
        process.state = 1  # starting: lets us subscribe before init
        mon.start()
        process.state = 0
        process.start(timeout=20)
        mon.check()
        failed = any(p[:1] and p[0].endswith("fail") for p in case["plans"])
        ok, state = get(process, ["blk", "state", "value"])
        require(state == ("Fault" if failed else "Ready"),
                "after start with plans %s the state is %s", case["plans"],
                state)
        t.nontrivial(failed)
        for op in case["ops"]:
            if op == "release":
                for p in parts:
                    if p.blocked:
                        p.blocked.pop(0).Signal()
                        break
                yield_all(20)
            elif op == "wait":
                yield_all(10)
            else:
                ok, before = get(process, ["blk", "state", "value"])
                allowed = {"reset": before in ("Disabled", "Fault"),
                           "disable": before not in ("Disabling", "Disabled")
                           }[op]
                nplans = [p.plan[:1] for p in parts]
                quiet = not any(p.blocked for p in parts)
                calls = [list(p.calls) for p in parts]
                cl = Client(process)
                cl.send(Post(id=1, path=["blk", op]), wait=False)
                yield_all(20)
                rs = [w for _, w in cl.responses]
                ok, after = get(process, ["blk", "state", "value"])
                if not allowed:
                    t.nontrivial()
                    t.label("refused")
                    require(len(rs) == 1 and "Error" in rs[0]["typeid"],
                            "%s in state %s answered with %s", op, before, rs)
                    require(after == before and
                            [p.calls for p in parts] == calls,
                            "refused %s in state %s left state %s", op, before,
                            after)
                    continue
                acts = [x[0] if x else "ok" for x in nplans]
                if quiet and not any("block" in a for a in acts):
                    fails = any(a == "fail" for a in acts)
                    end = {"reset": "Ready", "disable": "Disabled"}[op]
                    if fails:
                        end = "Fault"
                    require(after == end, "%s in state %s with parts %s left "
                            "state %s", op, before, acts, after)
                    require(len(rs) == 1 and fails == ("Error" in
                            rs[0]["typeid"]), "%s answered with %s", op, rs)
                    if fails:
                        t.nontrivial()
                        t.label("fault")
                        ok, alarm = get(process, ["blk", "state", "alarm"])
                        require("failed" in alarm["message"] and
                                alarm["message"] in rs[0]["message"],
                                "%s failed with %s but the state has %s", op,
                                rs, alarm)
                        ok, h = get(process, ["blk", "health"])
                        require(h["value"] == alarm["message"] and
                                h["alarm"]["severity"] == 2,
                                "block is in Fault with %s but health is %s",
                                alarm, h)
                    elif op == "disable":
                        ok, h = get(process, ["blk", "health"])
                        require(h["value"] == "Disabled", "disabled block has "
                                "health %s", h)
                    else:
                        ok, h = get(process, ["blk", "health"])
                        require(h["value"] == "OK", "ready block has health %s",
                                h)
                else:
                    t.nontrivial()
                    t.label("overlapping")
                    outstanding.append((cl, op))
            mon.check()
            # the rights are enforced as advertised
            ok, block = get(process, ["blk"])
        # let everything finish
        for _ in range(30):
            n = 0
            for p in parts:
                while p.blocked:
                    p.blocked.pop(0).Signal()
                    n += 1
            yield_all(20)
            if not n:
                break
        for cl, op in outstanding:
            for _ in range(2000):
                if cl.responses:
                    break
                cothread.Sleep(0.002)
            require(len(cl.responses) == 1, "%s answered with %s", op,
                    [w for _, w in cl.responses])
        ok, state = get(process, ["blk", "state", "value"])
        require(state in ("Ready", "Fault", "Disabled"), "the block was left in "
                "state %s with nothing running, after %s", state, mon.states)
        mon.check()
    finally:
        for p in parts:
            p.plan = []
            for ev in p.blocked:
                ev.Signal()
        process.state = 2
        process.stop(timeout=20)
        shutil.rmtree(d, ignore_errors=True)
    mon.check()
    for p in parts:
        require(p.calls.count("halt") == 1, "part was halted %s times",
                p.calls.count("halt"))


@st.composite
def walks(draw):
    kind = draw(st.sampled_from(["stateful", "manager", "runnable"]))
    table = TABLES[kind]
    states = sorted(table)
    # mostly legal steps, so that the walk gets everywhere
    return dict(kind=kind, goto=draw(st.sampled_from(states)), steps=draw(st.lists(st.tuples(
        st.booleans(), st.integers(0, 30)).map(list), min_size=1,
        max_size=25)))


def path_to(table, start, end):
    paths = [[start]]
    while paths:
        p = paths.pop(0)
        if p[-1] == end:
            return p[1:]
        for nxt in sorted(table[p[-1]]):
            if nxt not in p:
                paths.append(p + [nxt])
    raise ValueError(end)


@check.sub("walk", walks, quick=1200, shards=2, budget=20)
def walk(case, t):
    d = tempfile.mkdtemp()
    process = Process("proc")
    try:
        kind = case["kind"]
        c = make(kind, "blk", d)
        a = StringMeta("d").create_attribute_model("x")
        c.add_part(AttrPart("fields", dict(always=a), dict(always=a.set_value)))
        process.add_controller(c)
        process.start(timeout=20)
        mon = Monitor(c, kind, dict(always=NOT_DISABLED)).start()
        table = TABLES[kind]
        state = "Ready"
        for target in path_to(table, state, case["goto"]):
            c.transition(target, "message")
            state = target
            mon.check()
        for legal, n in case["steps"]:
            targets = sorted(table)
            if legal:
                # Fault and Disabling are allowed from everywhere: less often
                targets = sorted(table[state] - {"Fault", "Disabling"}) * 3 + \
                    sorted(table[state])
            target = targets[n % len(targets)]
            try:
                c.transition(target, "message")
                done = True
            except TypeError:
                done = False
            want = target in table[state]
            require(done == want, "transition from %s to %s was %s", state,
                    target, "accepted" if done else "refused")
            if done:
                state = target
            t.nontrivial(not want)
            t.label("visited " + state)
            ok, now = get(process, ["blk", "state", "value"])
            require(now == state, "state is %s, expected %s", now, state)
            mon.check()
            ok, h = get(process, ["blk", "health"])
            want = {"Disabled": "Disabled", "Fault": "message"}.get(state, "OK")
            require(h["value"] == want, "in state %s health is %s", state, h)
        mon.stop()
    finally:
        process.stop(timeout=20)
        shutil.rmtree(d, ignore_errors=True)
