"""The documented state machines and which fields may be written in which state,
written down independently of the code, and a monitor that checks every published
snapshot of a block against them."""
from collections.abc import Mapping

from malcolm.core import Subscribe, Unsubscribe

from .core import require
from .mal import plain

STATEFUL = {
    "Resetting": {"Ready", "Fault", "Disabling"},
    "Ready": {"Fault", "Disabling"},
    "Fault": {"Resetting", "Disabling"},
    "Disabling": {"Fault", "Disabled"},
    "Disabled": {"Resetting"},
}


def add(base, extra):
    ret = {k: set(v) for k, v in base.items()}
    for k, v in extra.items():
        ret.setdefault(k, {"Fault", "Disabling"}).update(v)
    return ret


MANAGER = add(STATEFUL, {
    "Ready": {"Saving", "Loading"}, "Saving": {"Ready"}, "Loading": {"Ready"}})
RUNNABLE = add(MANAGER, {
    "Ready": {"Configuring", "Aborting"},
    "Configuring": {"Armed", "Aborting"},
    "Armed": {"Running", "Seeking", "Resetting", "Aborting"},
    "Running": {"PostRun", "Seeking", "Aborting"},
    "PostRun": {"Finished", "Armed", "Seeking", "Aborting"},
    "Finished": {"Seeking", "Resetting", "Configuring", "Aborting"},
    "Seeking": {"Armed", "Paused", "Finished", "Aborting"},
    "Paused": {"Seeking", "Running", "Aborting"},
    "Aborting": {"Aborted"},
    "Aborted": {"Resetting"},
})
NOT_DISABLED = "!"
WRITEABLE = {
    "stateful": {"reset": {"Disabled", "Fault"}, "disable": NOT_DISABLED},
    "manager": {"reset": {"Disabled", "Fault"}, "disable": NOT_DISABLED,
                "layout": {"Ready"}, "design": {"Ready"}, "exports": {"Ready"},
                "save": {"Ready"}},
}
WRITEABLE["runnable"] = dict(
    WRITEABLE["manager"],
    reset={"Disabled", "Fault", "Aborted", "Armed", "Finished"},
    validate=NOT_DISABLED, configure={"Ready", "Finished"}, run={"Armed"},
    abort={"Ready", "Configuring", "Armed", "Running", "PostRun", "Paused",
           "Seeking", "Finished"},
    pause={"Armed", "Paused", "Running", "Finished"}, resume={"Paused"},
    completedSteps={"Paused", "Armed"})
TABLES = dict(stateful=STATEFUL, manager=MANAGER, runnable=RUNNABLE)


def may_write(allowed, state):
    if allowed is NOT_DISABLED or allowed == NOT_DISABLED:
        return state not in ("Disabling", "Disabled")
    return state in allowed


class Monitor:
    """Subscribes to a whole block. Problems are collected and reported by
    check(), so that they are not lost in some other cothread"""

    def __init__(self, controller, kind, extra=None):
        self.controller = controller
        self.table = TABLES[kind]
        self.writeable = dict(WRITEABLE[kind])
        self.writeable.update(extra or {})
        self.problem = None
        self.also = None  # called with every snapshot
        self.states = []
        self.seen_faults = []
        self.request = Subscribe(id=99, path=[controller.mri])
        self.request.set_callback(self.update)

    def start(self):
        self.controller.handle_request(self.request).wait(20)
        return self

    def stop(self):
        u = Unsubscribe(id=99)
        u.set_callback(self.update)
        self.controller.handle_request(u).wait(20)

    def fail(self, msg, *args):
        if self.problem is None:
            self.problem = (msg, args)

    def check(self):
        if self.problem is not None:
            msg, args = self.problem
            require(False, msg, *args)

    def cut_down(self, value):
        """The wire form of the bits that are looked at, as the whole block is
        slow to encode"""
        if isinstance(value, Mapping) and all(
                isinstance(value.get(k, {}), Mapping) for k in self.wanted()):
            ret = {}
            for k in self.wanted():
                if k in value:
                    ret[k] = plain({f: value[k][f] for f in ("value", "alarm")
                                    if f in value[k]})
                    ret[k]["meta"] = dict(
                        writeable=plain(value[k]["meta"]["writeable"]))
            return ret
        return plain(value)

    def wanted(self):
        return ["state", "completedSteps", "configuredSteps",
                "totalSteps"] + list(self.writeable)

    def update(self, response):
        if not hasattr(response, "value") or response.value is None:
            return
        block = self.cut_down(response.value)
        if self.also:
            self.also(block)
        state = block["state"]["value"]
        alarm = block["state"]["alarm"]
        if not self.states and state == "Disabled":
            # not initialised yet
            return
        if state not in self.table:
            self.fail("unknown state %s", state)
            return
        if self.states and self.states[-1] != state:
            if state not in self.table[self.states[-1]]:
                self.fail("block went from state %s to %s", self.states[-1],
                          state)
        if not self.states or self.states[-1] != state:
            self.states.append(state)
        if state == "Disabled":
            want = 3
        elif state == "Fault":
            want = 2
            self.seen_faults.append(alarm["message"])
        else:
            want = 0
        if alarm["severity"] != want:
            self.fail("in state %s the state has alarm %s", state, alarm)
        for field, allowed in self.writeable.items():
            if field not in block:
                continue
            w = block[field]["meta"]["writeable"]
            if w != may_write(allowed, state):
                self.fail("in state %s field %s has writeable=%s", state, field,
                          w)
