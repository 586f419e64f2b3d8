"""Helpers shared by the checks that drive real Malcolm blocks."""
import copy
import json

import cothread
from annotypes import json_encode

from malcolm.core import (
    Alarm, AlarmSeverity, AlarmStatus, BooleanArrayMeta, BooleanMeta,
    ChoiceArrayMeta, ChoiceMeta, Controller, Display, Get, NumberArrayMeta,
    NumberMeta, Part, Post, Process, Put, StringArrayMeta, StringMeta,
    Subscribe, TableMeta, TimeStamp, Unsubscribe,
)
from .core import Violation, require

WAIT = 20.0  # generous: the code under test answers in milliseconds


def plain(o):
    """The wire form of an object: exactly what a JSON client would see"""
    return json.loads(json_encode(o))


def yield_all(n=4):
    """Let every ready cothread run"""
    for _ in range(n):
        cothread.Yield()


class Client:
    """Collects the responses to requests sent to a process"""

    def __init__(self, process):
        self.process = process
        self.responses = []  # (response, wire form at delivery time)

    def callback(self, response):
        self.responses.append((response, plain(response)))

    def send(self, request, wait=True):
        request.set_callback(self.callback)
        spawned = self.process.get_controller(
            request.path[0]).handle_request(request)
        if wait:
            spawned.wait(WAIT)
        return spawned

    def send_to(self, mri, request, wait=True):
        request.set_callback(self.callback)
        spawned = self.process.get_controller(mri).handle_request(request)
        if wait:
            spawned.wait(WAIT)
        return spawned


def ask(process, mri, request):
    """Send a request, return the list of wire responses"""
    c = Client(process)
    c.send_to(mri, request)
    return [w for _, w in c.responses]


def get(process, path):
    """Returns (ok, wire value or error message)"""
    rs = ask(process, path[0], Get(id=1, path=path))
    require(len(rs) == 1, "Get %s gave %s responses", path, rs)
    r = rs[0]
    if r["typeid"] == "malcolm:core/Return:1.0":
        return True, r["value"]
    return False, r["message"]


def apply_delta(state, changes):
    """Reference interpretation of a Delta message on a plain JSON tree"""
    for change in copy.deepcopy(changes):
        path = change[0]
        if not path:
            state = change[1] if len(change) == 2 else None
            continue
        node = state
        for p in path[:-1]:
            require(isinstance(node, dict) and p in node,
                    "Delta path %s does not exist in the client's copy", path)
            node = node[p]
        if len(change) == 2:
            require(isinstance(node, dict), "Delta path %s goes through a leaf",
                    path)
            node[path[-1]] = change[1]
        else:
            require(isinstance(node, dict) and path[-1] in node,
                    "Delta deletes %s that the client never had", path)
            del node[path[-1]]
    return state


class _AttrPart(Part):
    """Part holding attributes built by make_meta()"""

    fields = {}
    funcs = {}

    def setup(self, registrar):
        super().setup(registrar)
        self.attrs = dict(self.fields)
        for fname, attr in self.fields.items():
            registrar.add_attribute_model(fname, attr, self.funcs.get(fname))


def AttrPart(name, fields, funcs=None):
    # annotypes insists on annotated __init__ arguments, so no __init__
    part = _AttrPart(name)
    part.fields = fields
    part.funcs = funcs or {}
    return part
