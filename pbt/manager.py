"""A manager block with generated children, shared by P13 and P14"""
import os
import shutil
import subprocess
import tempfile

from hypothesis import strategies as st

from malcolm.core import Part, Post, Process, Put, config_tag
from malcolm.modules.builtin.controllers import (
    BasicController, ManagerController, StatefulController)
from malcolm.modules.builtin.parts import ChildPart

from . import gen
from .mal import AttrPart, ask, get, plain, yield_all

_call = subprocess.call


def _no_sync(args, *rest, **kw):
    """A save flushes the disks of the whole machine: only pretend"""
    if args == "sync" or args == ["sync"]:
        return 0
    return _call(args, *rest, **kw)


subprocess.call = _no_sync
CHILDREN = ["cam", "motor", "box"]


@st.composite
def attr_specs(draw, kinds=gen.KINDS):
    spec = draw(gen.meta_spec(kinds=kinds))
    pool = draw(st.lists(gen.values(spec), min_size=2, max_size=4))
    return dict(spec=spec, pool=pool,
                it=draw(st.sampled_from([0, 1, 1, 1, 2, 3])))


@st.composite
def children_specs(draw):
    n = draw(st.integers(1, 3))
    ret = []
    for i in range(n):
        attrs = draw(st.lists(attr_specs(), min_size=1, max_size=4))
        ret.append(dict(
            name=CHILDREN[i], stateful=draw(st.booleans()),
            visible=draw(st.sampled_from([True, True, True, False, None])),
            attrs=[[gen.NAMES[j], a] for j, a in enumerate(attrs)]))
    return ret


class World:
    """A process with a manager and its children"""

    def __init__(self, case, initial="", config=None, pick=0):
        self.case = case
        self.own_dir = config is None
        self.config = config or tempfile.mkdtemp(prefix="pbt-design-")
        self.process = Process("proc")
        self.puts = []  # (child, attr) as the child's device sees them
        self.children = {}
        for c in case["children"]:
            ctrl = (StatefulController if c["stateful"] else BasicController)(
                c["name"].upper())
            fields, funcs = {}, {}
            for name, a in c["attrs"]:
                tags = [config_tag(a["it"])] if a["it"] else []
                attr = gen.make_meta(a["spec"], tags=tags).create_attribute_model(
                    a["pool"][pick % len(a["pool"])])
                fields[name] = attr
                funcs[name] = self.setter(c["name"], name, attr)
            ctrl.add_part(AttrPart("fields", fields, funcs))
            self.children[c["name"]] = fields
            self.process.add_controller(ctrl)
        self.top = ManagerController("TOP", config_dir=self.config,
                                     initial_design=initial)
        self.own = {}
        for name, a in case.get("own", []):
            self.own[name] = gen.make_meta(
                a["spec"], tags=[config_tag(1)] if a["it"] else []
            ).create_attribute_model(a["pool"][pick % len(a["pool"])])
        self.top.add_part(AttrPart("own", self.own, {
            k: v.set_value for k, v in self.own.items()}))
        for c in case["children"]:
            self.top.add_part(ChildPart(
                c["name"], c["name"].upper(), initial_visibility=c["visible"],
                stateful=c["stateful"]))
        self.process.add_controller(self.top)
        self.process.start(timeout=20)

    def setter(self, child, name, attr):
        def put(value):
            self.puts.append((child, name))
            attr.set_value(value)
        return put

    def put(self, path, value):
        """Returns None or the error"""
        rs = ask(self.process, path[0], Put(id=3, path=path, value=value))
        assert len(rs) == 1, rs
        yield_all(3)
        return rs[0].get("message") if "Error" in rs[0]["typeid"] else None

    def post(self, path, args=None):
        rs = ask(self.process, path[0], Post(id=3, path=path,
                                             parameters=args or {}))
        assert len(rs) == 1, rs
        yield_all(3)
        if "Error" in rs[0]["typeid"]:
            return False, rs[0]["message"]
        return True, rs[0]["value"]

    def value(self, *path):
        ok, v = get(self.process, list(path) + ["value"])
        assert ok, (path, v)
        return v

    def alarm(self, *path):
        return get(self.process, list(path) + ["alarm"])[1]

    def config_values(self):
        """{child: {attr: wire value}} of what a design holds"""
        return {c["name"]: {
            n: self.value(c["name"].upper(), n) for n, a in c["attrs"]
            if a["it"]} for c in self.case["children"]}

    def other_values(self):
        return {c["name"]: {
            n: self.value(c["name"].upper(), n) for n, a in c["attrs"]
            if not a["it"]} for c in self.case["children"]}

    def close(self):
        try:
            self.process.stop(timeout=20)
        finally:
            if self.own_dir:
                shutil.rmtree(self.config, ignore_errors=True)
