"""Block views: the object client code holds is the block itself."""
import collections

import cothread
from hypothesis import strategies as st

from malcolm.core import (
    AbortedError, BadValueError, Context, Future, Process, TimeoutError)
from malcolm.core.views import Block

from pbt import Check, require
from pbt.device import Boom, DevPart, MRI
from pbt.mal import get, plain, yield_all
from malcolm.core import Controller

check = Check(
    "P35", rule="a case is a history of operations on views of a generated device "
    "block (walks, puts, calls, waits, subscriptions) interleaved with changes the "
    "device makes; non-trivial = it uses a view made before a change, or an "
    "operation that must be refused",
    assumptions=["cooperative scheduling (cothread)"])

NUMS = [0, 1, 2, 3, -4]
ATTRS = ["num", "text", "opt", "ro", "slow", "bad", "echo"]
SIG = {  # name: [(parameter, required, values)]
    "add": [("a", 1), ("b", 0)],
    "join": [("text", 1), ("items", 0), ("flag", 0)],
    "boom": [("text", 0)],
    "fails": [], "plain": [],
}
VALUES = {
    "a": st.sampled_from(NUMS), "b": st.sampled_from(NUMS),
    "text": st.sampled_from(["", "x", "yy"]),
    "items": st.lists(st.sampled_from(["p", "q"]), max_size=2),
    "flag": st.booleans(),
}
AVALUES = {
    "num": st.sampled_from(NUMS), "echo": st.sampled_from(NUMS),
    "text": st.sampled_from(["", "x", "yy"]),
    "opt": st.sampled_from(["a", "b", "c"]),
    "bad": st.sampled_from(["", "x"]),
    "ro": st.sampled_from([0.5, 1.5]),
}
PATHS = [[]]
for _a in ATTRS:
    PATHS += [[_a], [_a, "value"], [_a, "meta"], [_a, "meta", "description"],
              [_a, "meta", "writeable"], [_a, "meta", "tags"],
              [_a, "alarm", "severity"], [_a, "alarm", "message"],
              [_a, "timeStamp"], [_a, "timeStamp", "userTag"]]
PATHS += [["num", "meta", "display", "units"], ["opt", "meta", "choices"],
          ["meta"], ["meta", "fields"]]
for _m in SIG:
    PATHS += [[_m], [_m, "meta"], [_m, "meta", "takes"],
              [_m, "meta", "takes", "elements"], [_m, "meta", "takes", "required"],
              [_m, "meta", "defaults"],
              [_m, "took"], [_m, "took", "value"], [_m, "returned", "present"]]
HOLD = [[], ["num"], ["num", "meta"], ["text"], ["text", "meta"], ["echo"], ["add"],
        ["add", "meta"], ["meta"]]
MISSING = [["nope"], ["num", "nope"], ["num", "meta", "nope"], ["add", "nope"],
           ["add", "took", "nope"], ["meta", "nope"], ["num", "timeStamp", "nope"]]


@st.composite
def call_args(draw):
    name = draw(st.sampled_from(sorted(SIG)))
    sig = SIG[name]
    npos = draw(st.integers(0, len(sig)))
    pos = [draw(VALUES[p]) for p, _ in sig[:npos]]
    kw = {}
    for p, req in sig[npos:]:
        if req and draw(st.integers(0, 9)) != 7 or not req and draw(st.booleans()):
            kw[p] = draw(VALUES[p])
    odd = draw(st.sampled_from(["", "", "", "", "", "extra", "twice", "unknown"]))
    if odd == "extra":
        pos = [draw(VALUES[p]) for p, _ in sig] + ["surplus"]
        kw = {}
    elif odd == "twice" and npos:
        p = draw(st.sampled_from([p for p, _ in sig[:npos]]))
        kw[p] = draw(VALUES[p])
    elif odd == "unknown":
        kw["zzz"] = 1
    return [name, pos, kw]


@st.composite
def put(draw, names=("num", "text", "opt", "echo", "bad", "ro")):
    a = draw(st.sampled_from(names))
    return [a, draw(AVALUES[a])]


def op():
    fail = st.integers(0, 7).map(lambda x: x == 5)
    return st.one_of(
        st.tuples(st.just("walk"), st.sampled_from(PATHS),
                  st.lists(st.booleans(), min_size=5, max_size=5)),
        st.tuples(st.just("missing"), st.sampled_from(MISSING),
                  st.lists(st.booleans(), min_size=5, max_size=5)),
        st.tuples(st.just("hold"), st.one_of(
            st.sampled_from(PATHS), st.sampled_from(HOLD))),
        st.tuples(st.just("recheck")),
        st.tuples(st.just("device"), put(("num", "text", "opt", "ro", "echo"))),
        st.tuples(st.just("writeable"), st.sampled_from(["num", "text", "add"]),
                  st.booleans()),
        st.tuples(st.just("put"), put(), st.booleans()),
        st.tuples(st.just("puts"), st.lists(put(), max_size=4), st.booleans(),
                  st.booleans(), fail),
        st.tuples(st.just("call"), call_args(), st.sampled_from(
            ["call", "post", "post_async", "async"])),
        st.tuples(st.just("when"), st.sampled_from(["num", "echo"]),
                  st.sampled_from(NUMS),
                  st.lists(st.sampled_from(NUMS), max_size=2),
                  st.lists(st.sampled_from(NUMS), max_size=4), st.booleans()),
        st.tuples(st.just("subscribe"), st.sampled_from(["num", "text", "echo"])),
        st.tuples(st.just("unsubscribe"), st.integers(0, 3)),
        st.tuples(st.just("setattr"), st.sampled_from(PATHS),
                  st.sampled_from(["value", "num", "label", "new"])),
    )


def step(view, name, item):
    if isinstance(view, dict):
        return view[name]
    return view[name] if item else getattr(view, name)


class Run:
    def __init__(self, process, part, t):
        self.process, self.part, self.t = process, part, t
        self.context = Context(process)
        self.block = self.context.block_view(MRI)
        self.held = []
        self.subs = []
        self.writeable = {"num": True, "text": True, "add": True}

    def truth(self, path):
        ok, value = get(self.process, [MRI] + path)
        require(ok, "Get %s failed: %s", path, value)
        return value

    def settle(self):
        self.context.sleep(0)
        yield_all()
        self.context.sleep(0)
        for s in self.subs:
            # setting the same value again may or may not be told
            got = [v for i, v in enumerate(s["got"]) if not i or s["got"][i - 1] != v]
            require(got == s["want"],
                    "subscribe_value(%s) called back with %s, the values were %s",
                    s["attr"], s["got"], s["want"])

    def seen(self, attr, value):
        """attr of the device was set to value"""
        for s in self.subs:
            if s["attr"] == attr and s["live"]:
                s["want"].append(value)

    def same(self, path, view):
        want = self.truth(path)
        got = view if not hasattr(view, "to_dict") else view.to_dict()
        if isinstance(view, dict):
            got = collections.OrderedDict(
                (k, v.to_dict() if hasattr(v, "to_dict") else v)
                for k, v in view.items())
        require(plain(got) == want, "view of %s is %s, a Get says %s",
                path, plain(got), want)

    def raises(self, what, exc, func, *args, **kwargs):
        try:
            result = func(*args, **kwargs)
        except exc as e:
            self.t.nontrivial()
            return e
        require(False, "%s gave %r, it should have been refused", what, result)

    def outcome(self, func, *args, **kwargs):
        try:
            return None, func(*args, **kwargs)
        except (AbortedError, TimeoutError):
            raise
        except Exception as e:
            return e, None

    # operations
    def walk(self, path, how):
        view = self.block
        for name, item in zip(path, how):
            view = step(view, name, item)
        self.same(path, view)
        if not path:
            require(list(view) == list(self.truth([]))[1:],
                    "iterating the view gives %s", list(view))
            require(view.mri == MRI, "mri is %s", view.mri)

    def missing(self, path, how):
        def go():
            view = self.block
            for name, item in zip(path, how):
                view = step(view, name, item)
            return view
        self.raises("view of %s" % path, Exception, go)

    def hold(self, path):
        view = self.block
        for name in path:
            view = step(view, name, False)
        # the others are replaced by new ones when they change
        if hasattr(view, "to_dict") and not set(path) & {
                "timeStamp", "alarm", "took", "returned", "fields"}:
            self.held.append((path, view))
            self.recheck()

    def recheck(self):
        for path, view in self.held:
            self.t.nontrivial()
            self.same(path, view)
            for name in [n for n in view if n != "typeid"]:
                self.same(path + [name], step(view, name, name > "m"))

    def device(self, what):
        attr, value = what
        old = self.part.attrs[attr].value
        self.part.attrs[attr].set_value(value)
        if old != value:
            self.seen(attr, value)

    def set_writeable(self, name, value):
        thing = self.part.attrs.get(name) or self.part.methods[name]
        thing.meta.set_writeable(value)
        self.writeable[name] = value

    def model_put(self, attr, value):
        """returns (refused, calls)"""
        if attr == "ro" or not self.writeable.get(attr, True):
            return True, []
        calls = [(attr, value)]
        if attr == "bad":
            return True, calls
        return False, calls

    def apply_put(self, attr, value, before):
        # The setters of the device, as DevPart has them
        if attr == "opt":
            return before
        if before != value:
            self.seen(attr, value)
        return value

    def put(self, what, later):
        attr, value = what
        refused, calls = self.model_put(attr, value)
        before = self.part.attrs[attr].value
        del self.part.calls[:]
        view = step(self.block, attr, later)
        if later:
            def func():
                f = view.put_value_async(value)
                self.context.wait_all_futures(f, timeout=20)
                f.result()
        else:
            def func():
                require(view.put_value(value, timeout=20) is None, "put returned")
        err, _ = self.outcome(func)
        require(self.part.calls == calls, "put %s=%r made the calls %s", attr, value,
                self.part.calls)
        if refused:
            self.t.nontrivial()
            require(err is not None, "put %s=%r was accepted", attr, value)
            if attr == "bad":
                require(isinstance(err, Boom) or "no %s" % value in str(err),
                        "put %s=%r gave %r", attr, value, err)
            want = before
        else:
            require(err is None, "put %s=%r raised %r", attr, value, err)
            want = self.apply_put(attr, value, before)
        require(view.value == want, "%s is %r after the put of %r, should be %r",
                attr, view.value, value, want)

    def puts(self, items, ordered, later, unknown):
        params = collections.OrderedDict() if ordered else {}
        for a, v in items:
            params[a] = v
        if unknown:
            params["nope"] = 1
        order = list(params) if ordered else sorted(params)
        calls, refused = [], False
        before = {a: m.value for a, m in self.part.attrs.items()}
        del self.part.calls[:]
        if later:
            def func():
                fs = self.block.put_attribute_values_async(params)
                require(len(fs) == len(params), "%s futures for %s", fs, params)
                self.context.wait_all_futures(fs, timeout=20)
        else:
            def func():
                self.block.put_attribute_values(params, timeout=20)
        err, _ = self.outcome(func)
        yield_all()
        if unknown:
            self.t.nontrivial()
            require(err is not None, "putting %s was accepted", params)
            require(all(c in [(a, v) for a, v in params.items()]
                        for c in self.part.calls),
                    "putting %s made the calls %s", params, self.part.calls)
            made = [a for a, _ in self.part.calls if a != "bad"]
        else:
            for a in order:
                r, c = self.model_put(a, params[a])
                refused |= r
                calls += c
            require(self.part.calls == calls,
                    "putting %s made the calls %s, should be %s", params,
                    self.part.calls, calls)
            require((err is not None) == refused, "putting %s gave %r", params, err)
            made = [a for a, _ in calls if a != "bad"]
        for a in made:
            self.apply_put(a, params[a], before[a])

    def call(self, args, how):
        name, pos, kw = args
        sig = SIG[name]
        names = [p for p, _ in sig]
        bad = (len(pos) > len(sig) or set(kw) & set(names[:len(pos)])
               or set(kw) - set(names) or not self.writeable.get(name, True))
        got = dict(zip(names, pos))
        got.update(kw)
        bad = bad or any(req and p not in got for p, req in sig)
        del self.part.calls[:]
        method = getattr(self.block, name)
        func = {"call": method, "post": method.post,
                "post_async": method.post_async,
                "async": getattr(self.block, name + "_async")}[how]

        def run():
            r = func(*pos, **kw)
            if "async" in how:
                require(isinstance(r, Future), "%s_async gave %r", name, r)
                self.context.wait_all_futures(r, timeout=20)
                r = r.result()
            return r
        err, result = self.outcome(run)
        what = "%s%s %s" % (name, tuple(pos), kw)
        if bad:
            self.t.nontrivial()
            require(err is not None, "%s returned %r, it should be refused", what,
                    result)
            require(not self.part.calls, "%s ran the method: %s", what,
                    self.part.calls)
            return
        full = {"b": 5, "items": [], "flag": False}
        if name == "boom":
            full["text"] = "zap"
        full.update(got)
        want = [(name,) + tuple(full[p] for p in names)]
        require(self.part.calls == want, "%s ran %s, should be %s", what,
                self.part.calls, want)
        if name in ("boom", "fails"):
            text = "boom " + full["text"] if name == "boom" else "always"
            require(err is not None and text in str(err), "%s gave %r %r", what, err,
                    result)
        elif name == "add":
            require(err is None and result == full["a"] + full["b"],
                    "%s gave %r %r", what, err, result)
        elif name == "join":
            require(err is None and plain(result)["text"] == full["text"] + "|".join(
                full["items"]), "%s gave %r %r", what, err, result)
        else:
            require(err is None and result is None, "%s gave %r %r", what, err,
                    result)

    def when(self, attr, good, bads, changes, later):
        values = [self.part.attrs[attr].value]
        want = None
        for v in values + changes:
            if v in bads:
                want = "bad"
            elif v == good:
                want = "good"
            if want:
                break
        # good is looked at before bad, as documented: skip the ambiguous
        if good in bads:
            return
        kw = {"bad_values": bads} if bads or later else {}

        def change():
            for v in changes:
                cothread.Yield()
                self.device([attr, v])
        # a wait that timed out stays with its context, so use one for this only
        context = Context(self.process)
        block = context.block_view(MRI)
        if later:
            f = block.when_value_matches_async(attr, good, bads)
            change()

            def func():
                context.wait_all_futures(f, timeout=20 if want else 0)
        else:
            cothread.Spawn(change)

            def func():
                block.when_value_matches(
                    attr, good, timeout=20 if want else 0.02, **kw)
        try:
            func()
            got = "good"
        except BadValueError:
            got = "bad"
        except TimeoutError:
            got = None
        for _ in range(len(changes) + 2):
            yield_all()
        require(got == want, "waiting for %s to be %s (not %s) over the values %s "
                "gave %s", attr, good, bads, values + changes, got)
        if want != "good":
            self.t.nontrivial()

    def subscribe(self, attr):
        s = dict(attr=attr, got=[], want=[self.part.attrs[attr].value], live=True)
        extra = object()

        def callback(value, arg):
            require(arg is extra, "callback given %r", arg)
            s["got"].append(value)
        s["future"] = getattr(self.block, attr).subscribe_value(callback, extra)
        self.subs.append(s)

    def unsubscribe(self, i):
        live = [s for s in self.subs if s["live"]]
        if live:
            s = live[i % len(live)]
            self.settle()
            self.context.unsubscribe(s["future"])
            s["live"] = False
            self.t.nontrivial()

    def set_attr(self, path, name):
        view = self.block
        for n in path:
            view = step(view, n, False)
        if not hasattr(view, "to_dict") or isinstance(view, (dict, list)):
            return
        from malcolm.core.views import View
        if not isinstance(view, View):
            return
        before = self.truth(path)
        self.raises("setting %s of the view of %s" % (name, path), Exception,
                    setattr, view, name, 3)
        require(self.truth(path) == before, "setting %s of %s changed it", name, path)


def cases():
    return st.lists(op(), min_size=1, max_size=14)


@check.sub("views", cases, quick=900, thorough=6000, shards=4, budget=30)
def views(case, t):
    process = Process("p")
    controller = Controller(MRI)
    part = DevPart("dev")
    controller.add_part(part)
    process.add_controller(controller)
    process.start(20)
    try:
        r = Run(process, part, t)
        names = {"setattr": r.set_attr, "writeable": r.set_writeable}
        for o in case:
            t.label(o[0])
            names.get(o[0], getattr(r, o[0], None))(*o[1:])
            r.settle()
        r.recheck()
    finally:
        process.stop(20)
