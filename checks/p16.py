"""P16: agreeing on the parameters of configure"""
import math
import shutil
import tempfile

from annotypes import add_call_types
from hypothesis import strategies as st
from scanpointgenerator import CompoundGenerator, LineGenerator

from malcolm.core import (
    BooleanMeta, ChoiceMeta, NumberMeta, Part, Post, Process, StringMeta, TableMeta)
from malcolm.modules.scanning import hooks as sh
from malcolm.modules.scanning.controllers import RunnableController
from malcolm.modules.scanning.infos import (
    ConfigureParamsInfo, ParameterTweakInfo)
from malcolm.modules.scanning.util import DetectorTable

from pbt import Check, gen, require
from pbt.mal import ask, get, plain, yield_all

check = Check(
    "P16", rule="a case is a scannable block whose parts ask for generated extra "
    "parameters with defaults, and change or refuse the parameters they are "
    "shown, and a history of validate and configure requests; non-trivial = some "
    "parameter was changed by a part, or a request was refused",
    assumptions=["a parameter has the same type in every part that asks for it"])

PARAMS = {
    "count": dict(kind="number", dtype="int32"),
    "ratio": dict(kind="number", dtype="float64"),
    "label": dict(kind="string"),
    "mode": dict(kind="choice", choices=["fast", "slow", "odd"]),
    "flag": dict(kind="bool")}
TYPES = {"count": st.integers(0, 20), "ratio": st.sampled_from([0.0, 0.5, 2.0, 8.0]),
         "label": st.sampled_from(["", "a", "bad", "long label"]),
         "mode": st.sampled_from(["fast", "slow", "odd"]), "flag": st.booleans()}


def table_meta():
    m = TableMeta.from_table(DetectorTable, "d",
                             writeable=list(DetectorTable.call_types))
    m.elements["name"].set_writeable(False)
    m.elements["mri"].set_writeable(False)
    return m


ROWS = st.lists(st.tuples(st.booleans(), st.sampled_from(["d1", "d2", "d3"]),
                          st.sampled_from(["m1", "m2"]),
                          st.sampled_from([0.0, 0.25]), st.integers(0, 3)).map(list),
                max_size=2)


class NegPart(Part):
    spec = None
    calls = None

    def setup(self, registrar):
        super().setup(registrar)
        registrar.hook(sh.ValidateHook, self.on_validate, self.args)
        registrar.hook(sh.ConfigureHook, self.on_configure, self.args)
        self.report()

    def report(self):
        metas, required, defaults = {}, [], {}
        for k, how in self.spec["params"]:
            if k == "detectors":
                metas[k] = table_meta()
                defaults[k] = DetectorTable.from_rows(how)
                continue
            metas[k] = gen.make_meta(PARAMS[k], writeable=True)
            if how is None:
                required.append(k)
            else:
                defaults[k] = how[0]
        self.registrar.report(ConfigureParamsInfo(metas, required, defaults))

    def args(self, keys):
        return [k for k, _ in self.spec["params"]] + [
            "generator", "axesToMove", "breakpoints"]

    def on_validate(self, **kw):
        self.calls.append(("validate", self.name, kw))
        tweaks = []
        for rule in self.spec["rules"]:
            v = apply_rule(rule, kw)
            if v is not None:
                k = rule[0]
                if k == "duration":
                    g = CompoundGenerator.from_dict(kw["generator"].to_dict())
                    g.duration = v
                    tweaks.append(ParameterTweakInfo("generator", g))
                elif k == "detectors":
                    v = DetectorTable.from_rows(v)
                    tweaks.append(ParameterTweakInfo(
                        k, v if rule[2] == "obj" else plain(v)))
                else:
                    tweaks.append(ParameterTweakInfo(k, v))
        return tweaks

    def on_configure(self, **kw):
        self.calls.append(("configure", self.name, kw))
        return None


def apply_rule(rule, kw):
    """What a part wants instead of the current value, None if it is happy"""
    what, how = rule[0], rule[1]
    value = kw["generator"].duration if what == "duration" else kw[what]
    if how == "refuse":
        if value == rule[2]:
            raise ValueError("will not do %s %s" % (what, value))
        return None
    if how == "min":
        return rule[2] if value < rule[2] else None
    if how == "multiple":
        v = int(math.ceil(value / rule[2])) * rule[2]
        return v if v != value else None
    if how == "is":
        return rule[2] if value != rule[2] else None
    if how == "frames":
        rows = value if isinstance(value, list) else list(value.rows())
        new = [list(r[:4]) + [max(int(r[4]), 1)] for r in rows]
        return new if new != [list(r) for r in rows] else None


@st.composite
def part_specs(draw):
    names = draw(st.lists(st.sampled_from(sorted(PARAMS)), unique=True, max_size=3))
    params = []
    for k in names:
        how = None if draw(st.integers(0, 3)) == 0 else [draw(TYPES[k])]
        params.append([k, how])
    if draw(st.sampled_from([0, 0, 1])):
        params.append(["detectors", draw(ROWS)])
    rules = []
    if params and params[-1][0] == "detectors" and draw(st.booleans()):
        rules.append(["detectors", "frames", draw(st.sampled_from(["obj", "dict"]))])
    for k in names:
        kind = draw(st.integers(0, 3))
        if k == "count" and kind:
            rules.append(draw(st.one_of(
                st.tuples(st.just(k), st.just("min"), st.integers(0, 15)),
                st.tuples(st.just(k), st.just("multiple"), st.integers(2, 4)))))
        elif k == "ratio" and kind:
            rules.append([k, "min", draw(st.sampled_from([0.5, 1.0, 4.0]))])
        elif k == "label" and kind:
            rules.append([k, "refuse", "bad"])
        elif k == "mode" and kind <= 2:
            rules.append([k, "is", draw(st.sampled_from(["fast", "slow"]))])
        elif k == "flag" and kind <= 2:
            rules.append([k, "is", draw(st.booleans())])
    if draw(st.sampled_from([0, 1])):
        rules.append(["duration", "min", draw(st.sampled_from([0.1, 0.5, 1.5]))])
    return dict(params=params, rules=[list(r) for r in rules])


@st.composite
def cases(draw):
    parts = draw(st.lists(part_specs(), min_size=1, max_size=3))
    asked = sorted({k for p in parts for k, _ in p["params"] if k != "detectors"})
    ops = []
    for _ in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(["validate", "configure", "configure",
                                     "configure", "respec"]))
        if kind == "respec":
            ops.append(["respec", draw(st.integers(0, len(parts) - 1)),
                        draw(part_specs())])
            asked = sorted(set(asked) | {
                k for k, _ in ops[-1][2]["params"] if k != "detectors"})
            continue
        given = {k: draw(TYPES[k]) for k in asked if draw(st.booleans())}
        given.update(detectors=draw(ROWS)) if draw(st.sampled_from([0, 0, 1])) \
            else None
        wrong = draw(st.sampled_from(
            [None] * 7 + ["unknown", "type", "gen", "missing"]))
        ops.append([kind, given, draw(st.sampled_from([0.0, 0.1, 1.0, 2.0])),
                    draw(st.sampled_from(["dict", "obj"])),
                    draw(st.sampled_from([None, ["x"], ["x", "y"]])),
                    draw(st.sampled_from([None, None, [2], [1, 1]])), wrong])
    return dict(parts=parts, ops=ops)


class Model:
    def __init__(self, case):
        self.specs = [dict(p) for p in case["parts"]]

    def required(self):
        return {k for p in self.specs for k, how in p["params"]
                if k != "detectors" and how is None}

    def names(self):
        return {k for p in self.specs for k, _ in p["params"]}

    def defaults(self):
        d = {}
        req = self.required()
        for p in self.specs:
            for k, how in p["params"]:
                if k == "detectors":
                    d[k] = d.get(k, []) + how
                elif how is not None and k not in req:
                    d[k] = how[0]
        return d

    def settle(self, params, duration):
        """(params, duration) that every part is happy with, "refused", "fight"
        or "slow" if it takes too long to say"""
        class G:
            pass
        p = dict(params, generator=G)
        G.duration = duration
        rules = [r for s in self.specs for r in s["rules"]]
        fixed = {}
        for r in rules:
            if r[1] == "is":
                fixed.setdefault(r[0], set()).add(r[2])
        if any(len(v) > 1 for v in fixed.values()):
            # a refusal may come first
            return "fight"
        changed = False
        for i in range(100):
            happy = True
            for r in rules:
                try:
                    v = apply_rule(r, p)
                except ValueError:
                    return "refused"
                if v is not None:
                    happy = False
                    changed = True
                    if r[0] == "duration":
                        G.duration = v
                    else:
                        p[r[0]] = v
            if happy:
                break
        else:
            return "slow"
        del p["generator"]
        return p, G.duration, changed, self.rounds(params, duration)

    def rounds(self, params, duration):
        """How many times the parts have to be asked when all are asked at once"""
        class G:
            pass
        p = dict(params, generator=G)
        G.duration = duration
        for n in range(1, 50):
            tweaks = []
            for s in self.specs:
                for r in s["rules"]:
                    v = apply_rule(r, p)
                    if v is not None:
                        tweaks.append((r[0], v))
            if not tweaks:
                return n
            durations = [v for k, v in tweaks if k == "duration"]
            if durations:
                G.duration = max(durations)
            else:
                p.update(tweaks)
        return 50


def make_gen(duration):
    return CompoundGenerator([LineGenerator("y", "mm", 0, 1, 2),
                              LineGenerator("x", "mm", 0, 1, 3)], [], [], duration)


def wire_params(params):
    out = dict(params)
    if "detectors" in out:
        out["detectors"] = plain(DetectorTable.from_rows(out["detectors"]))
    return out


def same(a, b):
    return plain(a) == plain(b)


@check.sub("negotiate", cases, quick=1500, thorough=20000, shards=8, budget=25)
def negotiate(case, t):
    d = tempfile.mkdtemp()
    process = Process("proc")
    try:
        calls = []
        parts = []
        for i, spec in enumerate(case["parts"]):
            p = NegPart("part%d" % i)
            p.spec = spec
            p.calls = calls
            parts.append(p)
        c = RunnableController("S", config_dir=d)
        for p in parts:
            c.add_part(p)
        process.add_controller(c)
        process.start(timeout=20)
        m = Model(case)
        check_meta(process, m)
        for op in case["ops"]:
            if op[0] == "respec":
                m.specs[op[1]] = op[2]
                parts[op[1]].spec = op[2]
                parts[op[1]].report()
                yield_all(3)
            else:
                one_request(process, m, parts, calls, op, t)
            check_meta(process, m)
    finally:
        process.stop(timeout=20)
        shutil.rmtree(d, ignore_errors=True)


def check_meta(process, m):
    ok, block = get(process, ["S"])
    for method in ("configure", "validate"):
        meta = block[method]["meta"]
        base = {"generator", "axesToMove", "breakpoints"}
        takes = meta["takes"]["elements"]
        require(set(takes) == base | m.names(), "%s takes %s, parts ask for %s",
                method, sorted(takes), sorted(m.names()))
        require(set(meta["returns"]["elements"]) == set(takes), "%s returns %s, "
                "takes %s", method, sorted(meta["returns"]["elements"]),
                sorted(takes))
        require(sorted(meta["takes"]["required"]) ==
                sorted({"generator"} | m.required()),
                "%s requires %s, parts require %s", method,
                meta["takes"]["required"], sorted(m.required()))
        want = wire_params(m.defaults())
        require(meta["defaults"] == want, "%s has defaults %s, parts have %s",
                method, meta["defaults"], want)
        for k in m.names():
            if k != "detectors":
                spec = gen.make_meta(PARAMS[k], writeable=True)
                for side in ("takes", "returns"):
                    e = plain(meta[side]["elements"][k])
                    s = plain(spec)
                    for x in ("typeid", "description", "dtype", "choices"):
                        require(e.get(x) == s.get(x), "%s of %s in %s is %s, part "
                                "has %s", x, k, side, e.get(x), s.get(x))
                require(takes[k]["writeable"], "%s is not writeable", k)


def one_request(process, m, parts, calls, op, t):
    kind, given, duration, form, axes, breakpoints, wrong = op
    del calls[:]
    given = {k: v for k, v in given.items() if k in m.names()}
    for k in m.required():
        if k not in given and wrong != "missing":
            given[k] = {"count": 3, "ratio": 2.0, "label": "a", "mode": "fast",
                        "flag": True}[k]
    missing = m.required() - set(given)
    params = wire_params(given)
    g = make_gen(duration)
    params["generator"] = g if form == "obj" else plain(g)
    if axes is not None:
        params["axesToMove"] = axes
    if breakpoints is not None:
        params["breakpoints"] = breakpoints
    bad = bool(missing)
    if wrong == "unknown":
        params["nonsense"] = 1
        bad = True
    elif wrong == "gen":
        del params["generator"]
        bad = True
    elif wrong == "type":
        for k, v in (("count", "many"), ("mode", "never"), ("ratio", [1])):
            if k in given:
                params[k] = v
                bad = True
    ok, state = get(process, ["S", "state", "value"])
    require(state == "Ready", "state is %s", state)
    sent = plain({k: v for k, v in params.items()})
    rs = ask(process, "S", Post(id=7, path=["S", kind], parameters=params))
    yield_all(3)
    require(len(rs) == 1, "%s answered with %s", kind, rs)
    r = rs[0]
    failed = "Error" in r["typeid"]
    configured = [c for c in calls if c[0] == "configure"]
    ok, state = get(process, ["S", "state", "value"])
    if bad:
        t.nontrivial()
        t.label("bad arguments")
        require(failed, "%s with %s gave %s", kind, sent, r)
        require(not calls, "%s with %s was refused, but parts were asked", kind, sent)
        require(state == "Ready", "refused %s leaves state %s", kind, state)
        return
    full = dict(m.defaults())
    full.update(given)
    want = m.settle(full, duration)
    if want in ("refused", "fight"):
        t.nontrivial()
        t.label(want)
        require(failed, "%s of %s which the parts %s gave %s", kind, full, want, r)
        require(not configured, "parts were configured after %s", want)
        require(state == "Ready", "failed %s leaves state %s", kind, state)
        return
    if want == "slow" or want[3] > 9:
        t.label("slow")
        if not failed and kind == "configure":
            reset(process)
        return
    final, fduration, changed, _ = want
    t.nontrivial(changed)
    t.label("changed", changed)
    require(not failed, "%s of %s gave %s, but the parts agree on %s", kind, sent, r,
            final)
    got = dict(r["value"])
    got.pop("typeid", None)
    require(got["generator"]["duration"] == fduration, "%s chose duration %s, "
            "the parts agree on %s", kind, got["generator"]["duration"], fduration)
    gw = plain(make_gen(fduration))
    require(got.pop("generator") == gw, "generator changed")
    require(sorted(got.pop("axesToMove")) == sorted(axes or ["x", "y"]),
            "axesToMove changed from %s", axes)
    require(got.pop("breakpoints") == (breakpoints or []), "breakpoints changed "
            "from %s", breakpoints)
    require(got == wire_params(final), "%s of %s returned %s, the parts agree on %s",
            kind, sent, got, final)
    # what every part was shown last is what was returned
    for i, p in enumerate(parts):
        seen = [c for c in calls if c[1] == p.name]
        shown = [c for c in seen if c[0] == "validate"]
        conf = [c for c in seen if c[0] == "configure"]
        require(len(conf) == (1 if kind == "configure" else 0), "part configured "
                "%s times by %s", len(conf), kind)
        for c in shown[-1:] + conf:
            kw = dict(c[2])
            require(plain(kw.pop("generator")) == gw, "%s of %s got another "
                    "generator", c[0], c[1])
            require(sorted(kw.pop("axesToMove")) == sorted(axes or ["x", "y"]),
                    "part got other axes")
            require(list(kw.pop("breakpoints")) == (breakpoints or []),
                    "part got other breakpoints")
            exp = {k: v for k, v in wire_params(final).items()
                   if k in [n for n, _ in m.specs[i]["params"]]}
            if "detectors" in kw:
                require(hasattr(kw["detectors"], "rows"), "part was given %s rather "
                        "than a table", kw["detectors"])
            require(plain(kw) == exp, "%s of %s got %s, expected %s", c[0], c[1],
                    plain(kw), exp)
    if form == "obj" and m.rounds(full, duration) == 1:
        require(g.duration == duration, "the client's generator was changed")
    if kind == "configure":
        require(state == "Armed", "state is %s", state)
        ok, took = get(process, ["S", "configure", "returned", "value"])
        took = dict(took)
        took.pop("typeid", None)
        require(took == {k: v for k, v in r["value"].items() if k != "typeid"},
                "returned log is %s, answer was %s", took, r["value"])
        reset(process)
    else:
        require(state == "Ready", "validate leaves state %s", state)


def reset(process):
    rs = ask(process, "S", Post(id=8, path=["S", "reset"]))
    require("Error" not in rs[0]["typeid"], "reset gives %s", rs)
    yield_all(3)
