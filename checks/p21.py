"""P21: YAML files make exactly the blocks they say"""
import json
import os
import re
import shutil
import sys
import tempfile
import types

from hypothesis import strategies as st

from malcolm.core import Process
from malcolm.yamlutil import make_block_creator, make_include_creator

from pbt import Check, require
from pbt.mal import get

check = Check(
    "P21", rule="a case is a tree of YAML files (parameters with and without defaults, "
    "defines that use them and each other, parts, includes and child blocks with "
    "substituted arguments) and the arguments for the top one; non-trivial = at least "
    "two files and a substitution",
    assumptions=["the value of a parameter does not itself contain $(...)"])

WORDS = st.sampled_from(["", "a", "x y", "P:1", "é", "#no: comment", "[1]", "'q'",
                         '"', "\\n", "-", "null", "1e3", "{}", "$", "$)", "true"])
PNAMES = ["name", "pv", "n", "rate", "a_b", "PORT", "nam"]


@st.composite
def template(draw, names):
    """Bits of text and substitutions"""
    out = ""
    for _ in range(draw(st.integers(0, 3))):
        if draw(st.booleans()):
            out += draw(WORDS)
        else:
            out += "$(%s)" % draw(st.sampled_from(names))
    return out


@st.composite
def files(draw, i, total, is_block):
    params = []
    for n in draw(st.lists(st.sampled_from(PNAMES), max_size=4, unique=True)):
        typ = draw(st.sampled_from(["string", "string", "int32", "float64"]))
        default = None
        if draw(st.booleans()):
            default = dict(
                string=draw(WORDS), int32=draw(st.integers(-9, 9)),
                float64=draw(st.sampled_from([0.5, -2.0, 1e-9])))[typ]
        params.append([n, typ, default])
    names = [p[0] for p in params] + ["id", "yamlname", "yamldir", "unknown"]
    if is_block:
        names.append("mri")
    defines = []
    for k in range(draw(st.integers(0, 3))):
        # may hide a parameter
        n = draw(st.sampled_from(["d%d" % k] * 3 + [p[0] for p in params]))
        kind = draw(st.sampled_from(["string"] * 3 + ["int32", "float64"]))
        value = draw(template(names)) if kind == "string" else draw(st.integers(-5, 5))
        defines.append([n, kind, value])
        names.append(n)
    body = []
    for k in range(draw(st.integers(0, 4))):
        kind = draw(st.sampled_from(["string", "string", "number", "choice", "use",
                                     "use"]))
        if kind == "use" and i + 1 < total:
            target = draw(st.integers(i + 1, total - 1))
            args = {}
            for n in PNAMES:
                if draw(st.integers(0, 3)):
                    args[n] = draw(template(names))
            body.append(["use", k, target, args])
        elif kind == "number":
            body.append(["number", k, draw(st.sampled_from([1, 2.5, "3", "-1e2"]))])
        elif kind == "choice":
            body.append(["choice", k, draw(st.lists(template(names), min_size=1,
                                                    max_size=3))])
        else:
            body.append(["string", k, draw(template(names)), draw(template(names)),
                         draw(st.booleans())])
    doc = draw(st.one_of(st.none(), template(names)))
    return dict(block=is_block, params=params, defines=defines, body=body, doc=doc)


@st.composite
def cases(draw):
    total = draw(st.integers(1, 4))
    fs = [draw(files(i, total, i == 0 or draw(st.booleans()))) for i in range(total)]
    # give the ones that are used what they need, mostly
    for f in fs:
        for b in f["body"]:
            if b[0] == "use":
                b[3] = draw(arguments(fs[b[2]], b[3]))
    top = draw(arguments(fs[0], {n: draw(WORDS) for n in PNAMES}))
    return dict(files=fs, args=top, order=draw(st.permutations(range(3))))


@st.composite
def arguments(draw, f, pool):
    args = {}
    for n, typ, default in f["params"]:
        if default is not None and draw(st.booleans()):
            continue
        if draw(st.integers(0, 40)) == 17:
            continue
        if typ == "string":
            args[n] = pool.get(n, "v")
        elif typ == "int32":
            args[n] = draw(st.integers(-99, 99))
        else:
            args[n] = draw(st.sampled_from([0.25, 3.0, -1.5]))
    if draw(st.integers(0, 40)) == 17:
        args["other"] = "z"
    return args


class Refused(Exception):
    pass


def subst(text, env):
    return re.sub(r"\$\(([^()$]*)\)",
                  lambda m: str(env[m.group(1)]) if m.group(1) in env else m.group(0),
                  text)


def expand(case, i, args, where, lines, d):
    """Returns ([(mri, doc, fields)], [fields])"""
    f = case["files"][i]
    known = {p[0] for p in f["params"]} | {"id"} | ({"mri"} if f["block"] else set())
    if set(args) - known:
        raise Refused(where)
    env = dict(yamlname="f%d" % i, yamldir=d, docstring="")
    for n, typ, default in f["params"]:
        if default is not None:
            env[n] = default
        elif n not in args:
            raise Refused(where)
    for n, v in args.items():
        env[n] = v
    path = os.path.join(d, "f%d.yaml" % i)
    defines = list(f["defines"])
    if f["doc"] is not None:
        defines.append(["docstring", "string", f["doc"]])
    for n, typ, v in defines:
        env[n] = subst(v, env) if typ == "string" else \
            (float(v) if typ == "float64" else v)
    blocks, fields = [], []
    for b in f["body"]:
        if b[0] == "use":
            sub = {n: subst(v, env) if isinstance(v, str) else v
                   for n, v in b[3].items()}
            sub["id"] = str(env["id"]) + "u%d" % b[1]
            if case["files"][b[2]]["block"]:
                sub["mri"] = env["mri"] + ":" + "u%d" % b[1] if f["block"] else \
                    env["id"] + "u%d" % b[1]
            bs, fl = expand(case, b[2], sub, "%s:%d:" % (path, lines[i][b[1]]), lines, d)
            blocks += bs
            fields += fl
        elif b[0] == "number":
            fields.append(("p%s%d" % (env["id"], b[1]), float(b[2]), "number", False))
        elif b[0] == "choice":
            choices = [subst(x, env) for x in b[2]]
            fields.append(("p%s%d" % (env["id"], b[1]), choices[-1], choices, False))
        else:
            fields.append(("p%s%d" % (env["id"], b[1]), subst(b[2], env),
                           subst(b[3], env), b[4]))
    if f["block"]:
        blocks.append((env["mri"], env["docstring"], fields))
        fields = []
    return blocks, fields


def write(case, i, d):
    """Returns the line of each body section"""
    f = case["files"][i]
    out, lines = [], {}

    def section(name, args, key=None):
        if key is not None:
            lines[key] = len(out) + 1
        out.append("- %s:" % name)
        for k, v in args.items():
            out.append("    %s: %s" % (k, json.dumps(v, ensure_ascii=False)))
        if not args:
            out[-1] += " {}"

    def params():
        for n in ["id"] + (["mri"] if f["block"] else []):
            section("builtin.parameters.string", dict(name=n, description="d"))
        for n, typ, default in f["params"]:
            a = dict(name=n, description="the " + n)
            if default is not None:
                a["default"] = default
            section("builtin.parameters." + typ, a)

    def defines():
        for n, kind, v in f["defines"]:
            section("builtin.defines." + kind, dict(name=n, value=v))
        if f["doc"] is not None:
            section("builtin.defines.docstring", dict(value=f["doc"]))

    def controller():
        if f["block"]:
            section("builtin.controllers.BasicController", dict(
                mri="$(mri)", description="$(docstring)"))

    for k in case["order"]:
        [params, defines, controller][k]()
        out.append("")
    for b in f["body"]:
        name = "p$(id)%d" % b[1]
        if b[0] == "use":
            target = case["files"][b[2]]
            args = dict(b[3])
            args["id"] = "$(id)u%d" % b[1]
            if target["block"]:
                args["mri"] = "$(mri):u%d" % b[1] if f["block"] else "$(id)u%d" % b[1]
            section("vpmod.%s.f%d" % ("blocks" if target["block"] else "includes", b[2]),
                    args, b[1])
        elif b[0] == "number":
            section("builtin.parts.Float64Part", dict(
                name=name, description="number", value=b[2]), b[1])
        elif b[0] == "choice":
            section("builtin.parts.ChoicePart", dict(
                name=name, description="choice", choices=b[2], value=b[2][-1]), b[1])
        else:
            section("builtin.parts.StringPart", dict(
                name=name, description=b[3], value=b[2], writeable=b[4]), b[1])
        if b[1] % 2:
            out.append("# a comment")
    with open(os.path.join(d, "f%d.yaml" % i), "w") as fd:
        fd.write("\n".join(out) + "\n")
    return lines


@check.sub("files", cases, quick=1200, thorough=30000, shards=4, budget=20)
def run(case, t):
    d = tempfile.mkdtemp(prefix="p21")
    mods = {}
    for n in ("", ".blocks", ".includes"):
        mods[n] = sys.modules["malcolm.modules.vpmod" + n] = types.ModuleType(
            "malcolm.modules.vpmod" + n)
    try:
        run_in(case, d, mods, t)
    finally:
        for n in mods:
            del sys.modules["malcolm.modules.vpmod" + n]
        shutil.rmtree(d)


def run_in(case, d, mods, t):
    lines = {}
    for i in reversed(range(len(case["files"]))):
        f = case["files"][i]
        lines[i] = write(case, i, d)
        path = os.path.join(d, "f%d.yaml" % i)
        creator = (make_block_creator if f["block"] else make_include_creator)(path)
        require(creator.__name__ == "f%d" % i, "creator is called %s", creator.__name__)
        setattr(mods[".blocks" if f["block"] else ".includes"], "f%d" % i, creator)
        want = {"id"} | {p[0] for p in f["params"]} | ({"mri"} if f["block"] else set())
        require(set(creator.call_types) == want, "parameters %s, should be %s",
                sorted(creator.call_types), sorted(want))
    args = dict(case["args"], id="", mri="TOP")
    dup = None
    try:
        blocks, rest = expand(case, 0, args, "", lines, d)
        for mri, _, fields in blocks:
            names = [x[0] for x in fields]
            if len(set(names)) < len(names):
                dup = names
        if len({b[0] for b in blocks}) < len(blocks):
            dup = blocks
    except Refused as e:
        blocks, refused = None, e.args[0]
    if dup:
        t.label("same name twice")
        return
    top = getattr(mods[".blocks"], "f0")
    try:
        controllers = top(**args)
    except Exception as e:
        if blocks is None:
            require(refused in str(e), "refused with %s, which does not say %s", e,
                    refused)
            t.label("refused")
            return
        require(bad_choice(blocks), "refused: %s", e)
        t.label("bad choices")
        return
    require(blocks is not None, "missing or unknown arguments were accepted at %s",
            refused if blocks is None else "")
    if bad_choice(blocks):
        t.label("bad choices")
        return
    require([c.mri for c in controllers] == [b[0] for b in blocks],
            "blocks %s, should be %s", [c.mri for c in controllers],
            [b[0] for b in blocks])
    process = Process("p")
    process.add_controllers(controllers)
    process.start()
    try:
        for mri, doc, fields in blocks:
            ok, block = get(process, [mri])
            require(ok, "no block %s", mri)
            require(block["meta"]["description"] == doc, "description of %s is %s, "
                    "should be %s", mri, block["meta"]["description"], doc)
            got = [k for k in block if k not in ("typeid", "meta", "health")]
            require(got == [x[0] for x in fields], "%s has fields %s, should be %s", mri,
                    got, [x[0] for x in fields])
            for n, v, desc, writeable in fields:
                a = block[n]
                require(a["value"] == v, "%s %s is %s, should be %s", mri, n, a["value"],
                        v)
                require(a["meta"]["writeable"] == writeable, "writeable of %s", n)
                if isinstance(desc, list):
                    require(a["meta"]["choices"] == desc, "choices %s, should be %s",
                            a["meta"]["choices"], desc)
                else:
                    require(a["meta"]["description"] == desc, "description of %s is %s, "
                            "should be %s", n, a["meta"]["description"], desc)
    finally:
        process.stop(timeout=20)
    t.nontrivial(len(blocks) + sum(
        b[0] == "use" for b in case["files"][0]["body"]) > 1)


def bad_choice(blocks):
    """The same choice twice"""
    return any(isinstance(x[2], list) and len(set(x[2])) < len(x[2])
               for b in blocks for x in b[2])


def shipped():
    """The block definitions that come with the modules"""
    import importlib
    import pkgutil

    import malcolm.modules
    out = {}
    for m in pkgutil.iter_modules(malcolm.modules.__path__):
        try:
            pkg = importlib.import_module("malcolm.modules.%s.blocks" % m.name)
        except ImportError:
            continue
        for k, v in sorted(vars(pkg).items()):
            if hasattr(v, "yamlname"):
                out["%s.%s" % (m.name, k)] = v
    return out


@st.composite
def shipped_cases(draw):
    names = sorted(shipped())
    name = draw(st.sampled_from(names))
    args = {}
    for n, anno in shipped()[name].call_types.items():
        has_default = type(anno.default).__name__ not in ("object", "NoneType") and \
            repr(anno.default) != "NO_DEFAULT"
        if has_default and (draw(st.booleans()) or anno.typ is str and not any(
                x in n for x in ("mri", "prefix", "label"))):
            # some strings are numbers
            continue
        if n == "config_dir":
            args[n] = "/tmp"
        elif n == "name":
            args[n] = draw(st.sampled_from(["value", "axisX2"]))
        elif anno.typ is str:
            args[n] = draw(st.sampled_from(["BL:X", "A-B_1", "/tmp/nowhere", "P2"])) + \
                n.replace("_", "")
        elif anno.typ is int:
            args[n] = draw(st.integers(1, 9))
        else:
            args[n] = draw(st.sampled_from([0.001, 1.0]))
    return dict(name=name, args=args)


def texts(o, depth=3):
    if isinstance(o, str):
        yield o
    elif isinstance(o, dict) and depth:
        for v in o.values():
            yield from texts(v, depth - 1)
    elif isinstance(o, (list, tuple)) and depth:
        for v in o:
            yield from texts(v, depth - 1)
    elif depth and hasattr(o, "__dict__") and type(o).__module__.startswith("malcolm"):
        yield from texts(vars(o), depth - 1)


@check.sub("shipped", shipped_cases, quick=400, thorough=2000, budget=15)
def run_shipped(case, t):
    creator = shipped()[case["name"]]
    t.label(case["name"])
    controllers = creator(**case["args"])
    mris = [c.mri for c in controllers]
    require(len(set(mris)) == len(mris), "%s makes %s", case["name"], mris)
    top = case["args"].get("mri") or case["args"].get("mri_prefix")
    require(any(top in m for m in mris), "%s called with %s makes %s", case["name"],
            case["args"], mris)
    for c in controllers:
        for p in c.parts.values():
            for x in texts(p):
                require("$(" not in x, "%s: part %s of %s has %s", case["name"], p.name,
                        c.mri, x)
    t.nontrivial(len(controllers) > 1)
