"""Scans for motors"""
import numpy as np
from hypothesis import strategies as st
from scanpointgenerator import (
    ArrayGenerator, CompoundGenerator, LineGenerator, LissajousGenerator, Mutator,
    SpiralGenerator, StaticPointGenerator)

from malcolm.modules.pmac.util import AlternatingDelayAfterMutator


class Durations(Mutator):
    """Some points take longer"""

    factors = [1]

    def mutate(self, point, idx):
        f = np.array(self.factors)
        point.duration = point.duration * f[np.array(idx) % len(f)]
        return point

    def to_dict(self):
        return {}


@st.composite
def axis_line(draw, name, n):
    start = draw(st.integers(-50, 50)) / 10
    step = draw(st.sampled_from([0.1, -0.1, 0.05, 0.25, -0.3, 1.0, 0.0]))
    if n == 1:
        return ["line", name, start, start + draw(st.sampled_from([0.0, 0.5])), 1]
    return ["line", name, start, start + step * (n - 1), n]


@st.composite
def generators(draw, shrink_size=False):
    """[(kind, ...)] outer first"""
    out = []
    names = ["x", "y", "z"]
    depth = draw(st.integers(1, 3))
    for d in range(depth):
        last = d == depth - 1
        n = draw(st.integers(1, 6 if depth > 1 else 25))
        kind = draw(st.sampled_from(["line"] * 5 + ["curve", "array", "static"]))
        if kind == "curve" and len(names) >= 2:
            a, b = names.pop(0), names.pop(0)
            out.append(["curve", draw(st.sampled_from(["spiral", "lissajous"])), a, b,
                        draw(st.integers(-20, 20)) / 10, max(n, 3),
                        draw(st.sampled_from([0.5, 1.0, 2.0]))])
        elif kind == "array" and names:
            a = names.pop(0)
            if draw(st.booleans()):
                values = draw(st.lists(st.integers(-30, 30), min_size=2,
                                       max_size=max(2, n)))
            else:
                # not quite a line
                values = [draw(st.integers(-9, 9))]
                for step in draw(st.lists(st.sampled_from([8, 8, 8, 9, 7]), min_size=1,
                                          max_size=max(2, n))):
                    values.append(values[-1] + step)
            out.append(["array", a, values])
        elif kind == "line" and names:
            out.append(draw(axis_line(names.pop(0), n)))
        else:
            out.append(["static", min(n, 4)])
        out[-1].append(dict(alternate=draw(st.booleans())))
    return out


def make_generator(case):
    gens = []
    for g in case["gens"]:
        alt = g[-1]["alternate"]
        if g[0] == "line":
            gens.append(LineGenerator(g[1], "mm", g[2], g[3], g[4], alternate=alt))
        elif g[0] == "array":
            gens.append(ArrayGenerator(g[1], "mm", [v / 10 for v in g[2]],
                                       alternate=alt))
        elif g[0] == "static":
            gens.append(StaticPointGenerator(g[1]))
        elif g[1] == "spiral":
            # about g[5] points
            gens.append(SpiralGenerator(
                [g[2], g[3]], ["mm", "mm"], [g[4], -g[4]], g[6],
                scale=2 * g[6] / max(1.0, (g[5] / 1.0) ** 0.5), alternate=alt))
        else:
            gens.append(LissajousGenerator(
                [g[2], g[3]], ["mm", "mm"], [g[4], g[4] / 2], [g[6], g[6] * 2],
                lobes=1, size=g[5], alternate=alt))
    mutators = []
    if case.get("alternating"):
        mutators.append(AlternatingDelayAfterMutator(*case["alternating"]))
    if case.get("durations"):
        longer = Durations()
        longer.factors = case["durations"]
        mutators.append(longer)
    g = CompoundGenerator(gens, [], mutators, case["duration"], case["continuous"],
                          case["delay"])
    g.prepare()
    get_points = g.get_points

    def fixed(start, finish):
        # scanpointgenerator gives a single point of a reversed row the wrong bounds
        if finish - start == 1 and start > 0:
            return get_points(start - 1, finish)[1:]
        return get_points(start, finish)

    g.get_points = fixed
    return g
