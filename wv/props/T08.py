"""Tracking is linear in what is tagged."""

import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Skip, Violation

ID = "T08"
TECHNIQUE = "property-based testing: superposition and scaling relations"
CASES = {"quick": 110, "thorough": 4000}
RULE = (
    "one case = one gentle experiment with its region weights split into parts, scaled, or its tagging window cut in two; "
    "cases in which anything is clipped are skipped; non-trivial when at least two parts tag moisture"
)
ASSUMPTIONS = ["no gains, no interior losses and no relative content above 1 (otherwise the case is skipped)"]


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=8 if tier == "quick" else 20, regime="gentle", kinds=("mask", "bbox")))
    F = spec["F"]
    F["s_upper"], F["s_lower"] = draw(st.sampled_from([(10.0, 15.0), (5.0, 20.0), (12.0, 8.0)]))
    spec["op"] = draw(st.sampled_from(["parts", "parts", "scale", "window"]))
    spec["cutseed"] = draw(st.integers(0, 10**6))
    spec["factor"] = draw(st.sampled_from([0.5, 0.1, 0.75, 0.01]))
    if draw(st.integers(0, 3)):
        spec["tag"] = [-60, spec["steps"] * spec["dt"] // 60 + 60]
    return spec


def clipped(outs, w):
    edge = np.ones((len(w.lat), len(w.lon)), bool)
    edge[1:-1, (slice(None) if w.periodic else slice(1, -1))] = False
    for o in outs.files:
        if o.field("gains").any() or o.field("losses")[~edge].any():
            return True
    return False


def run(spec, env):
    w = W.as_mask(W.World(spec))
    if w.region["kind"] != "mask":
        raise Skip("region")
    base = w.run(env)
    if clipped(base, w):
        raise Skip("clipped")
    mask = np.asarray(w.region["w"])
    rng = np.random.default_rng(spec["cutseed"])
    op = spec["op"]
    runs = []
    if op == "parts":
        n = int(rng.integers(2, 4))
        share = rng.random((n,) + mask.shape) * (rng.random((n,) + mask.shape) < 0.7)
        share[0] += share.sum(0) == 0
        share /= share.sum(0)
        for k in range(n):
            v = w.copy()
            v.region["w"] = (mask * share[k]).tolist()
            runs.append((1.0, v.run(env)))
    elif op == "scale":
        v = w.copy()
        v.region["w"] = (mask * spec["factor"]).tolist()
        runs.append((1 / spec["factor"], v.run(env)))
    else:
        steps = w.step_list()
        marks = sorted(s[0] for s in steps)
        cut = marks[int(rng.integers(0, len(marks)))]
        one, two = w.copy(), w.copy()
        lo, hi = w.tag0, w.tag1
        if not (lo <= cut < hi):
            raise Skip("window not cut")
        one.tag1, two.tag0 = cut, cut + W.minutes(1)
        runs = [(1.0, one.run(env)), (1.0, two.run(env))]
    for _, r in runs:
        W.same_files(env, r, base, op)
        if clipped(r, w):
            raise Skip("clipped in a part")
    biggest = max(max(np.abs(o.field(n)).max() for n in W.fields_of(w.direction)) for o in base.files) if len(base) else 0
    for key, o in base.by_key.items():
        for name in W.fields_of(w.direction):
            want = o.field(name)
            got = sum(f * r.by_key[key].field(name) for f, r in runs)
            dev = np.abs(got - want).max()
            if biggest:
                env.metric("dev", dev / biggest)
            if not dev <= 2e-5 * biggest:
                i = np.unravel_index(np.argmax(np.abs(got - want)), want.shape)
                raise Violation(f"{op}: {name} in {o.name} at {list(map(int, i))}: whole {want[i]:.8g}, from parts {got[i]:.8g}")
    env.label(op, w.direction, "periodic" if w.periodic else "bounded")
    env.nontrivial = biggest > 0 and all(W.tagged_anything(r, w.direction) for _, r in runs)
