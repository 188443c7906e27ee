"""Results do not depend on where the map is cut or which way it faces."""

import numpy as np
from hypothesis import strategies as st

from wv import world as W

ID = "T06"
TECHNIQUE = "property-based testing: metamorphic rotation, translation and mirror relations"
CASES = {"quick": 130, "thorough": 5000}
RULE = (
    "one case = one experiment and one or two rotated, translated or mirrored copies; non-trivial when moisture is tagged "
    "and the transformation changes the inputs"
)
ASSUMPTIONS = ["translations keep all longitudes within [-180, 180)"]


@st.composite
def strategy(draw, tier):
    op = draw(st.sampled_from(["roll", "roll", "shift", "ew", "ns"]))
    spec = draw(
        W.worlds(max_steps=8 if tier == "quick" else 20, periodic=True if op == "roll" else None, kinds=("bbox", "mask", "mask"))
    )
    if op != "roll":
        spec["grid"]["ctype"] = "f8"
    if op == "ns" and draw(st.booleans()):
        g = spec["grid"]
        g["lat0"] = -g["lat0"] + g["dlat"] * (g["ny"] - 1) if draw(st.booleans()) else g["lat0"]
    spec["op"] = op
    spec["k"] = draw(st.integers(1, spec["grid"]["nx"] - 1))
    spec["second"] = draw(st.sampled_from(["", "ew", "ns"]))
    return spec


def run(spec, env):
    w = W.as_mask(W.World(spec))
    W.regime_labels(env, w)
    op = spec["op"]
    base = w.run(env)
    tf = lambda a: a
    if op == "roll":
        v = W.rolled(w, spec["k"])
        tf = lambda a: np.roll(a, spec["k"], axis=-1)
    elif op == "shift":
        v = w.copy()
        lo, hi = -180 - w.lon.min(), 180 - w.lon.max()
        shift = lo + (hi - lo) * (spec["k"] / spec["grid"]["nx"]) * 0.999
        v.lon = w.lon + shift
        if v.lon.max() >= 180 or v.lon.min() < -180:
            v.lon = w.lon.copy()
    elif op == "ew":
        v, tf = W.mirror_ew(w), lambda a: a[..., ::-1]
    else:
        v, tf = W.mirror_ns(w), lambda a: a[..., ::-1, :]
    second = spec["second"] if spec["grid"]["ctype"] == "f8" and spec["second"] != op else ""
    if second:
        f = tf
        if second == "ew":
            v, tf = W.mirror_ew(v), lambda a: f(a)[..., ::-1]
        else:
            v, tf = W.mirror_ns(v), lambda a: f(a)[..., ::-1, :]
    got = v.run(env)
    env.label(op + ("+" + second if second else ""))
    what = {"roll": f"rotated by {spec['k']} columns", "shift": "shifted in longitude"}.get(op, f"mirrored {op}")
    W.compare_all(env, base, got, w, what + (f", mirrored {second}" if second else ""), tf=tf, rtol=1e-5 + 2 * W.tolerance(w))
    env.nontrivial = W.tagged_anything(base, w.direction)
