"""Tracking follows the documented two-layer scheme: differential against an independent model."""

import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Violation
from wv.ref import Ref

ID = "T04"
TECHNIQUE = "property-based testing: differential against an independent reference model"
CASES = {"quick": 240, "thorough": 8000}
RULE = (
    "one case = one generated experiment run through `wam2layers track` and the reference; non-trivial when "
    "moisture is tagged, the run has at least 3 steps and some tracked moisture left its layer or cell"
)


@st.composite
def strategy(draw, tier):
    return W.variants(draw, draw(W.worlds(max_steps=14 if tier == "quick" else 30)))


def deviations(outs, ref, scale):
    """Largest deviation relative to scale, and where."""
    worst, where = 0.0, ""
    for t, fields in ref:
        o = outs.by_key.get(W.tkey(t))
        if o is None:
            return np.inf, f"no output for {t}"
        for name, x in fields.items():
            if name not in o.vars:
                return np.inf, f"{name} missing in {o.name}"
            y = o.field(name)
            if y.shape != x.shape or not np.isfinite(y).all():
                return np.inf, f"{name} in {o.name}: shape {y.shape}, not finite {int((~np.isfinite(y)).sum())}"
            d = np.abs(x - y) / (scale + np.abs(x))
            if d.max() > worst:
                i = np.unravel_index(np.argmax(d), d.shape)
                worst = d.max()
                where = f"{name} in {o.name} at {list(map(int, i))}: {y[i]:.8g}, scheme gives {x[i]:.8g}"
    return worst, where


def run(spec, env):
    w = W.World(spec)
    W.regime_labels(env, w)
    outs = w.run(env)
    w = W.as_tracked(env, w)
    scale = W.scale_of(w)
    good, where = deviations(outs, Ref(w).run(), scale)
    steps = len(w.step_list())
    TOL = W.tolerance(w)
    quirk, where_q = deviations(outs, Ref(w, surface_quirk=True).run(), scale)
    dev = min(good, quirk)
    if dev > TOL:
        raise Violation(f"deviates from the scheme by {dev:.2g}: {where_q if quirk < good else where}")
    env.metric(f"dev/tol {w.lat.dtype}", dev / TOL)
    used = "documented"
    if good > TOL:
        env.known_finding("surface-flux-per-area", where)
        used = "quirk"
    env.label(used, f"steps>={steps // 5 * 5}")
    tag = sum(o.field(W.tagged_name(w.direction)).sum() for o in outs.files)
    env.nontrivial = bool(steps >= 3 and tag > 0)
