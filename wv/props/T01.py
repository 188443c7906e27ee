"""Tracking conserves moisture in every output interval."""

import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Violation

ID = "T01"
TECHNIQUE = "property-based testing: budget invariant over generated experiments"
CASES = {"quick": 240, "thorough": 8000}
RULE = (
    "one case = one generated experiment (any regime, with or without a tracking domain); non-trivial when "
    "tagged moisture is positive and at least two of tracked, lost, gained, stored are positive"
)
ASSUMPTIONS = ["storages positive, precipitation and evaporation non-negative (as preprocessing delivers them)"]


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=12 if tier == "quick" else 30))
    if draw(st.integers(0, 3)) == 0:
        spec["domain"] = draw(W.domains(spec["grid"], wrap=spec["periodic"] and draw(st.booleans())))
        if spec["domain"]:
            spec["periodic"] = False
    if draw(st.integers(0, 3)) == 0:  # more rain (evaporation) in a step than there is water: both layers run dry at once
        F = spec["F"]
        F["p_int" if spec["dir"] == "forward" else "e_int"] = draw(st.sampled_from([2.0, 4.0, 8.0]))
        F["courant"] = min(F["courant"], draw(st.sampled_from([0.05, 0.3])))
        F["evap_frac"] = 1.0
        spec["kvf"] = draw(st.sampled_from([3.0, 7.5]))
    return spec


def parts(o, direction, area):
    tracked = ("p_track_upper", "p_track_lower") if direction == "forward" else ("e_track",)
    s = lambda names: float(sum((o.field(n) * area).sum() for n in names))
    return {
        "tagged": s([W.tagged_name(direction)]),
        "tracked": s(tracked),
        "stored": s(W.REST),
        "losses": s(["losses"]),
        "gains": s(["gains"]),
    }


def run(spec, env):
    w = W.World(spec)
    W.regime_labels(env, w)
    outs = w.run(env)
    env.check(len(outs) > 0, "no output written")
    g = spec["grid"]
    before, any_tag, kinds = 0.0, 0.0, set()
    for o in outs.in_order(w.direction):
        area = W.cell_area(o.vars["latitude"], o.vars["longitude"], g["dlat"], g["dlon"])[:, None]
        p = parts(o, w.direction, area)
        if not all(np.isfinite(v) for v in p.values()):
            raise Violation(f"{o.name}: budget terms not finite: {p}")
        rest = p["tagged"] - p["tracked"] - (p["stored"] - before) - p["losses"] + p["gains"]
        size = sum(p.values()) + before
        if size > 0:
            env.metric("residual/tol", abs(rest) / size / W.tolerance(w))
        if abs(rest) > W.tolerance(w) * size:
            raise Violation(
                f"{o.name}: budget open by {rest / size:.3g} of its terms: " + ", ".join(f"{k}={v:.6g}" for k, v in p.items())
                + f", stored before={before:.6g}"
            )
        before = p["stored"]
        any_tag += p["tagged"]
        kinds |= {k for k in ("tracked", "stored", "losses", "gains") if p[k] > 0}
    env.label(*sorted(kinds), "domain" if spec.get("domain") else "full-grid")
    env.nontrivial = any_tag > 0 and len(kinds) >= 2
