"""Model-level preprocessing."""

import os

import numpy as np
from hypothesis import strategies as st

from wv import case, raw
from wv.case import Violation

ID = "P01"
TECHNIQUE = "property-based testing: independent column integration in float64 as oracle, invariants of the column total"
CASES = {"quick": 260, "thorough": 8000}
RULE = (
    "one case = one generated model-level data set in a generated file layout, preprocessed by the command line; "
    "non-trivial when at least two levels are used"
)
ASSUMPTIONS = [
    "layers of a subset of levels meet halfway between the neighbouring chosen full levels (in a and b)",
    "float32 output: relative tolerance 3e-6 of the summed magnitudes",
]


@st.composite
def strategy(draw, tier):
    spec = draw(raw.atmospheres("ml"))
    spec["lay"] = draw(raw.layouts())
    if spec["lay"]["names"] == "newpl":
        spec["lay"]["names"] = "new"
    if draw(st.integers(0, 9)) == 9:
        spec["all"] = draw(st.sampled_from(["All", "all"]))
        spec["levels"], spec["extra"] = list(range(1, 138)), []
    spec["boundary"] = draw(st.one_of(st.none(), st.sampled_from([111, 90, 120, 136, 137, 1, 0]), st.sampled_from(sorted(spec["levels"]))))
    return spec


def run(spec, env):
    at = raw.Atmos(spec)
    d = env.dir()
    tmpl = raw.write_era5(at, d + "/raw", spec["lay"])
    extra = {} if spec["boundary"] is None else {"level_layer_boundary": spec["boundary"]}
    if spec.get("all"):
        extra["levels"] = spec["all"]
    cfg = case.write_json(d + "/config.yaml", raw.config(at, tmpl, d + "/pre", d + "/out", **extra))
    case.must(env, case.cli(["preprocess", "era5", cfg], d), "preprocess era5")
    days = raw.read_days(d + "/pre")
    boundary = 111 if spec["boundary"] is None else spec["boundary"]
    got = raw.verify(env, at, days, boundary=boundary)
    if "tcw" in at.f:  # the column total is the given one
        for t in at.req:
            total = got[raw.key(t), "s_upper"] + got[raw.key(t), "s_lower"]
            tcw = at.f["tcw"][at.times.index(t)]
            raw.close(env, total, tcw, tcw, f"s_upper + s_lower at {t} compared with tcw", 1e-6)
    for day in days:
        for name, unit in (("s_upper", "kg m-2"), ("s_lower", "kg m-2"), ("fx_upper", "kg m-1 s-1"), ("fy_lower", "kg m-1 s-1")):
            if day.units[name] != unit:
                raise Violation(f"{name} has units {day.units[name]}")
    env.label("tcw" if "tcw" in at.f else "no-tcw", spec["lay"]["names"], spec["lay"]["split"], spec["lay"]["lat"],
              "all" if spec.get("all") else "subset", "permuted" if any(spec["lay"]["perm"]) else "plain",
              "ordered" if spec["levels"] == sorted(spec["levels"]) else "unordered")
    env.nontrivial = len(spec["levels"]) >= 2
