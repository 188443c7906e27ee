"""A tracking subdomain equals tracking pre-cropped data."""

import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Skip, Violation

ID = "T07"
TECHNIQUE = "property-based testing: differential between tracking_domain and pre-cropped inputs"
CASES = {"quick": 150, "thorough": 5000}
RULE = (
    "one case = one experiment with a generated tracking domain (edges on and between cell centres, also across the "
    "antimeridian) and its pre-cropped copy; non-trivial when moisture is tagged inside the domain and the domain is smaller "
    "than the grid or rolled"
)
ASSUMPTIONS = ["domains contain at least three rows and columns", "boxes with west > east are used on global grids"]


@st.composite
def strategy(draw, tier):
    wrap = draw(st.sampled_from([True, True, False]))
    spec = draw(
        W.worlds(
            max_steps=7 if tier == "quick" else 16, periodic=True if wrap else None, kinds=("bbox", "mask"),
            grid_kw={"ny": (5, 9), "nx": (5, 10)},
        )
    )
    spec["domain"] = draw(W.domains(spec["grid"], wrap=wrap, min_size=draw(st.sampled_from([3, 4]))))
    spec["periodic"] = False
    g = spec["grid"]
    kind = draw(st.sampled_from(["as-is", "as-is", "wrapbox", "dyn"]))
    if kind == "dyn":
        spec["region"] = W.dyn_region(draw, g["ny"], g["nx"], spec["steps"] * spec["dt"] // 60)
    elif kind == "wrapbox":
        spec["region"] = {"kind": "bbox", "box": draw(W.boxes(g, allow_wrap=True))}
    return spec


def run(spec, env):
    if not spec["domain"]:
        raise Skip("no domain fits")
    w = W.World(spec)
    rows, cols, lon = W.domain_cells(w, spec["domain"])
    if len(rows) < 3 or len(cols) < 3:
        raise Skip("domain too small")
    W.regime_labels(env, w)
    got = w.run(env)
    v = W.cropped(w, rows, cols, lon)
    want = v.run(env)
    wrapped = spec["domain"][0] > spec["domain"][2]
    env.label("across-antimeridian" if wrapped else "plain", "all-columns" if len(cols) == len(w.lon) else "part")
    for o in got.files:
        la, lo = o.vars["latitude"].astype(float), o.vars["longitude"].astype(float)
        if la.tolist() != w.lat[rows].astype(float).tolist():
            raise Violation(f"{o.name}: latitudes {la.tolist()}, cells in the domain are at {w.lat[rows].tolist()}")
        if lo.tolist() != w.lon[cols].astype(float).tolist():
            raise Violation(f"{o.name}: longitudes {lo.tolist()}, cells in the domain are at {w.lon[cols].tolist()}")
    W.compare_all(env, got, want, w, "subdomain differs from cropped inputs", rtol=1e-5 + 2 * W.tolerance(v))
    env.nontrivial = W.tagged_anything(want, w.direction) and (
        wrapped or len(rows) < len(w.lat) or len(cols) < len(w.lon)
    )
