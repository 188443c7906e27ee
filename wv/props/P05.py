"""Grid orientation of preprocessed data."""

import numpy as np
from hypothesis import strategies as st

from wv import case, raw
from wv.case import Violation

ID = "P05"
TECHNIQUE = "property-based testing: metamorphic relation between layouts of one data set, location-tagged oracle"
CASES = {"quick": 150, "thorough": 5000}
RULE = (
    "one case = one generated data set written in two orientations / longitude conventions / dimension orders and "
    "preprocessed from one source; non-trivial when the two layouts differ in orientation or convention"
)
ASSUMPTIONS = ["grids do not contain the same meridian twice"]


@st.composite
def strategy(draw, tier):
    source = draw(st.sampled_from(["era5", "era5", "cmip", "arco"]))
    spec = draw(
        raw.atmospheres(
            "pl" if source != "era5" or draw(st.booleans()) else "ml", freqs=("6h",), nt=(1, 2),
            cals=("proleptic_gregorian",) if source == "arco" else ("standard", "noleap"), tcw=True if source == "arco" else None,
        )
    )
    spec["source"] = source
    spec["start"] = spec["start"][:11] + "06:00"
    spec["pre"] = 0
    spec["levels"] = spec["levels"][:3]
    if spec["kind"] == "pl":
        spec["levels"] = sorted(set(spec["levels"]) | {300})
    if source == "cmip":
        spec["tcw"] = False
        spec["extra"] = []  # all common levels of CMIP files are used
    for n in ("a", "b"):
        spec[n] = draw(raw.layouts(cmip=source != "era5"))
        spec[n]["ztype"] = "f8"
        spec[n]["split"] = "one"
        spec[n]["sorted"] = draw(st.booleans())
    return spec


def run(spec, env):
    at = raw.Atmos(spec)
    res, orient = [], []
    for n in ("a", "b"):
        r, d = raw.run_source(env, at, spec["source"], spec[n], name=n)
        case.must(env, r, f"preprocess {spec['source']}")
        days = raw.read_days(d + "/pre")
        got, grid = raw.collect(env, days)
        rows, cols = raw.on_truth(env, at, grid)
        for day in days:
            bounds(env, day, spec["grid"])
        res.append({(k, f): got[k][f][rows][:, cols] for k in got for f in raw.OUT})
        orient.append((spec[n]["lat"], spec[n]["lon"], spec[n].get("lon_desc"), tuple(spec[n].get("perm", [0])), spec[n]["sorted"]))
        for t in at.req:
            want, mag = at.expected(t, whole=spec["source"] == "arco")
            for x in ("s_", "fx_", "fy_"):
                mag[x + "upper"] = mag[x + "lower"] = mag[x + "upper"] + mag[x + "lower"]
            for f in raw.OUT:
                raw.close(env, res[-1][raw.key(t), f], want[f], mag[f], f"{f} at {t} (layout {orient[-1]})", 4e-4 if spec["source"] == "arco" else 6e-5)
    for k in res[0]:
        a, b = res[0][k], res[1][k]
        if not np.allclose(a, b, rtol=2e-5, atol=1e-5 * np.abs(a).max()):
            raise Violation(f"{k} differs between the layouts {orient[0]} and {orient[1]}")
    lon = at.lon
    env.label(spec["source"], *orient[0][:2], "across-antimeridian" if (np.diff(lon) < 0).any() else "within",
              "across-greenwich" if (np.diff(lon % 360) < 0).any() else "east-or-west", "unsorted" if not spec["a"]["sorted"] else "sorted")
    env.nontrivial = orient[0] != orient[1]


def bounds(env, day, g):
    """Cell bounds lie half a cell on either side of the centres."""
    for name, step in (("latitude", g["dlat"]), ("longitude", g["dlon"])):
        b, c = day.vars[name + "_bnds"].astype(float), day.vars[name].astype(float)
        lo, hi = b.min(axis=1), b.max(axis=1)
        if np.abs(np.abs(np.diff(c)) - step).max() > 1e-3 and len(c) < 4:
            continue  # the columns are stored with a gap (a domain across the antimeridian)
        if not (np.allclose(lo, c - step / 2, atol=1e-3) and np.allclose(hi, c + step / 2, atol=1e-3)):
            raise Violation(f"{name}_bnds {b.tolist()} do not enclose cells of {step} degrees around {c.tolist()}")
