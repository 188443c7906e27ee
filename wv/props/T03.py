"""Exactly the requested moisture is tagged."""

import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Violation

ID = "T03"
TECHNIQUE = "property-based testing: model of region weights and tagging window over generated regions and schedules"
CASES = {"quick": 230, "thorough": 8000}
RULE = (
    "one case = one experiment with a generated region (box, box across the antimeridian, netCDF weights, moving netCDF "
    "region, rectangle shapefile), tagging window and optional tracking domain; non-trivial when something is tagged and "
    "the region or the window excludes something"
)
ASSUMPTIONS = ["region files are on the grid of the preprocessed data", "shapefiles lie within one longitude range"]


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=9 if tier == "quick" else 24, kinds=("bbox",)))
    g = spec["grid"]
    ny, nx = g["ny"], g["nx"]
    kind = draw(st.sampled_from(["wrap", "bbox", "mask", "dyn", "shp"]))
    span = spec["steps"] * spec["dt"] // 60
    if kind == "wrap":
        spec["region"] = {"kind": "bbox", "box": draw(W.boxes(g, allow_wrap=True))}
    elif kind == "mask":
        spec["region"] = {"kind": "mask", "w": W.weights(draw, ny, nx)}
    elif kind == "dyn":
        spec["region"] = W.dyn_region(draw, ny, nx, span)
        spec["region"]["times"] = [t + spec["off"] // 5 * 5 for t in spec["region"]["times"]]
    elif kind == "shp":
        spec["region"] = {"kind": "shp", "frac": [draw(st.floats(0, 1).map(lambda x: round(x, 3))) for _ in range(4)]}
    spec["region_dtype"] = draw(st.sampled_from(["f8", "f4"]))
    if draw(st.integers(0, 3)) == 0:
        spec["domain"] = draw(W.domains(g, wrap=spec["periodic"] and draw(st.booleans())))
        if spec["domain"]:
            spec["periodic"] = False
    return spec


def rectangle(w, frac):
    """A rectangle inside the covered part of the grid, clear of the poles."""
    g = w.spec["grid"]
    lat, lon = w.lat.astype(float), w.lon.astype(float)
    d, e = g["dlat"], g["dlon"]
    full = [y for y in lat if abs(y) + d / 2 <= 90 and abs(y) <= 79]
    if not full:
        return None
    lo, hi = max(-80, min(full) - d / 2), min(80, max(full) + d / 2)
    s, n = sorted(lo + f * (hi - lo) for f in frac[:2])
    a, b = max(-180, lon[0] - e / 2), min(180, lon[-1] + e / 2)
    west, east = sorted(a + f * (b - a) for f in frac[2:])
    if n - s < 0.05 * d or east - west < 0.05 * e:
        s, n, west, east = lo, hi, a, b
    return west, s, east, n


def overlap(centres, width, lo, hi):
    c = np.asarray(centres, float)
    return np.clip(np.minimum(c + width / 2, hi) - np.maximum(c - width / 2, lo), 0, None) / width


def run(spec, env):
    w = W.World(spec)
    g = spec["grid"]
    slack = 0.0
    if w.region["kind"] == "shp":
        box = rectangle(w, w.region["frac"])
        if box is None:
            w.region = {"kind": "mask", "w": np.ones((g["ny"], g["nx"])).tolist()}
        else:
            west, s, east, n = box
            ring = [(west, s), (west, n), (east, n), (east, s), (west, s)]
            w.region = {"kind": "shp", "rings": [ring]}
            cover = overlap(w.lat, g["dlat"], s, n)[:, None] * overlap(w.lon, g["dlon"], west, east)[None, :]
            slack = 1e-6 if w.lat.dtype == np.float64 else 1e-3
    shp = w.region["kind"] == "shp"
    W.regime_labels(env, w)
    env.label("domain" if spec.get("domain") else "full-grid")
    if w.region["kind"] == "bbox":
        env.label("wrapping-box" if w.region["box"][0] > w.region["box"][2] else "plain-box")
    outs = w.run(env)
    name = W.tagged_name(w.direction)
    source = "evap" if w.direction == "forward" else "precip"
    cut = False
    total = 0.0
    for t, _, steps in W.intervals(w):
        o = outs.by_key.get(W.tkey(t))
        env.check(o is not None, f"no output for {t}")
        rows, cols = W.cells_of(o, w)
        want = np.zeros((g["ny"], g["nx"]))
        top = np.zeros_like(want)
        for ta, th, _ in steps:
            flux = W.records(w, source, th) * w.dt
            top += flux
            if w.tag0 <= ta <= w.tag1:
                weight = cover if shp else w.mask(ta)
                cut |= bool((weight < 1).any())
                want += weight * flux
            else:
                cut = True
        want, top = want[np.ix_(rows, cols)], top[np.ix_(rows, cols)]
        got = o.field(name)
        if got.shape != want.shape:
            raise Violation(f"{o.name}: {name} has shape {got.shape}, expected {want.shape}")
        bad = np.abs(got - want) > (4e-6 * want + slack * top + (3e-7 * top.max() if shp else 1e-12 * top.max()))
        if bad.any() or not np.isfinite(got).all():
            i = tuple(np.argwhere(bad | ~np.isfinite(got))[0])
            raise Violation(
                f"{o.name}: {name} at {list(map(int, i))} is {got[i]:.8g}, requested {want[i]:.8g} of {top[i]:.8g}"
            )
        total += want.sum()
    env.nontrivial = bool(total > 0 and cut)
