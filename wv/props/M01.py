"""Fractions of cells covered by a shapefile's polygon."""

import os

import netCDF4
import numpy as np
from hypothesis import strategies as st

from wv import case
from wv import world as W
from wv.case import Violation

ID = "M01"
TECHNIQUE = "property-based testing: independent polygon clipping, area conservation, orientation metamorphic relation, end-to-end runs"
CASES = {"quick": 420, "thorough": 20000}
RULE = (
    "one case = a generated polygon (concave, with a hole, in several parts, aligned with cell edges, tiny or larger than the "
    "grid) on a generated grid; non-trivial when at least one cell is covered in part"
)
ASSUMPTIONS = [
    "regular grids with at least two rows and columns; latitudes between -90 and 90; as documented, the file holds one polygon "
    "(possibly with holes or in several parts) inside -180, -80, 180, 80"
]


@st.composite
def strategy(draw, tier):
    dlat = draw(st.sampled_from([1.0, 0.25, 0.5, 2.0, 2.5, 0.1, 1.5]))
    dlon = draw(st.sampled_from([dlat, dlat, 1.0, 0.25, 2.5, 0.3]))
    ny, nx = draw(st.integers(2, 9)), draw(st.integers(2, 9))
    lat0 = draw(st.one_of(st.integers(-50, 55).map(float), st.sampled_from([54.9, 12.3, 0.5 * dlat])))
    lon0 = draw(st.one_of(st.integers(-170, 150).map(float), st.sampled_from([-0.5 * dlon, -180.0, 3.7])))
    shape = draw(st.sampled_from(["star", "star", "hole", "parts", "aligned", "tiny", "large", "sliver", "outside"]))
    return {
        "grid": {"ny": ny, "nx": nx, "lat0": lat0, "lon0": lon0, "dlat": dlat, "dlon": dlon, "ctype": draw(st.sampled_from(["f8", "f4"]))},
        "order": draw(st.sampled_from(["NS", "SN"])),
        "dims": draw(st.sampled_from(["yx", "xy"])),
        "roll": draw(st.sampled_from([0, 0, 0, 1, 3])),  # columns stored from another one on
        "shape": shape,
        "seed": draw(st.integers(0, 10**6)),
        "n": draw(st.integers(3, 12)),
        "where": [draw(st.floats(-0.2, 1.2)), draw(st.floats(-0.2, 1.2))],
        "size": draw(st.floats(0.05, 1.0)),
        "time": draw(st.booleans()),
        "run": draw(st.integers(0, 7)) == 7,
    }


def star(rng, cx, cy, rx, ry, n):
    a = np.sort((np.arange(n) + 0.8 * rng.random(n)) * 2 * np.pi / n)
    r = rng.uniform(0.25, 1, n)
    return [[cx + rx * x * np.cos(t), cy + ry * x * np.sin(t)] for t, x in zip(a, r)]


def close(ring, clockwise):
    p = np.array(ring)
    area = 0.5 * np.sum(p[:, 0] * np.roll(p[:, 1], -1) - np.roll(p[:, 0], -1) * p[:, 1])
    if (area > 0) == clockwise:
        ring = ring[::-1]
    return ring + [ring[0]]


def polygon(spec):
    """Closed rings: outer ones clockwise, holes the other way round."""
    g = spec["grid"]
    rng = np.random.default_rng(spec["seed"])
    width, height = g["nx"] * g["dlon"], g["ny"] * g["dlat"]
    west, south = g["lon0"] - g["dlon"] / 2, g["lat0"] - g["dlat"] / 2
    cx, cy = west + spec["where"][0] * width, south + spec["where"][1] * height
    rx, ry = spec["size"] * width / 2, spec["size"] * height / 2
    kind = spec["shape"]
    if kind == "tiny":
        rx, ry = 0.2 * spec["size"] * g["dlon"], 0.2 * spec["size"] * g["dlat"]
    if kind == "large":
        cx, cy, rx, ry = west + width / 2, south + height / 2, 1.5 * width, 1.5 * height
    if kind == "outside":
        cx = west - 3 * width if west - 5 * width > -180 else west + 4 * width
        cy = south + spec["where"][1] * height
    if kind == "sliver":
        rx = 0.01 * g["dlon"]
    rings = []
    if kind == "aligned":
        i0, i1 = sorted(rng.choice(g["nx"] + 1, 2, replace=False))
        j0, j1 = sorted(rng.choice(g["ny"] + 1, 2, replace=False))
        x0, x1, y0, y1 = west + i0 * g["dlon"], west + i1 * g["dlon"], south + j0 * g["dlat"], south + j1 * g["dlat"]
        rings.append([[x0, y0], [x0, y1], [x1, y1], [x1, y0]])
    elif kind == "parts":
        k = 2 + spec["n"] % 2
        for m in range(k):  # side by side
            rings.append(star(rng, cx + (2.2 * m - k) * rx / k, cy, rx / k, ry, spec["n"]))
    else:
        rings.append(star(rng, cx, cy, rx, ry, 24 if kind == "large" else max(spec["n"], 4)))
    if kind == "hole":
        rings.append([[cx + 0.5 * (x - cx), cy + 0.5 * (y - cy)] for x, y in rings[0]])
    xy = np.array([p for r in rings for p in r])
    move = [inside(xy[:, 0], -180, 180), inside(xy[:, 1], -80, 80)]
    rings = [[[float(x + move[0]), float(y + move[1])] for x, y in r] for r in rings]
    return [close(r, not (kind == "hole" and k == 1)) for k, r in enumerate(rings)]


def inside(x, lo, hi):
    """Shift that brings the polygon into the documented box."""
    return float(max(0.0, lo - x.min()) + min(0.0, hi - x.max()))


# ---- independent clipping (Sutherland-Hodgman, signed areas)


def clip(ring, axis, bound, keep_above):
    res = []
    n = len(ring)
    for k in range(n):
        a, b = ring[k], ring[(k + 1) % n]
        ia = a[axis] >= bound if keep_above else a[axis] <= bound
        ib = b[axis] >= bound if keep_above else b[axis] <= bound
        if ia:
            res.append(a)
        if ia != ib:
            s = (bound - a[axis]) / (b[axis] - a[axis])
            p = [a[0] + s * (b[0] - a[0]), a[1] + s * (b[1] - a[1])]
            p[axis] = bound
            res.append(p)
    return res


def area(ring):
    if len(ring) < 3:
        return 0.0
    x0, y0 = ring[0]
    return -0.5 * sum((a[0] - x0) * (b[1] - y0) - (b[0] - x0) * (a[1] - y0) for a, b in zip(ring, ring[1:] + ring[:1]))


def covered(rings, x0, y0, x1, y1):
    total = 0.0
    for r in rings:
        p = [list(q) for q in r[:-1]]
        for axis, bound, above in ((0, x0, True), (0, x1, False), (1, y0, True), (1, y1, False)):
            p = clip(p, axis, bound, above)
        total += area(p)
    return total


def fractions(rings, lat, lon, dlat, dlon):
    res = np.zeros((len(lat), len(lon)))
    for i, y in enumerate(lat):
        for j, x in enumerate(lon):
            res[i, j] = covered(rings, x - dlon / 2, y - dlat / 2, x + dlon / 2, y + dlat / 2) / (dlat * dlon)
    return res


def run(spec, env):
    import xarray as xr

    from wam2layers.utils.shapefile_mask import create_mask

    g = spec["grid"]
    lat = (g["lat0"] + g["dlat"] * np.arange(g["ny"])).astype(g["ctype"])
    lon = (g["lon0"] + g["dlon"] * np.arange(g["nx"])).astype(g["ctype"])
    if spec["order"] == "NS":
        lat = lat[::-1]
    lon = np.roll(lon, spec["roll"])
    rings = polygon(spec)
    if min(abs(area(r[:-1])) for r in rings) < 1e-12:
        raise case.Skip("degenerate polygon")
    d = env.dir()
    shp = W.write_shapefile(d + "/region.shp", rings)
    dims = ("latitude", "longitude") if spec["dims"] == "yx" else ("longitude", "latitude")
    if spec["time"]:
        dims = ("time",) + dims
    with netCDF4.Dataset(d + "/data.nc", "w") as nc:
        for n in dims:
            nc.createDimension(n, {"time": 2, "latitude": g["ny"], "longitude": g["nx"]}[n])
        for n, c in (("latitude", lat), ("longitude", lon)):
            nc.createVariable(n, c.dtype, (n,))[:] = c
        if spec["time"]:
            nc.createVariable("time", "f8", ("time",))[:] = [0, 1]
        nc.createVariable("precip", "f4", dims)[:] = 0
    with xr.open_dataset.real(d + "/data.nc") as ds:
        ds.load()
    try:
        mask = create_mask(ds, shp)
    except Exception as e:
        raise Violation(f"no mask is made of a valid {spec['shape']} polygon: {type(e).__name__} {e}") from e
    have_dims = tuple(mask.dims)
    order = [n for n in dims if n != "time"]
    if sorted(have_dims) != sorted(order):
        raise Violation(f"the mask has dimensions {have_dims}")
    if list(have_dims) != order:
        raise Violation(f"the mask's dimensions {have_dims} are ordered unlike the data's {order}")
    for n, c in (("latitude", lat), ("longitude", lon)):
        if not np.array_equal(mask[n].values, c):
            raise Violation(f"{n} of the mask {mask[n].values.tolist()} is not the data's {c.tolist()}")
    have = mask.transpose("latitude", "longitude").values
    want = fractions(rings, lat.astype(float), lon.astype(float), g["dlat"], g["dlon"])
    if np.isnan(have).any():
        raise Violation("missing values in the mask")
    tol = 1e-9 if g["ctype"] == "f8" else 4e-4  # the spacing of single precision coordinates is rounded
    err = np.abs(have - want)
    env.metric(g["ctype"], err.max())
    if err.max() > tol:
        i, j = np.unravel_index(np.argmax(err), err.shape)
        raise Violation(f"cell ({lat[i]}, {lon[j]}) has fraction {have[i, j]:.9g} instead of {want[i, j]:.9g} ({spec['shape']})")
    if have.min() < 0 or have.max() > 1 + 1e-12:
        raise Violation(f"fractions between {have.min()} and {have.max()}")
    whole = sum(area(r[:-1]) for r in rings)
    xs = np.array([p for r in rings for p in r])
    inside = (
        xs[:, 0].min() >= lon.min() - g["dlon"] / 2 and xs[:, 0].max() <= lon.max() + g["dlon"] / 2
        and xs[:, 1].min() >= lat.min() - g["dlat"] / 2 and xs[:, 1].max() <= lat.max() + g["dlat"] / 2
    )
    if inside and g["ctype"] == "f8":
        total = have.sum() * g["dlat"] * g["dlon"]
        if abs(total - whole) > 1e-9 * g["dlat"] * g["dlon"] + 1e-9 * whole:
            raise Violation(f"the covered area is {total} instead of the polygon's {whole}")
        env.label("inside")
    env.nontrivial = bool(((want > 1e-6) & (want < 1 - 1e-6)).any())
    env.label(spec["shape"], spec["order"], spec["dims"])
    if spec["run"] and spec["dims"] == "yx":
        end_to_end(spec, env, shp, want, lat, lon)


def end_to_end(spec, env, shp, want, lat, lon):
    """The mask that a tracking run writes and uses."""
    g = dict(spec["grid"])
    ny, nx = g["ny"], g["nx"]
    if nx < 4 or ny < 3 or spec["roll"]:
        return
    w = W.World({
        "dir": "backward", "grid": dict(g, lat0=g["lat0"] + g["dlat"] * (ny - 1)), "cal": "standard", "start": "2021-07-01T00:00", "inf": "1h",
        "dt": 1800, "outf": "1h", "off": 0, "steps": 2, "rest": 0, "tag": [0, 60], "periodic": False, "kvf": 3.0,
        "region": {"kind": "bbox", "box": [0, 0, 1, 1]}, "F": WIND,
    }).prepare(env)
    cfg = case.write_json(w.cfgfile, w.config(w.inputs, w.output, shp))
    case.must(env, case.cli(["track", cfg], w.dir_), "track with a shapefile")
    outs = W.Outputs(w.output)
    path = w.output + "/debug/tagging_region.nc"
    if not os.path.exists(path):
        raise Violation("the run does not write the mask to the debug folder")
    with netCDF4.Dataset(path) as nc:
        a = np.array(nc["tagging_region"][:])
        if nc["tagging_region"].dimensions != ("latitude", "longitude"):
            raise Violation(f"the written mask has dimensions {nc['tagging_region'].dimensions}")
        rows = [int(np.argmin(np.abs(np.array(nc["latitude"][:]) - y))) for y in lat]
        cols = [int(np.argmin(np.abs(np.array(nc["longitude"][:]) - x))) for x in lon]
    a = a[rows][:, cols]
    tol = 1e-9 if g["ctype"] == "f8" else 4e-4
    if np.abs(a - want).max() > tol:
        raise Violation("the mask in the debug folder is not the covered fraction")
    order = [int(np.argmin(np.abs(lat - y))) for y in w.lat]
    for t, _, steps in W.intervals(w):
        o = outs.by_key.get(W.tkey(t))
        env.check(o is not None, f"no output for {t}")
        top = sum(W.records(w, "precip", th) * w.dt for _, th, _ in steps)
        bad = np.abs(o.field("tagged_precip") - top * want[order]) > 1e-5 * top + 4e-4 * (g["ctype"] == "f4") * top
        if bad.any():
            raise Violation(f"the precipitation tagged until {t} is not precipitation times covered fraction")
    env.label("run")


WIND = {
    "seed": 3, "smooth": False, "wind_upper": "noise", "wind_lower": "uniform", "courant": 0.1, "zero_frac": 0.0, "s_upper": 10.0,
    "s_lower": 15.0, "s_amp": 0.3, "varying": True, "reversing": False, "jump": False, "wet_frac": 1.0, "evap_frac": 1.0,
    "p_int": 0.02, "e_int": 0.02,
}
