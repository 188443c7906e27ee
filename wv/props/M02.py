"""Tagging-region designers."""

import datetime as dtm
import os
import sys
import types

import cftime
import netCDF4
import numpy as np
from hypothesis import strategies as st

from wv import case
from wv import world as W
from wv.case import Violation

ID = "M02"
TECHNIQUE = "property-based testing: independent cell-in-request model, stored-file invariants, end-to-end tracking with the made region"
CASES = {"quick": 500, "thorough": 12000}
RULE = (
    "one case = a reference grid (any orientation, global or regional, either longitude convention) and a generated point, track, "
    "named-region selection or shapefile selection; non-trivial when some cells are inside and some outside"
)
ASSUMPTIONS = [
    "no plot is asked for (cartopy is not installed; a stand-in is imported); the downloadable AR6 regions are replaced by "
    "generated ones; cells within 1e-6 degrees of a polygon's edge are not judged",
]

NAMED = {"srex": 26, "giorgi": 21, "prudence": 8}


@st.composite
def grids(draw):
    d = draw(st.sampled_from([1.0, 0.5, 2.5, 0.25, 5.0, 10.0]))
    if d >= 5 and draw(st.booleans()):
        nx, lon0 = int(360 / d), draw(st.sampled_from([-180.0, 0.0]))
        ny, lat0 = int(180 / d) + 1, -90.0
    else:
        nx, ny = draw(st.integers(2, 12)), draw(st.integers(2, 10))
        lon0 = d * round(draw(st.one_of(st.sampled_from([-180.0, 0.0, 175.0, -5.0, 355.0, 170.0]), st.floats(-170, 300))) / d)
        lat0 = d * round(draw(st.one_of(st.sampled_from([-90.0, 0.0, 40.0]), st.floats(-85, 60))) / d)
        ny = min(ny, int((90 - lat0) / d) + 1)
        ny = max(2, ny)
        if lon0 < 0 or lon0 + (nx - 1) * d > 360:
            lon0 = min(lon0, 180 - d * nx)
    return {
        "d": d, "nx": nx, "ny": ny, "lon0": lon0, "lat0": lat0, "order": draw(st.sampled_from(["NS", "SN"])),
        "ctype": draw(st.sampled_from(["f8", "f4"])),
    }


@st.composite
def strategy(draw, tier):
    g = draw(grids())
    kind = draw(st.sampled_from(["point", "track", "named", "ar6", "shapes", "point", "run"]))
    spec = {"kind": kind, "grid": g, "seed": draw(st.integers(0, 10**6)), "other": draw(st.booleans())}
    near = lambda: [
        g["lat0"] + draw(st.integers(-8, 8 * g["ny"] + 8)) * g["d"] / 8, g["lon0"] + draw(st.integers(-8, 8 * g["nx"] + 8)) * g["d"] / 8
    ]
    point = lambda: near() if draw(st.integers(0, 3)) else [draw(st.floats(-90, 90)), draw(st.floats(-180, 360))]
    spec["radius"] = draw(st.one_of(st.integers(0, 24).map(lambda n: n * g["d"] / 8), st.floats(0, 30), st.sampled_from([10, 1, 90, 180])))
    if kind in ("point", "run"):
        spec["point"] = point()
    elif kind == "track":
        n = draw(st.integers(1, 6))
        spec["points"] = [point() for _ in range(n)]
        spec["times"] = draw(st.lists(st.integers(0, 5000), min_size=n, max_size=n, unique=True))
        if draw(st.booleans()):
            spec["times"].sort()
        spec["ttype"] = draw(st.sampled_from(["pandas", "numpy", "cftime"]))
        spec["cal"] = draw(st.sampled_from(["noleap", "360_day", "standard"]))
    elif kind == "named":
        spec["source"] = draw(st.sampled_from(sorted(NAMED)))
        k = NAMED[spec["source"]]
        spec["regions"] = draw(st.lists(st.integers(1, k), min_size=1, max_size=4, unique=True))
        if draw(st.booleans()):  # a coarse grid around the world always meets some
            spec["grid"] = dict(g, d=10.0, nx=36, ny=19, lat0=-90.0, lon0=draw(st.sampled_from([-180.0, 0.0])))
    else:
        n = draw(st.integers(1, 5))
        spec["n"] = n
        spec["corners"] = [draw(st.integers(3, 9)) for _ in range(n)]
        spec["regions"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
        spec["far"] = [draw(st.integers(0, 3)) == 0 for _ in range(n)]
        spec["together"] = draw(st.booleans())
        if kind == "shapes" and draw(st.integers(0, 2)) == 2:
            spec["regions"] = False
    return spec


# ------------------------------------------------------------------ the program's part


def designer():
    """The module, with a stand-in for the plotting package that is not installed."""
    try:
        import cartopy  # noqa: F401
    except ImportError:
        top, crs, feature = (types.ModuleType(n) for n in ("cartopy", "cartopy.crs", "cartopy.feature"))
        top.crs, top.feature = crs, feature
        sys.modules.setdefault("cartopy", top)
        sys.modules.setdefault("cartopy.crs", crs)
        sys.modules.setdefault("cartopy.feature", feature)
    from wam2layers.utils import tagging_region

    return tagging_region


# ------------------------------------------------------------------ model


def crossing(ring, x, y):
    """Even-odd rule; also whether (x, y) is too close to the ring to tell."""
    inside, near = False, False
    n = len(ring)
    for k in range(n):
        (x0, y0), (x1, y1) = ring[k], ring[(k + 1) % n]
        dx, dy = x1 - x0, y1 - y0
        s = ((x - x0) * dx + (y - y0) * dy) / (dx * dx + dy * dy + 1e-300)
        s = min(1.0, max(0.0, s))
        near |= (x - x0 - s * dx) ** 2 + (y - y0 - s * dy) ** 2 < 1e-10
        if (y0 > y) != (y1 > y) and x < x0 + (y - y0) / dy * dx:
            inside = not inside
    return inside, near


def cells_in(polygons, lat, lon):
    """polygons: list of lists of rings. Cell centres inside, and those not to be judged."""
    ins = np.zeros((len(lat), len(lon)), bool)
    unsure = np.zeros_like(ins)
    for rings in polygons:
        xs = np.array([p for r in rings for p in r])
        lo, hi = xs.min(0), xs.max(0)
        for i, y in enumerate(lat):
            if not lo[1] - 1e-5 <= y <= hi[1] + 1e-5:
                continue
            for j, x0 in enumerate(lon):
                for x in (x0 - 360, x0, x0 + 360):
                    if not lo[0] - 1e-5 <= x <= hi[0] + 1e-5:
                        continue
                    odd = False
                    for r in rings:
                        a, b = crossing(r, x, y)
                        odd ^= a
                        unsure[i, j] |= b
                    ins[i, j] |= odd
    return ins, unsure


def box_around(point, radius, lat, lon):
    """Inside the square, and too close to its edge to tell (rounding)."""
    dlat = np.abs(lat - point[0])[:, None] + 0 * lon[None, :]
    d = np.abs(lon - point[1])
    d = np.min([np.abs(d - 360 * k) for k in range(-2, 3)], axis=0)
    d = d[None, :] + 0 * lat[:, None]
    exact = all(float(v * 1024).is_integer() for v in [*point, radius, *lat[:2], *lon[:2]])
    eps = 0.0 if exact else 1e-4
    ins = (dlat <= radius) & (d <= radius)
    unsure = (np.abs(dlat - radius) < eps) | (np.abs(d - radius) < eps)
    return ins, unsure


def star(rng, cx, cy, r, n):
    a = np.sort((np.arange(n) + 0.7 * rng.random(n)) * 2 * np.pi / n)[::-1]
    q = rng.uniform(0.3, 1, n) * r
    return [[float(cx + b * np.cos(t)), float(cy + b * np.sin(t))] for t, b in zip(a, q)]


# ------------------------------------------------------------------ the case


def reference(path, lat, lon, other):
    with netCDF4.Dataset(path, "w") as nc:
        nc.createDimension("time", 2)
        nc.createDimension("latitude", len(lat))
        nc.createDimension("longitude", len(lon))
        for n, c in (("latitude", lat), ("longitude", lon)):
            nc.createVariable(n, c.dtype, (n,))[:] = c
        v = nc.createVariable("time", "f8", ("time",))
        v.units, v.calendar = "hours since 2021-07-01", "standard"
        v[:] = [0, 1]
        nc.createVariable("precip", "f4", ("time", "latitude", "longitude"))[:] = 0
        if other:
            nc.createVariable("s", "f4", ("latitude", "longitude"))[:] = 1
    return path


def read(path, lat, lon, times=None):
    if not os.path.exists(path):
        raise Violation("no region file is written")
    with netCDF4.Dataset(path) as nc:
        nc.set_auto_mask(False)
        names = [n for n, v in nc.variables.items() if n not in nc.dimensions]
        if len(names) != 1:
            raise Violation(f"the region file holds {names} instead of one region")
        v = nc[names[0]]
        want = ("latitude", "longitude") if times is None else ("time", "latitude", "longitude")
        if v.dimensions != want:
            raise Violation(f"the region has dimensions {v.dimensions} instead of {want}")
        for n, c in (("latitude", lat), ("longitude", lon)):
            a = np.array(nc[n][:])
            if not np.array_equal(a, c):
                raise Violation(f"{n} of the region {a.tolist()[:6]} is not that of the reference {c.tolist()[:6]}")
        if times is not None:
            t = nc["time"]
            have = cftime.num2date(t[:], t.units, t.calendar, only_use_cftime_datetimes=True)
            have = [(x.year, x.month, x.day, x.hour, x.minute) for x in np.atleast_1d(have)]
            if have != times:
                raise Violation(f"the region holds times {have} instead of {times}")
        return np.array(v[:])


def judge(have, want, unsure, what):
    if have.shape != want.shape:
        raise Violation(f"{what}: shape {have.shape} instead of {want.shape}")
    bad = (have != want) & ~unsure
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation(f"{what}: cell {i} has weight {have[i]} instead of {float(want[i])}")


def run(spec, env):
    m = designer()
    g = spec["grid"]
    kind = spec["kind"]
    if kind == "run":
        return track_with(spec, env, m)
    lat = (g["lat0"] + g["d"] * np.arange(g["ny"])).astype(g["ctype"])
    lon = (g["lon0"] + g["d"] * np.arange(g["nx"])).astype(g["ctype"])
    if g["order"] == "NS":
        lat = lat[::-1]
    la, lo = lat.astype(float), lon.astype(float)
    d = env.dir()
    ref, out = reference(d + "/reference.nc", lat, lon, spec["other"]), d + "/region.nc"
    rng = np.random.default_rng(spec["seed"])
    env.label(kind, g["order"])
    if kind == "point":
        m.mask_around_point(tuple(spec["point"]), spec["radius"], ref, out, False)
        want, unsure = box_around(spec["point"], spec["radius"], la, lo)
        judge(read(out, lat, lon), want, unsure, f"square of {spec['radius']} around {spec['point']}")
    elif kind == "track":
        times, names = make_times(spec)
        m.mask_around_track([tuple(p) for p in spec["points"]], times, spec["radius"], ref, out, False)
        have = read(out, lat, lon, names)
        both = [box_around(p, spec["radius"], la, lo) for p in spec["points"]]
        want, unsure = np.array([b[0] for b in both]), np.array([b[1] for b in both])
        judge(have, want, unsure, f"squares of {spec['radius']} along {spec['points']}")
    else:
        want, unsure = areas(spec, m, g, rng, d, ref, out, la, lo)
        judge(read(out, lat, lon), want, unsure, f"{kind} {spec.get('source', '')} regions {spec['regions']}")
    env.nontrivial = bool(want.any() and not want.all())


def make_times(spec):
    import pandas as pd

    base = dtm.datetime(2021, 2, 27)
    if spec["ttype"] == "cftime":
        a = cftime.datetime(2021, 2, 27, calendar=spec["cal"])
        c = {"noleap": cftime.DatetimeNoLeap, "360_day": cftime.Datetime360Day, "standard": cftime.DatetimeGregorian}[spec["cal"]]
        ts = [a + dtm.timedelta(minutes=k) for k in spec["times"]]
        ts = [c(t.year, t.month, t.day, t.hour, t.minute) for t in ts]
        times = ts
    else:
        ts = [base + dtm.timedelta(minutes=k) for k in spec["times"]]
        times = pd.to_datetime(ts) if spec["ttype"] == "pandas" else np.array(ts, "datetime64[ns]")
    return times, [(t.year, t.month, t.day, t.hour, t.minute) for t in ts]


def areas(spec, m, g, rng, d, ref, out, la, lo):
    import regionmask

    if spec["kind"] == "named":
        table = getattr(regionmask.defined_regions, spec["source"])
        polygons = []
        for n in spec["regions"]:
            poly = table[n].polygon
            for p in getattr(poly, "geoms", [poly]):
                polygons.append([list(p.exterior.coords)[:-1]] + [list(r.coords)[:-1] for r in p.interiors])
        want, unsure = cells_in(polygons, la, lo)
        m.mask_with_regionmask(spec["source"], list(spec["regions"]), ref, out, False)
        return want, unsure
    # generated polygons, some of them away from the grid
    shapes = []
    wx, wy = g["d"] * g["nx"], g["d"] * g["ny"]
    for k in range(spec["n"]):
        cx, cy = g["lon0"] + wx * rng.random(), g["lat0"] + wy * rng.random()
        r = 0.6 * min(wx, wy, 40) * rng.uniform(0.2, 1)
        if k and spec["together"]:  # close to the first, so that they overlap
            cx, cy = first[0] + 0.3 * first[2] * rng.uniform(-1, 1), first[1] + 0.3 * first[2] * rng.uniform(-1, 1)
            r = first[2] * rng.uniform(0.6, 1.1)
        first = (cx, cy, r) if k == 0 else first
        if spec["far"][k]:
            cx = cx - 3 * wx if wx < 60 else cx
            cy = -80 if cy > 0 else 80
            r = g["d"]
        cx = min(max(cx, (0 if g["lon0"] >= 0 else -180) + r), (360 if g["lon0"] >= 0 else 180) - r)
        cy = min(max(cy, -90 + r), 90 - r)
        shapes.append(star(rng, cx, cy, r, spec["corners"][k]))
    chosen = spec["regions"] if spec["regions"] is not False else [0]
    want, unsure = cells_in([[shapes[k]] for k in chosen], la, lo)
    if spec["kind"] == "shapes":
        import shapefile

        path = d + "/shapes.shp"
        with shapefile.Writer(path, shapeType=shapefile.POLYGON) as w:
            w.field("name", "C")
            for k, s in enumerate(shapes):
                w.poly([s + [s[0]]])
                w.record(f"shape {k}")
        m.mask_with_shapefile(path, spec["regions"], ref, out, False)
    else:
        regions = regionmask.Regions(shapes, numbers=list(range(len(shapes))), overlap=True)
        real = regionmask.defined_regions
        stand_in = types.SimpleNamespace(ar6=types.SimpleNamespace(all=regions), srex=real.srex, giorgi=real.giorgi, prudence=real.prudence)
        old = m.regionmask
        m.regionmask = types.SimpleNamespace(defined_regions=stand_in)
        try:
            m.mask_with_regionmask("ar6.all", list(spec["regions"]), ref, out, False)
        finally:
            m.regionmask = old
    return want, unsure


def track_with(spec, env, m):
    """A made region is accepted by tracking and tags the cells it marks."""
    g = spec["grid"]
    rng = np.random.default_rng(spec["seed"])
    d, nx, ny = min(g["d"], 2.5), max(4, min(g["nx"], 9)), max(3, min(g["ny"], 6))
    lat0 = min(max(g["lat0"] + d * (ny - 1), -50), 60)
    lon0 = min((g["lon0"] + 180) % 360 - 180, 170 - nx * d)
    dynamic = bool(rng.integers(2))
    w = W.World({
        "dir": str(rng.choice(["backward", "forward"])), "grid": {"ny": ny, "nx": nx, "lat0": lat0, "lon0": lon0, "dlat": d, "dlon": d, "ctype": g["ctype"]},
        "cal": str(rng.choice(["standard", "noleap", "360_day"])) if dynamic else "standard", "start": "2021-07-01T00:00", "inf": "1h", "dt": 1800,
        "outf": "1h", "off": 0, "steps": 6, "rest": 0, "tag": [0, 180], "periodic": False, "kvf": 3.0,
        "region": {"kind": "bbox", "box": [0, 0, 1, 1]}, "F": WIND,
    }).prepare(env)
    ref = w.inputs + "/" + sorted(os.listdir(w.inputs))[0]
    region = w.dir_ + "/made.nc"
    la, lo = w.lat.astype(float), w.lon.astype(float)
    points = [[float(rng.choice(la) + d / 4), float(rng.choice(lo) + d / 4)] for _ in range(4)]
    radius = float(d * rng.integers(1, 4))
    if dynamic:
        times = [w.start + W.minutes(60 * k) for k in range(4)]
        kinds = {"standard": cftime.DatetimeGregorian, "noleap": cftime.DatetimeNoLeap, "360_day": cftime.Datetime360Day}
        t = [kinds[w.cal](x.year, x.month, x.day, x.hour, x.minute) for x in times]
        m.mask_around_track([tuple(p) for p in points], t, radius, ref, region, False)
    else:
        m.mask_around_point(tuple(points[0]), radius, ref, region, False)
    boxes = [box_around(p, radius, la, lo) for p in points]
    cfg = case.write_json(w.cfgfile, w.config(w.inputs, w.output, region))
    case.must(env, case.fresh_cli(["track", cfg], w.dir_), "track with a made region")
    outs = W.Outputs(w.output)
    source = "evap" if w.direction == "forward" else "precip"
    total = 0.0
    for t, _, steps in W.intervals(w):
        o = outs.by_key.get(W.tkey(t))
        env.check(o is not None, f"no output for {t}")
        want = np.zeros((ny, nx))
        unsure = np.zeros((ny, nx), bool)
        for ta, th, _ in steps:
            k = 0
            if dynamic:
                away = np.array([abs((x - ta).total_seconds()) for x in times])
                k = int(np.argmin(away))
                if (away == away[k]).sum() > 1:  # halfway between two times: either
                    unsure |= boxes[k][0] != boxes[int(np.where(away == away[k])[0][-1])][0]
            want += W.records(w, source, th) * w.dt * boxes[k][0]
            unsure |= boxes[k][1]
        got = o.field(W.tagged_name(w.direction))
        bad = (np.abs(got - want) > 1e-5 * want.max()) & ~unsure
        if bad.any():
            raise Violation(f"tracking with the made region tags other cells than requested until {t}")
        total += want.sum()
    env.label("run", "dynamic" if dynamic else "fixed")
    env.nontrivial = total > 0


WIND = {
    "seed": 3, "smooth": False, "wind_upper": "noise", "wind_lower": "uniform", "courant": 0.1, "zero_frac": 0.0, "s_upper": 10.0,
    "s_lower": 15.0, "s_amp": 0.3, "varying": True, "reversing": False, "jump": False, "wet_frac": 1.0, "evap_frac": 1.0,
    "p_int": 0.02, "e_int": 0.02,
}
