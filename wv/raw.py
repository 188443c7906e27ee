"""Generated raw atmospheres, written in the layout of each data source, with an independent integration."""

import datetime as dtm
import glob
import os
from collections import OrderedDict

import cftime
import netCDF4
import numpy as np
from hypothesis import strategies as st

from wv import case
from wv import world as W
from wv.boot import REPO
from wv.case import Violation

G = 9.80665
LATENT = 2.45e6
OUT = ("s_upper", "s_lower", "fx_upper", "fx_lower", "fy_upper", "fy_lower", "precip", "evap")
PERMS3 = [("time", "y", "x"), ("time", "x", "y"), ("y", "x", "time"), ("x", "time", "y")]
PERMS4 = [("time", "z", "y", "x"), ("time", "y", "x", "z"), ("z", "time", "y", "x"), ("time", "z", "x", "y"), ("x", "y", "z", "time")]

_AB = None


def ab():
    """ERA5 half-level coefficients from the table in the repository (data, not code)."""
    global _AB
    if _AB is None:
        path = os.path.join(REPO, "src/wam2layers/preprocessing/tableERA5model_to_pressure.csv")
        rows = [line.split(",") for line in open(path, encoding="utf-8-sig").read().split()[0:]]
        rows = [r for r in rows if r and r[0].isdigit()]
        _AB = np.array([float(r[1]) for r in rows]), np.array([float(r[2]) for r in rows])
        assert len(_AB[0]) == 138
    return _AB


def dewpoint_humidity(td, ps):
    """IFS documentation (cy47r3 part IV), eq. 7.4 and 7.5, over water."""
    e = 611.21 * np.exp(17.502 * (td - 273.15) / (td - 32.19))
    r = 287.0597 / 461.5250
    return r * e / (ps - (1 - r) * e)


def day_of(t):
    return (t.year, t.month, t.day)


class Atmos:
    """The true state, on latitudes decreasing and longitudes increasing from lon0 (may pass 180)."""

    def __init__(self, spec):
        self.spec = spec
        g = spec["grid"]
        self.ny, self.nx = g["ny"], g["nx"]
        self.lat = g["lat0"] - g["dlat"] * np.arange(self.ny)
        self.lon = (g["lon0"] + g["dlon"] * np.arange(self.nx) + 180) % 360 - 180
        self.cal = spec["cal"]
        self.freq = spec["freq"]
        self.m = W.FREQ.get(spec["freq"]) or W.LONG[spec["freq"]]
        self.pre = spec.get("pre", 0)  # extra records before and after the requested ones
        self.post = spec.get("post", 0)
        self.nt = spec["nt"] + self.pre + self.post
        self.start = W.aligned_start(spec["start"], self.cal, 1) + dtm.timedelta(minutes=spec.get("off", 0))
        self.times = [self.start + dtm.timedelta(minutes=self.m * (k - self.pre)) for k in range(self.nt)]
        self.req = self.times[self.pre : self.nt - self.post]
        self.levels = list(spec["levels"])  # configured
        self.filelevels = sorted(set(self.levels) | set(spec.get("extra", [])))
        rng = np.random.default_rng(spec["seed"])
        T, L, ny, nx = self.nt, len(self.filelevels), self.ny, self.nx
        ml = spec["kind"] == "ml"
        f = {}
        lo, hi = spec["ps"]
        f["sp"] = rng.uniform(lo, hi, (T, ny, nx))
        for _ in range(2):  # neither surface nor (default) boundary within 1 Pa of a level
            f["sp"] += 20 * ((f["sp"] + 0.01) % 100 < 1.02)
            f["sp"] += 20 * ((0.72878581 * f["sp"] + 7438.803223 + 0.01) % 100 < 1.02)
        depth = np.linspace(0, 1, L)[None, :, None, None] if L > 1 else np.ones((1, 1, 1, 1))
        shape = (T, L, ny, nx)
        f["q"] = 0.02 * depth**2 * rng.uniform(0.1, 1, shape) + 1e-6
        if spec.get("dry"):
            f["q"][rng.random(shape) < 0.3] = 0
            z = self.filelevels.index(max(self.levels))  # never a completely dry column
            f["q"][:, z] = np.maximum(f["q"][:, z], 1e-3)
        f["u"] = 30 * rng.uniform(-1, 1, shape)
        f["v"] = 30 * rng.uniform(-1, 1, shape)
        f["u"][rng.random(shape) < 0.1] = 0
        f["u10"] = 15 * rng.uniform(-1, 1, (T, ny, nx))
        f["v10"] = 15 * rng.uniform(-1, 1, (T, ny, nx))
        f["d2m"] = rng.uniform(250, 300, (T, ny, nx))
        if spec["seed"] % 4 == 3 and not ml:  # polar winter
            f["d2m"] = 250 - 0.8 * (f["d2m"] - 250)
            f["q"] *= 0.02
        f["tp"] = np.where(rng.random((T, ny, nx)) < 0.6, rng.gamma(1, 3e-4, (T, ny, nx)), 0)
        f["e"] = -rng.gamma(1, 2e-4, (T, ny, nx))
        dew = rng.random((T, ny, nx)) < spec.get("dew", 0.2)
        f["e"][dew] = -0.5 * f["e"][dew]
        neg = rng.random((T, ny, nx)) < spec.get("negp", 0.0)
        f["tp"][neg] = -1e-9
        if spec.get("tcw"):
            f["tcw"] = rng.uniform(1, 60, (T, ny, nx))
        for k in f:
            f[k] = f[k].astype("f4").astype(float)
        self.f = f
        self.ml = ml

    def surface(self):
        return ("sp", "tp", "e") + (() if self.ml else ("u10", "v10", "d2m")) + (("tcw",) if "tcw" in self.f else ())

    # -------------------------------------------------------------- independent integration

    def expected(self, t, boundary=111, factor=0.72878581, offset=7438.803223, whole=False):
        """Preprocessed fields at time t, and the largest terms summed (for the tolerance)."""
        k = self.times.index(t)
        f = {n: a[k] for n, a in self.f.items()}
        out = {n: np.zeros((self.ny, self.nx)) for n in OUT}
        mag = {n: np.zeros((self.ny, self.nx)) for n in OUT}
        for i in range(self.ny):
            for j in range(self.nx):
                ps = f["sp"][i, j]
                if self.ml:
                    layers = self.ml_layers(f, i, j, ps, boundary)
                else:
                    layers = self.pl_layers(f, i, j, ps, factor * ps + offset, whole)
                total = sum(l[0] for l in layers)
                scale = f["tcw"][i, j] / total if "tcw" in f else 1.0
                for w, u, v, lower in layers:
                    w = w * scale
                    s = "lower" if lower else "upper"
                    for name, x in (("s_", w), ("fx_", u * w), ("fy_", v * w)):
                        out[name + s][i, j] += x
                        mag[name + s][i, j] += abs(x)
        T = self.m * 60
        out["precip"] = (np.maximum(f["tp"], 0) + np.maximum(f["e"], 0)) * 1000 / T
        out["evap"] = np.maximum(-f["e"], 0) * 1000 / T
        mag["precip"], mag["evap"] = out["precip"], out["evap"]
        return out, mag

    def ml_layers(self, f, i, j, ps, boundary):
        """(water, u, v, in lower layer) per layer; layers meet halfway between the chosen full levels."""
        a, b = ab()
        chosen = sorted(self.levels)
        if self.spec.get("all"):
            ph = a + b * ps
            edges = ph
        else:
            full = [((a[n - 1] + a[n]) / 2, (b[n - 1] + b[n]) / 2) for n in chosen]
            inner = [((x[0] + y[0]) / 2, (x[1] + y[1]) / 2) for x, y in zip(full, full[1:])]
            edges = [0.0] + [x + y * ps for x, y in inner] + [ps]
        res = []
        for n, (top, bottom) in zip(chosen, zip(edges, edges[1:])):
            z = self.filelevels.index(n)
            w = f["q"][z, i, j] * (bottom - top) / G
            res.append((w, f["u"][z, i, j], f["v"][z, i, j], n > boundary))
        return res

    def pl_layers(self, f, i, j, ps, pb, whole=False):
        """whole: node pressures cut to whole Pa (a listed finding)."""
        exact, cut = ps, (lambda p: float(int(p))) if whole else float
        qs = dewpoint_humidity(f["d2m"][i, j], exact)
        ps, nodes = cut(ps), []
        for n in sorted(self.levels):
            z = self.filelevels.index(n)
            if n * 100.0 < ps:
                nodes.append((n * 100.0, f["q"][z, i, j], f["u"][z, i, j], f["v"][z, i, j]))
        z0 = self.filelevels.index(min(self.levels))
        nodes.insert(0, (0.0, 0.0, f["u"][z0, i, j], f["v"][z0, i, j]))
        nodes.append((ps, qs, f["u10"][i, j], f["v10"][i, j]))
        for n, (lo, hi) in enumerate(zip(nodes, nodes[1:])):
            if lo[0] < pb < hi[0]:
                x = (pb - lo[0]) / (hi[0] - lo[0])
                nodes.insert(n + 1, (cut(pb),) + tuple(c + x * (d - c) for c, d in zip(lo[1:], hi[1:])))
                break
        res = []
        for lo, hi in zip(nodes, nodes[1:]):
            q, u, v = ((c + d) / 2 for c, d in zip(lo[1:], hi[1:]))
            res.append((q * (hi[0] - lo[0]) / G, u, v, lo[0] >= cut(pb)))
        return res

    # -------------------------------------------------------------- layouts

    def axes(self, lay):
        """Row and column order and coordinate values of the stored grid."""
        rows = list(range(self.ny))
        if lay.get("lat") == "asc":
            rows = rows[::-1]
        lon = self.lon % 360 if lay.get("lon", "360") == "360" else self.lon
        cols = list(np.argsort(lon)) if lay.get("sorted", True) else list(range(self.nx))
        if lay.get("lon_desc"):
            cols = cols[::-1]
        ct = lay.get("ctype", "f8")
        return rows, cols, self.lat[rows].astype(ct), lon[cols].astype(ct)


def coords(nc, names, lat, lon):
    for name, c in zip(names, (lat, lon)):
        v = nc.createVariable(name, c.dtype, (name,))
        v.units = "degrees_north" if name.startswith("lat") else "degrees_east"
        v[:] = c


def time_var(nc, name, times, cal, units="hours since 1900-01-01", dtype="f8"):
    v = nc.createVariable(name, dtype, (name,))
    v.units, v.calendar = units, cal
    v[:] = cftime.date2num(times, units, calendar=cal)


TEMPLATES = {
    "day": "{year}-{month:02}-{day:02}{levtype}_{variable}.nc",
    "month": "{year}{month:02}{levtype}_{variable}.nc",
    "year": "{year}/ERA5{levtype}_{variable}.nc",
    "hour": "{year}{month:02}{day:02}T{hour:02}{minute:02}{levtype}_{variable}.nc",
    "one": "all{levtype}_{variable}.nc",
}


def era5_names(lay):
    return {
        "old": ("time", "level"), "lev": ("time", "lev"), "new": ("valid_time", "model_level"), "newpl": ("valid_time", "pressure_level"),
        "mixed": ("valid_time", "level"),
    }[lay.get("names", "old")]


def write_era5(at, d, lay, hook=None):
    """hook(name, k, array) may change what is stored; returns the filename template."""
    os.makedirs(d, exist_ok=True)
    tmpl = os.path.join(d, TEMPLATES[lay.get("split", "day")])
    rows, cols, lat, lon = at.axes(lay)
    tname, zname = era5_names(lay)
    order = list(range(len(at.filelevels)))
    if lay.get("levorder") == "desc":
        order = order[::-1]
    elif lay.get("levorder") == "mixed":
        order = order[::2] + order[1::2]
    names = at.surface() + ("q", "u", "v")
    for n, name in enumerate(names):
        if name in lay.get("omit", ()):
            continue
        deep = name in ("q", "u", "v")
        files = OrderedDict()
        for k, t in enumerate(at.times):
            path = tmpl.format(
                year=t.year, month=t.month, day=t.day, hour=t.hour, minute=t.minute,
                levtype=("_ml" if at.ml else "_pl") if deep else "", variable=name,
            )
            files.setdefault(path, []).append(k)
        perm = (PERMS4 if deep else PERMS3)[lay.get("perm", [0])[n % len(lay.get("perm", [0]))] % (5 if deep else 4)]
        for path, idx in files.items():
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with netCDF4.Dataset(path, "w") as nc:
                dims = {"time": tname, "y": "latitude", "x": "longitude", "z": zname}
                nc.createDimension(tname, None if lay.get("unlimited") else len(idx))
                nc.createDimension("latitude", len(rows))
                nc.createDimension("longitude", len(cols))
                time_var(nc, tname, [at.times[k] for k in idx], at.cal, lay.get("tunits", "hours since 1900-01-01"))
                coords(nc, ("latitude", "longitude"), lat, lon)
                a = at.f[name][idx]
                if deep:
                    nc.createDimension(zname, len(order))
                    v = nc.createVariable(zname, lay.get("ztype", "i4"), (zname,))
                    v[:] = [at.filelevels[z] for z in order]
                    a = a[:, order]
                a = a[..., rows, :][..., cols]
                if hook:
                    a = hook(name, idx, a)
                base = ("time", "z", "y", "x") if deep else ("time", "y", "x")
                a = np.transpose(a, [base.index(p) for p in perm])
                fill = np.nan if np.isnan(a).any() else None
                v = nc.createVariable(name, lay.get("dtype", "f4"), [dims[p] for p in perm], fill_value=fill)
                v[:] = a
                if lay.get("scalar"):
                    s = nc.createVariable("number", "i4", ())
                    s[...] = 0
                    v.coordinates = "number"
    return tmpl


CMIP = {"q": "hus", "u": "ua", "v": "va", "sp": "ps", "d2m": "huss", "u10": "uas", "v10": "vas", "tp": "pr", "e": "hfls"}


def write_cmip(at, d, lay):
    """CMIP style: one variable per file series, Pa levels, W m-2, 3-hourly fluxes halfway their interval."""
    os.makedirs(d, exist_ok=True)
    rows, cols, lat, lon = at.axes(lay)
    rng = np.random.default_rng(at.spec["seed"] + 1)
    T = at.m * 60
    for n, (ours, name) in enumerate(CMIP.items()):
        a = at.f[ours]
        times = at.times
        deep = ours in ("q", "u", "v")
        levels = list(at.filelevels)
        if ours == "d2m":
            a = dewpoint_humidity(at.f["d2m"], at.f["sp"])
        if ours in ("tp", "e"):
            # rates in the two halves of the 6 hours before each time
            rate = a * 1000 / T
            half = rng.uniform(0, 0.5, rate.shape) * np.abs(rate)
            parts_ = np.stack([rate - half, rate + half], 1).reshape((-1,) + rate.shape[1:])
            a = -parts_ * LATENT if ours == "e" else parts_
            times = [t + dtm.timedelta(minutes=m) for t in at.times for m in (-270, -90)]
        if deep:
            extra = [x for x in lay.get("more", {}).get(ours, []) if x not in levels]
            if extra:
                add = rng.uniform(0, 1, (len(times), len(extra)) + a.shape[2:])
                a = np.concatenate([a, add], 1)
                levels = levels + extra
            o = list(np.argsort(levels))
            if lay.get("levorder", "desc") == "desc":
                o = o[::-1]
            a, levels = a[:, o], [levels[z] for z in o]
        a = a[..., rows, :][..., cols]
        # files split in time
        cuts = sorted(set(int(len(times) * x) for x in lay.get("cuts", {}).get(ours, [])) - {0, len(times)})
        bounds = list(zip([0] + cuts, cuts + [len(times)]))
        stamps = list(range(len(bounds)))
        if lay.get("names_reversed"):
            stamps = stamps[::-1]
        for s, (i0, i1) in zip(stamps, bounds):
            if lay.get("names_reversed"):
                path = f"{d}/{name}_part{s:02d}.nc"
            else:
                path = f"{d}/{name}_{times[i0].strftime('%Y%m%d%H%M')}-{times[i1 - 1].strftime('%Y%m%d%H%M')}.nc"
            with netCDF4.Dataset(path, "w") as nc:
                nc.createDimension("time", None)
                nc.createDimension("lat", len(rows))
                nc.createDimension("lon", len(cols))
                time_var(nc, "time", times[i0:i1], at.cal, lay.get("tunits", "days since 1850-01-01"))
                coords(nc, ("lat", "lon"), lat, lon)
                dims = ("time", "lat", "lon")
                if deep:
                    nc.createDimension("plev", len(levels))
                    v = nc.createVariable("plev", "f8", ("plev",))
                    v[:] = np.array(levels) * 100.0
                    dims = ("time", "plev", "lat", "lon")
                if lay.get("bounds"):
                    nc.createDimension("bnds", 2)
                    v = nc.createVariable("lat_bnds", "f8", ("lat", "bnds"))
                    v[:] = np.stack([lat - 0.5, lat + 0.5], 1)
                v = nc.createVariable(name, lay.get("dtype", "f4"), dims, fill_value=1e20)
                v[:] = a[i0:i1]
    return d + "/{variable}_*.nc"


ARCO = {
    "u": "u_component_of_wind", "v": "v_component_of_wind", "q": "specific_humidity", "u10": "10m_u_component_of_wind",
    "v10": "10m_v_component_of_wind", "sp": "surface_pressure", "d2m": "2m_dewpoint_temperature",
    "tcw": "total_column_water", "tp": "total_precipitation", "e": "evaporation",
}


def arco_store(at, lay):
    """The store as xarray would open it (times as cftime dates)."""
    import xarray as xr

    rows, cols, lat, lon = at.axes(lay)
    more = [n for n in lay.get("more_levels", []) if n not in at.filelevels]  # not requested, never to be used
    levels = list(at.filelevels) + more
    order = np.argsort(levels)
    rng = np.random.default_rng(5)
    ds = xr.Dataset(coords={
        "time": xr.CFTimeIndex([cftime.DatetimeProlepticGregorian(*_parts(t)) for t in at.times]),
        "latitude": lat, "longitude": lon, "level": np.array(levels, "i8")[order],
    })
    for ours, name in ARCO.items():
        a = at.f.get(ours)
        if a is None:
            continue
        if a.ndim == 4:
            a = np.concatenate([a, rng.uniform(0, 0.02, (len(a), len(more)) + a.shape[2:])], 1)[:, order]
        a = a[..., rows, :][..., cols].astype("f4")
        dims = ("time", "level", "latitude", "longitude") if a.ndim == 4 else ("time", "latitude", "longitude")
        ds[name] = (dims, a)
    for name in ("2m_temperature", "sea_surface_temperature"):
        ds[name] = (("time", "latitude", "longitude"), np.full((at.nt, at.ny, at.nx), np.nan if name[0] == "s" else 290.0, "f4"))
    ds.attrs["valid_time_start"] = "1940-01-01"
    ds.attrs["valid_time_stop"] = "2100-12-31"
    return ds


def opener(ds):
    """A stand-in for xarray.open_zarr: decodes the times the way it is asked to."""
    import xarray as xr

    units = "hours since 1900-01-01"
    time = xr.DataArray(cftime.date2num(ds["time"].values, units, "proleptic_gregorian").astype("f8"), dims="time", attrs={"units": units, "calendar": "proleptic_gregorian"})
    stored = ds.assign_coords(time=time)

    def open_zarr(store=None, *args, **kw):
        how = {k: kw[k] for k in ("use_cftime", "decode_times") if k in kw}
        return xr.decode_cf(stored, **how)

    return open_zarr


def _parts(t):
    return t.year, t.month, t.day, t.hour, t.minute, t.second


# ------------------------------------------------------------------ running


def config(at, template, folder, out, **extra):
    s, e = W.iso(at.req[0]), W.iso(at.req[-1])
    c = {
        "filename_template": template, "preprocessed_data_folder": folder, "calendar": at.cal, "output_folder": out,
        "preprocess_start_date": s, "preprocess_end_date": e, "tracking_direction": "backward",
        "tracking_start_date": s, "tracking_end_date": e, "tagging_region": [0, 0, 10, 10],
        "tagging_start_date": s, "tagging_end_date": e, "input_frequency": at.freq, "timestep": 600,
        "output_frequency": "1d", "level_type": "model_levels" if at.ml else "pressure_levels",
        "levels": at.levels, "restart": False, "periodic_boundary": False, "kvf": 3.0,
    }
    c.update(extra)
    return c


class Day:
    def __init__(self, path):
        self.path, self.name = path, os.path.basename(path)
        with netCDF4.Dataset(path) as nc:
            nc.set_auto_mask(False)
            self.dims = {k: v.dimensions for k, v in nc.variables.items()}
            self.vars = {k: np.array(v[:]) for k, v in nc.variables.items() if v.dtype is not str}
            tv = nc["time"]
            self.calendar = tv.calendar
            self.times = list(
                np.atleast_1d(cftime.num2date(np.ravel(tv[:]), tv.units, tv.calendar, only_use_cftime_datetimes=True))
            )
            self.units = {k: getattr(v, "units", None) for k, v in nc.variables.items()}


def read_days(folder):
    return [Day(p) for p in sorted(glob.glob(folder + "/*_fluxes_storages.nc"))]


def key(t):
    return (t.year, t.month, t.day, t.hour, t.minute, t.second)


def collect(env, days):
    """{time key: {field: array}} plus coordinates; the same grid everywhere."""
    res, grid = {}, None
    for day in days:
        lat, lon = day.vars["latitude"], day.vars["longitude"]
        if grid is None:
            grid = (lat, lon)
        elif not (np.array_equal(grid[0], lat) and np.array_equal(grid[1], lon)):
            raise Violation(f"{day.name} has another grid than the files before it")
        for n, t in enumerate(day.times):
            k = key(t)
            if k in res:
                raise Violation(f"the time {t} was written twice")
            res[k] = {}
            for name in OUT:
                if day.dims[name] != ("time", "latitude", "longitude"):
                    raise Violation(f"{name} is stored with dimensions {day.dims[name]}")
                res[k][name] = day.vars[name][n].astype(float)
    return res, grid


def on_truth(env, at, grid):
    """Where each of the atmosphere's rows and columns is in the output."""
    lat, lon = (np.asarray(x, float) for x in grid)
    if len(lat) != at.ny or len(lon) != at.nx:
        raise Violation(f"the output grid has shape {len(lat)} x {len(lon)} instead of {at.ny} x {at.nx}")
    if not (np.diff(lat) < 0).all():
        raise Violation(f"latitudes are not decreasing: {lat.tolist()}")
    if not (np.diff(lon) > 0).all() or lon.min() < -180 or lon.max() > 180:
        raise Violation(f"longitudes are not increasing within [-180, 180]: {lon.tolist()}")
    rows = [int(np.argmin(np.abs(lat - y))) for y in at.lat]
    cols = [int(np.argmin(np.abs((lon - x + 180) % 360 - 180))) for x in at.lon]
    for i, y in zip(rows, at.lat):
        if abs(lat[i] - y) > 1e-4:
            raise Violation(f"latitude {y} is missing from the output: {lat.tolist()}")
    for j, x in zip(cols, at.lon):
        if abs((lon[j] - x + 180) % 360 - 180) > 1e-4:
            raise Violation(f"longitude {x} is missing from the output: {lon.tolist()}")
    return rows, cols


def close(env, have, want, mag, what, rtol=3e-6):
    err = np.abs(have - want) / (np.abs(mag) + 1e-30)
    err = np.where(np.abs(have - want) <= 1e-12, 0, err)
    if np.isnan(have).any():
        raise Violation(f"{what}: missing values in the output")
    env.metric("relative", err.max())
    if err.max() > rtol:
        i, j = np.unravel_index(np.argmax(err), err.shape)
        raise Violation(f"{what} at row {i}, column {j} is {have[i, j]:.9g} instead of {want[i, j]:.9g}")


def verify(env, at, days, fields=OUT, rtol=3e-6, times=None, column=False, **kw):
    """Compare everything written with the independent integration."""
    got, grid = collect(env, days)
    want_times = [key(t) for t in (times or at.req)]
    if sorted(got) != sorted(want_times):
        raise Violation(f"times written {sorted(got)} instead of {sorted(want_times)}")
    rows, cols = on_truth(env, at, grid)
    res = {}
    for t in times or at.req:
        want, mag = at.expected(t, **kw)
        if column:
            for x in ("s_", "fx_", "fy_"):
                mag[x + "upper"] = mag[x + "lower"] = mag[x + "upper"] + mag[x + "lower"]
        for name in fields:
            have = got[key(t)][name][rows][:, cols]
            close(env, have, want[name], mag[name], f"{name} at {t}", rtol)
            res[key(t), name] = have
    return res


def run_source(env, at, source, lay, name="src", hook=None, run=case.fresh_cli, **extra):
    """Write the raw data for a source, preprocess it, return the result and the folders."""
    from wv import boot

    d = env.dir(name)
    command = {"era5": "era5", "cmip": "cmip", "arco": "arco-era5"}[source]
    if source == "era5":
        tmpl = write_era5(at, d + "/raw", lay, hook)
    elif source == "cmip":
        tmpl = write_cmip(at, d + "/raw", lay)
    else:
        tmpl = "unused"
        ds = arco_store(at, lay)
        boot.HOOK["open_zarr"] = opener(ds)
    cfg = case.write_json(d + "/config.yaml", config(at, tmpl, d + "/pre", d + "/out", **extra))
    try:
        r = run(["preprocess", command, cfg], d)
    finally:
        boot.HOOK.pop("open_zarr", None)
    return r, d


# ------------------------------------------------------------------ strategies

PL = [1000, 975, 950, 925, 900, 875, 850, 825, 800, 775, 750, 700, 650, 600, 550, 500, 400, 300, 200, 100, 50, 10]


@st.composite
def grids(draw, big=False):
    ny = draw(st.integers(2, 5 if big else 4))
    nx = draw(st.integers(2, 6 if big else 5))
    if draw(st.integers(0, 5)) == 5:  # global
        nx = draw(st.sampled_from([4, 6, 8]))
        return {"ny": 5, "nx": nx, "lat0": draw(st.sampled_from([90.0, 60.0])), "dlat": draw(st.sampled_from([30.0, 45.0])) if ny < 4 else 30.0,
                "lon0": draw(st.sampled_from([-180.0, 0.0])), "dlon": 360.0 / nx}
    d = draw(st.sampled_from([0.25, 1.0, 2.5]))
    dlon = d * draw(st.sampled_from([1.0, 1.0, 0.5]))
    lon0 = draw(st.sampled_from([4.0, -2 * dlon, -dlon, 0.0, 180 - 2 * dlon, 180.0 - dlon, 180.0, -180.0, -180 + dlon / 2, 179.0, 357.5, 90.0, -100.0]))
    lat0 = draw(st.sampled_from([52.0, d, 10.0, -20.0, 90.0]))
    return {"ny": ny, "nx": nx, "lat0": lat0, "dlat": d, "lon0": lon0, "dlon": dlon}


@st.composite
def layouts(draw, cmip=False, plain=False):
    lay = {
        "lat": draw(st.sampled_from(["desc", "asc"])),
        "lon": draw(st.sampled_from(["360", "180"])),
        "ctype": draw(st.sampled_from(["f8", "f4"])),
    }
    if plain:
        return lay
    if draw(st.integers(0, 5)) == 5:
        lay["lon_desc"] = True
    if not cmip:
        lay["split"] = draw(st.sampled_from(["day", "month", "one", "hour", "year"]))
        lay["names"] = draw(st.sampled_from(["old", "new", "newpl", "lev", "mixed"]))
        lay["levorder"] = draw(st.sampled_from(["asc", "desc", "mixed"]))
        lay["unlimited"] = draw(st.booleans())
        lay["scalar"] = draw(st.booleans())
        lay["tunits"] = draw(st.sampled_from(["hours since 1900-01-01", "seconds since 1970-01-01", "days since 1850-01-01 00:00:00"]))
        lay["perm"] = draw(st.one_of(st.just([0]), st.lists(st.integers(0, 4), min_size=1, max_size=9)))
        lay["ztype"] = draw(st.sampled_from(["i4", "f8", "i8"]))
    return lay


@st.composite
def atmospheres(draw, kind=None, freqs=("1h", "3h", "6h"), nt=(1, 4), cals=("standard", "noleap", "360_day", "proleptic_gregorian", "julian"), tcw=None):
    kind = kind or draw(st.sampled_from(["ml", "pl"]))
    if kind == "ml":
        pool = st.one_of(st.integers(1, 137), st.integers(95, 137), st.sampled_from([111, 112, 137, 1]))
    else:
        pool = st.sampled_from(PL)
    levels = draw(st.lists(pool, min_size=1, max_size=9, unique=True))
    ps = draw(st.sampled_from([[9.5e4, 1.03e5], [5e4, 1.03e5], [5.5e4, 8e4], [1.005e5, 1.04e5]]))
    if kind == "pl" and min(levels) * 100 >= ps[0]:  # at least one level is always above the surface
        levels.append(draw(st.sampled_from([400, 300, 100, 10])))
    extra = draw(st.lists(pool, max_size=3))
    order = draw(st.sampled_from(["asc", "desc", "as is"]))
    if order != "as is":
        levels = sorted(levels, reverse=order == "desc")
    return {
        "kind": kind,
        "grid": draw(grids()),
        "cal": draw(st.sampled_from(cals)),
        "start": draw(st.sampled_from(["2021-07-01T00:00", "2021-02-28T18:00", "2020-02-28T21:00", "2021-12-31T12:00", "1999-06-30T23:00"])),
        "freq": draw(st.sampled_from(freqs)),
        "nt": draw(st.integers(*nt)),
        "pre": draw(st.integers(0, 1)),
        "post": draw(st.integers(0, 1)),
        "levels": levels,
        "extra": extra,
        "seed": draw(st.integers(0, 10**6)),
        "ps": ps,
        "dry": draw(st.booleans()),
        "dew": draw(st.sampled_from([0.2, 0.0, 1.0])),
        "negp": draw(st.sampled_from([0.0, 0.2])),
        "tcw": draw(st.booleans()) if tcw is None else tcw,
    }
