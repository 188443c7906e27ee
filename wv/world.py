"""Generated tracking experiments: JSON spec -> preprocessed files, configuration, outputs."""

import datetime as dtm
import glob
import json
import os
import re
from collections import OrderedDict

import cftime
import netCDF4
import numpy as np
from hypothesis import strategies as st

from wv import case

STATES = ("s_upper", "s_lower")
FLUXES = ("fx_upper", "fx_lower", "fy_upper", "fy_lower", "evap", "precip")
ALL = STATES + FLUXES
CALENDARS = (
    "standard gregorian proleptic_gregorian noleap 365_day 360_day julian all_leap 366_day".split()
)
M_PER_DEG = 111089.56  # documented length of a degree
ERAD = 6.371e6

FREQ = OrderedDict(
    [("10min", 10), ("15min", 15), ("30min", 30), ("1h", 60), ("90min", 90), ("2h", 120), ("3h", 180), ("4h", 240),
     ("6h", 360), ("8h", 480), ("12h", 720), ("1d", 1440)]
)
ODD = OrderedDict([("50min", 50), ("100min", 100), ("5h", 300), ("7h", 420), ("9h", 540), ("36h", 2160), ("2d", 2880)])
LONG = OrderedDict((f"{n}d", 1440 * n) for n in (2, 5, 30, 31, 60, 73, 90, 360, 365, 366))


def parse(iso, cal):
    fmt = "%Y-%m-%dT%H:%M:%S" if iso.count(":") == 2 else "%Y-%m-%dT%H:%M"
    m = dtm_re.match(iso)
    y, mo, d, h, mi = (int(x) for x in m.groups()[:5])
    s = int(m.group(6) or 0)
    return cftime.datetime(y, mo, d, h, mi, s, calendar=cal)


dtm_re = re.compile(r"(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d)(?::(\d\d))?$")


def aligned_start(text, cal, inf):
    """A start date that exists in the calendar and lies on the input frequency."""
    if cal == "360_day" and text[8:10] == "31":
        text = text[:8] + "30" + text[10:]
    t = parse(text, cal)
    m = (t.hour * 60 + t.minute) // inf * inf
    return t.replace(hour=m // 60, minute=m % 60)


def iso(t):
    s = f"{t.year:04d}-{t.month:02d}-{t.day:02d}T{t.hour:02d}:{t.minute:02d}"
    return s + (f":{t.second:02d}" if t.second else "")


def minutes(n):
    return dtm.timedelta(minutes=n)


# ------------------------------------------------------------------ fields


def smooth(rng, ny, nx):
    """A smooth random field in [-1, 1], periodic in x."""
    y, x = np.meshgrid(np.arange(ny) / max(ny, 1), np.arange(nx) / nx, indexing="ij")
    f = np.zeros((ny, nx))
    for _ in range(3):
        kx, ky = rng.integers(0, 3), rng.integers(0, 3)
        f += rng.normal() * np.cos(2 * np.pi * (kx * x + ky * y / 2 + rng.random()))
    return f / max(1e-9, np.abs(f).max())


def make_fields(F, lat, lon, nrec, dt):
    rng = np.random.default_rng(F["seed"])
    ny, nx = len(lat), len(lon)
    dlat = abs(lat[0] - lat[1])
    dlon = F["dlon"]
    dy = dlat * M_PER_DEG
    dx = dlon * M_PER_DEG * np.clip(np.cos(np.deg2rad(lat)), 0.05, None)[:, None]
    out = {k: np.zeros((nrec, ny, nx)) for k in ALL}

    def bump():
        return smooth(rng, ny, nx) if F["smooth"] else rng.uniform(-1, 1, (ny, nx))

    base = {"upper": bump(), "lower": bump()}
    wind = {}
    for lev in ("upper", "lower"):
        pat = F["wind_" + lev]
        yy, xx = np.meshgrid(np.linspace(-1, 1, ny), np.linspace(-1, 1, nx), indexing="ij")
        if pat == "calm":
            u, v = np.zeros((ny, nx)), np.zeros((ny, nx))
        elif pat == "uniform":
            a = rng.random() * 2 * np.pi
            u, v = np.full((ny, nx), np.cos(a)), np.full((ny, nx), np.sin(a))
        elif pat == "zonal":
            u, v = np.full((ny, nx), float(rng.choice([-1.0, 1.0]))), np.zeros((ny, nx))
        elif pat == "merid":
            u, v = np.zeros((ny, nx)), np.full((ny, nx), float(rng.choice([-1.0, 1.0])))
        elif pat == "vortex":
            u, v = -yy, xx
        elif pat == "converge":
            u, v = -xx, -yy
        elif pat == "diverge":
            u, v = xx, yy
        else:  # noise
            u, v = rng.uniform(-1, 1, (ny, nx)), rng.uniform(-1, 1, (ny, nx))
        factor = F.get("lower_wind", 1.0) if lev == "lower" else 1.0
        au, av = F.get("aspect", (1.0, 1.0))
        wind[lev] = (u * au * factor, v * av * factor)
    zero = {lev: rng.random((ny, nx)) < F["zero_frac"] for lev in ("upper", "lower")}
    wet = rng.random((ny, nx)) < F["wet_frac"]
    moist = rng.random((ny, nx)) < F["evap_frac"]
    for k in range(nrec):
        for lev in ("upper", "lower"):
            s0 = F["s_" + lev]
            amp = F["s_amp"]
            f = 1 + amp * (base[lev] if k == 0 or not F["varying"] else 0.7 * base[lev] + 0.3 * bump())
            if F["jump"] and rng.random() < 0.4:
                f = f * rng.uniform(0.3, 1.5)
            s = np.maximum(s0 * f, 0.03 * s0)
            out["s_" + lev][k] = s
            u, v = wind[lev]
            if F["varying"]:
                a = rng.uniform(0.4, 1.0) * (-1 if F["reversing"] and rng.random() < 0.4 else 1)
                u, v = a * u + 0.15 * bump() * np.abs(u).max(), a * v + 0.15 * bump() * np.abs(v).max()
            c = F["courant"]
            fx = c * u * s * dx / dt
            fy = c * v * s * dy / dt
            fx[zero[lev]] = 0
            fy[zero[lev]] = 0
            out["fx_" + lev][k] = fx
            out["fy_" + lev][k] = fy
        tot = out["s_upper"][k] + out["s_lower"][k]
        out["precip"][k] = wet * F["p_int"] * tot.mean() / dt * np.abs(1 + 0.5 * bump())
        out["evap"][k] = moist * F["e_int"] * out["s_lower"][k].mean() / dt * np.abs(1 + 0.5 * bump())
    return {k: v.astype("f4") for k, v in out.items()}


# ------------------------------------------------------------------ a world


class World:
    """Inputs of one experiment. Everything in here is plain data and may be transformed."""

    def __init__(self, spec):
        self.spec = spec
        g = spec["grid"]
        self.lat = (g["lat0"] - g["dlat"] * np.arange(g["ny"])).astype(g["ctype"])
        self.lon = (g["lon0"] + g["dlon"] * np.arange(g["nx"])).astype(g["ctype"])
        self.cal = spec["cal"]
        self.inf = FREQ[spec["inf"]]
        self.start = aligned_start(spec["start"], self.cal, self.inf)
        self.dt = spec["dt"]
        self.direction = spec["dir"]
        self.periodic = spec["periodic"]
        self.kvf = spec["kvf"]
        self.outf = spec["outf"]
        self.origin = None  # one of the output times, for output frequencies that do not divide the day
        self.infreq = spec["inf"]
        self.track0 = self.start + minutes(spec["off"])
        self.track1 = self.track0 + dtm.timedelta(seconds=spec["steps"] * self.dt + spec["rest"])
        self.tag0 = self.track0 + minutes(spec["tag"][0])
        self.tag1 = self.track0 + minutes(spec["tag"][1])
        self.nrec = int(np.ceil((spec["off"] * 60 + spec["steps"] * self.dt + spec["rest"]) / (self.inf * 60))) + 1
        self.times = [self.start + minutes(self.inf * k) for k in range(self.nrec)]
        self.fields = make_fields(
            dict(spec["F"], dlon=g["dlon"]), self.lat.astype(float), self.lon.astype(float), self.nrec, self.dt
        )
        self.region = json.loads(json.dumps(spec["region"]))
        self.domain = spec.get("domain")
        self.extra = {}

    def copy(self):
        import copy

        return copy.deepcopy(self)

    # -------------------------------------------------------------- region

    def mask(self, t=None):
        """Documented region weights on the full grid."""
        r = self.region
        if r["kind"] == "bbox":
            return bbox_mask(r["box"], self.lat, self.lon)
        if r["kind"] == "mask":
            return np.asarray(r["w"], dtype=float)
        if r["kind"] == "dyn":
            offs = [abs((self.start + minutes(m) - t).total_seconds()) for m in r["times"]]
            return np.asarray(r["w"][int(np.argmin(offs))], dtype=float)
        raise case.HarnessError(r["kind"])

    # -------------------------------------------------------------- files

    def write_inputs(self, path):
        os.makedirs(path, exist_ok=True)
        days = OrderedDict()
        for k, t in enumerate(self.times):
            days.setdefault(t.strftime("%Y-%m-%d"), []).append(k)
        for day, idx in days.items():
            with netCDF4.Dataset(f"{path}/{day}_fluxes_storages.nc", "w") as nc:
                nc.setncatts(self.spec.get("origin") or {})
                nc.createDimension("time", None)
                nc.createDimension("latitude", len(self.lat))
                nc.createDimension("longitude", len(self.lon))
                v = nc.createVariable("time", "i8", ("time",))
                v.units, v.calendar = "seconds since 1900-01-01", self.cal
                v[:] = cftime.date2num([self.times[k] for k in idx], v.units, calendar=self.cal)
                for name, c in (("latitude", self.lat), ("longitude", self.lon)):
                    v = nc.createVariable(name, c.dtype, (name,))
                    v[:] = c
                for name in ALL:
                    a = self.fields[name]
                    v = nc.createVariable(name, a.dtype, ("time", "latitude", "longitude"))
                    v[:] = a[idx]
        return path

    def write_region(self, path):
        r = self.region
        if r["kind"] == "bbox":
            return list(r["box"])
        if r["kind"] == "shp":
            return write_shapefile(path + ".shp", r["rings"])
        path = path + ".nc"
        lat, lon = self.lat, self.lon
        with netCDF4.Dataset(path, "w") as nc:
            nc.createDimension("latitude", len(lat))
            nc.createDimension("longitude", len(lon))
            dims = ("latitude", "longitude")
            if r["kind"] == "dyn":
                nc.createDimension("time", len(r["times"]))
                v = nc.createVariable("time", "i8", ("time",))
                v.units, v.calendar = "seconds since 1900-01-01", self.cal
                v[:] = cftime.date2num(
                    [self.start + minutes(m) for m in r["times"]], v.units, calendar=self.cal
                )
                dims = ("time",) + dims
            for name, c in (("latitude", lat), ("longitude", lon)):
                v = nc.createVariable(name, c.dtype, (name,))
                v[:] = c
            v = nc.createVariable("tagging_region", self.spec.get("region_dtype", "f8"), dims)
            v[:] = np.asarray(r["w"], dtype=float)
        return path

    def config(self, inputs, output, region, **extra):
        c = {
            "filename_template": "unused",
            "preprocessed_data_folder": inputs,
            "calendar": self.cal,
            "output_folder": output,
            "preprocess_start_date": iso(self.track0),
            "preprocess_end_date": iso(self.track1),
            "tracking_direction": self.direction,
            "tracking_start_date": iso(self.track0),
            "tracking_end_date": iso(self.track1),
            "tagging_region": region,
            "tagging_start_date": iso(self.tag0),
            "tagging_end_date": iso(self.tag1),
            "input_frequency": self.infreq,
            "timestep": int(self.dt),
            "output_frequency": self.outf,
            "level_type": "model_levels",
            "levels": [1, 2],
            "restart": False,
            "periodic_boundary": self.periodic,
            "kvf": self.kvf,
        }
        if self.domain is not None:
            c["tracking_domain"] = list(self.domain)
        c.update(self.extra)
        c.update(extra)
        return c

    def prepare(self, env, inputs=None):
        d = env.dir("exp")
        self.inputs = inputs or self.write_inputs(os.path.join(d, "in"))
        self.output = os.path.join(d, "out")
        self.dir_ = d
        self.region_cfg = self.write_region(os.path.join(d, "region"))
        self.cfgfile = os.path.join(d, "config.yaml")
        return self

    def run(self, env, inputs=None, **extra):
        """Write everything, run `wam2layers track`, read the outputs."""
        self.prepare(env, inputs)
        case.write_json(self.cfgfile, self.config(self.inputs, self.output, self.region_cfg, **extra))
        case.must(env, case.cli(["track", self.cfgfile], self.dir_), "track")
        return Outputs(self.output)

    # -------------------------------------------------------------- documented schedule

    def step_list(self):
        """Documented steps: (t_from, t_half, t_to) in order of execution."""
        dt = dtm.timedelta(seconds=self.dt)
        steps = []
        if self.direction == "forward":
            t = self.track0
            while t + dt <= self.track1:
                steps.append((t, t + dt / 2, t + dt))
                t = t + dt
        else:
            t = self.track1
            while t - dt >= self.track0:
                steps.append((t, t - dt / 2, t - dt))
                t = t - dt
        return steps

    def output_times(self):
        """Times after which output is expected, as (step index, time)."""
        steps = self.step_list()
        f = {**FREQ, **ODD}[canonical(self.outf)] * 60
        res = []
        for i, (_, _, t) in enumerate(steps):
            sec = t.hour * 3600 + t.minute * 60 + t.second
            if self.outf in ODD:  # multiples of these are counted from an origin that is not documented
                sec = 1 if self.origin is None else (t - self.origin).total_seconds()
            if (sec % f == 0 and t.microsecond == 0) or i == len(steps) - 1:
                res.append((i, t))
        return res


def canonical(freq):
    return freq


def bbox_mask(box, lat, lon):
    w, s, e, n = box
    inlat = (lat >= s) & (lat <= n)
    inlon = ((lon >= w) & (lon <= e)) if w <= e else ((lon >= w) | (lon <= e))
    return (inlat[:, None] & inlon[None, :]).astype(float)


def write_shapefile(path, rings):
    import shapefile

    with shapefile.Writer(path, shapeType=shapefile.POLYGON) as w:
        w.field("name", "C")
        w.poly([[list(p) for p in ring] for ring in rings])
        w.record("region")
    return path


# ------------------------------------------------------------------ outputs

NAME = re.compile(r"(backtrack|forwardtrack)_(\d{4})-(\d\d)-(\d\d)T(\d\d)-(\d\d)\.nc$")


class Out:
    def __init__(self, path):
        self.path = path
        self.name = os.path.basename(path)
        with netCDF4.Dataset(path) as nc:
            nc.set_auto_mask(False)
            self.vars = {k: np.array(v[:]) for k, v in nc.variables.items()}
            self.dims = {k: v.dimensions for k, v in nc.variables.items()}
            self.attrs = {k: {a: v.getncattr(a) for a in v.ncattrs()} for k, v in nc.variables.items()}
            self.gattrs = {a: nc.getncattr(a) for a in nc.ncattrs()}
        tv = self.attrs.get("time", {})
        self.time = None
        if "units" in tv:
            self.time = cftime.num2date(
                np.ravel(self.vars["time"])[0], tv["units"], tv.get("calendar", "standard"), only_use_cftime_datetimes=True
            )

    def field(self, name):
        a = self.vars[name]
        if a.ndim == 3:
            a = a[0]
        return a.astype(float)

    @property
    def key(self):
        m = NAME.search(self.name)
        return tuple(int(x) for x in m.groups()[1:])


class Outputs:
    """All output files of a folder, ordered by name (time)."""

    def __init__(self, folder):
        files = [f for f in sorted(glob.glob(folder + "/*.nc")) if NAME.search(f)]
        self.folder = folder
        self.files = [Out(f) for f in files]
        self.by_key = {o.key: o for o in self.files}

    def in_order(self, direction):
        return self.files if direction == "forward" else self.files[::-1]

    def __len__(self):
        return len(self.files)


def tkey(t):
    return (t.year, t.month, t.day, t.hour, t.minute)


ACC = {
    "forward": ("p_track_upper", "p_track_lower", "tagged_evap", "losses", "gains"),
    "backward": ("e_track", "tagged_precip", "losses", "gains"),
}
REST = ("s_track_upper_restart", "s_track_lower_restart")


def tagged_name(direction):
    return "tagged_evap" if direction == "forward" else "tagged_precip"


def fields_of(direction):
    return ACC[direction] + REST


def cell_area(lat, lon, dlat=None, dlon=None):
    """Exact area of spherical cells."""
    lat = np.asarray(lat, float)
    lon = np.asarray(lon, float)
    dlat = abs(lat[1] - lat[0]) if dlat is None else dlat
    dlon = abs(lon[1] - lon[0]) if dlon is None else dlon
    n = np.deg2rad(np.minimum(90, lat + dlat / 2))
    s = np.deg2rad(np.maximum(-90, lat - dlat / 2))
    return ERAD**2 * np.deg2rad(dlon) * (np.sin(n) - np.sin(s))


def compare(env, a, b, direction, scale, what, rtol=2e-5, names=None, tf=lambda x: x):
    """Fields of two output files agree to rounding."""
    for name in names or fields_of(direction):
        x, y = tf(a.field(name)), b.field(name)
        if x.shape != y.shape:
            raise case.Violation(f"{what}: {name} has shape {x.shape} and {y.shape}")
        bad = ~np.isfinite(x) | ~np.isfinite(y)
        if bad.any():
            raise case.Violation(f"{what}: {name} not finite at {np.argwhere(bad)[0].tolist()}")
        dev = np.abs(x - y)
        env.metric(f"dev_{name}", dev.max() / scale)
        if dev.max() > rtol * scale:
            i = np.unravel_index(np.argmax(dev), dev.shape)
            raise case.Violation(
                f"{what}: {name} differs at {list(map(int, i))} of {a.name}: {x[i]:.8g} vs {y[i]:.8g} (scale {scale:.3g})"
            )


def tolerance(world, base=3e-6):
    """Rounding error to allow, relative to the moisture scale (coordinates may be float32)."""
    if world.lat.dtype == np.float64:
        return base
    lat, d = world.lat.astype(float), world.spec["grid"]["dlat"]
    n, s = np.minimum(90, lat + d / 2), np.maximum(-90, lat - d / 2)
    smallest = np.abs(np.sin(np.deg2rad(n)) - np.sin(np.deg2rad(s))).min()
    return base + 4 * 6e-8 / smallest  # float32 differences of sines in the cell areas


def scale_of(world):
    return float(max(world.fields["s_upper"].max(), world.fields["s_lower"].max()))


# ------------------------------------------------------------------ strategies


@st.composite
def grids(draw, periodic=False, ny=(4, 8), nx=(4, 9), nearly_square=False):
    n_y = draw(st.integers(*ny))
    if periodic:
        n_x = draw(st.sampled_from([n for n in (6, 8, 9, 10, 12) if nx[0] <= n]))
        dlon = 360 / n_x
        dlat = draw(st.sampled_from([2.5, 5.0, 10.0, 15.0]))
        lon0 = draw(st.sampled_from([-180.0, -180.0 + dlon / 2, -180 + dlon / 4]))
    else:
        n_x = draw(st.integers(*nx))
        dlat = draw(st.sampled_from([0.25, 0.5, 1.0, 2.0, 2.5, 0.03125]))
        ratio = 1.0 if nearly_square else draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 1.25]))
        dlon = dlat * ratio
        lo = int(-180 / dlon)
        hi = int((180 - dlon * n_x) / dlon)
        lon0 = draw(st.integers(lo, hi)) * dlon + draw(st.sampled_from([0.0, 0.5])) * dlon
        if lon0 + dlon * (n_x - 1) >= 180:
            lon0 -= dlon
    span = dlat * (n_y - 1)
    top = draw(st.sampled_from([90.0, 60.0, 45.0, span / 2, 10.0, -20.0]))
    lat0 = max(-90 + span, min(90.0, top)) + 0.0
    if lat0 == 90.0 and not draw(st.booleans()):
        lat0 -= dlat / 2
        if lat0 - span < -90:
            lat0 = 90 - dlat / 2 if span + dlat <= 180 else 90.0
    return {
        "ny": n_y, "nx": n_x, "dlat": dlat, "dlon": dlon, "lat0": lat0, "lon0": lon0,
        "ctype": draw(st.sampled_from(["f8", "f8", "f4"])),
    }


@st.composite
def field_params(draw, regime="any"):
    winds = st.sampled_from(["noise", "uniform", "calm", "zonal", "merid", "vortex", "converge", "diverge"])
    if regime == "any":
        courant = draw(st.sampled_from([0.3, 0.05, 0.8, 3.0, 20.0]))
        zero = draw(st.sampled_from([0.0, 0.0, 0.15, 0.5]))
        p = draw(st.sampled_from([0.02, 0.02, 0.2, 1.2, 0.0, 4.0]))
        e = draw(st.sampled_from([0.02, 0.02, 0.2, 1.2, 0.0, 4.0]))
        amp = draw(st.sampled_from([0.3, 0.0, 0.9]))
        jump = draw(st.booleans())
    else:  # gentle: nothing is ever clipped
        courant = draw(st.sampled_from([0.05, 0.2]))
        zero = draw(st.sampled_from([0.0, 0.2]))
        p = draw(st.sampled_from([0.005, 0.02]))
        e = draw(st.sampled_from([0.005, 0.02]))
        amp = draw(st.sampled_from([0.0, 0.1, 0.3]))
        jump = False
    return {
        "seed": draw(st.integers(0, 10**6)),
        "smooth": draw(st.booleans()),
        "wind_upper": draw(winds),
        "wind_lower": draw(winds),
        "courant": courant,
        "aspect": list(draw(st.sampled_from([(1.0, 1.0), (1.0, 1.0), (1.0, 0.1), (0.1, 1.0), (1.0, 0.01)]))),
        "lower_wind": draw(st.sampled_from([1.0, 1.0, 0.2, 5.0] if regime == "any" else [1.0, 0.2])),
        "zero_frac": zero,
        "s_upper": draw(st.sampled_from([10.0, 1.0, 0.2])),
        "s_lower": draw(st.sampled_from([15.0, 1.0, 0.2])),
        "s_amp": amp,
        "varying": draw(st.booleans()),
        "reversing": draw(st.booleans()),
        "jump": jump,
        "wet_frac": draw(st.sampled_from([1.0, 1.0, 0.6, 0.2])),
        "evap_frac": draw(st.sampled_from([1.0, 1.0, 0.6, 0.2])),
        "p_int": p,
        "e_int": e,
    }


STARTS = [
    "2021-07-01T00:00", "2021-07-01T18:00", "2020-02-28T18:00", "2021-02-28T12:00", "2021-12-31T21:00",
    "1999-12-31T12:00", "2021-06-30T20:00", "2100-02-28T22:00", "1985-10-10T06:00",
]


@st.composite
def boxes(draw, g, allow_wrap=False):
    """A tagging box overlapping the grid, with edges on or between cell centres."""
    lat = [g["lat0"] - g["dlat"] * k for k in range(g["ny"])]
    lon = [g["lon0"] + g["dlon"] * k for k in range(g["nx"])]
    rows = [i for i in range(g["ny"]) if abs(lat[i]) <= 79] or [0]
    cols = list(range(g["nx"]))
    if draw(st.integers(0, 7)):  # mostly reach into the interior
        rows = [i for i in rows if 0 < i < g["ny"] - 1] or rows
        cols = cols[1:-1]
    i0 = draw(st.sampled_from(rows))
    i1 = draw(st.sampled_from([i for i in rows if i >= i0]))
    j0 = draw(st.sampled_from(cols))
    j1 = draw(st.integers(j0, g["nx"] - 1))
    e = draw(st.sampled_from([0.0, 0.25, 0.5, -0.25]))
    s, n = lat[i1] - e * g["dlat"], lat[i0] + e * g["dlat"]
    if not s < n:
        s, n = lat[i1] - 0.25 * g["dlat"], lat[i0] + 0.25 * g["dlat"]
    w, ea = lon[j0] - e * g["dlon"], lon[j1] + e * g["dlon"]
    if w >= ea:
        w, ea = lon[j0] - 0.25 * g["dlon"], lon[j1] + 0.25 * g["dlon"]
    s, n = max(-80.0, min(79.0, s)), max(-79.0, min(80.0, n))
    if not s < n:
        s, n = (-80.0, 80.0)
    w, ea = max(-180.0, min(180.0, w)), max(-180.0, min(180.0, ea))
    if allow_wrap and draw(st.integers(0, 5)):
        w, ea = (ea, w) if ea > w else (w, ea)
    return [w, s, ea, n]


def weights(draw, ny, nx, kind=None):
    kind = kind or draw(st.sampled_from(["all", "cells", "fraction", "rows", "tiny"]))
    if kind == "all":
        return np.ones((ny, nx)).tolist()
    rng = np.random.default_rng(draw(st.integers(0, 10**6)))
    if kind == "cells":
        w = (rng.random((ny, nx)) < 0.4).astype(float)
    elif kind == "fraction":
        w = np.round(rng.random((ny, nx)), 3) * (rng.random((ny, nx)) < 0.6)
    elif kind == "tiny":
        w = np.round(rng.random((ny, nx)) * 0.05, 4)
    else:
        w = np.zeros((ny, nx))
        w[rng.integers(0, ny)] = 1
    if not w.any():
        w[ny // 2, nx // 2] = 1
    return w.tolist()


@st.composite
def regions(draw, g, kinds=("bbox", "mask")):
    kind = draw(st.sampled_from(kinds))
    reachable = any(abs(g["lat0"] - g["dlat"] * i) <= 79 for i in range(g["ny"]))
    if kind == "bbox" and reachable:
        return {"kind": "bbox", "box": draw(boxes(g))}
    return {"kind": "mask", "w": weights(draw, g["ny"], g["nx"])}


@st.composite
def worlds(
    draw, max_steps=10, min_steps=3, periodic=None, regime="any", kinds=("bbox", "mask"), direction=None,
    cals=("standard", "standard", "noleap", "360_day"), small=False, full_tag=False, grid_kw=None, aligned=False,
    max_span=2 * 1440,
):
    per = draw(st.booleans()) if periodic is None else periodic
    g = draw(grids(per, **(grid_kw or {})))
    inf = draw(st.sampled_from(["1h", "30min", "3h", "6h", "2h", "1h", "3h", "1d", "12h", "90min"]))
    dt = draw(st.sampled_from([1800, 3600, 600, 900, 2700, 5400, 1200, 7200, 10800]))
    dt = min(dt, FREQ[inf] * 60 * 2)
    steps = draw(st.integers(min_steps, max_steps))
    while steps > min_steps and steps * dt > max_span * 60:
        steps -= 1
    rest = 0 if aligned else draw(st.sampled_from([0, 0, 0, 60 * (dt // 120)]))
    off = 0 if aligned else draw(st.sampled_from([0, 0, dt // 60, 5, 20])) % FREQ[inf]
    outf = draw(st.sampled_from(["1h", "3h", "6h", "1d", "30min", "2h", "90min"]))
    total = steps * dt // 60
    if full_tag:
        tag = [0, total + rest // 60]
    else:
        tag = draw(
            st.one_of(
                st.just([0, total + rest // 60]),
                st.just([-dt // 60, total + rest // 60 + dt // 60]),
                st.tuples(st.integers(-2, total + 60), st.integers(0, total + 60)).map(lambda p: [min(p), max(p)]),
                st.tuples(st.integers(0, steps), st.integers(0, steps)).map(
                    lambda p: [min(p) * dt // 60, max(p) * dt // 60]
                ),
            )
        )
    direction = direction or draw(st.sampled_from(["backward", "forward"]))
    F = draw(field_params(regime))
    source = "e_int" if direction == "forward" else "p_int"
    if F[source] == 0 and draw(st.integers(0, 9)):
        F[source] = 0.1
    return {
        "dir": direction,
        "grid": g,
        "cal": draw(st.sampled_from(list(cals))),
        "start": draw(st.sampled_from(STARTS)),
        "inf": inf,
        "dt": dt,
        "outf": outf,
        "off": off,
        "steps": steps,
        "rest": rest,
        "tag": list(tag),
        "periodic": per,
        "kvf": draw(st.sampled_from([3.0, 0.0, 1.0, 7.5])),
        "region": draw(regions(g, kinds)),
        "F": F,
    }


def regime_labels(env, world):
    F = world.spec["F"]
    env.label(
        world.direction,
        "periodic" if world.periodic else "bounded",
        f"courant={F['courant']}",
        "square" if world.spec["grid"]["dlat"] == world.spec["grid"]["dlon"] else "non-square",
        world.region["kind"],
        "calm-cells" if F["zero_frac"] or "calm" in (F["wind_upper"], F["wind_lower"]) else "windy",
        world.cal,
    )


# ------------------------------------------------------------------ transformations


def as_mask(w):
    """Replace the region by its weights on the grid."""
    if w.region["kind"] == "bbox":
        w.region = {"kind": "mask", "w": w.mask().tolist()}
    return w


def map_fields(w, f):
    w.fields = {k: f(v) for k, v in w.fields.items()}
    if w.region["kind"] == "mask":
        w.region["w"] = f(np.asarray(w.region["w"])[None])[0].tolist()
    elif w.region["kind"] == "dyn":
        w.region["w"] = f(np.asarray(w.region["w"])).tolist()
    return w


def rolled(w, k):
    return map_fields(as_mask(w.copy()), lambda a: np.roll(a, k, axis=-1))


def mirror_ew(w, negate_lon=True):
    v = map_fields(as_mask(w.copy()), lambda a: a[..., ::-1].copy())
    for lev in ("upper", "lower"):
        v.fields["fx_" + lev] = -v.fields["fx_" + lev]
    if negate_lon:
        v.lon = (-w.lon[::-1]).astype(w.lon.dtype)
        if v.lon.max() >= 180:  # keep within [-180, 180)
            v.lon = w.lon.copy()
    return v


def mirror_ns(w):
    v = map_fields(as_mask(w.copy()), lambda a: a[..., ::-1, :].copy())
    for lev in ("upper", "lower"):
        v.fields["fy_" + lev] = -v.fields["fy_" + lev]
    v.lat = (-w.lat[::-1]).astype(w.lat.dtype)
    return v


def cropped(w, rows, cols, lon=None):
    v = map_fields(as_mask(w.copy()), lambda a: a[..., rows, :][..., cols].copy())
    v.lat = w.lat[rows]
    v.lon = w.lon[cols] if lon is None else lon
    v.domain = None
    return v


def refined(w, m, freq):
    v = w.copy()
    n = (w.nrec - 1) * m + 1
    x = np.arange(n) / m
    k = np.minimum(np.floor(x + 1e-9).astype(int), w.nrec - 2)
    f = (x - k)[:, None, None]
    for name, a in w.fields.items():
        a = a.astype(float)
        v.fields[name] = (1 - f) * a[k] + f * a[k + 1]
    v.inf = w.inf // m
    v.infreq = freq
    v.nrec = n
    v.times = [w.start + minutes(v.inf * i) for i in range(n)]
    return v


def padded(w, before, after, value=np.nan):
    """Extra records outside the period the run may use."""
    v = w.copy()
    v.times = [w.start - minutes(w.inf * (before - i)) for i in range(before)] + w.times
    v.times += [w.times[-1] + minutes(w.inf * (i + 1)) for i in range(after)]
    for name, a in w.fields.items():
        pad = np.full((1,) + a.shape[1:], value, a.dtype)
        v.fields[name] = np.concatenate([pad] * before + [a] + [pad] * after)
    v.nrec = len(v.times)
    return v


def domain_cells(w, box):
    """Rows, columns and continuous longitudes of the cells whose centres lie in the box."""
    west, south, east, north = box
    rows = [i for i in range(len(w.lat)) if south <= w.lat[i] <= north]
    lon = [float(x) for x in w.lon]
    if west <= east:
        cols = [j for j in range(len(lon)) if west <= lon[j] <= east]
        return rows, cols, np.array([lon[j] for j in cols], w.lon.dtype)
    right = [j for j in range(len(lon)) if lon[j] >= west]
    left = [j for j in range(len(lon)) if lon[j] <= east]
    return rows, right + left, np.array([lon[j] for j in right] + [lon[j] + 360 for j in left], w.lon.dtype)


@st.composite
def domains(draw, g, wrap, min_size=3):
    """A tracking domain with edges on or between cell centres."""
    lat = [g["lat0"] - g["dlat"] * k for k in range(g["ny"])]
    lon = [g["lon0"] + g["dlon"] * k for k in range(g["nx"])]
    rows = [i for i in range(g["ny"]) if abs(lat[i]) <= 80]
    if len(rows) < min_size:
        return None
    a = draw(st.integers(0, len(rows) - min_size))
    b = draw(st.integers(a + min_size - 1, len(rows) - 1))
    ey = [draw(st.sampled_from([0.0, 0.25, 0.5, 0.75])) * g["dlat"] for _ in range(2)]
    ex = [draw(st.sampled_from([0.0, 0.25, 0.5, 0.75])) * g["dlon"] for _ in range(2)]
    north = min(80.0, lat[rows[a]] + ey[0])
    south = max(-80.0, lat[rows[b]] - ey[1])
    n = g["nx"]
    if not wrap:
        if n < min_size:
            return None
        c = draw(st.integers(0, n - min_size))
        d = draw(st.integers(c + min_size - 1, n - 1))
        return [max(-180.0, lon[c] - ex[0]), south, min(180.0, lon[d] + ex[1]), north]
    # number of columns west of the antimeridian (>= 1) and east of it (>= 1)
    left = draw(st.one_of(st.just(1), st.integers(1, n - 2)))  # 1: the first two longitudes lie across the seam
    right = draw(st.integers(max(1, min_size - left), max(1, min_size - left, n - left - 1)))
    if left + right > n:
        return None
    west = lon[n - left] - ex[0]
    east = lon[right - 1] + ex[1]
    if not west > east or west > 180 or east < -180:
        return None
    return [max(-180.0, west), south, min(180.0, east), north]


# ------------------------------------------------------------------ helpers for the checks


def cells_of(out, w):
    """Row and column numbers of an output file's cells in the world's grid."""
    rows = [int(np.argmin(np.abs(w.lat.astype(float) - float(y)))) for y in out.vars["latitude"]]
    lon = w.lon.astype(float)
    cols = [int(np.argmin(np.abs((lon - float(x) + 180) % 360 - 180))) for x in out.vars["longitude"]]
    return rows, cols


def records(w, name, t):
    """A field at t by linear interpolation between the records."""
    from wv.ref import at_time

    return at_time(w, t, (name,))[name]


def intervals(w):
    """(time, start of the interval, steps in it) for each documented output."""
    steps, first, res = w.step_list(), 0, []
    for last, t in w.output_times():
        res.append((t, steps[first][0], steps[first : last + 1]))
        first = last + 1
    return res


def same_files(env, a, b, what):
    if sorted(a.by_key) != sorted(b.by_key):
        raise case.Violation(f"{what}: outputs at {sorted(a.by_key)} and {sorted(b.by_key)}")


def compare_all(env, a, b, w, what, rtol=None, **kw):
    same_files(env, a, b, what)
    for key in sorted(a.by_key):
        compare(
            env, a.by_key[key], b.by_key[key], w.direction, scale_of(w), what, rtol=rtol or 2 * tolerance(w), **kw
        )


def tagged_anything(outs, direction):
    return any(o.vars[tagged_name(direction)].any() for o in outs.files)


def dyn_region(draw, w_ny, w_nx, span, n=(2, 4)):
    """A moving region; its times never lie halfway between two steps (multiples of 5 minutes)."""
    k = draw(st.integers(*n))
    first = -5 * draw(st.integers(0, 30)) + 1
    gaps = [5 * draw(st.integers(1, max(2, span // 10))) for _ in range(k - 1)]
    times = [first]
    for d in gaps:
        times.append(times[-1] + d)
    return {"kind": "dyn", "times": times, "w": [weights(draw, w_ny, w_nx) for _ in range(k)]}


def variants(draw, spec, domain=4, moving=6):
    """Now and then, track on a part of the grid or tag in a moving region."""
    g = spec["grid"]
    if domain and draw(st.integers(0, domain - 1)) == 0:
        spec["domain"] = draw(domains(g, wrap=spec["periodic"] and draw(st.integers(0, 2)) > 0))
        if spec["domain"]:
            spec["periodic"] = False
    if moving and draw(st.integers(0, moving - 1)) == 0:
        spec["region"] = dyn_region(draw, g["ny"], g["nx"], spec["steps"] * spec["dt"] // 60)
    return spec


def as_tracked(env, w):
    """The part of the world that is tracked."""
    if not w.domain:
        return w
    rows, cols, lon = domain_cells(w, w.domain)
    if len(rows) < 3 or len(cols) < 3:
        raise case.Skip("domain too small")
    env.label("domain across antimeridian" if w.domain[0] > w.domain[2] else "domain")
    return cropped(w, rows, cols, lon)


def recalendar(w, cal, start):
    """The same data under other dates."""
    v = w.copy()
    v.cal = cal
    v.start = aligned_start(start, cal, w.inf)
    shift = lambda t: v.start + (t - w.start)
    for name in ("track0", "track1", "tag0", "tag1"):
        setattr(v, name, shift(getattr(w, name)))
    v.times = [shift(t) for t in w.times]
    return v
