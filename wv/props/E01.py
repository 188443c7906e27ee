"""From raw data to tracked moisture with one configuration."""

import datetime as dtm

import numpy as np
from hypothesis import strategies as st

from wv import case, raw
from wv import world as W
from wv.case import Violation

ID = "E01"
TECHNIQUE = "property-based testing: preprocess and track from one configuration, against tracking of independently integrated fields"
CASES = {"quick": 70, "thorough": 4000}
RULE = (
    "one case = one generated raw data set of one source and one configuration, preprocessed and tracked by two commands, "
    "and a tracking run on files written from the independent integration; non-trivial when moisture is tagged"
)
ASSUMPTIONS = [
    "both layers hold moisture everywhere (levels of both layers are configured)",
    "tolerance 2e-5 of the largest storage (float32 raw data; whole-Pa pressures of ARCO data, see P02's finding: 1e-3)",
    "domains across the antimeridian are tracked with tracking_domain, as documented",
]


@st.composite
def strategy(draw, tier):
    source = draw(st.sampled_from(["era5", "era5", "era5", "cmip", "arco"]))
    freq = "6h" if source == "cmip" else draw(st.sampled_from(["1h", "3h", "6h", "30min", "90min"]))
    spec = draw(
        raw.atmospheres(
            "pl" if source != "era5" or draw(st.booleans()) else "ml", freqs=(freq,), nt=(2, 4),
            cals=("proleptic_gregorian",) if source == "arco" else ("standard", "noleap", "360_day", "julian"),
            tcw={"arco": True, "cmip": False}.get(source),
        )
    )
    spec["source"] = source
    if source == "cmip":
        spec["start"] = spec["start"][:11] + "06:00"
        spec["pre"], spec["extra"] = 0, []
    m = W.FREQ[freq]
    h, mi = int(spec["start"][11:13]), int(spec["start"][14:16])
    h, mi = divmod((h * 60 + mi) // m * m, 60)
    spec["start"] = f"{spec['start'][:11]}{h:02d}:{mi:02d}"
    spec["levels"] = spec["levels"][:4]
    if spec["kind"] == "pl":
        spec["levels"] = sorted(set(spec["levels"]) | {300})
    if spec["kind"] == "ml":  # some in each layer
        spec["levels"] = sorted(set(spec["levels"]) | {100, 130})
    spec["dry"] = False
    spec["lay"] = draw(raw.layouts(cmip=source != "era5"))
    spec["lay"]["ztype"] = "f8"
    shape = draw(st.sampled_from(["land", "land", "global", "across"]))
    d = draw(st.sampled_from([1.0, 2.5, 0.25]))
    ny, nx = draw(st.integers(4, 5)), draw(st.integers(4, 6))
    if shape == "global":
        nx = draw(st.sampled_from([6, 8]))
        spec["grid"] = {"ny": 5, "nx": nx, "lat0": draw(st.sampled_from([60.0, 40.0])), "dlat": 20.0, "lon0": draw(st.sampled_from([-180.0, 0.0])), "dlon": 360.0 / nx}
    else:
        lon0 = 180 - 2 * d if shape == "across" else draw(st.sampled_from([4.0, -d, 0.0, -60.0, 100.0]))
        spec["grid"] = {"ny": ny, "nx": nx, "lat0": draw(st.sampled_from([52.0, 2 * d, -20.0])), "dlat": d, "lon0": lon0, "dlon": d}
    spec["shape"] = shape
    ny, nx = spec["grid"]["ny"], spec["grid"]["nx"]
    spec["periodic"] = shape == "global" and draw(st.booleans())
    spec["cells"] = [draw(st.integers(0, ny - 1)), draw(st.integers(0, nx - 1)), draw(st.integers(1, 3)), draw(st.integers(1, 3))]
    spec["dir"] = draw(st.sampled_from(["forward", "backward"]))
    span = (spec["nt"] - 1) * m
    spec["dt"] = dt = draw(st.sampled_from([x for x in (600, 900, 1800, 3600) if 2 * x <= span * 60 and x <= m * 60]))
    spec["steps"] = draw(st.integers(2, min(8 if tier == "quick" else 20, span * 60 // dt)))
    spec["toff"] = draw(st.integers(0, span * 60 // dt - spec["steps"])) * dt // 60
    spec["tag"] = sorted(draw(st.integers(0, span)) for _ in range(2)) if draw(st.booleans()) else [0, span]
    spec["outf"] = draw(st.sampled_from(["1h", "30min", "3h", "1d"]))
    spec["kvf"] = draw(st.sampled_from([3.0, 0.0, 1.0]))
    spec["calm"] = draw(st.sampled_from([1.0, 0.2, 0.05]))
    return spec


class Chain(W.World):
    """The experiment on independently integrated fields."""

    def __init__(self, spec, at, lat, lon, rows, cols):
        g = spec["grid"]
        self.spec = {"grid": dict(g, ctype="f8")}
        self.lat, self.lon = lat, lon
        self.cal, self.inf, self.infreq = at.cal, at.m, at.freq
        self.start, self.times = at.req[0], list(at.req)
        self.dt, self.direction, self.periodic = spec["dt"], spec["dir"], spec["periodic"]
        self.kvf, self.outf = spec["kvf"], spec["outf"]
        self.track0 = self.start + W.minutes(spec["toff"])
        self.track1 = self.track0 + dtm.timedelta(seconds=spec["steps"] * spec["dt"])
        self.tag0, self.tag1 = (self.start + W.minutes(x) for x in spec["tag"])
        self.fields = {n: np.zeros((len(self.times), len(lat), len(lon)), "f4") for n in W.ALL}
        for k, t in enumerate(self.times):
            want, _ = at.expected(t)
            for n in W.ALL:
                self.fields[n][k][np.ix_(rows, cols)] = want[n]
        i, j, h, w = spec["cells"]
        e = 0.25
        north, south = at.lat[i] + e * g["dlat"], at.lat[min(i + h, at.ny) - 1] - e * g["dlat"]
        west, east = at.lon[j] - e * g["dlon"], at.lon[min(j + w, at.nx) - 1] + e * g["dlon"]
        wrap = lambda x: (x + 180) % 360 - 180
        self.region = {"kind": "bbox", "box": [wrap(west), max(south, -90), wrap(east), min(north, 90)]}
        self.domain, self.extra = None, {}
        if spec["shape"] == "across":
            self.domain = [wrap(at.lon[0] - e * g["dlon"]), max(-90, at.lat[-1] - e * g["dlat"]), wrap(at.lon[-1] + e * g["dlon"]), min(90, at.lat[0] + e * g["dlat"])]


def run(spec, env):
    at = raw.Atmos(spec)
    for n in ("u", "v", "u10", "v10"):
        at.f[n] = (at.f[n] * spec["calm"]).astype("f4").astype(float)
    source = spec["source"]
    # everything about the experiment is in the configuration used for both commands
    probe = Chain(spec, at, np.sort(at.lat)[::-1], np.sort(at.lon), *order(at, np.sort(at.lat)[::-1], np.sort(at.lon)))
    own = probe.config("unused", "unused", probe.region["box"])
    keep = {k: own[k] for k in own if k.startswith(("tracking_", "tagging_")) or k in ("timestep", "output_frequency", "periodic_boundary", "kvf")}
    r, d = raw.run_source(env, at, source, spec["lay"], **keep)
    case.must(env, r, f"preprocess {source}")
    days = raw.read_days(d + "/pre")
    got, grid = raw.collect(env, days)
    raw.on_truth(env, at, grid)
    case.must(env, case.fresh_cli(["track", d + "/config.yaml"], d), f"track (after preprocess {source})")
    chain = W.Outputs(d + "/out")
    lat, lon = (np.asarray(x, float) for x in grid)
    w = Chain(spec, at, lat, lon, *order(at, lat, lon))
    ref = w.run(env)
    W.same_files(env, chain, ref, "preprocessed and tracked, and tracked on given fields")
    scale = max(W.scale_of(w), 1e-6)
    tol = 1e-3 if source == "arco" else 2e-5
    for key, a in chain.by_key.items():
        b = ref.by_key[key]
        if a.time != b.time or a.vars["latitude"].tolist() != b.vars["latitude"].tolist() or a.vars["longitude"].tolist() != b.vars["longitude"].tolist():
            raise Violation(f"{a.name}: coordinates differ from those of the same run on given fields")
        for n in W.fields_of(w.direction):
            x, y = a.field(n), b.field(n)
            dev = np.abs(x - y) / (scale + np.abs(y))
            if not np.isfinite(dev).all():
                raise Violation(f"{a.name}: {n} is not finite")
            env.metric(f"dev/tol {source}", dev.max() / tol)
            if dev.max() > tol:
                i = np.unravel_index(np.argmax(dev), dev.shape)
                raise Violation(f"{a.name}: {n} at {list(map(int, i))} is {x[i]:.6g}; with the fields the raw data ({source}) mean, it is {y[i]:.6g}")
    env.label(source, spec["kind"], spec["shape"], spec["dir"], "periodic" if spec["periodic"] else "open")
    env.nontrivial = W.tagged_anything(ref, w.direction)


def order(at, lat, lon):
    rows = [int(np.argmin(np.abs(lat - y))) for y in at.lat]
    cols = [int(np.argmin(np.abs((lon - x + 180) % 360 - 180))) for x in at.lon]
    return rows, cols
