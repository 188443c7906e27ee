"""The same atmosphere from ERA5, CMIP and ARCO-ERA5."""

import numpy as np
from hypothesis import strategies as st

from wv import case, raw
from wv.case import Violation

ID = "P06"
TECHNIQUE = "property-based testing: one generated atmosphere through three preprocessors, compared with one independent integration"
CASES = {"quick": 80, "thorough": 5000}
RULE = (
    "one case = one generated atmosphere written as ERA5 files, CMIP files (twice: split differently in time, extra "
    "levels) and ARCO store, preprocessed by the three commands; non-trivial when dew and several levels occur"
)
ASSUMPTIONS = [
    "the ARCO store is a stand-in for xarray.open_zarr with the names, units and attributes of the public store",
    "latent heat 2.45e6 J/kg links hfls and evaporation; humidity from dew point follows the IFS documentation",
    "relative tolerance of the column sums 6e-5 (float32 raw data)",
]


@st.composite
def strategy(draw, tier):
    spec = draw(raw.atmospheres("pl", freqs=("6h",), nt=(1, 5 if tier == "quick" else 9), cals=("proleptic_gregorian",), tcw=False))
    spec["start"] = draw(st.sampled_from(["2021-07-01T06:00", "2021-02-28T06:00", "2020-02-28T06:00", "2021-12-31T06:00"]))
    spec["extra"] = []
    spec["dew"] = draw(st.sampled_from([0.3, 0.3, 1.0, 0.0]))
    spec["era5"] = draw(raw.layouts())
    spec["era5"]["ztype"] = "f8"
    if spec["era5"]["names"] == "new":
        spec["era5"]["names"] = "newpl"
    frac = st.lists(st.floats(0.05, 0.95), max_size=3)
    for n in ("cmip", "cmip2"):
        spec[n] = draw(raw.layouts(cmip=True))
        spec[n]["cuts"] = {v: draw(frac) for v in raw.CMIP}
        spec[n]["more"] = {v: draw(st.lists(st.sampled_from(raw.PL), max_size=2, unique=True)) for v in draw(st.sampled_from([[], ["q"], ["u", "v"], ["q", "u"]]))}
        spec[n]["names_reversed"] = draw(st.booleans())
        spec[n]["levorder"] = draw(st.sampled_from(["desc", "asc"]))
        spec[n]["bounds"] = draw(st.booleans())
    spec["arco"] = draw(raw.layouts(plain=True))
    spec["arco"]["more_levels"] = draw(st.lists(st.sampled_from(raw.PL), max_size=4, unique=True))
    spec["tcw_given"] = draw(st.booleans())
    return spec


def run(spec, env):
    at = raw.Atmos(spec)
    if at.pre and at.m:  # CMIP fluxes start at 01:30 of a day
        pass
    results = {}
    for source, lay in (("era5", "era5"), ("cmip", "cmip"), ("cmip", "cmip2"), ("arco", "arco")):
        this = raw.Atmos(spec)
        if source == "cmip":
            # the 3-hourly series has to start at 01:30: drop the record before
            this.times = this.times[this.pre :]
            this.f = {k: v[this.pre :] for k, v in this.f.items()}
            this.pre = 0
        if source == "arco":  # the store always has total column water: give it what the levels add up to
            this.f["tcw"] = np.stack([water(at, t) for t in at.times])
        r, d = raw.run_source(env, this, source, spec[lay], name=lay)
        case.must(env, r, f"preprocess {source}")
        days = raw.read_days(d + "/pre")
        try:
            results[lay] = raw.verify(env, at, days, rtol=6e-5, column=True)
        except Violation:
            if source != "arco":
                raise
            # the store has integer levels: pressures are cut to whole Pa (finding listed under P02)
            raw.verify(env, this, days, rtol=4e-4, column=True, whole=True)
    # splitting in time and extra levels of some variables change nothing
    for k, a in results["cmip"].items():
        b = results["cmip2"][k]
        if not np.allclose(a, b, rtol=3e-5, atol=1e-5 * np.abs(a).max()):
            raise Violation(f"{k[1]} at {k[0]} depends on how the CMIP data are split: {np.abs(a - b).max():.3g}")
    env.label("dew" if spec["dew"] else "no-dew", *(f"{n}:{'split' if any(spec[n]['cuts'].values()) else 'one'}" for n in ("cmip", "cmip2")))
    env.nontrivial = spec["dew"] > 0 and len(spec["levels"]) > 2


def water(at, t):
    want, _ = at.expected(t)
    return want["s_upper"] + want["s_lower"]
