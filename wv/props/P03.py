"""Surface fluxes from every source."""

import numpy as np
from hypothesis import strategies as st

from wv import case, raw
from wv.case import Violation

ID = "P03"
TECHNIQUE = "property-based testing: sign, unit and net-exchange invariants, and per-source model of the surface fluxes"
CASES = {"quick": 240, "thorough": 8000}
RULE = (
    "one case = generated precipitation and evaporation (dew, negative precipitation, zeros, extremes) in one source's "
    "conventions, preprocessed by the command; non-trivial when dew or negative precipitation occurs"
)
ASSUMPTIONS = ["float32 raw data: relative tolerance 2e-6 of the larger of precipitation and evaporation"]
SPELL = {"1h": ["1h", "1H", "60min", "3600s"], "3h": ["3h", "3H", "180T"], "6h": ["6h", "6H"], "30min": ["30min", "30T"],
         "1d": ["1d", "1D", "24h"], "12h": ["12h", "720min"]}


@st.composite
def strategy(draw, tier):
    source = draw(st.sampled_from(["era5", "cmip", "arco"]))
    freqs = {"era5": ("1h", "3h", "30min", "6h", "12h", "1d"), "cmip": ("6h",), "arco": ("1h", "3h", "6h", "1d")}[source]
    spec = draw(
        raw.atmospheres(
            "pl" if source != "era5" or draw(st.booleans()) else "ml", freqs=freqs,
            cals=("proleptic_gregorian",) if source == "arco" else ("standard", "noleap", "360_day"), tcw=True if source == "arco" else None,
        )
    )
    spec["source"] = source
    spec["levels"] = spec["levels"][:3]
    if spec["kind"] == "pl":
        spec["levels"] = sorted(set(spec["levels"]) | {300})
    spec["lay"] = draw(raw.layouts(cmip=source != "era5"))
    if source == "cmip":
        spec["start"] = spec["start"][:11] + "06:00"
        spec["pre"] = 0
        spec["lay"]["cuts"] = {v: draw(st.lists(st.floats(0.05, 0.95), max_size=2)) for v in raw.CMIP}
    if source != "era5":
        spec["lay"].pop("lon_desc", None)
    spec["dew"] = draw(st.sampled_from([0.3, 1.0, 0.0]))
    spec["negp"] = draw(st.sampled_from([0.3, 0.0, 1.0]))
    spec["negsize"] = draw(st.sampled_from([1e-9, 1e-4, 1e-2]))
    spec["size"] = draw(st.sampled_from([1.0, 100.0, 1e-4]))
    spec["spell"] = draw(st.integers(0, 3))
    return spec


def run(spec, env):
    at = raw.Atmos(spec)
    for n in ("tp", "e"):
        at.f[n] = (at.f[n] * spec["size"]).astype("f4").astype(float)
    neg = at.f["tp"] < 0
    at.f["tp"][neg] = np.float32(-spec["negsize"])
    if spec["source"] == "cmip":  # a negative half of an interval is not clipped on its own
        pass
    names = SPELL[spec["freq"]]
    r, d = raw.run_source(env, at, spec["source"], spec["lay"], run=case.cli, input_frequency=names[spec["spell"] % len(names)])
    case.must(env, r, f"preprocess {spec['source']}")
    days = raw.read_days(d + "/pre")
    got, grid = raw.collect(env, days)
    rows, cols = raw.on_truth(env, at, grid)
    T = at.m * 60
    for day in days:
        for name in ("precip", "evap"):
            env.check(day.units[name] == "kg m-2 s-1", "{} has units {}", name, day.units[name])
            env.check((day.vars[name] >= 0).all(), "{} is negative: {}", name, day.vars[name].min())
    for k, t in enumerate(at.times):
        if t not in at.req:
            continue
        p, e = (got[raw.key(t)][n][rows][:, cols] for n in ("precip", "evap"))
        tp, ev = at.f["tp"][k], at.f["e"][k]
        net = (np.maximum(tp, 0) + ev) * 1000 / T
        mag = np.maximum(p, e) + np.abs(ev) * 1000 / T
        raw.close(env, p - e, net, mag, f"net surface exchange at {t}", 4e-6)
        raw.close(env, p, (np.maximum(tp, 0) + np.maximum(ev, 0)) * 1000 / T, mag, f"precipitation at {t}", 4e-6)
        raw.close(env, e, np.maximum(-ev, 0) * 1000 / T, mag, f"evaporation at {t}", 4e-6)
        if (ev > 0).any() or (tp < 0).any():
            env.nontrivial = True
    env.label(spec["source"], spec["freq"], "dew" if (at.f["e"] > 0).any() else "no-dew", "negative" if neg.any() else "positive")
