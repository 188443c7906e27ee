"""Schedule and files of preprocessing."""

import datetime as dtm
import os

import numpy as np
from hypothesis import strategies as st

from wv import case, raw
from wv import world as W
from wv.case import Violation

ID = "P04"
TECHNIQUE = "property-based testing: schedule model, serial/parallel differential, idempotence of re-runs"
CASES = {"quick": 130, "thorough": 4000}
RULE = (
    "one case = a generated period and frequency, preprocessed serially, with a generated number of processes and once "
    "more over the first result; non-trivial when more than one day is touched"
)
ASSUMPTIONS = ["dates are given in whole minutes, as documented"]


@st.composite
def strategy(draw, tier):
    freq = draw(st.sampled_from(["6h", "1h", "3h", "12h", "8h", "90min", "1d", "4h", "15min"]))
    if draw(st.integers(0, 3)) == 0:  # over months and years: days that differ in one of their parts only
        freq = draw(st.sampled_from(list(W.LONG)))
        m = W.LONG[freq]
        nt = draw(st.integers(2, 6 if tier == "quick" else 16))
    else:
        m = W.FREQ[freq]
        span = draw(st.sampled_from([2, 1, 3, 4] if tier == "quick" else [2, 3, 5, 8]))
        nt = draw(st.integers(1, max(1, min(14 if tier == "quick" else 60, span * 1440 // m))))
    kind = draw(st.sampled_from(["ml", "pl"]))
    return {
        "kind": kind,
        "grid": {"ny": 2, "nx": 2, "lat0": 10.0, "dlat": 1.0, "lon0": 4.0, "dlon": 1.0},
        "cal": draw(st.sampled_from(W.CALENDARS)),
        "start": draw(st.sampled_from(["2021-07-01T00:00", "2021-02-28T12:00", "2020-02-28T23:00", "2021-12-31T18:00", "2021-06-30T20:30"])),
        "off": draw(st.sampled_from([0, 0, 30, 17])),
        "freq": freq,
        "nt": nt,
        "pre": draw(st.integers(0, 2)),
        "post": draw(st.integers(0, 2)),
        "levels": [100, 120, 137] if kind == "ml" else [300, 700, 925],
        "seed": draw(st.integers(0, 10**6)),
        "ps": [9.5e4, 1.03e5],
        "tcw": draw(st.booleans()),
        "slack": draw(st.sampled_from([0, 0, 1, m - 1])),
        "split": draw(st.sampled_from(["one", "day", "month"])),
        "procs": draw(st.sampled_from([2, 1, 3, 8, None])),
        "stale": draw(st.sampled_from([None, "same-day", "other-day", "garbage"])),
    }


def preprocess(env, at, d, name, slack, parallel=None):
    extra = {"preprocess_end_date": W.iso(at.req[-1] + dtm.timedelta(minutes=slack))}
    if parallel is not None:
        extra["parallel_preprocess"] = True
        if parallel:
            extra["parallel_processes"] = parallel
    cfg = case.write_json(f"{d}/{name}.yaml", raw.config(at, d + "/raw/" + raw.TEMPLATES[at.spec["split"]], f"{d}/{name}", d + "/out", **extra))
    case.must(env, case.fresh_cli(["preprocess", "era5", cfg], d), f"preprocess era5 ({name})")
    return raw.read_days(f"{d}/{name}")


def content(days):
    return {d.name: {k: v.tobytes() for k, v in d.vars.items()} for d in days}


def run(spec, env):
    at = raw.Atmos(spec)
    d = env.dir()
    raw.write_era5(at, d + "/raw", {"split": spec["split"], "ztype": "f8", "tunits": "seconds since 1900-01-01"})
    folder = d + "/serial"
    os.makedirs(folder)
    first = at.req[0].strftime("%Y-%m-%d")
    if spec["stale"] == "garbage":
        with open(f"{folder}/{first}_fluxes_storages.nc", "w") as f:
            f.write("left by an interrupted run")
    elif spec["stale"]:
        name = first if spec["stale"] == "same-day" else "1990-01-01"
        with open(f"{folder}/{name}_fluxes_storages.nc.txt", "w") as f:
            f.write("keep")
    days = preprocess(env, at, d, "serial", spec["slack"])
    want = {}
    for t in at.req:
        want.setdefault(t.strftime("%Y-%m-%d") + "_fluxes_storages.nc", []).append(t)
    have = sorted(x.name for x in days)
    if have != sorted(want):
        raise Violation(f"files {have} instead of {sorted(want)}")
    for day in days:
        times = [raw.key(t) for t in day.times]
        if times != [raw.key(t) for t in want[day.name]]:
            raise Violation(f"{day.name} holds times {times} instead of {[raw.key(t) for t in want[day.name]]}")
        if W.CALENDARS and day.calendar not in ALIAS[spec["cal"]]:
            raise Violation(f"{day.name} is on calendar {day.calendar}")
    raw.verify(env, at, days, rtol=6e-5, column=True)
    ref = content(days)
    env.label(spec["freq"], spec["cal"], f"days={min(4, len(days))}", f"procs={spec['procs']}")
    env.nontrivial = len(days) > 1
    if env.nontrivial or spec["seed"] % 3 == 0:
        par = content(preprocess(env, at, d, "parallel", spec["slack"], spec["procs"] or 0))
        if par != ref:
            bad = [k for k in sorted(set(par) | set(ref)) if par.get(k) != ref.get(k)]
            raise Violation(f"parallel preprocessing with {spec['procs']} processes gives other data in {bad}")
        again = content(preprocess(env, at, d, "serial", spec["slack"]))
        if again != ref:
            bad = [k for k in sorted(set(again) | set(ref)) if again.get(k) != ref.get(k)]
            raise Violation(f"preprocessing again gives other data in {bad}")
    if spec["stale"] in ("same-day", "other-day") and len(os.listdir(folder)) < len(want) + 1:
        raise Violation("preprocessing removed another file")


ALIAS = {
    "standard": ("standard", "gregorian"), "gregorian": ("standard", "gregorian"), "proleptic_gregorian": ("proleptic_gregorian",),
    "noleap": ("noleap", "365_day"), "365_day": ("noleap", "365_day"), "360_day": ("360_day",), "julian": ("julian",),
    "all_leap": ("all_leap", "366_day"), "366_day": ("all_leap", "366_day"),
}
