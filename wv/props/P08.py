"""Preprocessed files describe what they hold."""

import re

import netCDF4
import numpy as np
from hypothesis import strategies as st

from wv import case, raw
from wv.case import Violation

ID = "P08"
TECHNIQUE = "property-based testing: metadata model for every variable of the files written from generated raw data of all sources"
CASES = {"quick": 200, "thorough": 6000}
RULE = (
    "one case = one generated data set of one source, preprocessed; the metadata of every file are compared with a model; "
    "non-trivial when a file holds more than one record or the grid was reordered"
)
ASSUMPTIONS = ["names and descriptions are judged by the words they use", "no global attributes are required of files made from CMIP data"]

UNITS = {"fx": "kg m-1 s-1", "fy": "kg m-1 s-1", "s": "kg m-2", "evap": "kg m-2 s-1", "precip": "kg m-2 s-1"}
# words of long name and description
WORDS = {"fx": "eastward", "fy": "northward", "s": "moisture"}
DEGREES = {"latitude": r"degrees?_?(north|N)$", "longitude": r"degrees?_?(east|E)$"}
ACROSS = {"latitude": r"\b(left|right|east|west)", "longitude": r"\b(top|bottom|north|south|upper|lower)"}
SOURCE = {"era5": "ERA5", "arco": "ARCO-ERA5"}


@st.composite
def strategy(draw, tier):
    source = draw(st.sampled_from(["era5", "era5", "cmip", "arco"]))
    freq = "6h" if source == "cmip" else draw(st.sampled_from(["6h", "3h", "1h"]))
    spec = draw(
        raw.atmospheres(
            "pl" if source != "era5" or draw(st.booleans()) else "ml", freqs=(freq,), nt=(1, 4),
            cals=("proleptic_gregorian",) if source == "arco" else ("standard", "noleap", "360_day", "julian"),
            tcw={"arco": True, "cmip": False}.get(source),
        )
    )
    spec["source"] = source
    if source == "cmip":
        spec["start"] = spec["start"][:11] + "06:00"
        spec["pre"], spec["extra"] = 0, []
    spec["levels"] = spec["levels"][:3]
    if spec["kind"] == "pl":
        spec["levels"] = sorted(set(spec["levels"]) | {300})
    spec["lay"] = draw(raw.layouts(cmip=source != "era5"))
    spec["lay"]["ztype"] = "f8"
    return spec


def run(spec, env):
    at = raw.Atmos(spec)
    source = spec["source"]
    r, d = raw.run_source(env, at, source, spec["lay"])
    case.must(env, r, f"preprocess {source}")
    days = raw.read_days(d + "/pre")
    if sum(len(x.times) for x in days) != len(at.req):
        raise Violation(f"{sum(len(x.times) for x in days)} records written instead of {len(at.req)}")
    g = spec["grid"]
    for day in days:
        with netCDF4.Dataset(day.path) as nc:
            attrs = {k: {a: v.getncattr(a) for a in v.ncattrs()} for k, v in nc.variables.items()}
            top = {a: nc.getncattr(a) for a in nc.ncattrs()}
            if not nc.dimensions["time"].isunlimited():
                raise Violation(f"{day.name}: the time dimension cannot be appended to")
        for name in raw.OUT:
            fields(day, name, attrs.get(name))
        for name, step in (("latitude", g["dlat"]), ("longitude", g["dlon"])):
            a, b = attrs[name], attrs.get(name + "_bnds")
            if b is None:
                raise Violation(f"{day.name}: no bounds of {name}")
            for n, x in ((name, a), (name + "_bnds", b)):
                if name not in str(x.get("long_name", "")).lower() or not re.match(DEGREES[name], str(x.get("units", ""))):
                    raise Violation(f"{day.name}: {n} is described by {x}")
                if re.search(ACROSS[name], str(x.get("description", "")), re.I):
                    raise Violation(f"{day.name}: {n} is described as {x['description']!r}")
            bounds(day, name, step)
        if "since" not in str(attrs["time"].get("units", "")):
            raise Violation(f"{day.name}: time has units {attrs['time'].get('units')}")
        if source != "cmip":
            for a in ("title", "history", "source", "references", "Conventions"):
                if not str(top.get(a, "")).strip():
                    raise Violation(f"{day.name}: attribute {a} is missing")
            if SOURCE[source] not in top["source"]:
                raise Violation(f"{day.name}: made from {SOURCE[source]}, its source is {top['source']!r}")
            if not re.search(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ", top["history"]):
                raise Violation(f"{day.name}: no date of creation in its history {top['history']!r}")
    env.label(source, spec["kind"], f"records={max(len(x.times) for x in days)}")
    env.nontrivial = any(len(x.times) > 1 for x in days) or spec["lay"]["lat"] == "asc"


def fields(day, name, a):
    if a is None:
        raise Violation(f"{day.name}: {name} is missing")
    base, _, layer = name.partition("_")
    for x in ("long_name", "units", "description"):
        if not str(a.get(x, "")).strip():
            raise Violation(f"{day.name}: {name} has no {x}")
    if " ".join(a["units"].split()) != UNITS[base]:
        raise Violation(f"{day.name}: {name} is in {UNITS[base]}, its units say {a['units']!r}")
    for x in ("long_name", "description"):
        text = a[x].lower()
        if layer:
            other = {"upper": "lower", "lower": "upper"}[layer]
            if layer not in text or other in text or WORDS[base] not in text:
                raise Violation(f"{day.name}: {x} of {name} is {a[x]!r}")
            wrong = {"fx": "northward", "fy": "eastward"}.get(base)
            if wrong and wrong in text:
                raise Violation(f"{day.name}: {x} of {name} is {a[x]!r}")
        else:
            m = re.search(r"from the (\w+) (?:in)?to the (\w+)", text)
            want = ("surface", "atmosphere") if name == "evap" else ("atmosphere", "surface")
            if m and m.groups() != want:
                raise Violation(f"{day.name}: {x} of {name} is {a[x]!r}")


def bounds(day, name, step):
    b, c = day.vars[name + "_bnds"].astype(float), day.vars[name].astype(float)
    if b.shape != (len(c), 2):
        raise Violation(f"{day.name}: bounds of {name} have shape {b.shape}")
    gap = np.abs(np.abs(np.diff(c)) - step).max() > 1e-3
    if gap and len(c) < 4:
        return  # stored with a gap (across the antimeridian), too few columns to tell their distance
    lo, hi = b.min(axis=1), b.max(axis=1)
    if not (np.allclose(lo, c - step / 2, atol=1e-3) and np.allclose(hi, c + step / 2, atol=1e-3)):
        raise Violation(f"{day.name}: {name}_bnds {b.tolist()} do not enclose cells of {step} degrees around {c.tolist()}")
