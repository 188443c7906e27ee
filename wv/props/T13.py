"""Every output file documents and reproduces the run."""

import json
import re

import numpy as np
from hypothesis import strategies as st

from wv import case
from wv import world as W
from wv.case import Violation

ID = "T13"
TECHNIQUE = "property-based testing: metadata model; rerun of the embedded configuration (round trip)"
CASES = {"quick": 110, "thorough": 4000}
RULE = (
    "one case = one experiment; coordinates, bounds and attributes of every output are compared with a model and the "
    "configuration embedded in a generated output file is written out and run; non-trivial when moisture is tagged"
)
ASSUMPTIONS = ["input data and region file are still where the configuration says"]

ORIGINS = [
    {}, {"history": "created on 2020-01-01 by hand", "source": "stand-in reanalysis"}, {"source": "a model, r1i1p1f1", "title": "prepared"},
    {"history": "regridded; selected"},
]
# the words (any of each group) a field's long name has to use; the first layer its description speaks of
WORDS = {
    "e_track": (("evap",), ("track",)), "s_track_upper_restart": (("stor", "state"), ("upper",), ("track",)),
    "s_track_lower_restart": (("stor", "state"), ("lower",), ("track",)), "p_track_upper": (("precip",), ("upper",), ("track",)),
    "p_track_lower": (("precip",), ("lower",), ("track",)), "tagged_evap": (("evap",), ("tagg",)),
    "tagged_precip": (("precip",), ("tagg",)), "losses": (("lost", "loss"),), "gains": (("gain",),),
}
ACROSS = {"latitude": r"\b(left|right|east|west)", "longitude": r"\b(top|bottom|north|south|upper|lower)"}
DEGREES = {"latitude": r"degrees?_?(north|N)$", "longitude": r"degrees?_?(east|E)$"}


@st.composite
def strategy(draw, tier):
    spec = draw(W.worlds(max_steps=7 if tier == "quick" else 16, kinds=("bbox", "mask")))
    spec["pick"] = draw(st.integers(0, 20))
    if draw(st.integers(0, 2)) == 0:
        spec["domain"] = draw(W.domains(spec["grid"], wrap=spec["periodic"] and draw(st.integers(0, 3)) > 0))
        if spec["domain"]:
            spec["periodic"] = False
    spec["seconds"] = draw(st.sampled_from([0, 0, 0, 30]))
    spec["defaults"] = draw(st.booleans())
    spec["origin"] = draw(st.sampled_from(ORIGINS))
    spec["kvf"] = draw(st.sampled_from([3.0, 0.1, 1.0 / 3, 0.0]))
    return spec


def run(spec, env):
    w = W.World(spec)
    if spec["seconds"]:
        import datetime

        shift = datetime.timedelta(seconds=spec["seconds"])
        w.tag0, w.tag1 = w.tag0 + shift, w.tag1 + shift
        if w.track0 + shift * 3 <= w.track1 and not spec["rest"]:
            w.track1 = w.track1 - shift
            if w.direction == "forward":
                w.track0 = w.track0 + shift
    if not spec["defaults"]:
        w.extra = {"level_layer_boundary": 97, "pressure_boundary_factor": 0.7, "pressure_boundary_offset": 1234.5}
    W.regime_labels(env, w)
    env.label("domain" if spec.get("domain") else "full-grid", "seconds" if spec["seconds"] else "minutes")
    outs = w.run(env)
    written = w.config(w.inputs, w.output, w.region_cfg)
    g = spec["grid"]
    if spec.get("domain"):
        rows, cols, _ = W.domain_cells(w, spec["domain"])
    else:
        rows, cols = range(len(w.lat)), range(len(w.lon))
    for o in outs.files:
        for name, have, d in (("latitude", w.lat[list(rows)], g["dlat"]), ("longitude", w.lon[list(cols)], g["dlon"])):
            if o.vars[name].tolist() != have.tolist():
                raise Violation(f"{o.name}: {name} {o.vars[name].tolist()}, the data have {have.tolist()}")
            b = o.vars.get(name + "_bnds")
            if b is None or b.shape != (len(have), 2):
                raise Violation(f"{o.name}: no {name} bounds")
            c = have.astype(float)
            want = np.stack([c - d / 2, c + d / 2], 1)
            tol = 1e-9 + (3e-5 if have.dtype == np.float32 else 0)
            if np.abs(np.sort(b.astype(float), 1) - want).max() > tol * max(1, np.abs(c).max()):
                raise Violation(f"{o.name}: {name} bounds {b.tolist()}, expected {want.tolist()}")
            for n in (name, name + "_bnds"):
                if not re.match(DEGREES[name], str(o.attrs[n].get("units", ""))):
                    raise Violation(f"{o.name}: {n} has units {o.attrs[n].get('units')}")
                if name not in str(o.attrs[n].get("long_name", name)).lower():
                    raise Violation(f"{o.name}: {n} is called {o.attrs[n]['long_name']!r}")
                if re.search(ACROSS[name], str(o.attrs[n].get("description", "")), re.I):
                    raise Violation(f"{o.name}: {n} is described as {o.attrs[n]['description']!r}")
        env.check("units" in o.attrs["time"], f"{o.name}: time has no units")
        for name in W.fields_of(w.direction):
            if name not in o.vars:
                raise Violation(f"{o.name}: {name} is missing")
            if o.dims[name] != ("time", "latitude", "longitude"):
                raise Violation(f"{o.name}: {name} has dimensions {o.dims[name]}")
            for a in ("long_name", "units", "description"):
                if not str(o.attrs[name].get(a, "")).strip():
                    raise Violation(f"{o.name}: {name} has no {a}")
            words = o.attrs[name]["long_name"].lower()
            for group in WORDS[name]:
                if not any(x in words for x in group):
                    raise Violation(f"{o.name}: {name} is called {o.attrs[name]['long_name']!r}")
            layers = re.findall("upper|lower", o.attrs[name]["description"])
            if name[-5:] in ("upper", "lower") or name.endswith("_restart"):
                if layers and layers[0] not in name:
                    raise Violation(f"{o.name}: {name} is described as {o.attrs[name]['description']!r}")
            if "kg m-2" not in o.attrs[name]["units"]:
                raise Violation(f"{o.name}: {name} in {o.attrs[name]['units']}")
        for a in ("title", "history", "source", "references", "Conventions", "WAM2Layers_config"):
            if not str(o.gattrs.get(a, "")).strip():
                raise Violation(f"{o.name}: attribute {a} is missing")
        if w.direction not in o.gattrs["title"]:
            raise Violation(f"{o.name}: title {o.gattrs['title']!r} for a {w.direction} run")
        for a in ("history", "source"):
            if spec.get("origin", {}).get(a, "") not in o.gattrs[a]:
                raise Violation(f"{o.name}: {a} is {o.gattrs[a]!r}, that of the input data {spec['origin'][a]!r} is lost")
        embedded = json.loads(o.gattrs["WAM2Layers_config"])
        for k, v in written.items():
            if k not in embedded:
                raise Violation(f"{o.name}: setting {k} is missing in the embedded configuration")
            if not equivalent(k, v, embedded[k]):
                raise Violation(f"{o.name}: setting {k} is {embedded[k]!r} in the embedded configuration, {v!r} was used")
    if len(outs) == 0:
        return
    o = outs.files[spec["pick"] % len(outs)]
    again = env.dir("again")
    conf = json.loads(o.gattrs["WAM2Layers_config"])
    conf["output_folder"] = again
    rerun(env, again, conf)
    redo = W.Outputs(again)
    W.same_files(env, redo, outs, "rerun of the embedded configuration")
    for key, p in redo.by_key.items():
        q = outs.by_key[key]
        for name in W.fields_of(w.direction) + ("time", "time_bnds"):
            if not np.array_equal(p.vars[name], q.vars[name]):
                raise Violation(f"{p.name}: {name} differs when the embedded configuration is run")
    env.nontrivial = W.tagged_anything(outs, w.direction)


def rerun(env, folder, conf):
    d = env.dir("conf")
    path = case.write_json(d + "/rerun.yaml", conf)
    case.must(env, case.fresh_cli(["track", path], d), "track with the embedded configuration")


def equivalent(key, a, b):
    if key.endswith("_date"):
        return a == b or a + ":00" == b or a == b + ":00"
    if key.endswith("_frequency"):
        return W.FREQ.get(a.lower()) == W.FREQ.get(b.lower())
    if isinstance(a, (int, float)) and not isinstance(a, bool):
        return float(a) == float(b)
    if isinstance(a, list):
        return list(map(float, a)) == list(map(float, b))
    return a == b
