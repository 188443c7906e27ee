"""Tracked moisture travels at most one cell per time step."""

import numpy as np
from hypothesis import strategies as st

from wv import world as W
from wv.case import Skip, Violation

ID = "T16"
TECHNIQUE = "property-based testing: cell-distance bound; unused inputs replaced by NaN (non-interference)"
CASES = {"quick": 150, "thorough": 5000}
RULE = (
    "one case = one experiment with a small tagged area and strong winds, or one experiment with and without rubbish in "
    "records and cells it must not use; non-trivial when moisture moved (or was tagged, for the second kind)"
)


@st.composite
def strategy(draw, tier):
    mode = draw(st.sampled_from(["reach", "reach", "unused"]))
    spec = draw(
        W.worlds(
            max_steps=6 if tier == "quick" else 12, kinds=("mask",), min_steps=1,
            grid_kw={"ny": (6, 11), "nx": (7, 12)} if mode == "reach" else None,
        )
    )
    g = spec["grid"]
    spec["mode"] = mode
    if mode == "reach":
        w = np.zeros((g["ny"], g["nx"]))
        for _ in range(draw(st.integers(1, 2))):
            w[draw(st.integers(1, g["ny"] - 2)), draw(st.integers(0 if spec["periodic"] else 1, g["nx"] - 2))] = 1
        spec["region"] = {"kind": "mask", "w": w.tolist()}
        spec["outf"] = "30min"
        spec["dt"] = draw(st.sampled_from([1800, 3600, 600]))
        spec["off"] = 0
        spec["F"]["courant"] = draw(st.sampled_from([50.0, 3.0, 0.8, 0.3]))
        spec["tag"] = [-60, 10**5]
        for k in ("wet_frac", "evap_frac"):
            spec["F"][k] = 1.0
        for k in ("p_int", "e_int"):
            spec["F"][k] = max(spec["F"][k], 0.02)
    else:
        spec["before"], spec["after"] = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        if draw(st.booleans()):
            spec["domain"] = draw(W.domains(g, wrap=spec["periodic"] and draw(st.booleans())))
            if spec["domain"]:
                spec["periodic"] = False
        elif spec["before"] + spec["after"] == 0:
            spec["after"] = 1
        spec["rubbish"] = draw(st.sampled_from(["nan", "big", "zero"]))
    return spec


def grow(a, periodic):
    b = a.copy()
    b[1:] |= a[:-1]
    b[:-1] |= a[1:]
    b[:, 1:] |= a[:, :-1]
    b[:, :-1] |= a[:, 1:]
    if periodic:
        b[:, 0] |= a[:, -1]
        b[:, -1] |= a[:, 0]
    return b


def run(spec, env):
    w = W.World(spec)
    W.regime_labels(env, w)
    env.label(spec["mode"])
    (reach if spec["mode"] == "reach" else unused)(spec, env, w)


def reach(spec, env, w):
    outs = w.run(env)
    seeds = np.asarray(w.region["w"]) > 0
    moved = False
    n = 0
    area = seeds.copy()
    for (t, _, steps) in W.intervals(w):
        o = outs.by_key[W.tkey(t)]
        accumulated = area  # what is removed in a step was there before it
        for _ in steps:
            accumulated = area
            area = grow(area, w.periodic) | seeds
            n += 1
        for name in W.REST + ("losses", "gains"):
            x = o.vars[name][0] != 0
            if (x & ~area).any():
                i = np.argwhere(x & ~area)[0].tolist()
                raise Violation(f"{o.name}: {name} is {o.vars[name][0][tuple(i)]:.6g} at {i}, more than {n} cells away")
        names = ("p_track_upper", "p_track_lower") if w.direction == "forward" else ("e_track",)
        for name in names:
            x = o.vars[name][0] != 0
            if (x & ~accumulated).any():
                i = np.argwhere(x & ~accumulated)[0].tolist()
                raise Violation(f"{o.name}: {name} at {i}, more than {n - 1} cells away from tagged cells")
        moved |= bool((o.vars["s_track_lower_restart"][0][~seeds] != 0).any())
    env.nontrivial = moved


def unused(spec, env, w):
    if spec.get("domain"):
        rows, cols, _ = W.domain_cells(w, spec["domain"])
        if len(rows) < 3 or len(cols) < 3:
            raise Skip("domain too small")
    base = w.run(env)
    fill = {"nan": np.nan, "big": 1e6, "zero": 0.0}[spec["rubbish"]]
    v = W.padded(w, spec["before"], spec["after"], fill)
    if spec.get("domain"):
        inside = np.zeros((len(w.lat), len(w.lon)), bool)
        inside[np.ix_(rows, cols)] = True
        v.fields = {k: np.where(inside, a, np.float32(fill)) for k, a in v.fields.items()}
    other = v.run(env)
    env.label(spec["rubbish"], "domain" if spec.get("domain") else "records-only")
    W.same_files(env, other, base, "unused input changed")
    for key, o in base.by_key.items():
        for name in W.fields_of(w.direction):
            if not np.array_equal(o.vars[name], other.by_key[key].vars[name]):
                raise Violation(f"{o.name}: {name} depends on input that must not be used")
    env.nontrivial = W.tagged_anything(base, w.direction)
